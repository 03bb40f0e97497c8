-------------------------------- MODULE MC_auth --------------------------------
(* Proofs of authority over time: counters, ages, sessions, replays and       *)
(* re-keying, for every kind of authority (C04-C09).  The ghost keeps which   *)
(* proofs were accepted since the key was installed, and the session granted. *)
EXTENDS MC

Kinds == <<"k1", "r1", "ed", "eds", "k1s", "r1s", "pe", "pes">>
T == Kinds[Shard]
Key == CASE Plain(T) = "ed" -> "e2" [] Plain(T) = "k1" -> "s1" [] Plain(T) = "r1" -> "q1" [] OTHER -> "pA:f4"
Key2 == CASE Plain(T) = "ed" -> "e3" [] Plain(T) = "k1" -> "s2" [] Plain(T) = "r1" -> "q2" [] OTHER -> "pB:f8"
KL == IF Plain(T) = "ed" THEN "32" ELSE "33"
Mx == IF IsSession(T) THEN 5 ELSE 0

Nop == <<Pup("pA", "nop", "d1", "", 0)>>
Use(pf) == SignBy("A", 1, pf, Nop)
P(m, by, c, sl, v) == [m |-> m, by |-> by, c |-> c, sl |-> sl, v |-> v]
Secp(s) == LET m == Plain(T) IN
    Cat([c \in 1..3 |-> << Use(P(m, Key, c, 0, "ok")), Use(P(m, Key, c, s.slot, "ok")) >>])
    \o << Use(P(m, Key, 1, s.slot + 1, "ok")), Use(P(m, Key, 2, Max(1, s.slot - 60), "ok")),
          Use(P(m, Key, 2, Max(1, s.slot - 61), "ok")), Use(P(m, Key2, 1, s.slot, "ok")),
          Use(P(m, Key2, 2, s.slot, "ok")), Use(P(m, Key, 1, s.slot, "acc")), Use(P(m, Key, 1, s.slot, "data")),
          Use(P(m, Key, 1, s.slot, "xrole")), Use(P(m, Key, 2, s.slot, "xrole")) >>
SessBy(pf, key, dur) == [i |-> "sess", w |-> "A", r |-> 1, pay |-> "pay", key |-> key, dur |-> dur, fl |-> "", pf |-> pf]
Sessions(s) ==
    << Sess(s, "A", 1, "e4", 1), Sess(s, "A", 1, "e4", 5), Sess(s, "A", 1, "e4", 6), Sess(s, "A", 1, "e6", 3),
       Sess(s, "A", 1, "e4", 0), Sess(s, "A", 1, "e4", -1),
       SessBy(PfEd("e4"), "e6", 5), Use(PfEd("e4")), Use(PfEd("e6")),
       SignBy("A", 1, Pf(s, "A", 1, "sess"), Nop) >>
Other(s) ==
    << Use(PfEd("e2")), Use(PfEd("e3")), Use([PfEd("e2") EXCEPT !.v = "nosig"]),
       Use(P("pe", "pA:f4", 0, 0, "ok")), Use(P("pe", "pB:f8", 0, 0, "ok")), Use(P("pe", "pA:f4", 0, 0, "pref")),
       Use(P("pe", "pA:f4", 0, 0, "acc0")), Use(P("pe", "pA:f4", 0, 0, "acc1")), Use(P("pe", "pA:f4", 0, 0, "fut")) >>
AuthAlphabet(s, d) ==
    CASE d = 0 -> <<Create("A", AuEd("e1"), <<Act(All)>>)>>
      [] d = 1 -> <<Add(s, "A", 0, AuT(T, Key, Mx), <<Act(ProgAll), ActId(ReplaceAuth, 1)>>)>>
      [] OTHER ->
           (IF T \in {"k1", "r1"} THEN Secp(s) ELSE Other(s))
           \o (IF IsSession(T) THEN Sessions(s) ELSE <<Sess(s, "A", 1, "e4", 0)>>)
           \o (IF T \in {"pe", "pes"} THEN <<>>
               ELSE << Repl(s, "A", 0, 1, Key2, KL), Repl(s, "A", 0, 1, Key, KL), Repl(s, "A", 1, 1, Key2, KL) >>)
           \* passed on by another program
           \o << Via(Use(Pf(s, "A", 1, "sign"))), Via(Sess(s, "A", 1, "e4", 2)) >>
           \o (IF T \in {"k1", "r1"} THEN <<Slot(1), Slot(60), Slot(61)>> ELSE <<Slot(1), Slot(5)>>)

AuthGhost0(s) == [acc |-> <<>>, key |-> "", sk |-> "0", till |-> 0, ok |-> TRUE]
Role1(s) == RoleOf(s.sw["A"], 1)
AuthGhost(m, s, op, t) ==
    LET byMaster == IF T \in {"k1", "r1"} THEN op.pf.m = Plain(T) ELSE IsSession(T) /\ op.i = "sess"
        n == IF "pf" \in DOMAIN op /\ op.r = 1 /\ byMaster /\ Plain(T) \in {"k1", "r1"}
             THEN [m EXCEPT !.acc = Append(@, op.pf.c), !.ok = @ /\ op.pf.by = m.key /\ op.pf.sl <= s.slot
                                                                /\ s.slot - op.pf.sl <= 60]
             ELSE m
    IN CASE op.i = "add" -> [n EXCEPT !.key = op.au.k]
         [] op.i = "repl" -> [n EXCEPT !.key = op.nk, !.acc = <<>>, !.sk = "0", !.till = s.z0]
         [] op.i = "sess" -> [n EXCEPT !.sk = op.key, !.till = s.slot + op.dur,
                                       !.ok = @ /\ op.dur <= Mx /\ op.pf.by = m.key]
         [] op.i = "sign" -> [n EXCEPT !.ok = @ /\ IF IsSession(T) THEN op.pf.by = m.sk /\ s.slot <= m.till
                                                   ELSE op.pf.by = m.key]
         [] OTHER -> n
AuthInv(s, m) ==
    s.sw["A"].ex = "live" /\ HasRole(s.sw["A"], 1) =>
    LET au == Role1(s).au IN
    \* accepted proofs carried 1, 2, 3, ... : none twice, none out of order
    /\ m.ok
    /\ \A j \in DOMAIN m.acc : m.acc[j] = j
    /\ Plain(T) \in {"k1", "r1"} => au.odo = Len(m.acc)
    /\ IsSession(T) /\ m.sk # "0" => au.sk = m.sk /\ au.se = m.till
===============================================================================

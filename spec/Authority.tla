------------------------------ MODULE Authority ------------------------------
(* Proofs of authority.  A proof is described by pf = [m, by, c, sl, v]: the  *)
(* mechanism, the key it was made with, counter and slot it carries, and how  *)
(* (if at all) it was malformed, misdirected or made for something else.      *)
EXTENDS Programs

\* the transaction's account list (names), before the proof's own account
Metas0(op) ==
    LET sw == "sw:" \o op.w  wa == "wa:" \o op.w
        wa1 == IF op.fl = "wa1" THEN "x" ELSE wa
        sn == Get(op, "sn", op.w)
        st2 == "st:" \o sn \o ":" \o ToString(Get(op, "si", Get(op, "n", 0)))
        as2 == "as:" \o sn \o ":" \o ToString(Get(op, "ai", Get(op, "n", 0)))
        sys == IF op.fl = "nosys" THEN "x" ELSE "sys"
    IN
    CASE op.i = "create" -> <<sw, Get(op, "pay", "pay"), wa, sys>>
      [] op.i \in {"add", "rem", "upd", "sess", "claim"} -> <<sw, Get(op, "pay", "pay"), sys>>
      [] op.i = "repl" -> <<sw, wa1, sys>>
      \* the place of the system program is not looked at: op.k2, if given, is there instead
      [] op.i = "sign" -> <<sw, op.k1, Get(op, "k2", "sys")>> \o op.ls
      [] op.i = "ss1" -> <<sw, op.sub, Get(op, "k2", "sys")>> \o op.ls
      [] op.i = "ss2" -> <<sw, st2, as2, Get(op, "k2", "sys")>> \o op.ls
      [] op.i = "closetok" -> <<sw, wa1, op.dst, op.p>> \o op.ls
      [] op.i = "closeswig" -> <<sw, wa1, op.dst, sys>>
      [] op.i = "mig" -> <<sw, "x", Get(op, "pay", "pay"), IF op.fl = "wa" THEN "x" ELSE wa, sys>>
      [] op.i = "xassets" ->
           LET RECURSIVE T(_)
               T(s) == IF s = <<>> THEN <<>>
                       ELSE <<Head(s).f, Head(s).t, Head(s).p>> \o T(Tail(s))
           IN <<sw, wa1, Get(op, "pay", "pay"), sys>> \o T(op.tr)
      [] op.i = "cs1" -> <<sw, Get(op, "pay", "pay"), op.sub, sys>>
      [] op.i = "tg1" -> <<sw, Get(op, "pay", "pay"), op.sub>>
      [] op.i = "wd1" -> <<sw, Get(op, "pay", "pay"), op.sub, "x", op.k1, sys>>
                         \o (IF op.tok.f = "" THEN <<>> ELSE <<op.tok.f, op.tok.t, op.tok.p>>)
      [] op.i = "cs2" -> <<sw, Get(op, "pay", "pay"), "st:" \o op.w \o ":" \o ToString(op.n), as2, sys>>
      [] op.i = "tg2" -> <<sw, Get(op, "pay", "pay"), st2>>
      [] op.i = "wd2" -> <<sw, Get(op, "pay", "pay"), st2, as2, op.k1, "x", sys>>
                         \o (IF op.tok.f = "" THEN <<>> ELSE <<op.tok.f, op.tok.t, op.tok.p>>)

IsSignOp(op) == op.i \in {"sign", "ss1", "ss2"}
Outer(op) == IF IsSignOp(op) THEN ToSet(op.os) ELSE {}
Metas(op) ==
    LET m == Metas0(op)
        m2 == IF IsSignOp(op) THEN m \o SelectSeq(op.os, LAMBDA e : \A i \in DOMAIN m : m[i] # e)
              ELSE m
    IN IF op.i \in {"wd1", "wd2"} \* the proof's account has a fixed place
       THEN IF op.pf.m \notin {"ed", "r1", "pe"} THEN m2
            ELSE [m2 EXCEPT ![IF op.i = "wd1" THEN 4 ELSE 6] = IF op.pf.m = "ed" THEN op.pf.by ELSE "ixs"]
       ELSE IF "pf" \in DOMAIN op /\ op.pf.m = "ed" /\ ~(\E i \in DOMAIN m2 : m2[i] = op.pf.by)
       THEN Append(m2, op.pf.by) ELSE m2

\* transaction signers and writable accounts
TxSigners(op) ==
    IF "sg" \in DOMAIN op THEN op.sg   \* an inner call: what its caller signs for
    ELSE Outer(op)
    \cup (IF "pay" \in DOMAIN op /\ op.fl # "payns" THEN {op.pay} ELSE {})
    \cup (IF "pf" \in DOMAIN op /\ op.pf.m = "ed" /\ op.pf.v # "nosig" THEN {op.pf.by} ELSE {})
ExecNames == {"sys", "tok", "t22", "stk", "swig", "ixs", "r1p"} \cup Puppets
Writable(op) ==
    LET k2 == {Get(op, "k2", "sys")} \ ExecNames
        fixed == CASE op.i = "sign" -> {"sw:" \o op.w} \cup (IF op.k1 = "sys" THEN {} ELSE {op.k1})
                   [] op.i = "ss1" -> {"sw:" \o op.w, op.sub}
                   [] op.i = "ss2" -> {Metas0(op)[1], Metas0(op)[2], Metas0(op)[3]}
                   [] OTHER -> {}
        \* outer signers that are not listed are appended as writable signers
        m == ToSet(Metas0(op))
    IN fixed \cup k2 \cup ((ToSet(op.ls) \ ExecNames) \ ToSet(op.ro))
       \cup {n \in ToSet(op.os) : ~(n \in m)}

(* ------------------------------ proofs ------------------------------ *)
EffV(op) == IF op.fl = "trunc" THEN (CASE op.pf.v = "len2" -> "ok" [] op.pf.v = "len3" -> "ok2"
                                       [] OTHER -> "cut")
            ELSE op.pf.v

EdProof(op, key, v) ==
    /\ op.pf.m = "ed" /\ op.pf.by = key
    /\ v \in {"ok", "nosig"} /\ key \in TxSigners(op)

SecpFresh(st, op, au) ==
    LET sl == Max(op.pf.sl, st.z0) IN
    /\ op.pf.by = au.k /\ SubSeq(au.k, 1, 1) # "?" /\ op.pf.c = au.odo + 1
    /\ sl <= st.slot /\ st.slot - sl <= 60

\* a program-execution key "pA:f4": the program, and the data prefix it must be called with
PeProg(k) == IF Len(k) >= 4 THEN SubSeq(k, 1, 2) ELSE "?"
PePref(k) == IF Len(k) >= 4 THEN SubSeq(k, 4, Len(k)) ELSE "?"

\* "..2": the same call, pointed at explicitly by its place in the transaction
PeVariant(v) == CASE v = "acc02" -> "acc0" [] v = "acc12" -> "acc1" [] v = "swap2" -> "swap"
                  [] v = "accs2" -> "accs" [] v = "one2" -> "one" [] v = "none2" -> "none"
                  [] v = "prog2" -> "prog" [] v = "pref2" -> "pref" [] v = "preflast2" -> "preflast"
                  [] v = "shortpref2" -> "shortpref" [] v = "more2" -> "more" [] v = "exact2" -> "exact"
                  [] OTHER -> v

PeProof(op, au, v0) ==
    LET v == PeVariant(v0)
        bp == PeProg(op.pf.by)  bf == PePref(op.pf.by)  rf == PePref(au.k)
        prog == IF v = "prog" THEN (IF bp = "pA" THEN "pB" ELSE "pA") ELSE bp
        m == Metas0(op)
        shape == \/ v \in {"ok", "ok2", "exact", "more", "prog", "pref", "preflast", "shortpref"}
                 \/ v = "acc0" /\ m[1] = "x"
                 \/ v = "acc1" /\ m[2] = "x"
        pref == \/ rf = "f0"
                \/ v \notin {"pref", "preflast", "shortpref"}
                   /\ (rf = bf \/ (bf = "f0" /\ rf = "f4" /\ v # "exact"))
        \* replacing an authority: the instruction shown must spell out the replacement
        repl == Get(op.pf, "sp", "") = "" /\ v \in {"ok", "ok2", "exact", "more", "prog"} /\ rf \in {"f0", "fr"}
                /\ op.fl # "wa1"
    IN /\ op.pf.m = "pe" /\ prog = PeProg(au.k) /\ shape
       /\ IF op.i = "repl" THEN repl ELSE pref

\* how many accounts the instruction lists, where that matters
Listed(op) == Get(op, "na", 0)
\* a signature can cover at most 64 accounts
Coverable(op) == Listed(op) <= 64

R1Good == {"ok", "wa", "wanoorg", "wacross", "walong", "waj", "waext", "walongj", "far"}

MasterOk(st, op, au) ==
    LET v == EffV(op) IN
    CASE Plain(au.t) = "ed" -> EdProof(op, au.k, v)
      [] Plain(au.t) = "k1" -> op.pf.m = "k1" /\ v \in {"ok", "pre"} /\ Coverable(op) /\ SecpFresh(st, op, au)
      [] Plain(au.t) = "r1" -> op.pf.m = "r1" /\ v \in R1Good /\ Coverable(op) /\ SecpFresh(st, op, au)
      [] Plain(au.t) = "pe" -> PeProof(op, au, v)
      [] OTHER -> FALSE

SessionOk(st, op, au) ==
    LET v == EffV(op) IN
    /\ st.slot <= au.se
    /\ \/ EdProof(op, au.sk, v)
       \/ /\ au.t \in {"k1s", "r1s"} /\ v = "len2"
          /\ op.pf.m = "ed" /\ op.pf.by = au.sk

\* does op carry role's authority?  opening a session needs the master key
AuthOk(st, op, role) ==
    IF IsSession(role.au.t) /\ op.i # "sess" THEN SessionOk(st, op, role.au)
    ELSE MasterOk(st, op, role.au)
\* the authority after the proof was accepted
AuthUse(op, au) ==
    IF Plain(au.t) \in {"k1", "r1"} /\ (~IsSession(au.t) \/ op.i = "sess")
    THEN [au EXCEPT !.odo = @ + 1] ELSE au

\* authority data as submitted
AuFxOk(au) ==
    /\ au.t \in {"ed", "eds", "k1", "k1s", "r1", "r1s", "pe", "pes"}
    /\ \/ au.fx \in {"", "+comp"}
       \/ au.fx \in {"plen", "plen255", "swigprog"} /\ Plain(au.t) # "pe"
NewAuth(st, au) ==
    [t |-> au.t, k |-> au.k, odo |-> 0,
     mx |-> IF IsSession(au.t) THEN (IF au.mx < 0 THEN 2000000000 ELSE Min(au.mx, 2000000000)) ELSE 0,
     sk |-> IF IsSession(au.t) THEN au.sk ELSE "0",
     se |-> IF IsSession(au.t) THEN st.z0 ELSE 0]
=============================================================================

------------------------------- MODULE MC_batch -------------------------------
(* Every pair (every triple, one level deeper) of inner instructions from a   *)
(* pool, signed for by roles of every standing: which programs the wallet's   *)
(* signature reaches, what limited roles may touch, and that a batch runs in  *)
(* order or not at all (C10, C12, C14, C16, C17, C25, C26).                   *)
EXTENDS MC

Lists(s) ==
  << <<Act(ProgAll), ActA(SolLimit, "0", 9), ActA(TokLimit, "m1", 9), ActA(StakeLimit, "0", 9)>>,
     <<Act(ProgCurated), ActA(SolLimit, "0", 9), ActA(TokLimit, "m1", 9)>>,
     <<ActA(Program, "sys", 0), ActA(Program, "pA", 0), ActA(SolLimit, "0", 3)>>,
     <<ActA(Program, "tok", 0), ActA(TokLimit, "m1", 3), ActA(TokLimit, "m2", 3)>>,
     <<Act(All)>>, <<Act(AllButManage)>>,
     <<Act(ProgAll), Act(CloseAuth), ActR(s, TokRec, "m1", 9, 3), Act(StakeAll)>>,
     <<Act(ProgAll), [NoAct EXCEPT !.p = ProgScope, !.k = "c1", !.k2 = "pA", !.id = 1, !.l = 5, !.r = s.z0, !.s = <<2, 8, 16>>]>>,
     <<Act(CloseAuth), Act(Manage), Act(V2Create)>> >>

Pool(s) ==
  << Xfer("wa:A", "d1", 2), Xfer("wa:A", "d2", 8), Xfer("d1", "wa:A", 1), Xfer("wa:A", "wa:A", 1),
     TokX("tok", "t1", "u1", 2, "m1", "wa:A"), TokC("t22", "t4", "u4", 2, "m3", "wa:A"), TokX("tok", "t1", "t2", 4, "m1", "wa:A"),
     Ix("tclose", "tok", "t5", "d1", 0), Ix("tsetown", "tok", "t1", "d1", 0), Ix("tsetclose", "tok", "t2", "d1", 0),
     Ix("tappr", "tok", "t1", "d1", 3), Ix("burn", "tok", "t1", "", 2),
     Ix("assign", "tok", "wa:A", "", 0), Ix("alloc", "sys", "wa:A", "", 8),
     Ix("stkw", "stk", "z1", "d1", 2), Ix("stkauth", "stk", "z1", "d1", 0),
     Ix("stkcfg", "stk", "z1", "", 20), Ix("tcfg", "tok", "t1", "", 115),
     Pup("pA", "sig", "d1", "", 0), Pup("pB", "sig", "d1", "", 0), Pup("pB", "nop", "d1", "", 0), Pup("pA", "fail", "d1", "", 0),
     Pup("pA", "mv", "c1", "wa:A", 2), Pup("pA", "w", "c1", "", 57), Pup("pA", "o", "c1", "", 20),
     Pull("wa:A", "d1", 2), TPull("tok", "t1", "u1", 2, "wa:A"), Pup("pA", "sigl", "d1", "d2", 6) >>

\* a sequence of all sequences of n of them, as a depth-first expansion
RECURSIVE Words(_, _)
Words(p, n) == IF n = 0 THEN << <<>> >>
               ELSE LET w == Words(p, n - 1) IN Cat([j \in DOMAIN p |-> [k \in DOMAIN w |-> <<p[j]>> \o w[k]]])
BatchAlphabet(s, d) ==
    CASE d = 0 -> <<Create("A", AuEd("e1"), <<Act(All)>>)>>
      [] d = 1 -> <<Fund("wa:A", 60)>>
      [] d = 2 -> <<Add(s, "A", 0, AuEd("e2"), Lists(s)[Shard])>>
      [] OTHER -> LET w == Words(Pool(s), 1) \o Words(Pool(s), 2)
                  IN [j \in DOMAIN w |-> Sign(s, "A", 1, w[j])]
BatchGhost0(s) == 0
BatchGhost(m, s, op, t) == m
\* the wallet survives every batch of a role without full powers
BatchInv(s, m) == s.sw["A"].ex = "live" /\ Shard \notin {5, 6} =>
    /\ Owner(s, "wa:A") = "sys" /\ s.ac["wa:A"].n = 0 /\ s.ac["wa:A"].l >= Rent(0)
    /\ \A n \in {"t1", "t2", "t3", "t4"} : s.tk[n].au = "wa:A" /\ s.tk[n].de = "0" /\ s.tk[n].cl = "0"
    /\ \A n \in {"t1", "t2", "t3", "t4"} : s.tk[n].o = <<>>
    /\ s.sk["z1"].wd = "wa:A" /\ Fixed(s.sk["z1"].o) = <<>>
===============================================================================

------------------------------ MODULE MC_limits ------------------------------
(* Spending limits of every kind, alone and combined, against amounts around  *)
(* the limit and slots around the window (C10-C15).  The ghost keeps every    *)
(* accepted outflow of the limited role.                                       *)
EXTENDS MC

W == 3
\* the limited role's permissions: one list per shard, and what it spends
Lists(s) == <<
  <<"sol", <<ActA(SolLimit, "0", 5)>>>>,
  <<"sol", <<ActR(s, SolRec, "0", 5, W)>>>>,
  <<"sol", <<ActDest(s, SolDest, "d1", "0", 5, 0)>>>>,
  <<"sol", <<ActDest(s, SolRecDest, "d1", "0", 5, W)>>>>,
  <<"sol", <<ActA(SolLimit, "0", 5), ActDest(s, SolDest, "d1", "0", 4, 0)>>>>,
  <<"sol", <<ActR(s, SolRec, "0", 5, W), ActDest(s, SolRecDest, "d1", "0", 4, W), ActDest(s, SolDest, "d2", "0", 3, 0)>>>>,
  <<"tok", <<ActA(TokLimit, "m1", 5)>>>>,
  <<"tok", <<ActR(s, TokRec, "m1", 5, W)>>>>,
  <<"tok", <<ActDest(s, TokDest, "m1", "u1", 5, 0)>>>>,
  <<"tok", <<ActDest(s, TokRecDest, "m1", "u1", 5, W)>>>>,
  <<"tok", <<ActA(TokLimit, "m1", 5), ActDest(s, TokDest, "m1", "u1", 4, 0), ActR(s, TokRec, "m2", 2, W)>>>>,
  <<"tok", <<ActR(s, TokRec, "m1", 5, W), ActDest(s, TokRecDest, "m1", "u1", 4, W), ActDest(s, TokDest, "m1", "u2", 3, 0)>>>>,
  <<"stk", <<ActA(StakeLimit, "0", 5)>>>>,
  <<"stk", <<ActR(s, StakeRec, "0", 5, W)>>>>,
  <<"scp", <<[NoAct EXCEPT !.p = ProgScope, !.k = "c1", !.k2 = "pA", !.id = 1, !.l = 5, !.r = s.z0, !.s = <<2, 8, 16>>]>>>>,
  <<"scp", <<[NoAct EXCEPT !.p = ProgScope, !.k = "c1", !.k2 = "pA", !.id = 2, !.l = 5, !.w = W, !.r = s.z0, !.s = <<2, 8, 16>>]>>>> >>

Kind(s) == Lists(s)[Shard][1]
List(s) == Lists(s)[Shard][2]

\* how often a token account's balance can be shifted: by both transfer forms
Spends(s) ==
    LET x(t, a) == Xfer("wa:A", t, a)
        k(f, t, a) == TokX("tok", f, t, a, "m1", "wa:A")
        v == s.sc["c1"].v
    IN CASE Kind(s) = "sol" ->
              << <<x("d1", 1)>>, <<x("d1", 4)>>, <<x("d1", 5)>>, <<x("d1", 6)>>, <<x("d2", 3)>>,
                 <<x("d1", 2), x("d1", 3)>>, <<x("d1", 3), x("d2", 2)>>, <<x("d1", 3), x("d1", 3)>>,
                 <<Pup("pA", "mv", "c1", "wa:A", 3), x("d1", 6)>>, <<Pup("pA", "mv", "c1", "wa:A", 3), x("d1", 4)>>,
                 <<Pull("wa:A", "d1", 4)>>, <<x("d1", 3), Pull("wa:A", "d1", 1)>> >>
         [] Kind(s) = "tok" ->
              << <<k("t1", "u1", 1)>>, <<k("t1", "u1", 4)>>, <<k("t1", "u1", 5)>>, <<k("t1", "u1", 6)>>, <<k("t1", "u2", 3)>>,
                 <<k("t1", "u1", 2), k("t2", "u1", 2)>>, <<k("t1", "u1", 2), k("t1", "u2", 3)>>,
                 <<k("t1", "t2", 2)>>, <<TokC("tok", "t3", "u3", 2, "m2", "wa:A")>>,
                 <<Ix("burn", "tok", "t1", "", 1)>>, <<TokC("tok", "t1", "u1", 4, "m1", "wa:A")>>,
                 <<TPull("tok", "t1", "u1", 4, "wa:A")>>, <<k("t1", "u1", 3), TPull("tok", "t1", "u1", 1, "wa:A")>> >>
         [] Kind(s) = "stk" ->
              << <<Ix("stkw", "stk", "z1", "d1", 1)>>, <<Ix("stkw", "stk", "z1", "d1", 5)>>, <<Ix("stkw", "stk", "z1", "d1", 6)>>,
                 <<Ix("stksplit", "stk", "z1", "z4", 3)>>, <<Ix("stkset", "stk", "z1", "", 46)>>, <<Ix("stkset", "stk", "z1", "", 54)>>,
                 <<Ix("stkw", "stk", "z1", "d1", 2), Ix("stksplit", "stk", "z1", "z4", 3)>>,
                 <<Ix("stkset", "stk", "z1", "", 45), Ix("stkset", "stk", "z1", "", 50)>>,
                 <<Ix("stkauth", "stk", "z1", "d1", 0)>>, <<Ix("stkcfg", "stk", "z1", "", 90)>> >>
         [] OTHER ->
              << <<Pup("pA", "w", "c1", "", v - 1)>>, <<Pup("pA", "w", "c1", "", v - 4)>>, <<Pup("pA", "w", "c1", "", v - 5)>>,
                 <<Pup("pA", "w", "c1", "", v - 6)>>, <<Pup("pA", "w", "c1", "", v + 3)>>,
                 <<Pup("pA", "w", "c1", "", v - 3), Pup("pA", "w", "c1", "", v - 5)>>,
                 <<Pup("pA", "w", "c1", "", v + 2), Pup("pA", "w", "c1", "", v - 3)>>,
                 <<Pup("pA", "o", "c1", "", 20)>> >>

LimAlphabet(s, d) ==
    CASE d = 0 -> <<Create("A", AuEd("e1"), <<Act(All)>>)>>
      [] d = 1 -> <<Fund("wa:A", 60)>>
      [] d = 2 -> <<Add(s, "A", 0, AuEd("e2"), <<Act(ProgAll)>> \o List(s))>>
      [] OTHER -> LET x == Spends(s) IN [j \in DOMAIN x |-> Sign(s, "A", 1, x[j])]
                  \o <<Slot(1), Slot(W), Slot(W + 1)>>

\* what left by the measure of the role's limits: SOL, mint-1 tokens, stake, scope
Out(s, op, t) ==
    LET hist == Batch(<<s>>, SignEnv(op, op.k1, TRUE), op.ix, 1)
        f(x) == CASE Kind(s) = "sol" -> x.ac["wa:A"].l
                  [] Kind(s) = "tok" -> x.tk["t1"].a
                  [] Kind(s) = "stk" -> x.ac["z1"].l
                  [] OTHER -> x.sc["c1"].v
    IN SumDrops(hist, f, 1)
To(s, op, t, n) == t.ac[n].l - s.ac[n].l
LimGhost0(s) == <<>>
LimGhost(m, s, op, t) ==
    IF op.i # "sign" THEN m
    ELSE Append(m, [at |-> s.slot, out |-> Out(s, op, t),
                    d1 |-> To(s, op, t, "d1"), d2 |-> To(s, op, t, "d2"),
                    u1 |-> t.tk["u1"].a - s.tk["u1"].a, u2 |-> t.tk["u2"].a - s.tk["u2"].a])
RECURSIVE Sum(_, _, _, _)
Sum(m, f, from, to) == IF m = <<>> THEN 0
    ELSE (IF m[1].at >= from /\ m[1].at <= to THEN m[1][f] ELSE 0) + Sum(Tail(m), f, from, to)
\* over any stretch of W slots at most two windows' allowances
Within(m, f, max) == \A j \in DOMAIN m : Sum(m, f, m[j].at, m[j].at + W - 1) <= 2 * max

LimInv(s, m) ==
    LET big == 2000000000
        lo == -2000000000
    IN \A j \in DOMAIN List(s) : LET a == List(s)[j] IN
       CASE a.p \in {SolLimit, TokLimit, StakeLimit} -> Sum(m, "out", lo, big) <= a.a
         [] a.p = SolDest -> Sum(m, a.k, lo, big) <= a.a
         [] a.p = TokDest -> Sum(m, a.k2, lo, big) <= a.a
         [] a.p \in {SolRec, StakeRec} -> Within(m, "out", a.l)
         [] a.p = TokRec -> a.k # "m1" \/ Within(m, "out", a.l)
         [] a.p = SolRecDest -> Within(m, a.k, a.l)
         [] a.p = TokRecDest -> Within(m, a.k2, a.l)
         [] a.p = ProgScope /\ a.id = 1 -> Sum(m, "out", lo, big) <= a.l
         [] a.p = ProgScope /\ a.id = 2 -> Within(m, "out", a.l)
         [] OTHER -> TRUE
===============================================================================

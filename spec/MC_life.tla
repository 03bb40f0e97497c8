-------------------------------- MODULE MC_life --------------------------------
(* A wallet's life: creation, migration, rent claimer, closing of accounts    *)
(* and wallet, attempts to come back (C22-C24).                                *)
EXTENDS MC

Root(s) == << <<Act(All)>>, <<Act(Manage)>>, <<Act(All)>>, <<Act(Manage), Act(CloseAuth)>> >>[Shard]
Second == << <<Act(CloseAuth)>>, <<Act(CloseAuth)>>, <<Act(Manage)>>, <<ActA(SolLimit, "0", 5)>> >>[Shard]
By(s, r) ==
    << Claim(s, "A", r, "d1"), Claim(s, "A", r, "d2"), CloseTok(s, "A", r, "d1", <<"t5">>), CloseTok(s, "A", r, "d2", <<"s0">>),
       CloseTok(s, "A", r, "d1", <<"t5", "t1">>), CloseSwig(s, "A", r, "d1"), CloseSwig(s, "A", r, "d2"),
       Mig(s, "A", r), XAssets(s, "A", r, << >>), XAssets(s, "A", r, <<[f |-> "t6", t |-> "t1", p |-> "tok"]>>) >>
LifeAlphabet(s, d) ==
    CASE d = 0 -> << Create("A", AuEd("e1"), Root(s)), Create("A", AuEd("e1"), <<ActA(SolLimit, "0", 5)>>),
                     Create("A", AuEd("e1"), <<Act(AllButManage)>>), Fund("sw:A", 1), Fund("wa:A", 5) >>
      [] d = 1 -> << Add(s, "A", 0, AuEd("e2"), Second), Create("A", AuEd("e1"), Root(s)) >>
      [] OTHER ->
         By(s, 0) \o By(s, 1) \o
         << Create("A", AuEd("e3"), <<Act(All)>>), Fund("wa:A", 5), Fund("sw:A", 5),
            Sign(s, "A", 0, <<Xfer("wa:A", "d1", 5)>>), Add(s, "A", 0, AuEd("e4"), <<Act(Manage)>>), Rem(s, "A", 0, 1),
            UpdOp(s, "A", 0, 1, "add", <<Act(ProgAll)>>, <<>>, <<>>) >>
         \o (IF s.sw["A"].ex = "live" THEN <<[i |-> "old", w |-> "A"]>> ELSE <<>>)
LifeGhost0(s) == [claim |-> "0", closed |-> FALSE, made |-> FALSE, ok |-> TRUE]
LifeGhost(m, s, op, t) ==
    LET gone == m.closed => op.i \in {"fund"} IN
    CASE op.i = "create" -> [m EXCEPT !.made = TRUE, !.ok = @ /\ ~m.made /\ ~m.closed]
      [] op.i = "claim" -> [m EXCEPT !.claim = op.key, !.ok = @ /\ m.claim = "0" /\ gone]
      [] op.i = "closeswig" -> [m EXCEPT !.closed = TRUE, !.ok = @ /\ gone /\ (m.claim # "0" => op.dst = m.claim)]
      [] op.i = "closetok" -> [m EXCEPT !.ok = @ /\ gone /\ (m.claim # "0" => op.dst = m.claim)]
      [] OTHER -> [m EXCEPT !.ok = @ /\ gone]
LifeInv(s, m) ==
    /\ m.ok
    /\ m.closed => s.sw["A"].ex = "closed"
    /\ m.made /\ ~m.closed => s.sw["A"].ex = "live" /\ s.sw["A"].cl = m.claim /\ CanManage(s.sw["A"].ro[1].ac)
                              /\ s.ac["sw:A"].l >= Rent(s.ac["sw:A"].n) /\ s.ac["wa:A"].l >= Rent(0)
===============================================================================

------------------------------- MODULE MC_nest --------------------------------
(* Batches that call the wallet program itself: wallet A holds authority over  *)
(* wallet B, and over itself, through addresses it signs for (C04, C16, C25).  *)
EXTENDS MC

\* who holds the role used on wallet B, and on A
Key == <<"wa:A", "wa:A", "wa:A", "s1:A:1", "as:A:0">>[Shard]
\* what the caller may do
RoleActs == << <<Act(All)>>,
               <<Act(AllButManage)>>,
               <<Act(ProgAll), ActA(SolLimit, "0", 9), ActA(TokLimit, "m1", 9)>> >>
Caller == RoleActs[<<1, 2, 3, 3, 1>>[Shard]]

\* a batch of wallet A, with what its inner calls need signed outside
By(o, extra) == [o EXCEPT !.os = extra]
Out(s, ixs, extra) ==
    By(CASE Key = "wa:A" -> Sign(s, "A", 1, ixs)
         [] Key = "s1:A:1" -> Ss1(s, "A", 1, "s1:A:1", ixs)
         [] OTHER -> Ss2(s, "A", 1, 0, ixs), extra)
\* an inner call proved with key
As(op, key) == [op EXCEPT !.pf = PfEd(key)]
X == Key
Ops(s) ==
    LET pay == <<"pay">>
        add == As(Add(s, "B", 1, AuEd("e4"), <<Act(Manage)>>), X)
        grab == As(Add(s, "B", 1, AuEd(X), <<Act(All)>>), X)
        self == As(Add(s, "A", 2, AuEd("e4"), <<Act(All)>>), X)
        lift == As(UpdOp(s, "A", 2, 1, "rep", <<Act(All)>>, <<>>, <<>>), X)
        back == As(UpdOp(s, "A", 2, 1, "rep", Caller, <<>>, <<>>), X)
    IN << Out(s, <<Call(add)>>, pay),
          Out(s, <<Call(grab)>>, pay),
          Out(s, <<Call(As(add, "e3"))>>, pay),
          Out(s, <<Call(As(add, "e3"))>>, <<"pay", "e3">>),
          Out(s, <<Call(add), Call(As(Rem(s, "B", 1, 2), X))>>, pay),
          Out(s, <<Call(As(Rem(s, "B", 1, 0), X))>>, pay),
          Out(s, <<Call(As(Rem(s, "B", 1, 1), X))>>, pay),
          Out(s, <<Call(self)>>, pay),
          Out(s, <<Call(lift)>>, pay),
          Out(s, <<Call(lift), Xfer(X, "d1", 20), Call(back)>>, pay),
          Out(s, <<Call(As(Rem(s, "A", 2, 1), X))>>, pay),
          Out(s, <<Call(As(Rem(s, "A", 2, 1), X)), Xfer(X, "d1", 2)>>, pay),
          Out(s, <<Call(As(Rem(s, "A", 2, 0), X)), Xfer(X, "d1", 2)>>, pay),
          Out(s, <<Call(As(Sign(s, "B", 1, <<Xfer("wa:B", "d1", 2)>>), X)), Xfer(X, "d1", 1)>>, <<>>),
          Out(s, <<Call(As(Sign(s, "A", 2, <<Xfer("wa:A", "d1", 2)>>), X))>>, <<>>),
          Out(s, <<Call(As(XAssets(s, "B", 1, <<>>), X))>>, pay),
          Out(s, <<Call(As(CloseTok(s, "B", 1, "d1", <<"v5">>), X))>>, <<>>),
          Out(s, <<Call(As(CloseTok(s, "B", 1, X, <<"v5">>), X)), Xfer(X, "d1", 2)>>, <<>>),
          Out(s, <<Call(As(Claim(s, "B", 1, "d1"), X)), Call(As(CloseSwig(s, "B", 1, "d1"), X))>>, pay),
          Out(s, <<Call(As(CloseSwig(s, "A", 2, "d1"), X))>>, pay),
          Out(s, <<Call(As(Repl(s, "B", 1, 1, "e4", "64"), X))>>, pay),
          Out(s, <<Call(As(Repl(s, "A", 2, 1, "e4", "64"), X)), Xfer(X, "d1", 2)>>, pay),
          Out(s, <<Call(As(Cs2(s, "B", 1, 0), X))>>, pay),
          Out(s, <<Call(As(Tg2(s, "A", 2, 0, 0), X)), Xfer(X, "d1", 2)>>, pay),
          Out(s, <<Call(As(Tg1(s, "A", 2, 1, "s1:A:1", 0), X)), Xfer(X, "d1", 2)>>, pay),
          Out(s, <<Call(As(Wd2(s, "A", 2, 0, 3, NoTokX), X)), Xfer(X, "d1", 2)>>, pay),
          Out(s, <<Call(As(Wd1(s, "A", 2, "s1:A:1", 3, NoTokX), X))>>, pay),
          Out(s, <<Xfer(X, "d1", 2)>>, <<>>),
          Out(s, <<Xfer(X, "d1", 12)>>, <<>>),
          \* from outside nobody signs for X
          [As(Rem(s, "B", 1, 0), X) EXCEPT !.pf = [PfEd(X) EXCEPT !.v = "nosig"]] >>
NestAlphabet(s, d) ==
    CASE d = 0 -> <<Create("A", AuEd("e1"), <<Act(All)>>)>>
      [] d = 1 -> <<Create("B", AuEd("e3"), <<Act(All)>>)>>
      [] d = 2 -> <<Add(s, "A", 0, AuEd("e1"), Caller \o <<Act(SubAcct), Act(V2Create)>>)>>
      [] d = 3 -> <<Add(s, "A", 0, AuEd(X), <<Act(All)>>)>>
      [] d = 4 -> <<Add(s, "B", 0, AuEd(X), <<Act(All)>>)>>
      [] d = 5 -> <<Fund(X, 40)>>
      [] d = 6 -> CASE Key = "wa:A" -> <<Fund("wa:B", 40)>>
                    [] Key = "s1:A:1" -> <<Cs1(s, "A", 1, X)>>
                    [] OTHER -> <<Cs2(s, "A", 1, 0)>>
      [] OTHER -> Ops(s)

\* nothing an inner call does to the calling wallet outlives a limited batch, and what
\* leaves X in one is no more than its limit allows
NestGhost0(s) == TRUE
Lim(s) == IF s.sw["A"].ex = "live" /\ HasRole(s.sw["A"], 1)
          THEN LET ac == RoleOf(s.sw["A"], 1).ac IN
               IF ac # <<>> /\ ac[1].p = ProgAll THEN ac[2].a ELSE 1000
          ELSE 1000
NestGhost(m, s, op, t) ==
    m /\ (op.i = "sign" /\ Lim(s) < 1000 =>
            /\ Monus(s.ac[X].l, t.ac[X].l) <= Lim(s)
            /\ [j \in DOMAIN t.sw["A"].ro |-> [t.sw["A"].ro[j] EXCEPT !.ac = <<>>]]
               = [j \in DOMAIN s.sw["A"].ro |-> [s.sw["A"].ro[j] EXCEPT !.ac = <<>>]]
            /\ Lim(t) <= Lim(s))
NestInv(s, m) == m
===============================================================================

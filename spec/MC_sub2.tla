-------------------------------- MODULE MC_sub2 --------------------------------
(* Second-generation sub-accounts: scoped permissions over two of them, in    *)
(* every order (C21).  The ghost keeps what each creation granted.            *)
EXTENDS MC

Other(s) == << <<ActId(V2All, 0)>>, <<ActId(V2Sign, 0), ActId(V2Withdraw, 1)>>, <<ActId(V2Toggle, 0), ActId(V2Sign, 1)>>,
               <<Act(V2Create), Act(Manage)>>, <<Act(All)>>, <<Act(AllButManage), Act(ProgAll)>> >>[Shard]
Mv(n) == <<Xfer(AsName("A", n), "d2", 2)>>
Both(s, r) ==
    << Ss2(s, "A", r, 0, Mv(0)), Ss2(s, "A", r, 1, Mv(1)), Wd2(s, "A", r, 0, 3, NoTokX), Wd2(s, "A", r, 1, 3, NoTokX),
       Tg2(s, "A", r, 0, 0), Tg2(s, "A", r, 0, 1), Cs2(s, "A", r, 0), Cs2(s, "A", r, 1) >>
Sub2Alphabet(s, d) ==
    CASE d = 0 -> <<Create("A", AuEd("e1"), <<Act(All)>>)>>
      [] d = 1 -> <<Add(s, "A", 0, AuEd("e2"), <<ActA(SolLimit, "0", 5), Act(V2Create)>>)>>
      [] d = 2 -> <<Add(s, "A", 0, AuEd("e3"), Other(s))>>
      [] d = 3 -> <<Fund(AsName("A", 0), 150)>>
      [] OTHER ->
         Both(s, 1) \o Both(s, 2) \o
         << Ai(Ss2(s, "A", 1, 0, Mv(1)), 1), Si(Ss2(s, "A", 1, 0, Mv(1)), 1), Ai(Wd2(s, "A", 2, 1, 3, NoTokX), 0),
            Ss2(s, "A", 0, 0, Mv(0)), Wd2(s, "A", 1, 0, 3, [f |-> "a0t", t |-> "t1", p |-> "tok"]),
            Wd2(s, "A", 1, 0, 3, [f |-> "a1t", t |-> "t1", p |-> "tok"]), Wd2(s, "A", 1, 0, 3, [f |-> "a0t", t |-> "u1", p |-> "tok"]),
            UpdOp(s, "A", 0, 1, "add", <<ActId(V2Sign, 1)>>, <<>>, <<>>), UpdOp(s, "A", 0, 1, "delt", <<>>, <<V2All>>, <<>>),
            Rem(s, "A", 0, 1) >>
Sub2Ghost0(s) == [n |-> 0, on |-> <<>>, ok |-> TRUE]
Sub2Ghost(m, s, op, t) ==
    CASE op.i = "cs2" -> [m EXCEPT !.n = @ + 1, !.on = Append(@, TRUE), !.ok = @ /\ op.n = m.n]
      [] op.i = "tg2" -> [m EXCEPT !.on[op.n + 1] = op.en = 1]
      [] op.i \in {"ss2", "wd2"} -> [m EXCEPT !.ok = @ /\ op.n < m.n /\ m.on[op.n + 1] /\ Get(op, "ai", op.n) = op.n
                                                      /\ Get(op, "si", op.n) = op.n /\ op.r # 0]
      [] OTHER -> m
Sub2Inv(s, m) ==
    /\ m.ok
    /\ s.sw["A"].ex = "live" => s.sw["A"].sub = m.n
    /\ \A n \in 0..1 : s.s2[StName("A", n)].ex = (n < m.n)
    /\ \A n \in 0..1 : n < m.n => (s.s2[StName("A", n)].en = 1) = m.on[n + 1]
===============================================================================

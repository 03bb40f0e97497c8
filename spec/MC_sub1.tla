-------------------------------- MODULE MC_sub1 --------------------------------
(* First-generation sub-accounts: creation, use, switching off and on, and    *)
(* withdrawal by their role, another role and managers (C20).                 *)
EXTENDS MC

Other(s) == << <<Act(Manage)>>, <<Act(AllButManage)>>, <<Act(SubAcct)>>, <<Act(SubAcct), Act(Manage)>>,
               <<Act(ProgAll), ActA(SolLimit, "0", 9)>> >>[Shard]
Sub1Alphabet(s, d) ==
    CASE d = 0 -> <<Create("A", AuEd("e1"), <<Act(All)>>)>>
      [] d = 1 -> <<Add(s, "A", 0, AuEd("e2"), <<ActA(SolLimit, "0", 5), Act(SubAcct), Act(ProgAll)>>)>>
      [] d = 2 -> <<Add(s, "A", 0, AuEd("e3"), Other(s))>>
      [] d = 3 -> <<Fund("s1:A:1", 200)>>
      [] OTHER ->
         << Cs1(s, "A", 1, "s1:A:1"), Cs1(s, "A", 2, "s1:A:2"), Cs1(s, "A", 2, "s1:A:1"), Cs1(s, "A", 0, "s1:A:1"),
            Tg1(s, "A", 1, 1, "s1:A:1", 0), Tg1(s, "A", 0, 1, "s1:A:1", 0), Tg1(s, "A", 0, 1, "s1:A:1", 1),
            Tg1(s, "A", 2, 1, "s1:A:1", 0), Tg1(s, "A", 2, 2, "s1:A:1", 1), Tg1(s, "A", 2, 2, "s1:A:2", 0),
            Wd1(s, "A", 1, "s1:A:1", 20, NoTokX), Wd1(s, "A", 0, "s1:A:1", 20, NoTokX), Wd1(s, "A", 2, "s1:A:1", 20, NoTokX),
            Wd1(s, "A", 2, "s1:A:2", 0, NoTokX), Wd1(s, "A", 1, "s1:A:1", 72, NoTokX),
            Wd1(s, "A", 1, "s1:A:1", 3, [f |-> "s1t", t |-> "t1", p |-> "tok"]),
            Wd1(s, "A", 1, "s1:A:1", 3, [f |-> "s1t", t |-> "u1", p |-> "tok"]),
            Wd1(s, "A", 2, "s1:A:1", 3, [f |-> "s1t", t |-> "t1", p |-> "tok"]),
            Ss1(s, "A", 1, "s1:A:1", <<Xfer("s1:A:1", "d2", 4)>>), Ss1(s, "A", 1, "s1:A:1", <<TokX("tok", "s1t", "u1", 2, "m1", "s1:A:1")>>),
            Ss1(s, "A", 0, "s1:A:1", <<Xfer("s1:A:1", "d2", 4)>>), Ss1(s, "A", 2, "s1:A:1", <<Xfer("s1:A:1", "d2", 4)>>),
            Ss1(s, "A", 1, "s1:A:2", <<>>), Ss1(s, "A", 1, "wa:A", <<Xfer("wa:A", "d2", 1)>>),
            UpdOp(s, "A", 0, 1, "deli", <<>>, <<>>, <<0>>), UpdOp(s, "A", 0, 1, "delt", <<>>, <<SubAcct>>, <<>>),
            UpdOp(s, "A", 0, 1, "add", <<Act(SubAcct)>>, <<>>, <<>>), Rem(s, "A", 0, 1),
            Add(s, "A", 0, AuEd("e4"), <<Act(SubAcct)>>) >>
\* for role 1's sub-account: is it there, on, and has its switch been thrown
Sub1Ghost0(s) == [made |-> FALSE, on |-> FALSE, used |-> TRUE, had |-> TRUE]
Sub1Ghost(m, s, op, t) ==
    CASE op.i = "cs1" /\ op.r = 1 -> [m EXCEPT !.made = TRUE, !.on = TRUE]
      [] op.i = "tg1" /\ op.tr = 1 -> [m EXCEPT !.on = op.en = 1, !.used = @ /\ op.r \in {0, 1, 2}]
      [] op.i = "ss1" -> [m EXCEPT !.used = @ /\ op.r = 1 /\ m.made /\ (m.on \/ ~m.had)]
      [] op.i \in {"upd", "rem"} -> [m EXCEPT !.had = FALSE]
      [] OTHER -> m
Sub1Inv(s, m) ==
    /\ m.used
    \* nothing but role 1 acting, and withdrawals into the wallet, empties s1:A:1
    /\ m.had /\ m.made /\ HasRole(s.sw["A"], 1) =>
         \E j \in DOMAIN RoleOf(s.sw["A"], 1).ac : LET a == RoleOf(s.sw["A"], 1).ac[j] IN
             a.p = SubAcct /\ a.k = "s1:A:1" /\ (a.id = 1) = m.on
    /\ s.sw["A"].ex = "live" => s.ac["s1:A:1"].l + s.ac["wa:A"].l + s.ac["d2"].l <= 128 + 128 + 200 + 500 + 200
===============================================================================

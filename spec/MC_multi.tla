------------------------------- MODULE MC_multi -------------------------------
(* Two wallets with the same keys, each used with the other's accounts (C27). *)
EXTENDS MC

Au == << AuEd("e1"), AuT("k1", "s1", 0), AuT("r1", "q1", 0) >>[Shard]
On(s, w, o) ==
    << Sign(s, w, 1, <<Xfer("wa:" \o w, "d1", 2)>>), Sign(s, w, 1, <<Xfer("wa:" \o o, "d1", 2)>>),
       [Sign(s, w, 1, <<Xfer("wa:" \o o, "d1", 2)>>) EXCEPT !.k1 = "wa:" \o o],
       [Sign(s, w, 0, <<Xfer("wa:" \o o, "d1", 2)>>) EXCEPT !.k1 = "wa:" \o o],
       Sign(s, w, 0, <<TokX("tok", "t1", "v1", 3, "m1", "wa:" \o w)>>), Sign(s, w, 1, <<TokX("tok", "v1", "t1", 3, "m1", "wa:" \o w)>>),
       Sign(s, w, 0, <<Xfer("wa:" \o w, "wa:" \o o, 3)>>),
       CloseTok(s, w, 0, "d1", <<"t5">>), CloseTok(s, w, 0, "d1", <<"v5">>),
       Cs1(s, w, 1, "s1:" \o w \o ":1"), Cs1(s, w, 1, "s1:" \o o \o ":1"),
       Ss1(s, w, 1, "s1:A:1", <<>>), Tg1(s, w, 0, 1, "s1:A:1", 0), Wd1(s, w, 0, "s1:A:1", 1, NoTokX),
       Wd1(s, w, 1, "s1:" \o w \o ":1", 2, [f |-> "s1t", t |-> "v1", p |-> "tok"]),
       Cs2(s, w, 1, 0), Ss2(s, w, 1, 0, <<>>), Sn(Ss2(s, w, 1, 0, <<>>), o), Sn(Tg2(s, w, 1, 0, 0), o), Tg2(s, w, 1, 0, 0),
       Sn(Wd2(s, w, 1, 0, 0, NoTokX), o), Wd2(s, w, 1, 0, 2, [f |-> "a0t", t |-> "v1", p |-> "tok"]),
       Wd2(s, w, 1, 0, 2, [f |-> "a0t", t |-> "t1", p |-> "tok"]),
       Claim(s, w, 0, "d1"), Claim(s, w, 0, "wa:" \o o), XAssets(s, w, 0, <<>>), Rem(s, w, 0, 1), CloseSwig(s, w, 0, "d1"),
       [Add(s, w, 0, AuEd("e4"), <<Act(Manage)>>) EXCEPT !.pf = Pf(s, o, 0, "add")] >>
Acts == <<ActA(SolLimit, "0", 5), Act(SubAcct), Act(V2Create), Act(ProgAll), ActA(TokLimit, "m1", 9)>>
MultiAlphabet(s, d) ==
    CASE d = 0 -> <<Create("A", Au, <<Act(All)>>)>>
      [] d = 1 -> <<Create("B", Au, <<Act(All)>>)>>
      [] d = 2 -> <<Add(s, "A", 0, Au, Acts)>>
      [] d = 3 -> <<Add(s, "B", 0, Au, Acts)>>
      [] d = 4 -> <<Fund("wa:A", 50)>>
      [] d = 5 -> <<Fund("wa:B", 50)>>
      [] OTHER -> On(s, "A", "B") \o On(s, "B", "A")
\* what an operation on one wallet may change of the other: its balances upwards
Mine(s, w) == [sw |-> s.sw[w], l |-> s.ac["wa:" \o w].l, r |-> s.ac["sw:" \o w].l,
               t |-> {<<n, s.tk[n].a>> : n \in {x \in {"t1", "v1", "t5", "v5", "a0t", "s1t"} : s.tk[x].au = "wa:" \o w}},
               s2 |-> {s.s2[n] : n \in {StName(w, 0), StName(w, 1)}}]
MultiGhost0(s) == TRUE
MultiGhost(m, s, op, t) ==
    LET o == IF op.i \in {"fund", "slot"} THEN "" ELSE IF op.w = "A" THEN "B" ELSE "A" IN
    m /\ (o # "" => LET a == Mine(s, o)  b == Mine(t, o) IN
            /\ b.sw = a.sw /\ b.r = a.r /\ b.s2 = a.s2 /\ b.l >= a.l
            /\ \A x \in a.t : \E y \in b.t : y[1] = x[1] /\ y[2] >= x[2])
MultiInv(s, m) == m
===============================================================================

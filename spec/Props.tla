-------------------------------- MODULE Props --------------------------------
(* The listed properties, as conditions on one accepted step st --op--> s2.   *)
(* They are checked on every step of the bounded models and on every accepted *)
(* step recorded from the real program.  Broken(st, op, s2) names the          *)
(* properties the step breaks; Blame(...) names the properties a disagreement  *)
(* between the specification and the code concerns.                            *)
EXTENDS Swig

Ids(s) == [i \in DOMAIN s.ro |-> s.ro[i].id]
HasRole(s, id) == RoleIdx(s.ro, id) # 0
RoleOf(s, id) == s.ro[RoleIdx(s.ro, id)]
Free(ac) == Has(ac, All) \/ Has(ac, AllButManage)
NamesOf(f) == DOMAIN f \ {"_"}
Lam(st, n) == Acct(st, n).l

SumOver(S, f) == FX!FoldFunctionOnSet(LAMBDA x, n : n + x, 0, f, S)

\* how much of permission p was used when it became q
UsedUp(p, q) ==
    IF p.p = ProgScope THEN IF q.r # p.r THEN q.a ELSE q.a - p.a
    ELSE IF q.r # p.r THEN p.l - q.a ELSE p.a - q.a
Recurring == {SolRec, TokRec, StakeRec, SolRecDest, TokRecDest}

\* who a signing instruction signs for, and the states its batch goes through
Signs(op) == CASE op.i = "sign" -> op.k1 [] op.i = "ss1" -> op.sub [] OTHER -> Metas0(op)[3]
BatchOf(st, op) == HistOf(st, op, Signs(op), op.i # "sign" \/ (op.k1 = WaName(op) /\ st.sw[op.w].v2))
\* the inner calls of the wallet program
Inside(op) == IF IsSignOp(op) THEN {j \in DOMAIN op.ix : op.ix[j].i = "swig"} ELSE {}
InsideOp(op, j) == InnerOp(SignEnv(op, Signs(op), TRUE), op.ix[j])
Ghosts(st, op) == op.i \in WalletOps \cup {"create"}

(* ------------------------------- roles ------------------------------- *)
P01(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w]
        touched == IF op.i \in {"rem", "upd", "repl"} THEN {op.tgt} ELSE IF op.i = "tg1" THEN {op.tr} ELSE {}
    IN t.ex = "live" /\ s.ex = "live" =>
       \A id \in ToSet(Ids(s)) \ touched :
           /\ HasRole(t, id)
           /\ LET a == RoleOf(s, id)  b == RoleOf(t, id) IN
              IF id = Get(op, "r", -1)
              THEN /\ [b.au EXCEPT !.odo = 0, !.sk = "0", !.se = 0] = [a.au EXCEPT !.odo = 0, !.sk = "0", !.se = 0]
                   /\ op.i \in {"add", "rem", "upd", "repl", "sess", "claim", "mig", "xassets"} => b.ac = a.ac
              ELSE b = a
P02(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w] IN
    t.ex = "live" =>
    IF s.ex # "live" THEN op.i = "create" /\ Ids(t) = <<0>> /\ t.ctr = 1
    ELSE /\ t.ctr = s.ctr + (IF op.i = "add" THEN 1 ELSE 0)
         /\ Ids(t) = (CASE op.i = "add" -> Append(Ids(s), s.ctr)
                        [] op.i = "rem" -> SelectSeq(Ids(s), LAMBDA i : i # op.tgt)
                        [] OTHER -> Ids(s))
         /\ HasRole(t, 0)
         /\ \A id \in ToSet(Ids(s)) : HasRole(t, id) =>
              (RoleOf(s, id).au.k # RoleOf(t, id).au.k \/ RoleOf(s, id).au.t # RoleOf(t, id).au.t
               => op.i = "repl" /\ op.tgt = id)

\* the permissions with usage and progress blanked out
Shape(ac) == [j \in DOMAIN ac |-> [ac[j] EXCEPT !.a = IF @ = 0 THEN 0 ELSE 1, !.r = 0]]
Managing == {Manage, CloseAuth, ReplaceAuth}
P03(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w] IN
    s.ex = "live" /\ t.ex = "live" /\ HasRole(s, op.r) =>
    LET ac == RoleOf(s, op.r).ac IN
    /\ op.i \in {"add", "upd"} => CanManage(ac)
    /\ op.i = "rem" => CanManage(ac) \/ op.tgt = op.r
    \* a purely managing role moves nothing of the wallet and runs no sub-account
    /\ (ac # <<>> /\ \A j \in DOMAIN ac : ac[j].p \in Managing) =>
         /\ op.i \notin {"ss1", "ss2", "cs1", "cs2", "wd2", "tg2"}
         /\ op.i = "sign" => /\ \A j \in DOMAIN op.ix : ~UsesSigner(op.ix[j], op.k1)
                             /\ Lam(s2, WaName(op)) >= Lam(st, WaName(op))
                             /\ \A n \in NamesOf(st.tk) : st.tk[n].au = WaName(op) /\ n \in ToSet(Metas(op)) => s2.tk[n].a >= st.tk[n].a

P04(st, op) == Acting(st, op) # 0
P05(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w] IN
    s.ex = "live" /\ HasRole(s, op.r) =>
    LET au == RoleOf(s, op.r).au IN
    IF Plain(au.t) \in {"k1", "r1"} /\ (~IsSession(au.t) \/ op.i = "sess")
    THEN /\ op.pf.c = au.odo + 1 /\ Max(op.pf.sl, st.z0) <= st.slot /\ st.slot - Max(op.pf.sl, st.z0) <= 60
         /\ t.ex = "live" /\ HasRole(t, op.r) /\ ~(op.i = "repl" /\ op.tgt = op.r)
            => RoleOf(t, op.r).au.odo = au.odo + 1
    ELSE t.ex = "live" /\ HasRole(t, op.r) /\ ~(op.i = "repl" /\ op.tgt = op.r) => RoleOf(t, op.r).au.odo = au.odo
P06(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w] IN
    s.ex = "live" /\ HasRole(s, op.r) =>
    LET au == RoleOf(s, op.r).au IN
    /\ IsSession(au.t) /\ op.i # "sess" => SessionOk(st, op, au)
    /\ op.i = "sess" => /\ IsSession(au.t) /\ MasterOk(st, op, au)
                        /\ (IF op.dur = -1 THEN 2000000000 ELSE op.dur) <= au.mx
                        /\ t.ex = "live" /\ HasRole(t, op.r) =>
                             /\ RoleOf(t, op.r).au.sk = op.key
                             /\ RoleOf(t, op.r).au.se = Min(st.slot + op.dur, 2000000000)
    /\ t.ex = "live" => \A id \in ToSet(Ids(s)) : HasRole(t, id) /\ ~(op.i = "sess" /\ op.r = id) /\ ~(op.i = "repl" /\ op.tgt = id) =>
          /\ RoleOf(t, id).au.sk = RoleOf(s, id).au.sk /\ RoleOf(t, id).au.se = RoleOf(s, id).au.se
          /\ RoleOf(t, id).au.mx = RoleOf(s, id).au.mx
ByMaster(st, op, t) ==
    LET s == st.sw[op.w] IN
    s.ex = "live" /\ HasRole(s, op.r) /\ Plain(RoleOf(s, op.r).au.t) = t
    /\ (~IsSession(RoleOf(s, op.r).au.t) \/ op.i = "sess")
P07(st, op) == ByMaster(st, op, "r1") =>
    op.pf.m = "r1" /\ op.pf.by = RoleOf(st.sw[op.w], op.r).au.k /\ EffV(op) \in R1Good
P08(st, op) == ByMaster(st, op, "pe") => PeProof(op, RoleOf(st.sw[op.w], op.r).au, EffV(op))
P09(st, op, s2) ==
    op.i = "repl" /\ s2.sw[op.w].ex = "live" =>
    LET s == st.sw[op.w]  t == s2.sw[op.w]  ac == RoleOf(s, op.r).ac IN
    /\ CanManage(ac) \/ HasId(ac, ReplaceAuth, op.tgt)
    /\ HasRole(s, op.tgt) /\ HasRole(t, op.tgt)
    /\ LET a == RoleOf(s, op.tgt)  b == RoleOf(t, op.tgt) IN
       /\ b.ac = a.ac /\ b.au.t = a.au.t /\ b.au.mx = a.au.mx
       /\ b.au.k = op.nk /\ b.au.k # a.au.k /\ b.au.odo = 0 /\ b.au.sk = "0"
       /\ IsSession(a.au.t) => b.au.se = st.z0
       /\ NewKeyOk(a.au.t, op.kl)

(* ------------------------------- spending ------------------------------- *)
\* a signing role whose spending is limited, before and after
LimitedSign(st, op, s2) ==
    /\ op.i = "sign" /\ st.sw[op.w].ex = "live" /\ HasRole(st.sw[op.w], op.r)
    /\ ~Free(RoleOf(st.sw[op.w], op.r).ac)
    /\ s2.sw[op.w].ex = "live" /\ HasRole(s2.sw[op.w], op.r)
PreAc(st, op) == RoleOf(st.sw[op.w], op.r).ac
PostAc(s2, op) == RoleOf(s2.sw[op.w], op.r).ac
SameShape(st, op, s2) == Shape(PreAc(st, op)) = Shape(PostAc(s2, op)) \/ Len(PreAc(st, op)) = Len(PostAc(s2, op))
UsedIn(st, op, s2, J) ==
    LET a == PreAc(st, op)  b == PostAc(s2, op)  u == [j \in DOMAIN a \cap DOMAIN b |-> UsedUp(a[j], b[j])] IN
    SumOver({j \in DOMAIN a : a[j].p \in J /\ j \in DOMAIN b}, u)
UsedInK(st, op, s2, J, k) ==
    LET a == PreAc(st, op)  b == PostAc(s2, op)  u == [j \in DOMAIN a \cap DOMAIN b |-> UsedUp(a[j], b[j])] IN
    SumOver({j \in DOMAIN a : a[j].p \in J /\ a[j].k = k /\ j \in DOMAIN b}, u)

SolOut(st, op, s2) == Monus(Lam(st, WaName(op)), Lam(s2, WaName(op)))
Ours(st, op, n) == st.tk[n].au \in {WaName(op), SwName(op)} /\ st.tk[n].st # 0
TokOut(st, op, s2, m) ==
    LET d == [n \in NamesOf(st.tk) |-> Monus(st.tk[n].a, IF n \in DOMAIN s2.tk THEN s2.tk[n].a ELSE 0)] IN
    SumOver({n \in NamesOf(st.tk) : Ours(st, op, n) /\ st.tk[n].m = m}, d)
OurMints(st, op) == {st.tk[n].m : n \in {x \in NamesOf(st.tk) : Ours(st, op, x)}}

P10(st, op, s2) == LimitedSign(st, op, s2) =>
    LET d == SolOut(st, op, s2)  a == PreAc(st, op)  b == PostAc(s2, op) IN
    /\ \A j \in DOMAIN a : a[j].p = SolLimit /\ j \in DOMAIN b => b[j].a <= a[j].a /\ b[j].a >= 0 /\ b[j].p = SolLimit
    /\ d > 0 => /\ \E j \in DOMAIN a : a[j].p \in {SolLimit, SolRec, SolDest, SolRecDest}
                /\ (Has(a, SolLimit) \/ Has(a, SolRec)) => UsedIn(st, op, s2, {SolLimit, SolRec}) >= d
P11(st, op, s2) == LimitedSign(st, op, s2) =>
    LET a == PreAc(st, op)  b == PostAc(s2, op) IN
    \A j \in DOMAIN a : j \in DOMAIN b =>
      /\ a[j].p \in Recurring =>
           /\ b[j].l = a[j].l /\ b[j].w = a[j].w /\ b[j].a >= 0
           /\ \/ b[j].r = a[j].r /\ b[j].a <= a[j].a
              \/ b[j].r # a[j].r /\ st.slot - a[j].r > a[j].w /\ b[j].a <= a[j].l
                 /\ b[j].r <= st.slot
      /\ a[j].p = ProgScope /\ a[j].id = 2 =>
           /\ b[j].l = a[j].l /\ b[j].w = a[j].w
           /\ \/ b[j].r = a[j].r /\ b[j].a >= a[j].a
              \/ b[j].r # a[j].r /\ st.slot - a[j].r > a[j].w /\ b[j].r <= st.slot
P12(st, op, s2) == LimitedSign(st, op, s2) =>
    \A m \in OurMints(st, op) :
        LET d == TokOut(st, op, s2, m) IN
        d > 0 => /\ \E j \in DOMAIN PreAc(st, op) : LET x == PreAc(st, op)[j] IN x.p \in {TokLimit, TokRec, TokDest, TokRecDest} /\ x.k = m
                 /\ (HasK(PreAc(st, op), TokLimit, m) \/ HasK(PreAc(st, op), TokRec, m))
                    => UsedInK(st, op, s2, {TokLimit, TokRec}, m) >= d
P13(st, op, s2) == LimitedSign(st, op, s2) =>
    LET a == PreAc(st, op) IN
    /\ HasSolDest(a) /\ SolOut(st, op, s2) > 0 => UsedIn(st, op, s2, {SolDest, SolRecDest}) >= SolOut(st, op, s2)
    /\ \A m \in OurMints(st, op) : HasTokDest(a, m) /\ TokOut(st, op, s2, m) > 0 =>
          UsedInK(st, op, s2, {TokDest, TokRecDest}, m) >= TokOut(st, op, s2, m)
    \* nothing listed as sent by the wallet goes to a destination without a limit
    /\ HasSolDest(a) => \A i \in DOMAIN op.ix : LET x == op.ix[i] IN
          x.i = "xfer" /\ x.f = WaName(op) /\ x.a > 0 /\ SolOut(st, op, s2) > 0
          => \E j \in DOMAIN a : a[j].p \in {SolDest, SolRecDest} /\ a[j].k = x.t
P14(st, op, s2) == LimitedSign(st, op, s2) =>
    LET a == PreAc(st, op)
        mine == {z \in NamesOf(st.sk) : st.sk[z].wd \in {WaName(op), SwName(op)} /\ Owner(st, z) = "stk"}
        chg == [z \in NamesOf(st.sk) |-> LET dd == s2.sk[z].d - st.sk[z].d IN Max(Monus(Lam(st, z), Lam(s2, z)), IF Lam(s2, z) = 0 THEN 0 ELSE IF dd < 0 THEN -dd ELSE dd)]
    IN /\ \A z \in mine : Lam(s2, z) = 0 \/ (s2.sk[z].wd = st.sk[z].wd /\ Fixed(s2.sk[z].o) = Fixed(st.sk[z].o) /\ Owner(s2, z) = "stk")
       /\ Has(a, StakeAll) \/ SumOver(mine, chg) <= UsedIn(st, op, s2, {StakeLimit, StakeRec})
P15(st, op, s2) == LimitedSign(st, op, s2) =>
    LET a == PreAc(st, op)  b == PostAc(s2, op) IN
    \A c \in NamesOf(st.sc) :
        FirstScope(st.sw[op.w].ro, c).p # 0 /\ st.sc[c].v # -1 /\ s2.sc[c] # st.sc[c] =>
        LET j == FirstK(a, ProgScope, c, 1) IN
        /\ j # 0 /\ s2.sc[c].o = st.sc[c].o /\ Owner(s2, c) = Owner(st, c)
        /\ j # 0 /\ j \in DOMAIN b => (a[j].id = 0 \/ Monus(st.sc[c].v, s2.sc[c].v) <= UsedUp(a[j], b[j]))
        /\ j # 0 /\ j \in DOMAIN b /\ a[j].id # 0 => b[j].a <= b[j].l
P16(st, op, s2) ==
    /\ LimitedSign(st, op, s2) => \A i \in DOMAIN op.ix : MayCall(PreAc(st, op), op.k1, op.ix[i])
    /\ IsSignOp(op) =>
         \A i \in DOMAIN op.ix : LET x == op.ix[i] IN
           x.i = "pup" /\ x.k \in {"ws", "sig", "sig2", "sigl", "pull", "tpull"} =>
             x.au \in TxSigners(op) \cup (CASE op.i = "sign" -> {WaName(op)} [] op.i = "ss1" -> {op.sub} [] OTHER -> {Metas0(op)[3]})
P17(st, op, s2) == LimitedSign(st, op, s2) =>
    LET wa == WaName(op)  a == PreAc(st, op) IN
    /\ Owner(s2, wa) = Owner(st, wa) /\ s2.ac[wa].n = st.ac[wa].n
    /\ op.k1 = wa => Owner(s2, wa) = "sys" /\ s2.ac[wa].l >= Rent(0)
    /\ s2.ac[SwName(op)].o = "swig" /\ s2.ac[SwName(op)].n = st.ac[SwName(op)].n
    /\ LET s == st.sw[op.w]  t == s2.sw[op.w] IN
       [t EXCEPT !.ro = <<>>] = [s EXCEPT !.ro = <<>>] /\ Ids(t) = Ids(s)
       /\ Len(PostAc(s2, op)) = Len(a) /\ \A j \in DOMAIN a : j \in DOMAIN PostAc(s2, op) =>
            [PostAc(s2, op)[j] EXCEPT !.a = 0, !.r = 0] = [a[j] EXCEPT !.a = 0, !.r = 0]
    /\ \A n \in NamesOf(st.tk) : Ours(st, op, n) /\ n \in ToSet(Metas(op)) =>
         IF Owner(s2, n) \in {"tok", "t22"}
         THEN [s2.tk[n] EXCEPT !.a = 0] = [st.tk[n] EXCEPT !.a = 0] /\ Owner(s2, n) = Owner(st, n)
         ELSE Has(a, CloseAuth)
P18(st, op, s2) ==
    op.i = "upd" /\ s2.sw[op.w].ex = "live" /\ HasRole(st.sw[op.w], op.tgt) /\ HasRole(s2.sw[op.w], op.tgt) =>
    LET new == UpdList(st, op, RoleOf(st.sw[op.w], op.tgt).ac) IN
    new # <<>> /\ RoleOf(s2.sw[op.w], op.tgt).ac = new
P19(st, op, s2) ==
    LET t == s2.sw[op.w] IN
    /\ op.i \in {"create", "add"} /\ t.ex = "live" /\ t.ro # <<>> =>
         /\ AuFxOk(op.au) /\ ActsOk(st, op)
         /\ LET r == t.ro[Len(t.ro)] IN
            r.au = NewAuth(st, op.au) /\ r.ac = [j \in DOMAIN op.acts |-> StoredAct(op.acts[j])]
    /\ op.i = "upd" /\ op.m \in {"rep", "rep0", "add"} => ActsOk(st, op)

(* ------------------------------ sub-accounts ------------------------------ *)
SubNames(st) == {n \in DOMAIN st.ac : Len(n) > 3 /\ SubSeq(n, 1, 3) \in {"s1:", "as:"}}
P20(st, op, s2) ==
    LET s == st.sw[op.w]
        ac == IF s.ex = "live" /\ HasRole(s, op.r) THEN RoleOf(s, op.r).ac ELSE <<>>
        mine(sub) == \E j \in DOMAIN ac : ac[j].p = SubAcct /\ ac[j].k = sub /\ ac[j].id = 1 /\ ac[j].k2 = op.w /\ ac[j].r = op.r
    IN
    /\ op.i = "ss1" => mine(op.sub)
    /\ op.i = "tg1" => op.r = op.tr \/ CanManage(ac)
    /\ op.i = "wd1" => (mine(op.sub) \/ CanManage(ac))
    /\ op.i = "cs1" => op.sub = S1Name(op.w, op.r) /\ HasK(ac, SubAcct, "0")
         /\ Owner(st, op.sub) = "sys"
    /\ \A n \in SubNames(st) : Lam(s2, n) < Lam(st, n) =>
         CASE SubSeq(n, 1, 3) = "s1:" -> op.i \in {"ss1", "wd1"} /\ op.sub = n
           [] OTHER -> op.i \in {"ss2", "wd2"} /\ n \in ToSet(Metas0(op))
    /\ op.i = "wd1" => \A n \in NamesOf(s2.tk) : s2.tk[n].a > st.tk[n].a => s2.tk[n].au = WaName(op)
    /\ op.i = "wd1" => \A n \in DOMAIN s2.ac : s2.ac[n].l > st.ac[n].l => n = WaName(op)
    \* only creation and switching touch the sub-account permissions
    /\ s.ex = "live" /\ s2.sw[op.w].ex = "live" /\ op.i \notin {"cs1", "tg1", "upd", "rem", "add"} =>
         \A id \in ToSet(Ids(s)) : HasRole(s2.sw[op.w], id) =>
            LET q == RoleOf(s2.sw[op.w], id).ac  p == RoleOf(s, id).ac IN
            \A j \in DOMAIN p : p[j].p = SubAcct /\ j \in DOMAIN q => q[j] = p[j]
P21(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w]
        ac == IF s.ex = "live" /\ HasRole(s, op.r) THEN RoleOf(s, op.r).ac ELSE <<>>
        v2op == op.i \in {"ss2", "wd2", "tg2"}
        stn == IF v2op THEN (IF op.i = "ss2" THEN Metas0(op)[2] ELSE Metas0(op)[3]) ELSE ""
        q == IF stn \in DOMAIN st.s2 THEN st.s2[stn] ELSE NoSub2
    IN
    /\ v2op => /\ May2(ac, CASE op.i = "ss2" -> V2Sign [] op.i = "wd2" -> V2Withdraw [] OTHER -> V2Toggle, op.n)
               /\ q.ex /\ q.sw = op.w /\ q.id = op.n
    /\ op.i \in {"ss2", "wd2"} => q.en = 1 /\ q.as = Metas0(op)[IF op.i = "ss2" THEN 3 ELSE 4]
    /\ op.i = "cs2" => /\ Has(ac, V2Create) /\ op.n = s.sub /\ t.sub = s.sub + 1
                       /\ LET n == StName(op.w, op.n) IN
                          n \in DOMAIN st.s2 => ~st.s2[n].ex
                          /\ s2.s2[n] = [ex |-> TRUE, en |-> 1, id |-> op.n, sw |-> op.w, as |-> AsName(op.w, op.n)]
                       /\ t.ex = "live" => LET b == RoleOf(t, op.r).ac IN
                            b = IF HasId(ac, V2All, op.n) THEN ac ELSE Append(ac, [NoAct EXCEPT !.p = V2All, !.id = op.n])
    /\ op.i \notin {"cs2", "create", "mig"} /\ t.ex = "live" => t.sub = s.sub
    /\ \A n \in NamesOf(st.s2) : s2.s2[n] # st.s2[n] =>
         \/ op.i = "cs2" /\ n = StName(op.w, op.n)
         \/ op.i = "tg2" /\ n = stn /\ s2.s2[n] = [st.s2[n] EXCEPT !.en = op.en]
    /\ op.i = "wd2" => \A n \in NamesOf(s2.tk) : s2.tk[n].a > st.tk[n].a => s2.tk[n].au = WaName(op)
    /\ op.i = "wd2" => \A n \in DOMAIN s2.ac : s2.ac[n].l > st.ac[n].l => n = WaName(op)

(* -------------------------------- life cycle -------------------------------- *)
P22(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w] IN
    /\ op.i = "create" => /\ s.ex = "none" /\ Owner(st, SwName(op)) = "sys" /\ Acct(st, SwName(op)).n = 0
                          /\ t.ex = "live" /\ t.v2 /\ t.sub = 0 /\ t.cl = "0" /\ Len(t.ro) = 1 /\ CanManage(t.ro[1].ac)
    /\ op.i # "create" /\ t.ex = "live" => s.ex = "live"
    /\ op.i = "mig" => /\ ~s.v2 /\ t.v2 /\ CanManage(RoleOf(s, op.r).ac)
                       /\ [t EXCEPT !.v2 = FALSE, !.ro = <<>>, !.sub = 0] = [s EXCEPT !.v2 = FALSE, !.ro = <<>>, !.sub = 0]
    /\ op.i # "mig" /\ s.ex = "live" /\ t.ex = "live" => t.v2 = s.v2
P23(st, op, s2) ==
    LET s == st.sw[op.w]  t == s2.sw[op.w]
        ac == IF s.ex = "live" /\ HasRole(s, op.r) THEN RoleOf(s, op.r).ac ELSE <<>>
    IN
    /\ s.ex = "closed" => t.ex = "closed"
    /\ s.ex = "live" /\ t.ex # "live" => op.i = "closeswig" /\ t.ex = "closed"
    /\ op.i \in {"closeswig", "closetok"} => MayClose(ac) /\ (s.cl # "0" => op.dst = s.cl)
    /\ op.i = "closeswig" => /\ st.ac[SwName(op)].l <= Rent(st.ac[SwName(op)].n) /\ Lam(st, WaName(op)) <= Rent(0)
                             /\ \A n \in DOMAIN st.ac : s2.ac[n].l > st.ac[n].l => n = op.dst
    /\ op.i = "closetok" =>
         /\ \A n \in NamesOf(st.tk) : s2.tk[n] # st.tk[n] =>
              Ours(st, op, n) /\ st.tk[n].a = 0 /\ n \in ToSet(op.ls) /\ Lam(s2, n) = 0
         /\ \A n \in DOMAIN st.ac : s2.ac[n].l > st.ac[n].l => n = op.dst
    /\ s.ex = "live" /\ t.ex = "live" =>
         /\ s.cl # "0" => t.cl = s.cl
         /\ s.cl = "0" /\ t.cl # "0" => op.i = "claim" /\ t.cl = op.key /\ (Has(ac, All) \/ Has(ac, CloseAuth))
P24(st, op, s2) ==
    LET sw == SwName(op)  wa == WaName(op)
        up == {n \in DOMAIN st.ac : s2.ac[n].l > st.ac[n].l}
        down == {n \in DOMAIN st.ac : s2.ac[n].l < st.ac[n].l}
        pay == Get(op, "pay", "pay")
        l0 == [n \in DOMAIN st.ac |-> st.ac[n].l]  l1 == [n \in DOMAIN st.ac |-> s2.ac[n].l]
    IN
    /\ SumOver(up \cup down, l1) <= SumOver(up \cup down, l0)
    /\ op.i \in {"create", "add", "claim", "mig", "cs1", "cs2"} => down \subseteq {pay}
    /\ op.i \in {"create", "mig", "add", "claim"} => up \subseteq {sw, wa}
    /\ op.i \in {"sess", "repl", "tg1", "tg2"} => up = {} /\ down = {}
    /\ op.i \in {"rem", "upd"} => (up \cup down) \subseteq {sw, pay}
    /\ op.i \in {"create", "add", "claim"} /\ pay # sw /\ s2.sw[op.w].ex = "live" =>
         s2.ac[sw].l = Max(st.ac[sw].l, Rent(s2.ac[sw].n))
    /\ op.i = "rem" /\ pay # sw => s2.ac[sw].l = st.ac[sw].l - (st.ac[sw].n - s2.ac[sw].n)
    /\ op.i = "xassets" => down \subseteq {sw} /\ up \subseteq {wa}
    /\ s2.sw[op.w].ex = "live" /\ ~IsSignOp(op) => s2.ac[sw].l >= Rent(s2.ac[sw].n)
    /\ LimitedSign(st, op, s2) /\ op.k1 = wa => s2.ac[wa].l >= Rent(0)
    /\ IsSignOp(op) /\ op.i # "sign" => LET a == IF op.i = "ss1" THEN op.sub ELSE Metas0(op)[3] IN
         a \in DOMAIN s2.ac => s2.ac[a].l >= Rent(s2.ac[a].n)
P25(st, op, s2) ==
    IsSignOp(op) =>
    LET hist == BatchOf(st, op) IN /\ FlOk(st, op) /\ ~Get(op, "via", FALSE)
       /\ hist # <<>>
       /\ hist # <<>> => LET z == Sweep(st, hist[Len(hist)]) IN
            z.ac = s2.ac /\ z.tk = s2.tk /\ z.sk = s2.sk /\ z.sc = s2.sc /\ z.s2 = s2.s2
    \* no signing instruction is run from inside another
    /\ \A j \in Inside(op) : ~IsSignOp(op.ix[j].op)
P26(st, op) == st.sw[op.w].ex = "live" => ClassOk(st, op)
P27(st, op, s2) ==
    LET other == {w \in DOMAIN st.sw : w # op.w /\ \A j \in Inside(op) : op.ix[j].op.w # w} IN
    /\ \A w \in other : /\ s2.sw[w] = st.sw[w]
                        /\ Lam(s2, "sw:" \o w) >= Lam(st, "sw:" \o w)
                        /\ Lam(s2, "wa:" \o w) >= Lam(st, "wa:" \o w)
                        /\ Owner(s2, "sw:" \o w) = Owner(st, "sw:" \o w) /\ Owner(s2, "wa:" \o w) = Owner(st, "wa:" \o w)
    /\ \A n \in NamesOf(st.s2) : st.s2[n].sw \in other => s2.s2[n] = st.s2[n]
    /\ \A n \in NamesOf(st.tk) : st.tk[n].au \in {"wa:" \o w : w \in other} /\ st.tk[n].de # WaName(op) =>
         s2.tk[n].au = st.tk[n].au /\ s2.tk[n].a >= st.tk[n].a
    /\ op.i \in {"ss2", "wd2", "tg2"} => Get(op, "sn", op.w) = op.w
P28(s2) == \A w \in DOMAIN s2.sw : s2.sw[w].rd = ""

Bad(s2, op) == s2.sw[op.w].bad # ""

\* the properties an accepted wallet step breaks by itself
Broken1(st, op, s2) ==
    IF ~Ghosts(st, op) THEN {}
    ELSE (IF P28(s2) THEN {} ELSE {"C28"})
    \cup (IF op.i = "create" \/ P04(st, op) THEN {} ELSE {"C04"})
    \cup (IF P27(st, op, s2) THEN {} ELSE {"C27"})
    \cup (IF Bad(s2, op) THEN {"C01"} ELSE
            (IF P02(st, op, s2) THEN {} ELSE {"C02"})
       \cup (IF P19(st, op, s2) THEN {} ELSE {"C19"})
       \cup (IF P22(st, op, s2) THEN {} ELSE {"C22"})
       \cup (IF op.i # "create" /\ Live(st, op.w) /\ HasRole(st.sw[op.w], op.r) THEN
               (IF P01(st, op, s2) THEN {} ELSE {"C01"})
          \cup (IF P03(st, op, s2) THEN {} ELSE {"C03"})
          \cup (IF P05(st, op, s2) THEN {} ELSE {"C05"})
          \cup (IF P06(st, op, s2) THEN {} ELSE {"C06"})
          \cup (IF P07(st, op) THEN {} ELSE {"C07"})
          \cup (IF P08(st, op) THEN {} ELSE {"C08"})
          \cup (IF P09(st, op, s2) THEN {} ELSE {"C09"})
          \cup (IF P10(st, op, s2) THEN {} ELSE {"C10"})
          \cup (IF P11(st, op, s2) THEN {} ELSE {"C11"})
          \cup (IF P12(st, op, s2) THEN {} ELSE {"C12"})
          \cup (IF P13(st, op, s2) THEN {} ELSE {"C13"})
          \cup (IF P14(st, op, s2) THEN {} ELSE {"C14"})
          \cup (IF P15(st, op, s2) THEN {} ELSE {"C15"})
          \cup (IF P16(st, op, s2) THEN {} ELSE {"C16"})
          \cup (IF P17(st, op, s2) THEN {} ELSE {"C17"})
          \cup (IF P18(st, op, s2) THEN {} ELSE {"C18"})
          \cup (IF P20(st, op, s2) THEN {} ELSE {"C20"})
          \cup (IF P21(st, op, s2) THEN {} ELSE {"C21"})
          \cup (IF P23(st, op, s2) THEN {} ELSE {"C23"})
          \cup (IF P24(st, op, s2) THEN {} ELSE {"C24"})
          \cup (IF P25(st, op, s2) THEN {} ELSE {"C25"})
          \cup (IF P26(st, op) THEN {} ELSE {"C26"})
             ELSE IF op.i = "create" /\ ~P24(st, op, s2) THEN {"C24"} ELSE {}))

\* with calls of the wallet program inside: each of them is a step of its own, the
\* rest is about what the batch may do as a whole
BrokenN(st, op, s2) ==
    LET i == Acting(st, op)
        hist == IF i = 0 THEN <<>> ELSE BatchOf(Used(st, op, i), op)
        limited == LimitedSign(st, op, s2)
    IN (IF i = 0 THEN {"C04"} ELSE {})
       \cup (IF P28(s2) THEN {} ELSE {"C28"})
       \cup (IF P27(st, op, s2) THEN {} ELSE {"C27"})
       \cup (IF Bad(s2, op) THEN {"C01"} ELSE {})
       \cup (IF i = 0 \/ hist = <<>> \/ ~P25(st, op, s2) THEN {"C25"} ELSE {})
       \cup (IF i # 0 /\ limited THEN
               (IF P10(st, op, s2) THEN {} ELSE {"C10"})
          \cup (IF P11(st, op, s2) THEN {} ELSE {"C11"})
          \cup (IF P12(st, op, s2) THEN {} ELSE {"C12"})
          \cup (IF P13(st, op, s2) THEN {} ELSE {"C13"})
          \cup (IF P14(st, op, s2) THEN {} ELSE {"C14"})
          \cup (IF P15(st, op, s2) THEN {} ELSE {"C15"})
          \cup (IF P16(st, op, s2) THEN {} ELSE {"C16"})
          \cup (IF P17(st, op, s2) THEN {} ELSE {"C17"}) ELSE {})
       \cup (IF Live(st, op.w) /\ HasRole(st.sw[op.w], op.r) /\ ~Free(RoleOf(st.sw[op.w], op.r).ac) /\ op.i = "sign"
                /\ s2.sw[op.w].ex # "live" THEN {"C17"} ELSE {})
       \cup (IF hist = <<>> THEN {}
             ELSE UNION {Broken1(hist[j], InsideOp(op, j), hist[j + 1]) : j \in Inside(op)})
Broken(st, op, s2) == IF Inside(op) = {} THEN Broken1(st, op, s2) ELSE BrokenN(st, op, s2)

(* ------------------------- disagreements and properties ------------------------- *)
ByOp(op) ==
    CASE op.i = "create" -> {"C19", "C22"}
      [] op.i = "add" -> {"C01", "C03", "C19"}
      [] op.i = "rem" -> {"C01", "C02", "C03"}
      [] op.i = "upd" -> {"C03", "C18", "C19"}
      [] op.i = "sess" -> {"C06"}
      [] op.i = "repl" -> {"C09"}
      [] op.i \in {"claim", "closetok", "closeswig"} -> {"C23"}
      [] op.i = "mig" -> {"C22"}
      [] op.i = "xassets" -> {"C24"}
      [] op.i \in {"cs1", "ss1", "tg1", "wd1"} -> {"C20"}
      [] op.i \in {"cs2", "ss2", "tg2", "wd2"} -> {"C21"}
      [] OTHER -> {}
AuthOf(role, op) ==
    (IF Plain(role.au.t) \in {"k1", "r1"} /\ (~IsSession(role.au.t) \/ op.i = "sess") THEN {"C05"} ELSE {})
    \cup (IF IsSession(role.au.t) \/ op.i = "sess" THEN {"C06"} ELSE {})
    \cup (IF Plain(role.au.t) = "r1" THEN {"C07"} ELSE {})
    \cup (IF Plain(role.au.t) = "pe" THEN {"C08"} ELSE {})
\* properties about the permissions a role holds
ByPerm(p) ==
    CASE p = SolLimit -> {"C10"} [] p \in {SolRec, TokRec, StakeRec} -> {"C11"}
      [] p \in {TokLimit} -> {"C12"} [] p \in {SolDest, TokDest} -> {"C13"}
      [] p \in {SolRecDest, TokRecDest} -> {"C11", "C13"}
      [] p \in {StakeLimit, StakeAll} -> {"C14"} [] p = ProgScope -> {"C15"}
      [] OTHER -> {}
ByPerms(ac) == UNION {ByPerm(ac[j].p) : j \in DOMAIN ac}
               \cup (IF Has(ac, TokRec) THEN {"C12"} ELSE {}) \cup (IF Has(ac, StakeRec) THEN {"C14"} ELSE {})

\* why the specification refuses a limited role's batch
SignReasons(st, op, i) ==
    LET ac == st.sw[op.w].ro[i].ac
        cls == Classes(st, op)
        hist == BatchOf(st, op)
        each(j) == Check(st, op, hist, cls, ac, j)
        failing == {j \in DOMAIN cls : ~each(j).ok}
        why(j) == CASE cls[j] = "cfg" ->
                         IF hist[Len(hist)].ac[op.k1].l >= Rent(0) /\ hist[Len(hist)].ac[op.k1].o = "sys"
                            /\ hist[Len(hist)].sw[op.w] = hist[1].sw[op.w]
                         THEN {"C10"} \cup (ByPerms(ac) \cap {"C11", "C13"})
                         ELSE {"C17"} \cup (IF hist[Len(hist)].ac[op.k1].l < Rent(0) THEN {"C24"} ELSE {})
                    [] cls[j] = "token" ->
                         LET a == hist[1].tk[Metas(op)[j]]  b == hist[Len(hist)].tk[Metas(op)[j]] IN
                         IF [a EXCEPT !.a = 0] # [b EXCEPT !.a = 0] THEN {"C17", "C26"}
                         ELSE {"C12", "C26"} \cup (ByPerms(ac) \cap {"C11", "C13"})
                    [] cls[j] = "stake" -> {"C14", "C26"} \cup (ByPerms(ac) \cap {"C11"})
                    [] cls[j] = "scope" -> {"C15", "C26"}
                    [] OTHER -> {}
    IN IF ~ClassOk(st, op) THEN {"C26", "C15"}
       ELSE IF cls[2] # "wallet" THEN {"C26"}
       ELSE IF hist = <<>> THEN {"C25", "C16"}
       ELSE (IF \E j \in DOMAIN op.ix : ~MayCall(ac, op.k1, op.ix[j]) THEN {"C16"} ELSE {})
            \cup UNION {why(j) : j \in failing}
            \cup (IF failing = {} THEN ByPerms(ac) ELSE {})

\* why the specification refuses a batch with calls of the wallet program inside
RECURSIVE FirstFail(_, _, _, _)
FirstFail(st, env, ixs, j) ==
    IF j > Len(ixs) THEN 0
    ELSE LET r == Exec(st, env, ixs[j]) IN IF r.ok THEN FirstFail(r.st, env, ixs, j + 1) ELSE j
InsideReasons(st, op) ==
    LET env == SignEnv(op, Signs(op), op.i # "sign" \/ (op.k1 = WaName(op) /\ st.sw[op.w].v2))
        i == Acting(st, op)
        s1 == IF i = 0 THEN st ELSE Used(st, op, i)
        j == FirstFail(s1, env, op.ix, 1)
    IN IF j \notin Inside(op) THEN {}
       ELSE LET q == InsideOp(op, j)
                b == IF j = 1 THEN s1 ELSE LET h == Batch(<<s1>>, env, SubSeq(op.ix, 1, j - 1), 1) IN h[Len(h)]
            IN IF IsSignOp(q) THEN {"C25", "C16"} \cup ByOp(q)
               ELSE IF q.i # "create" /\ Acting(b, q) = 0 THEN {"C04", "C16"}
               ELSE ByOp(q)
InsideBlame(op) == UNION {ByOp(op.ix[j].op) : j \in Inside(op)} \cup (IF Inside(op) = {} THEN {} ELSE {"C25"})

AuthErrs == {"3000", "3001", "3002", "3003", "3005", "3014", "3015", "3016", "3017", "3018", "3019", "3021",
             "3024", "3025", "3026", "3027", "3028", "3033", "3034", "3035", "3036", "3037", "3038", "3039"}
IsAuthErr(w) == Len(w) >= 10 /\ SubSeq(w, 7, 10) \in AuthErrs

IsRentErr(w) == Len(w) >= 12 /\ SubSeq(w, Len(w) - 7, Len(w)) = "(\"rent\")"

\* parts of the state in which spec (a) and code (b) differ after the same accepted op
Parts(st, op, a, b) ==
    LET x == a.sw[op.w]  y == b.sw[op.w]
        both == x.ex = "live" /\ y.ex = "live"
        rx == IF both THEN ToSet(Ids(x)) \cap ToSet(Ids(y)) ELSE {}
    IN (IF b.sw[op.w].bad # "" THEN {"C01"} ELSE {})
       \cup (IF P28(b) THEN {} ELSE {"C28"})
       \cup (IF x.ex # y.ex THEN {"C22", "C23"} ELSE {})
       \cup (IF both /\ Ids(x) # Ids(y) THEN {"C01", "C02"} ELSE {})
       \cup (IF both /\ x.ctr # y.ctr THEN {"C02"} ELSE {})
       \cup (IF both /\ x.cl # y.cl THEN {"C23"} ELSE {})
       \cup (IF both /\ x.v2 # y.v2 THEN {"C22"} ELSE {})
       \cup (IF both /\ x.sub # y.sub THEN {"C21"} ELSE {})
       \cup UNION {LET p == RoleOf(x, id)  q == RoleOf(y, id) IN
              (IF p.au.odo # q.au.odo THEN {"C05"} ELSE {})
              \cup (IF [p.au EXCEPT !.odo = 0] # [q.au EXCEPT !.odo = 0] /\ (p.au.sk # q.au.sk \/ p.au.se # q.au.se \/ p.au.mx # q.au.mx)
                    THEN {"C06"} ELSE {})
              \cup (IF p.au.k # q.au.k \/ p.au.t # q.au.t THEN {"C01", "C02", "C09"} ELSE {})
              \cup (IF p.ac # q.ac THEN
                      (IF id # Get(op, "r", -1) /\ id # Get(op, "tgt", -1) /\ id # Get(op, "tr", -1) THEN {"C01"} ELSE {})
                      \cup (IF op.i = "sign" THEN
                              IF Len(p.ac) = Len(q.ac)
                              THEN UNION {IF p.ac[j] = q.ac[j] THEN {}
                                          ELSE ByPerm(p.ac[j].p) \cup (IF p.ac[j].p = TokRec THEN {"C12"} ELSE IF p.ac[j].p = StakeRec THEN {"C14"} ELSE {})
                                          : j \in DOMAIN p.ac}
                              ELSE {"C01"}
                            ELSE IF op.i \in {"add", "rem", "upd"} THEN {"C01"} ELSE {})
                    ELSE {})
            : id \in rx}
       \cup (IF \E w \in DOMAIN a.sw : w # op.w /\ a.sw[w] # b.sw[w] THEN {"C27"} ELSE {})
       \cup (IF a.ac # b.ac THEN {"C24"} ELSE {})
       \cup (IF IsSignOp(op) /\ (a.ac # b.ac \/ a.tk # b.tk \/ a.sk # b.sk \/ a.sc # b.sc) THEN {"C25"} ELSE {})

Blame(st, op, r, codeOk, code, w) ==
    IF op.i = "bulk" THEN {"C01", "C02", "C19", "C24", "C28"}
    ELSE IF ~Ghosts(st, op) THEN {}
    ELSE LET live == Live(st, op.w)
             i == IF op.i = "create" THEN 0 ELSE Acting(st, op)
             role == IF op.i # "create" /\ live /\ HasRole(st.sw[op.w], op.r) THEN RoleOf(st.sw[op.w], op.r)
                     ELSE [id |-> -1, au |-> [t |-> "none", k |-> "0", odo |-> 0, mx |-> 0, sk |-> "0", se |-> 0], ac |-> <<>>]
             other == \E v \in DOMAIN st.sw : v # op.w /\ st.sw[v].ex = "live"
         IN
         IF codeOk /\ ~r.ok THEN
            \* accepted although it must be refused
            (IF IsSignOp(op) /\ Get(op, "via", FALSE) THEN {"C25"} ELSE {}) \cup
            IF op.i # "create" /\ i = 0
            THEN IF ~live THEN {"C22", "C23", "C04"} \cup ByOp(op)
                 ELSE {"C04"} \cup AuthOf(role, op)
                      \cup (IF other /\ \E v \in DOMAIN st.sw : v # op.w /\ \E j \in DOMAIN st.sw[v].ro :
                                 st.sw[v].ro[j].au.k = op.pf.by THEN {"C27"} ELSE {})
            ELSE ByOp(op)
                 \cup (IF Inside(op) # {} THEN InsideReasons(st, op) ELSE {})
                 \cup (IF ~FlOk(st, op) THEN (IF IsSignOp(op) THEN {"C25"} ELSE {"C19"}) ELSE {})
                 \cup (IF op.i = "sign" /\ i # 0 /\ FlOk(st, op) /\ ~Get(op, "via", FALSE)
                       THEN IF Free(role.ac)
                            THEN {"C25", "C16"} \cup (IF ClassOk(st, op) THEN {} ELSE {"C26"})
                            ELSE SignReasons(st, op, i) ELSE {})
                 \cup (IF op.i \in {"ss1", "ss2"} THEN {"C25"} ELSE {})
                 \cup (IF op.i \in {"ss2", "wd2", "tg2"} /\ Get(op, "sn", op.w) # op.w THEN {"C27"} ELSE {})
                 \cup (IF i # 0 /\ role.ac # <<>> /\ (\A j \in DOMAIN role.ac : role.ac[j].p \in Managing) THEN {"C03"} ELSE {})
         ELSE IF r.ok /\ ~codeOk THEN
            \* refused although it must succeed
            IF op.i # "create" /\ IsAuthErr(w) THEN AuthOf(role, op) \cup (IF AuthOf(role, op) # {} THEN {"C04"} ELSE {}) \cup (IF op.i = "sess" THEN {"C06"} ELSE {})
                                  \cup (IF AuthOf(role, op) = {} THEN ByOp(op) \cup (IF op.i = "sign" THEN ByPerms(role.ac) ELSE {}) ELSE {})
            ELSE ByOp(op) \cup InsideBlame(op)
                 \cup (IF op.i = "sign" THEN
                         IF Free(role.ac) THEN {"C25", "C26"}
                         ELSE ByPerms(role.ac) \cup (IF Has(role.ac, ProgCurated) \/ Has(role.ac, Program) \/ Has(role.ac, ProgAll)
                                                     THEN {"C16"} ELSE {}) \cup {"C25", "C26"}
                       ELSE {})
                 \cup (IF op.i \in {"ss1", "ss2"} THEN {"C25"} ELSE {})
                 \cup (IF IsRentErr(w) THEN {"C24"} ELSE {})
         ELSE IF r.ok THEN ByOp(op) \cup Parts(st, op, r.st, code) \cup InsideBlame(op)
                           \cup UNION {Parts(st, InsideOp(op, j), r.st, code) : j \in Inside(op)}
         ELSE {"C04", "C25"}
=============================================================================

-------------------------------- MODULE Swig --------------------------------
(* The wallet program: what every instruction does to the recorded state.    *)
(* Apply(st, op) is [ok |-> TRUE, st |-> the state after it] or Fail, which  *)
(* means the transaction is refused and nothing changes.                      *)
EXTENDS Authority

SwName(op) == "sw:" \o op.w
WaName(op) == "wa:" \o op.w
Sw(st, op) == st.sw[op.w]
Live(st, w) == st.sw[w].ex = "live"

\* a malformed instruction is refused; the exceptions do not malform it
FlOk(st, op) ==
    \/ op.fl = ""
    \/ op.fl = "+trail" /\ op.i \in {"create", "add", "rem", "sess", "cs1", "tg1", "wd1", "cs2",
                                     "tg2", "wd2", "claim", "closetok", "closeswig", "mig",
                                     "xassets", "sign", "ss1", "ss2", "upd", "repl"}
    \/ op.fl = "trunc" /\ "pf" \in DOMAIN op /\ op.pf.v \in {"len2", "len3"}
    \/ op.fl = "wa1" /\ op.i = "repl"
    \/ op.fl = "payns" /\ op.i = "add"     \* unless it has to pay, see TopUp

\* pay what account n lacks to hold `need` lamports
TopUp(st, op, n, need) ==
    LET miss == Monus(need, Acct(st, n).l) IN
    IF miss = 0 THEN Ok(st)
    ELSE IF ~(op.pay \in TxSigners(op)) \/ Owner(st, op.pay) # "sys" \/ Acct(st, op.pay).n # 0
         THEN Fail
         ELSE Move(st, op.pay, n, miss)

\* the wallet's own account now holds s: its length follows
WithSw(st, op, s) ==
    LET n == SwName(op) IN
    [st EXCEPT !.sw[op.w] = s, !.ac[n].n = SwigLen(s)]
\* the wallet's account grows: the payer keeps it rent exempt
Grow(st, op, s) == TopUp(WithSw(st, op, s), op, SwName(op), Rent(SwigLen(s)))

\* ------------------------------------------------------------------ create
DoCreate(st, op) ==
    LET sw == SwName(op)  wa == WaName(op)
        role == [id |-> 0, au |-> NewAuth(st, op.au), ac |-> [i \in DOMAIN op.acts |-> StoredAct(op.acts[i])]]
        s == [ex |-> "live", ctr |-> 1, sub |-> 0, v2 |-> TRUE, cl |-> "0", ro |-> <<role>>,
              bad |-> "", rd |-> "", tl |-> 0]
        a == Acct(st, sw)
    IN IF ~(AuFxOk(op.au) /\ ActsOk(st, op) /\ CanManage(op.acts)) THEN Fail
       ELSE IF a.o # "sys" \/ a.n # 0 \/ Owner(st, wa) # "sys" \/ Acct(st, wa).n # 0 THEN Fail
       ELSE IF a.l # 0 THEN Fail
       ELSE LET s1 == [st EXCEPT !.sw[op.w] = s, !.ac[sw].o = "swig", !.ac[sw].n = SwigLen(s)]
                r1 == TopUp(s1, op, sw, Rent(SwigLen(s)))
            IN IF ~r1.ok THEN Fail ELSE TopUp(r1.st, op, wa, Rent(0))

\* ------------------------------------------------------- administration
\* the acting role's index if it exists and op proves its authority, else 0
Acting(st, op) ==
    LET s == Sw(st, op)  i == IF s.ex = "live" THEN RoleIdx(s.ro, op.r) ELSE 0 IN
    IF i = 0 THEN 0 ELSE IF AuthOk(st, op, s.ro[i]) THEN i ELSE 0
Used(st, op, i) == [st EXCEPT !.sw[op.w].ro[i].au = AuthUse(op, @)]

DoAdd(st, op, i) ==
    LET s == Sw(st, op)
        role == [id |-> s.ctr, au |-> NewAuth(st, op.au),
                 ac |-> [j \in DOMAIN op.acts |-> StoredAct(op.acts[j])]]
    IN IF ~(CanManage(s.ro[i].ac) /\ AuFxOk(op.au) /\ ActsOk(st, op)) THEN Fail
       ELSE Grow(st, op, [s EXCEPT !.ro = Append(@, role), !.ctr = @ + 1])

DoRemove(st, op, i) ==
    LET s == Sw(st, op)  j == RoleIdx(s.ro, op.tgt) IN
    IF op.tgt = 0 \/ j = 0 \/ ~(CanManage(s.ro[i].ac) \/ op.r = op.tgt) THEN Fail
    ELSE LET s2 == [s EXCEPT !.ro = RemoveIdx(@, j)]
             back == Rent(SwigLen(s)) - Rent(SwigLen(s2))
             r == Move(WithSw(st, op, s2), SwName(op), op.pay, back)
         IN r

UpdList(st, op, old) ==
    CASE op.m = "rep" -> IF ActsOk(st, op) THEN [j \in DOMAIN op.acts |-> StoredAct(op.acts[j])]
                         ELSE <<>>
      [] op.m = "rep0" -> IF ActsOk(st, op) THEN [j \in DOMAIN op.acts |-> StoredAct(op.acts[j])]
                         ELSE <<>>
      [] op.m = "add" ->
           IF ~ActsOk(st, op) THEN <<>>
           ELSE LET new == old \o [j \in DOMAIN op.acts |-> StoredAct(op.acts[j])]
                IN IF NoDupScoped(new) /\ Len(new) <= 255 THEN new ELSE <<>>
      [] op.m = "delt" -> IF op.mu.m = "odd" THEN <<>>
                          ELSE KeepIdx(old, 1, {j \in DOMAIN old : old[j].p \in ToSet(op.tys)})
      [] op.m = "deli" -> IF op.mu.m = "odd" THEN <<>>
                          ELSE KeepIdx(old, 1, {j + 1 : j \in ToSet(op.idx)})
      [] OTHER -> <<>>

DoUpdate(st, op, i) ==
    LET s == Sw(st, op)  j == RoleIdx(s.ro, op.tgt) IN
    IF j = 0 \/ ~CanManage(s.ro[i].ac) THEN Fail
    ELSE LET new == UpdList(st, op, s.ro[j].ac)
             s2 == [s EXCEPT !.ro[j].ac = new]
             sw == SwName(op)
             r == WithSw(st, op, s2)
         IN IF new = <<>> THEN Fail
            ELSE IF SwigLen(s2) >= SwigLen(s)
                 THEN IF SwigLen(s2) = SwigLen(s) THEN Ok(r) ELSE Grow(st, op, s2)
                 ELSE \* the freed lamports, and any surplus, go to the payer
                      Move(r, sw, op.pay, Monus(st.ac[sw].l, Rent(SwigLen(s2))))

DoSession(st, op, i) ==
    LET au == Sw(st, op).ro[i].au
        dur == IF op.dur = -1 THEN 2000000000 ELSE op.dur
    IN IF ~IsSession(au.t) \/ dur > au.mx THEN Fail
       ELSE Ok([st EXCEPT !.sw[op.w].ro[i].au.sk = op.key,
                          !.sw[op.w].ro[i].au.se = Min(st.slot + op.dur, 2000000000)])

NewKeyOk(t, kl) == CASE Plain(t) = "ed" -> kl = "32"
                     [] Plain(t) = "k1" -> kl \in {"33", "64", "z33", "bad33", "bad64"}
                     [] Plain(t) = "r1" -> kl \in {"33", "z33", "bad33"}
                     [] OTHER -> FALSE
DoReplace(st, op, i) ==
    LET s == Sw(st, op)  j == RoleIdx(s.ro, op.tgt) IN
    IF ~(CanManage(s.ro[i].ac) \/ HasId(s.ro[i].ac, ReplaceAuth, op.tgt)) \/ j = 0 THEN Fail
    ELSE LET au == s.ro[j].au IN
         IF ~NewKeyOk(au.t, op.kl) \/ au.k = op.nk THEN Fail
         ELSE Ok([st EXCEPT !.sw[op.w].ro[j].au =
                    [@ EXCEPT !.k = op.nk, !.odo = 0,
                              !.sk = "0", !.se = IF IsSession(au.t) THEN st.z0 ELSE 0]])

DoClaim(st, op, i) ==
    LET s == Sw(st, op)  a == s.ro[i].ac IN
    IF ~(Has(a, All) \/ Has(a, CloseAuth)) THEN Fail
    ELSE IF op.key \in {"0", SwName(op), WaName(op)} \/ s.cl # "0" THEN Fail
    ELSE Grow(st, op, [s EXCEPT !.cl = op.key])

MayClose(a) == CanManage(a) \/ Has(a, CloseAuth)

DoCloseSwig(st, op, i) ==
    LET s == Sw(st, op)  sw == SwName(op)  wa == WaName(op)
        n == st.ac[sw].n
    IN IF ~MayClose(s.ro[i].ac) \/ (s.cl # "0" /\ s.cl # op.dst) THEN Fail
       ELSE IF st.ac[sw].l > Rent(n) \/ Acct(st, wa).l > Rent(0) THEN Fail
       ELSE IF Acct(st, wa).l > 0 /\ (~s.v2 \/ Owner(st, wa) # "sys" \/ Acct(st, wa).n # 0) THEN Fail
       ELSE LET r1 == Move(st, wa, op.dst, Acct(st, wa).l)
                r2 == Move(r1.st, sw, op.dst, Monus(st.ac[sw].l, Rent(1)))
            IN IF ~r1.ok THEN Fail ELSE IF ~r2.ok THEN Fail
               ELSE Ok([r2.st EXCEPT !.sw[op.w] = ClosedSwig, !.ac[sw].n = 1])

RECURSIVE CloseEach(_, _, _, _)
CloseEach(st, op, names, i) ==
    IF i > Len(names) THEN Ok(st)
    ELSE LET n == names[i]
             t == IF n \in DOMAIN st.tk THEN st.tk[n] ELSE NoTok
             who == IF t.au = WaName(op) THEN WaName(op) ELSE SwName(op)
         IN IF Owner(st, n) # op.p \/ Acct(st, n).n < 72 \/ ~(t.au \in {WaName(op), SwName(op)}) THEN Fail
            ELSE IF t.st = 0 THEN Fail
            ELSE IF t.a # 0 \/ n = op.dst \/ CloseKey(t) # who THEN Fail
            ELSE LET r == Move(st, n, op.dst, st.ac[n].l) IN
                 IF ~r.ok THEN Fail
                 ELSE CloseEach([r.st EXCEPT !.ac[n] = NoAcct, !.tk[n] = NoTok], op, names, i + 1)

DoCloseTok(st, op, i) ==
    IF ~MayClose(Sw(st, op).ro[i].ac) THEN Fail
    ELSE IF Sw(st, op).cl # "0" /\ Sw(st, op).cl # op.dst THEN Fail
    ELSE IF ~(op.p \in {"tok", "t22"}) THEN Fail
    ELSE IF op.off >= Len(op.ls) THEN Fail
    ELSE CloseEach(st, op, SubSeq(op.ls, op.off + 1, Len(op.ls)), 1)

DoMigrate(st, op, i) ==
    LET s == Sw(st, op)  wa == WaName(op) IN
    IF s.v2 \/ ~CanManage(s.ro[i].ac) \/ Owner(st, wa) # "sys" \/ Acct(st, wa).n # 0 THEN Fail
    ELSE TopUp([st EXCEPT !.sw[op.w].v2 = TRUE, !.sw[op.w].sub = 0], op, wa, Rent(0))

RECURSIVE XEach(_, _, _, _)
XEach(st, op, m, i) ==
    IF i + 2 > Len(m) THEN Ok(st)
    ELSE LET f == m[i]  t == m[i + 1]  p == m[i + 2]
             tf == IF f \in DOMAIN st.tk THEN st.tk[f] ELSE NoTok
             tt == IF t \in DOMAIN st.tk THEN st.tk[t] ELSE NoTok
         IN IF ~(p \in {"tok", "t22"}) \/ tf.au # SwName(op) \/ tt.au # WaName(op) \/ tf.a = 0
            THEN XEach(st, op, m, i + 3)
            ELSE IF Owner(st, f) # p \/ Owner(st, t) # p \/ tf.st # 1 \/ tt.st # 1 \/ tf.m # tt.m THEN Fail
            ELSE XEach([st EXCEPT !.tk[f].a = 0, !.tk[t].a = @ + tf.a], op, m, i + 3)

DoXAssets(st, op, i) ==
    LET s == Sw(st, op)  sw == SwName(op)  wa == WaName(op) IN
    IF ~s.v2 \/ ~CanManage(s.ro[i].ac) THEN Fail
    ELSE LET r == Move(st, sw, wa, Monus(st.ac[sw].l, Rent(st.ac[sw].n))) IN
         IF ~r.ok THEN Fail ELSE XEach(r.st, op, Metas(op), 5)

\* ------------------------------------------------- listing of accounts
\* is account n, a stake or token account, under the wallet listed first?
RoleScopes(s) == {<<i, j>> \in {<<i, j>> : i \in DOMAIN s.ro, j \in 1..255} :
                    j \in DOMAIN s.ro[i].ac /\ s.ro[i].ac[j].p = ProgScope}
\* the first scope any role of the wallet has for account n
FirstScope(ro, n) ==
    LET j == Least({i \in DOMAIN ro : HasK(ro[i].ac, ProgScope, n)}) IN
    IF j = 0 THEN NoAct ELSE ro[j].ac[FirstK(ro[j].ac, ProgScope, n, 1)]

\* a scope's balance field lies in an account of this length and fits its number type
FieldIn(a, len) == len >= a.s[3] /\ a.s[2] <= a.s[3] /\ NumWidth(a.s[1]) = a.s[3] - a.s[2]
Readable(a, len) == (a.s[2] = 0 /\ a.s[3] = 0) \/ FieldIn(a, len)

WalletAt1(st, m) == Len(m) >= 2 /\ Owner(st, m[2]) = "sys"

\* what account i (1-based) of list m is to the wallet of op
Class(st, op, m, i) ==
    LET n == m[i]  o == Owner(st, n)  s == Sw(st, op)
        mine(a) == a = m[1] \/ (i > 2 /\ WalletAt1(st, m) /\ a = m[2])
    IN CASE i = 1 -> "cfg"
         [] o = "swig" -> "none"
         [] i = 2 /\ o = "sys" -> "wallet"
         [] o = "stk" -> IF Acct(st, n).n < 200 \/ ~mine(st.sk[n].wd) THEN "none"
                         ELSE IF st.sk[n].st > 3 THEN "bad" ELSE "stake"
         [] o \in {"tok", "t22"} /\ Acct(st, n).n >= 165 ->
              IF n \in DOMAIN st.tk /\ mine(st.tk[n].au) THEN "token" ELSE "none"
         [] OTHER ->
              LET sc == FirstScope(s.ro, n) IN
              IF sc.p = 0 THEN "none"
              ELSE IF sc.id = 0 \/ FieldIn(sc, Acct(st, n).n) THEN "scope" ELSE "bad"
Classes(st, op) == LET m == Metas(op) IN [i \in DOMAIN m |-> Class(st, op, m, i)]
ClassOk(st, op) == LET m == Metas(op) IN \A i \in DOMAIN m : Class(st, op, m, i) # "bad"

\* ------------------------------------------------------------------ SignV2
\* how much went out between consecutive states, by the measure f
RECURSIVE SumDrops(_, _, _)
SumDrops(hist, f(_), i) ==
    IF i >= Len(hist) THEN 0 ELSE Monus(f(hist[i]), f(hist[i + 1])) + SumDrops(hist, f, i + 1)
RECURSIVE StakeSpent(_, _, _)
StakeSpent(hist, n, i) ==
    IF i >= Len(hist) THEN 0
    ELSE LET a == hist[i]  b == hist[i + 1]
             dd == a.sk[n].d - b.sk[n].d
         IN Max(Monus(a.ac[n].l, b.ac[n].l), IF dd < 0 THEN -dd ELSE dd) + StakeSpent(hist, n, i + 1)

\* charge amt to the first permission for it: [ok, any, ac]
ChargeFirst(st, ac, amt, idxs) ==
    LET c == SelectSeq(idxs, LAMBDA j : j # 0) IN
    IF c = <<>> THEN [ok |-> TRUE, any |-> FALSE, ac |-> ac]
    ELSE LET r == Charge(st, ac[c[1]], amt) IN
         [ok |-> r.ok, any |-> TRUE, ac |-> IF r.ok THEN [ac EXCEPT ![c[1]] = r.a] ELSE ac]

\* the transfers a destination limit sees: [t, a] each
SolTransfers(ixs, wa) ==
    SelectSeq(ixs, LAMBDA x : x.i = "xfer" /\ x.f = wa)
TokTransfers(ixs, f) ==
    SelectSeq(ixs, LAMBDA x : x.i = "tok" /\ x.f = f)

\* charge each transfer to the limit for its destination: [ok, sum, ac]
RECURSIVE ChargeDests(_, _, _, _, _)
ChargeDests(st, ac, xs, mint, i) ==
    IF i > Len(xs) THEN [ok |-> TRUE, sum |-> 0, ac |-> ac]
    ELSE LET x == xs[i]
             idxs == IF mint = "" THEN <<FirstK(ac, SolRecDest, x.t, 1), FirstK(ac, SolDest, x.t, 1)>>
                     ELSE <<FirstKK(ac, TokRecDest, mint, x.t, 1), FirstKK(ac, TokDest, mint, x.t, 1)>>
             r == ChargeFirst(st, ac, x.a, idxs)
         IN IF ~r.ok \/ ~r.any THEN [ok |-> FALSE, sum |-> 0, ac |-> ac]
            ELSE LET q == ChargeDests(st, r.ac, xs, mint, i + 1) IN
                 [ok |-> q.ok, sum |-> x.a + q.sum, ac |-> q.ac]

\* spending `amt` against general limits `gen`, and limits by destination if there are any
ChargeSpend(st, ac, amt, gen, hasDest, xs, mint) ==
    LET g == ChargeFirst(st, ac, amt, gen) IN
    IF ~g.ok THEN [ok |-> FALSE, ac |-> ac]
    ELSE IF ~hasDest THEN [ok |-> g.any, ac |-> g.ac]
    ELSE LET d == ChargeDests(st, g.ac, xs, mint, 1) IN
         [ok |-> d.ok /\ xs # <<>> /\ d.sum = amt, ac |-> d.ac]

HasSolDest(ac) == Has(ac, SolDest) \/ Has(ac, SolRecDest)
HasTokDest(ac, m) == HasK(ac, TokDest, m) \/ HasK(ac, TokRecDest, m)

\* what a limited role leaves alone in a stake account: all but state and delegation
Fixed(o) == SelectSeq(o, LAMBDA e : e < 124 \/ e >= 200)
\* the checks on account i after a limited role's batch: [ok, ac] with usage charged
Check(st, op, hist, cls, ac, i) ==
    LET m == Metas(op)  n == m[i]
        s0 == hist[1]  s1 == hist[Len(hist)]
        wr == n \in Writable(op)
        wa == op.k1
    IN CASE cls[i] = "cfg" ->
              LET lam(q) == Acct(q, wa).l
                  total == SumDrops(hist, lam, 1)
              IN IF s1.ac[wa].o # "sys" \/ s1.ac[wa].n # s0.ac[wa].n \/ s1.ac[wa].l < Rent(s1.ac[wa].n)
                    \/ s1.ac[n].o # s0.ac[n].o \/ s1.sw[op.w] # s0.sw[op.w]
                 THEN [ok |-> FALSE, ac |-> ac]
                 ELSE IF total = 0 THEN [ok |-> TRUE, ac |-> ac]
                 ELSE ChargeSpend(st, ac, total,
                        <<FirstP(ac, SolLimit, 1), FirstP(ac, SolRec, 1)>>,
                        HasSolDest(ac), SolTransfers(op.ix, wa), "")
         [] cls[i] = "token" ->
              LET t0 == s0.tk[n]  t1 == s1.tk[n]
                  bal(q) == q.tk[n].a
                  spent == IF wr THEN SumDrops(hist, bal, 1) ELSE 0
                  closed == s1.ac[n].l = 0 \/ s1.ac[n].n = 0
                  same == [t1 EXCEPT !.a = 0] = [t0 EXCEPT !.a = 0] /\ s1.ac[n].o = s0.ac[n].o
                          /\ s1.ac[n].n = s0.ac[n].n
                  okAcct == IF closed
                            THEN Has(ac, CloseAuth) /\ s1.ac[n].l = 0 /\ s1.ac[n].o = "sys" /\ wr
                            ELSE (wr => same) /\ t1.au = wa /\ t1.st = 1
                  mint == IF closed THEN t0.m ELSE t1.m
              IN IF ~okAcct THEN [ok |-> FALSE, ac |-> ac]
                 ELSE IF spent = 0 THEN [ok |-> TRUE, ac |-> ac]
                 ELSE ChargeSpend(st, ac, spent,
                        <<FirstK(ac, TokLimit, mint, 1), FirstK(ac, TokRec, mint, 1)>>,
                        HasTokDest(ac, mint), TokTransfers(op.ix, n), mint)
         [] cls[i] = "stake" ->
              LET same == s1.sk[n].wd = s0.sk[n].wd /\ Fixed(s1.sk[n].o) = Fixed(s0.sk[n].o) /\ s1.ac[n].o = s0.ac[n].o /\ s1.ac[n].n = s0.ac[n].n
                  spent == IF wr THEN StakeSpent(hist, n, 1) ELSE 0
                  r == ChargeFirst(st, ac, spent, <<FirstP(ac, StakeAll, 1), FirstP(ac, StakeLimit, 1),
                                                    FirstP(ac, StakeRec, 1)>>)
              IN IF wr /\ ~same THEN [ok |-> FALSE, ac |-> ac]
                 ELSE IF spent = 0 \/ Has(ac, StakeAll) THEN [ok |-> TRUE, ac |-> ac]
                 ELSE [ok |-> r.ok /\ r.any, ac |-> r.ac]
         [] cls[i] = "scope" ->
              LET j == FirstK(ac, ProgScope, n, 1)
                  len == Acct(s1, n).n
                  bal(q) == q.sc[n].v
                  spent == IF wr THEN SumDrops(hist, bal, 1) ELSE 0
              IN IF j = 0 THEN [ok |-> FALSE, ac |-> ac]
                 ELSE IF ac[j].s[2] >= ac[j].s[3] \/ ac[j].s[3] > len THEN [ok |-> FALSE, ac |-> ac]
                 ELSE IF wr /\ (~Readable(ac[j], Acct(s0, n).n) \/ s1.sc[n].o # s0.sc[n].o
                                \/ s1.ac[n].o # s0.ac[n].o \/ s1.ac[n].n # s0.ac[n].n)
                 THEN [ok |-> FALSE, ac |-> ac]
                 ELSE IF spent = 0 THEN [ok |-> TRUE, ac |-> ac]
                 ELSE LET r == Charge(st, ac[j], spent) IN
                      [ok |-> r.ok, ac |-> IF r.ok THEN [ac EXCEPT ![j] = r.a] ELSE ac]
         [] OTHER -> [ok |-> TRUE, ac |-> ac]

RECURSIVE CheckAll(_, _, _, _, _, _)
CheckAll(st, op, hist, cls, ac, i) ==
    IF i > Len(cls) THEN [ok |-> TRUE, ac |-> ac]
    ELSE LET r == Check(st, op, hist, cls, ac, i) IN
         IF r.ok THEN CheckAll(st, op, hist, cls, r.ac, i + 1) ELSE r

\* may the role call this program with the wallet's signature?
MayCall(ac, acting, x) ==
    \/ ~UsesSigner(x, acting) \/ Has(ac, ProgAll)
    \/ Has(ac, ProgCurated) /\ IxProgram(x) \in {"sys", "tok", "t22", "stk"}
    \/ HasK(ac, Program, IxProgram(x))

\* ------------------------------------------------------------ sub-accounts
S1Name(w, id) == "s1:" \o w \o ":" \o ToString(id)
StName(w, n) == "st:" \o w \o ":" \o ToString(n)
AsName(w, n) == "as:" \o w \o ":" \o ToString(n)

DoCreateSub1(st, op, i) ==
    LET ac == Sw(st, op).ro[i].ac
        j == FirstK(ac, SubAcct, "0", 1)
    IN IF j = 0 \/ Owner(st, op.sub) # "sys" \/ op.sub # S1Name(op.w, op.r) THEN Fail
       ELSE TopUp([st EXCEPT !.sw[op.w].ro[i].ac[j] =
                     [@ EXCEPT !.k = op.sub, !.id = 1, !.r = op.r, !.k2 = op.w]],
                  op, op.sub, Rent(0))

SubIdx(ac, sub) == FirstK(ac, SubAcct, sub, 1)

DoToggleSub1(st, op, i) ==
    LET s == Sw(st, op)  t == RoleIdx(s.ro, op.tr) IN
    IF Owner(st, op.sub) # "sys" \/ t = 0 THEN Fail
    ELSE IF op.r # op.tr /\ ~CanManage(s.ro[i].ac) THEN Fail
    ELSE LET j == SubIdx(s.ro[t].ac, op.sub) IN
         IF j = 0 THEN Fail
         ELSE Ok([st EXCEPT !.sw[op.w].ro[t].ac[j].id = IF op.en = 1 THEN 1 ELSE 0])

\* move tokens out of a sub-account into the wallet's own token account
SubTokens(st, op, from, strict) ==
    LET f == op.tok.f  t == op.tok.t
        tf == IF f \in DOMAIN st.tk THEN st.tk[f] ELSE NoTok
        tt == IF t \in DOMAIN st.tk THEN st.tk[t] ELSE NoTok
        p == Owner(st, f)
    IN IF tt.au # WaName(op) \/ ~(p \in {"tok", "t22"}) \/ Owner(st, t) # p THEN Fail
       ELSE IF strict /\ (op.tok.p # p \/ tf.au # from \/ tf.st # 1 \/ tt.st # 1) THEN Fail
       ELSE ExecTok(st, [i |-> "tok", f |-> f, t |-> t, a |-> op.a, p |-> p, k |-> "", au |-> from,
                         mi |-> ""],
                    {f, t}, {from})

SubLamports(st, op, from) ==
    IF Owner(st, from) # "sys" \/ Acct(st, from).n # 0 THEN Fail
    ELSE Move(st, from, WaName(op), op.a)

DoWithdraw1(st, op, i) ==
    LET ac == Sw(st, op).ro[i].ac
        j == SubIdx(ac, op.sub)
        created == {q \in 0..10 : S1Name(op.w, q) = op.sub}
        toks == op.tok.f # ""
    IN IF op.k1 # WaName(op) \/ Owner(st, op.sub) # "sys" \/ Owner(st, op.k1) # "sys" THEN Fail
       ELSE IF j = 0 /\ ~CanManage(ac) THEN Fail
       ELSE IF j # 0 /\ (ac[j].k2 # op.w \/ ac[j].r # op.r \/ ac[j].id # 1) THEN Fail
       ELSE IF j = 0 /\ Has(ac, Manage) /\ op.sub # S1Name(op.w, op.r) THEN Fail
       ELSE IF j = 0 /\ created = {} THEN Fail
       ELSE IF toks THEN IF op.tok.p # Owner(st, op.tok.f) THEN Fail ELSE SubTokens(st, op, op.sub, FALSE)
       ELSE SubLamports(st, op, op.sub)

May2(ac, p, n) == HasId(ac, p, n) \/ HasId(ac, V2All, n)

DoCreateSub2(st, op, i) ==
    LET s == Sw(st, op)
        n == s.sub
        stn == StName(op.w, op.n)
        asn == Metas0(op)[4]
        ac == s.ro[i].ac
    IN IF ~s.v2 \/ ~Has(ac, V2Create) THEN Fail
       ELSE IF Owner(st, stn) # "sys" \/ Acct(st, stn).n # 0 \/ Owner(st, asn) # "sys" THEN Fail
       ELSE IF op.n # n \/ asn # AsName(op.w, n) THEN Fail
       ELSE LET r1 == TopUp(st, op, stn, Rent(72)) IN
            IF ~r1.ok THEN Fail
            ELSE LET s2 == [r1.st EXCEPT !.ac[stn].n = 72, !.ac[stn].o = "swig",
                              !.s2[stn] = [ex |-> TRUE, en |-> 1, id |-> n, sw |-> op.w, as |-> asn],
                              !.sw[op.w].sub = @ + 1]
                     r2 == TopUp(s2, op, asn, Rent(0))
                 IN IF ~r2.ok THEN Fail
                    ELSE IF HasId(ac, V2All, n) THEN r2
                    ELSE Grow(r2.st, op,
                           [r2.st.sw[op.w] EXCEPT !.ro[i].ac =
                               Append(@, [NoAct EXCEPT !.p = V2All, !.id = n])])

\* the state account names its wallet, its number, its asset account, and is enabled
Sub2Ok(st, op, stn, asn) ==
    LET q == IF stn \in DOMAIN st.s2 THEN st.s2[stn] ELSE NoSub2 IN
    /\ q.ex /\ q.sw = op.w /\ q.id = op.n /\ q.en = 1 /\ q.as = asn

DoToggleSub2(st, op, i) ==
    LET stn == Metas0(op)[3]
        q == IF stn \in DOMAIN st.s2 THEN st.s2[stn] ELSE NoSub2
    IN IF ~Sw(st, op).v2 \/ op.en > 1 \/ ~May2(Sw(st, op).ro[i].ac, V2Toggle, op.n) THEN Fail
       ELSE IF ~q.ex \/ q.sw # op.w \/ q.id # op.n \/ Owner(st, stn) # "swig" THEN Fail
       ELSE Ok([st EXCEPT !.s2[stn].en = op.en])

DoWithdraw2(st, op, i) ==
    LET m == Metas0(op)  asn == m[4]
        toks == op.tok.f # ""
    IN IF ~Sw(st, op).v2 \/ op.k1 # WaName(op) \/ Owner(st, op.k1) # "sys" \/ Owner(st, asn) # "sys" THEN Fail
       ELSE IF ~May2(Sw(st, op).ro[i].ac, V2Withdraw, op.n) \/ ~Sub2Ok(st, op, m[3], asn) THEN Fail
       ELSE IF toks THEN SubTokens(st, op, asn, TRUE) ELSE SubLamports(st, op, asn)

\* --------------------------------------------------------- administration
\* everything but the signing instructions
PlainOps == {"add", "rem", "upd", "sess", "repl", "claim", "closetok", "closeswig", "mig", "xassets",
             "cs1", "tg1", "wd1", "cs2", "tg2", "wd2"}
PlainStep(s1, op, i) ==
    CASE op.i = "add" -> DoAdd(s1, op, i)
      [] op.i = "rem" -> DoRemove(s1, op, i)
      [] op.i = "upd" -> DoUpdate(s1, op, i)
      [] op.i = "sess" -> DoSession(s1, op, i)
      [] op.i = "repl" -> DoReplace(s1, op, i)
      [] op.i = "claim" -> DoClaim(s1, op, i)
      [] op.i = "closetok" -> DoCloseTok(s1, op, i)
      [] op.i = "closeswig" -> DoCloseSwig(s1, op, i)
      [] op.i = "mig" -> DoMigrate(s1, op, i)
      [] op.i = "xassets" -> DoXAssets(s1, op, i)
      [] op.i = "cs1" -> DoCreateSub1(s1, op, i)
      [] op.i = "tg1" -> DoToggleSub1(s1, op, i)
      [] op.i = "wd1" -> DoWithdraw1(s1, op, i)
      [] op.i = "cs2" -> DoCreateSub2(s1, op, i)
      [] op.i = "tg2" -> DoToggleSub2(s1, op, i)
      [] op.i = "wd2" -> DoWithdraw2(s1, op, i)
PlainWalletStep(st, op) ==
    LET i == Acting(st, op) IN
    IF ~FlOk(st, op) \/ i = 0 THEN Fail
    ELSE IF ~ClassOk(st, op) \/ Listed(op) > 254 THEN Fail
    ELSE PlainStep(Used(st, op, i), op, i)

\* ------------------------------------------------------- inner instructions
\* the operation an inner call of the wallet program amounts to: it is signed by
\* whoever its caller can sign for; a signing instruction is never run from inside
InnerOp(env, x) ==
    LET sg == (env.sg \cup {env.acting}) \cap ToSet(x.ms) IN
    [f \in DOMAIN x.op \cup {"sg"} |-> IF f = "sg" THEN sg ELSE x.op[f]]
ExecSwig(st, env, x) ==
    LET op == InnerOp(env, x) IN
    IF op.i = "create" THEN IF FlOk(st, op) THEN DoCreate(st, op) ELSE Fail
    ELSE IF op.i \in PlainOps THEN PlainWalletStep(st, op)
    ELSE Fail

\* one inner instruction of a batch signed by env.acting
Exec(st, env, x) ==
    LET sg == env.sg \cup {env.acting}
        m == ToSet(IxMetas(x))
    IN
    IF x.i = "xfer" /\ x.f = env.acting /\ Owner(st, x.f) # "sys"
    THEN \* direct lamport move, only possible out of the wallet program's own accounts
         IF x.a = 0 \/ x.t = x.f THEN Ok(st)
         ELSE IF Owner(st, x.f) # "swig" \/ ~(x.f \in env.wr /\ x.t \in env.wr) THEN Fail
         ELSE Move(st, x.f, x.t, x.a)
    ELSE IF env.acting \in m /\ ~env.canon /\ ~(env.acting \in env.sg) THEN Fail
    ELSE CASE x.i = "swig" -> ExecSwig(st, env, x)
           [] IxProgram(x) = "sys" -> ExecSys(st, x, env.wr, sg)
           [] IxProgram(x) \in {"tok", "t22"} /\ x.i # "pup" -> ExecTok(st, x, env.wr, sg)
           [] IxProgram(x) = "stk" /\ x.i # "pup" -> ExecStake(st, x, env.wr, sg)
           [] x.i = "pup" /\ IxProgram(x) \in Puppets -> ExecPup(st, x, env.wr, sg)
           [] OTHER -> Fail

\* the states a batch goes through, first to last; empty if it fails
RECURSIVE Batch(_, _, _, _)
Batch(hist, env, ixs, i) ==
    IF i > Len(ixs) THEN hist
    ELSE LET r == Exec(hist[Len(hist)], env, ixs[i]) IN
         IF r.ok THEN Batch(Append(hist, r.st), env, ixs, i + 1) ELSE <<>>

\* ---------------------------------------------- signing instructions
SignEnv(op, acting, canon) ==
    [acting |-> acting, canon |-> canon, wr |-> Writable(op), sg |-> TxSigners(op)]

HistOf(st, op, acting, canon) == Batch(<<st>>, SignEnv(op, acting, canon), op.ix, 1)

DoSign(st, op, i) ==
    LET s == Sw(st, op)
        ac == s.ro[i].ac
        cls == Classes(st, op)
        env == SignEnv(op, op.k1, op.k1 = WaName(op) /\ s.v2)
        hist == Batch(<<st>>, env, op.ix, 1)
        free == Has(ac, All) \/ Has(ac, AllButManage)
    IN IF cls[2] # "wallet" \/ hist = <<>> THEN Fail
       ELSE IF free THEN Ok(hist[Len(hist)])
       ELSE IF \E j \in DOMAIN op.ix : ~MayCall(ac, op.k1, op.ix[j]) THEN Fail
       \* accounts beyond the hundredth cannot be compared before and after
       ELSE IF \E j \in DOMAIN cls :
                   /\ Metas(op)[j] \in ToSet(Get(op, "hi", <<>>)) /\ Metas(op)[j] \in Writable(op)
                   /\ \/ cls[j] \in {"token", "stake"}
                      \/ cls[j] = "scope" /\ FirstK(ac, ProgScope, Metas(op)[j], 1) # 0
       THEN Fail
       ELSE IF \E j \in DOMAIN cls : cls[j] = "scope" /\ Metas(op)[j] \in Writable(op)
                   /\ FirstK(ac, ProgScope, Metas(op)[j], 1) # 0
                   /\ ~Readable(ac[FirstK(ac, ProgScope, Metas(op)[j], 1)], Acct(st, Metas(op)[j]).n)
       THEN Fail
       ELSE LET r == CheckAll(st, op, hist, cls, ac, 1) IN
            IF ~r.ok THEN Fail
            ELSE Ok([hist[Len(hist)] EXCEPT !.sw[op.w].ro[i].ac = r.ac])

DoSignSub1(st, op, i) ==
    LET ac == Sw(st, op).ro[i].ac
        j == SubIdx(ac, op.sub)
    IN IF Owner(st, op.sub) # "sys" \/ j = 0 THEN Fail
       ELSE IF ac[j].k2 # op.w \/ ac[j].r # op.r \/ ac[j].id # 1 THEN Fail
       ELSE LET hist == Batch(<<st>>, SignEnv(op, op.sub, TRUE), op.ix, 1) IN
            IF hist = <<>> THEN Fail
            ELSE LET s1 == hist[Len(hist)] IN
                 IF s1.ac[op.sub].l < Rent(s1.ac[op.sub].n) THEN Fail ELSE Ok(s1)

DoSignSub2(st, op, i) ==
    LET m == Metas0(op)  asn == m[3] IN
    IF ~Sw(st, op).v2 \/ ~May2(Sw(st, op).ro[i].ac, V2Sign, op.n) \/ Owner(st, asn) # "sys"
       \/ ~Sub2Ok(st, op, m[2], asn) THEN Fail
    ELSE LET hist == Batch(<<st>>, SignEnv(op, asn, TRUE), op.ix, 1) IN
         IF hist = <<>> THEN Fail
         ELSE LET s1 == hist[Len(hist)] IN
              IF s1.ac[asn].l < Rent(s1.ac[asn].n) THEN Fail ELSE Ok(s1)

\* ------------------------------------------------------------- everything
WalletOps == PlainOps \cup {"sign", "ss1", "ss2"}
EnvOps == {"slot", "fund", "dep", "freeze", "old", "ctr", "subn", "odo"}

WalletStep(st, op) ==
    IF ~IsSignOp(op) THEN PlainWalletStep(st, op)
    ELSE LET i == Acting(st, op) IN
         \* called by another program: never
         IF ~FlOk(st, op) \/ i = 0 \/ Get(op, "via", FALSE) THEN Fail
         ELSE IF ~ClassOk(st, op) \/ Listed(op) > 254 THEN Fail
         ELSE LET s1 == Used(st, op, i) IN
              CASE op.i = "sign" -> DoSign(s1, op, i)
                [] op.i = "ss1" -> DoSignSub1(s1, op, i)
                [] op.i = "ss2" -> DoSignSub2(s1, op, i)

EnvStep(st, op) ==
    CASE op.i = "slot" -> Ok([st EXCEPT !.slot = @ + op.d])
      [] op.i = "fund" -> Ok([st EXCEPT !.ac[op.n].l = @ + op.a])
      [] op.i = "dep" -> Ok([st EXCEPT !.tk[op.n].a = @ + op.a])
      [] op.i = "freeze" -> Ok([st EXCEPT !.tk[op.n].st = op.a])
      [] op.i = "old" -> Ok([st EXCEPT !.sw[op.w].v2 = FALSE, !.sw[op.w].sub = 0])
      \* numbers given out before the history starts
      [] op.i = "ctr" -> IF Live(st, op.w) THEN Ok([st EXCEPT !.sw[op.w].ctr = op.a]) ELSE Fail
      [] op.i = "subn" -> IF Live(st, op.w) THEN Ok([st EXCEPT !.sw[op.w].sub = op.a]) ELSE Fail
      \* uses of a key counted before the history starts
      [] op.i = "odo" ->
           IF ~Live(st, op.w) THEN Fail
           ELSE LET i == RoleIdx(st.sw[op.w].ro, op.r) IN
                IF i = 0 THEN Fail
                ELSE IF Plain(st.sw[op.w].ro[i].au.t) \notin {"k1", "r1"} THEN Fail
                ELSE Ok([st EXCEPT !.sw[op.w].ro[i].au.odo = op.a])

\* the same operation a number of times, or not at all
Times(st, op, n) ==
    SX!FoldSeq(LAMBDA j, r : IF r.ok THEN Finish(r.st, WalletStep(r.st, op)) ELSE r,
               Ok(st), [j \in 1 .. n |-> j])

Apply(st, op) ==
    CASE op.i = "create" -> IF FlOk(st, op) THEN Finish(st, DoCreate(st, op)) ELSE Fail
      [] op.i \in WalletOps -> Finish(st, WalletStep(st, op))
      [] op.i \in EnvOps -> EnvStep(st, op)
      [] op.i = "bulk" -> Times(st, op.op, op.n)
      [] OTHER -> Fail
=============================================================================

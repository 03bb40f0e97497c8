------------------------------- MODULE Programs -------------------------------
(* The programs a wallet calls: system, token, stake and a scriptable puppet  *)
(* program, on the abstract accounts of st (st.ac, st.tk, st.sk, st.sc).      *)
(* env = [acting, canon, wr, sg]: the signing address, whether it really is   *)
(* the derived address, the writable accounts and the transaction's signers.  *)
EXTENDS Base

Mints == {"m1", "m2", "m3", "m4"}
\* an account the run does not observe: an empty one, a program or a mint
Acct(st, n) == IF n \in DOMAIN st.ac THEN st.ac[n]
               ELSE [l |-> 0, o |-> IF n \in {"sys", "tok", "t22", "stk", "swig", "ixs", "r1p"} \cup Puppets THEN "loader"
                                    ELSE IF n \in Mints THEN "tok" ELSE "sys", n |-> 0]
Owner(st, n) == Acct(st, n).o

NoTok == [m |-> "0", au |-> "0", a |-> 0, st |-> 0, de |-> "0", da |-> 0, cl |-> "0", o |-> <<>>]
NoSk == [d |-> 0, wd |-> "0", st |-> 0, o |-> <<>>]
NoSub2 == [ex |-> FALSE, en |-> 0, id |-> 0, sw |-> "0", as |-> "0"]
NoAcct == [l |-> 0, o |-> "sys", n |-> 0]

IxProgram(x) == CASE x.i \in {"xfer", "assign", "alloc"} -> "sys"
                  [] x.i \in {"stkw", "stksplit", "stkset", "stkcfg", "stkauth", "stkmix"} -> "stk"
                  [] x.i = "swig" -> "swig"
                  [] OTHER -> x.p
\* x.i = "swig": a call of the wallet program itself, x.op, listing the accounts x.ms
IxMetas(x) ==
    CASE x.i = "swig" -> x.ms
      [] x.i = "xfer" -> IF x.k = "ext" THEN <<x.f, x.t, IF x.p = "" THEN "sys" ELSE x.p>>
                         ELSE <<x.f, x.t>>
      [] x.i = "tok" -> IF x.k = "c" THEN <<x.f, x.mi, x.t, x.au>> ELSE <<x.f, x.t, x.au>>
      [] x.i \in {"tclose", "tappr", "stkw", "stksplit", "stkauth", "stkmix"} -> <<x.f, x.t, x.au>>
      [] x.i \in {"tsetown", "tsetclose", "tcfg"} -> <<x.f, x.au>>
      [] x.i = "burn" -> <<x.f, x.mi, x.au>>
      [] x.i \in {"assign", "alloc"} -> <<x.f>>
      [] x.i \in {"stkset", "stkcfg"} -> <<x.f, x.f, x.au>>
      [] x.i = "pup" ->
           CASE x.k \in {"w", "o", "nop", "nopl"} -> <<x.f>>
             [] x.k = "ws" -> <<x.f, x.au>>
             [] x.k = "mv" -> <<x.f, x.t>>
             [] x.k = "pull" -> <<x.f, x.t, "sys">>
             [] x.k = "tpull" -> <<x.f, x.t, x.au, x.m>>
             [] x.k = "sig" -> <<x.au>>
             [] x.k = "sig2" -> <<x.t, x.au>>
             [] x.k = "sigl" -> [j \in 1..(x.a + 1) |-> IF j <= x.a THEN x.t ELSE x.au]
             [] OTHER -> <<>>
UsesSigner(x, acting) == \E i \in DOMAIN IxMetas(x) : IxMetas(x)[i] = acting

Ok(st) == [ok |-> TRUE, st |-> st]

\* lamports from f to t; t may be an account whose balance is not observed
Move(st, f, t, a) ==
    IF Acct(st, f).l < a THEN Fail
    ELSE LET s1 == IF f \in DOMAIN st.ac THEN [st EXCEPT !.ac[f].l = @ - a] ELSE st
             s2 == IF t \in DOMAIN s1.ac THEN [s1 EXCEPT !.ac[t].l = @ + a] ELSE s1
         IN Ok(s2)

IsTok(st, p, n) == n \in DOMAIN st.tk /\ Owner(st, n) = p /\ st.ac[n].n >= 165 /\ st.tk[n].st # 0

\* may `who` move amt out of token account n?  the account after using the right
Authorise(st, n, who, amt, sg) ==
    LET t == st.tk[n] IN
    IF ~(who \in sg) \/ t.st = 2 THEN Fail
    ELSE IF t.de = who
         THEN IF t.da < amt THEN Fail
              ELSE Ok([st EXCEPT !.tk[n].da = @ - amt,
                                 !.tk[n].de = IF t.da = amt THEN "0" ELSE @])
         ELSE IF t.au # who THEN Fail ELSE Ok(st)

CloseKey(t) == IF t.cl # "0" THEN t.cl ELSE t.au

SeqWith(s, v) == IF \E i \in DOMAIN s : s[i] = v THEN s
                 ELSE SelectSeq(s, LAMBDA e : e < v) \o <<v>> \o SelectSeq(s, LAMBDA e : e > v)
Flip(s, v) == IF \E i \in DOMAIN s : s[i] = v THEN SelectSeq(s, LAMBDA e : e # v) ELSE SeqWith(s, v)

ExecTok(st, x, wr, sg) ==
    LET p == x.p IN
    CASE x.i = "tok" ->
           IF ~(x.f \in wr /\ x.t \in wr /\ IsTok(st, p, x.f) /\ IsTok(st, p, x.t)) THEN Fail
           ELSE IF st.tk[x.f].a < x.a \/ st.tk[x.f].m # st.tk[x.t].m
                   \/ (x.k = "c" /\ st.tk[x.f].m # x.mi) THEN Fail
           ELSE LET r == Authorise(st, x.f, x.au, x.a, sg) IN
                IF ~r.ok THEN Fail
                ELSE IF x.f = x.t THEN r
                ELSE Ok([r.st EXCEPT !.tk[x.f].a = @ - x.a, !.tk[x.t].a = @ + x.a])
      [] x.i = "tappr" ->
           IF ~(IsTok(st, p, x.f) /\ x.f \in wr /\ x.au \in sg) THEN Fail
           ELSE IF st.tk[x.f].au # x.au THEN Fail
           ELSE Ok([st EXCEPT !.tk[x.f].de = x.t, !.tk[x.f].da = x.a])
      [] x.i = "tsetown" ->
           IF ~(IsTok(st, p, x.f) /\ x.f \in wr /\ x.au \in sg) THEN Fail
           ELSE IF st.tk[x.f].au # x.au THEN Fail
           ELSE Ok([st EXCEPT !.tk[x.f].au = x.t, !.tk[x.f].de = "0", !.tk[x.f].da = 0])
      [] x.i = "tsetclose" ->
           IF ~(IsTok(st, p, x.f) /\ x.f \in wr /\ x.au \in sg) THEN Fail
           ELSE IF CloseKey(st.tk[x.f]) # x.au THEN Fail
           ELSE Ok([st EXCEPT !.tk[x.f].cl = x.t])
      \* bytes without a meaning of their own: the native mark, extensions
      [] x.i = "tcfg" ->
           IF ~(IsTok(st, p, x.f) /\ x.f \in wr /\ x.au \in sg) THEN Fail
           ELSE IF st.tk[x.f].au # x.au \/ x.a >= st.ac[x.f].n \/ ~(x.a \in 109 .. 120 \/ x.a >= 165) THEN Fail
           ELSE Ok([st EXCEPT !.tk[x.f].o = Flip(@, x.a)])
      [] x.i = "burn" ->
           IF ~(IsTok(st, p, x.f) /\ x.f \in wr) THEN Fail
           ELSE IF st.tk[x.f].a < x.a THEN Fail
           ELSE LET r == Authorise(st, x.f, x.au, x.a, sg) IN
                IF ~r.ok THEN Fail ELSE Ok([r.st EXCEPT !.tk[x.f].a = @ - x.a])
      [] x.i = "tclose" ->
           IF ~(IsTok(st, p, x.f) /\ x.f \in wr /\ x.t \in wr /\ x.f # x.t /\ x.au \in sg) THEN Fail
           ELSE IF st.tk[x.f].a # 0 \/ CloseKey(st.tk[x.f]) # x.au THEN Fail
           ELSE LET r == Move(st, x.f, x.t, st.ac[x.f].l) IN
                Ok([r.st EXCEPT !.ac[x.f] = NoAcct, !.tk[x.f] = NoTok])

ExecStake(st, x, wr, sg) ==
    LET to == IF x.i \in {"stkset", "stkcfg"} THEN x.f ELSE x.t IN
    IF ~(x.f \in DOMAIN st.sk /\ Owner(st, x.f) = "stk" /\ x.au \in sg) THEN Fail
    ELSE IF st.sk[x.f].wd # x.au \/ ~(x.f \in wr) \/ ~(to \in wr) THEN Fail
    ELSE CASE x.i = "stkw" -> Move(st, x.f, x.t, x.a)
           [] x.i = "stksplit" ->
                IF ~(x.t \in DOMAIN st.sk /\ Owner(st, x.t) = "stk") \/ x.t = x.f
                   \/ st.sk[x.f].d < x.a THEN Fail
                ELSE Move([st EXCEPT !.sk[x.f].d = @ - x.a, !.sk[x.t].d = @ + x.a], x.f, x.t, x.a)
           [] x.i = "stkmix" ->
                IF st.sk[x.f].d < x.b THEN Fail
                ELSE Move([st EXCEPT !.sk[x.f].d = @ - x.b], x.f, x.t, x.a)
           [] x.i = "stkset" -> Ok([st EXCEPT !.sk[x.f].d = x.a])
           \* bytes without a meaning of their own: staker, lockup, vote account, epochs
           [] x.i = "stkcfg" ->
                IF x.a >= st.ac[x.f].n \/ ~(x.a \in 4 .. 43 \/ x.a \in 76 .. 155 \/ x.a >= 164) THEN Fail
                ELSE Ok([st EXCEPT !.sk[x.f].o = Flip(@, x.a)])
           [] x.i = "stkauth" -> Ok([st EXCEPT !.sk[x.f].wd = x.t])

ExecPup(st, x, wr, sg) ==
    CASE x.k \in {"w", "ws", "o"} ->
           IF ~(x.f \in DOMAIN st.sc /\ Owner(st, x.f) = x.p /\ x.f \in wr) THEN Fail
           ELSE IF x.k = "ws" /\ ~(x.au \in sg) THEN Fail
           ELSE IF x.k = "o" THEN Ok([st EXCEPT !.sc[x.f].o = SeqWith(@, x.a)])
           ELSE Ok([st EXCEPT !.sc[x.f].v = x.a])
      [] x.k = "mv" ->
           IF ~(Owner(st, x.f) = x.p /\ x.f \in wr /\ x.t \in wr) THEN Fail
           ELSE Move(st, x.f, x.t, x.a)
      \* a program that uses the wallet's signature to transfer on its own account
      [] x.k = "pull" ->
           IF ~(x.f \in sg /\ x.f \in wr /\ x.t \in wr) \/ Owner(st, x.f) # "sys" \/ Acct(st, x.f).n # 0
           THEN Fail ELSE Move(st, x.f, x.t, x.a)
      [] x.k = "tpull" ->
           IF ~(x.m \in {"tok", "t22"}) THEN Fail
           ELSE ExecTok(st, [x EXCEPT !.i = "tok", !.p = x.m, !.k = ""], wr, sg)
      [] x.k \in {"sig", "sig2", "sigl"} -> IF x.au \in sg THEN Ok(st) ELSE Fail
      [] x.k = "fail" -> Fail
      [] OTHER -> Ok(st)

ExecSys(st, x, wr, sg) ==
    CASE x.i = "xfer" ->
           IF ~(x.f \in sg /\ x.f \in wr /\ x.t \in wr) THEN Fail
           ELSE IF Owner(st, x.f) # "sys" \/ Acct(st, x.f).n # 0 THEN Fail
           ELSE Move(st, x.f, x.t, x.a)
      [] x.i = "assign" ->
           IF ~(x.f \in sg /\ x.f \in wr) THEN Fail
           ELSE IF Owner(st, x.f) = x.p THEN Ok(st)
           ELSE IF Owner(st, x.f) # "sys" THEN Fail
           ELSE Ok([st EXCEPT !.ac[x.f].o = x.p])
      [] x.i = "alloc" ->
           IF ~(x.f \in sg /\ x.f \in wr) \/ Owner(st, x.f) # "sys" \/ Acct(st, x.f).n # 0 THEN Fail
           ELSE Ok([st EXCEPT !.ac[x.f].n = x.a])

(* ---------------------- what the runtime does at the end ---------------------- *)
RentOk(s0, s1) ==
    \A n \in DOMAIN s1.ac :
        s1.ac[n] # s0.ac[n] =>
        LET a == s1.ac[n]  b == s0.ac[n] IN
        a.l > 0 /\ a.l < Rent(a.n) =>
            /\ b.l > 0 /\ b.l < Rent(b.n) /\ b.n = a.n /\ a.l <= b.l

DeadSwig == [ex |-> "none", ctr |-> 0, sub |-> 0, v2 |-> FALSE, cl |-> "0", ro |-> <<>>,
             bad |-> "", rd |-> "", tl |-> 0]
ClosedSwig == [DeadSwig EXCEPT !.ex = "closed"]

\* accounts left without lamports disappear
Sweep(s0, s1) ==
    LET gone == {n \in DOMAIN s1.ac : s1.ac[n].l = 0 /\ s1.ac[n] # s0.ac[n]} IN
    IF gone = {} THEN s1
    ELSE [s1 EXCEPT
            !.ac = [n \in DOMAIN @ |-> IF n \in gone THEN NoAcct ELSE @[n]],
            !.tk = [n \in DOMAIN @ |-> IF n \in gone THEN NoTok ELSE @[n]],
            !.sk = [n \in DOMAIN @ |-> IF n \in gone THEN NoSk ELSE @[n]],
            !.sc = [n \in DOMAIN @ |-> IF n \in gone THEN [v |-> -1, o |-> <<>>] ELSE @[n]],
            !.s2 = [n \in DOMAIN @ |-> IF n \in gone THEN NoSub2 ELSE @[n]],
            !.sw = [w \in DOMAIN @ |-> IF ("sw:" \o w) \in gone THEN DeadSwig ELSE @[w]]]

Finish(s0, r) == IF ~r.ok THEN Fail
                 ELSE IF ~RentOk(s0, r.st) THEN Fail
                 ELSE Ok(Sweep(s0, r.st))
=============================================================================

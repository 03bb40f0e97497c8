---------------------------------- MODULE MC ----------------------------------
(* Bounded models of the wallet.  A model names its alphabet: the operations  *)
(* tried in a state; every one of them is taken from every state reachable    *)
(* within Depth steps.  Checked in every step: the listed properties, as      *)
(* Props.tla puts them for one step; checked in every state: Inv, over the    *)
(* state and what the ghost variable remembers of the history.                *)
(* Every edge is also printed; the harness takes all of them with the real    *)
(* program, and what it did is judged by Trace.tla.                           *)
EXTENDS Props, Json, IOUtils
CONSTANTS Alphabet(_, _),       \* the operations tried, given state and depth
          Ghost0(_),            \* memory: at first, and after a step
          Ghost(_, _, _, _),
          Inv(_, _)             \* what must hold of state and memory

Start == JsonDeserialize(IOEnv.START)
Depth == Start.depth
Shard == Start.shard

VARIABLES st, g, path
Init == st = Start.st /\ g = Ghost0(Start.st) /\ path = <<>>
Next == /\ Len(path) < Depth
        /\ LET A == Alphabet(st, Len(path)) IN \E k \in DOMAIN A :
             LET op == A[k]  r == Apply(st, op) IN
             /\ PrintT("E " \o ToJson(<<path, k, op, r.ok>>))
             /\ r.ok
             /\ LET b == Broken(st, op, r.st) IN IF b = {} THEN TRUE ELSE Assert(FALSE, <<"BROKEN", b, op>>)
             /\ st' = r.st
             /\ g' = Ghost(g, st, op, r.st)
             /\ path' = Append(path, k)
View == <<st, g>>
Holds == Inv(st, g)

(* ------------------------------ operations ------------------------------ *)
Act(p) == [NoAct EXCEPT !.p = p]
ActA(p, k, a) == [NoAct EXCEPT !.p = p, !.k = k, !.a = a]
ActR(s, p, k, a, w) == [NoAct EXCEPT !.p = p, !.k = k, !.a = a, !.l = a, !.w = w, !.r = s.z0]
ActDest(s, p, k, k2, a, w) == [NoAct EXCEPT !.p = p, !.k = k, !.k2 = k2, !.a = a, !.l = IF w = 0 THEN 0 ELSE a,
                                            !.w = w, !.r = IF w = 0 THEN 0 ELSE s.z0]
ActId(p, n) == [NoAct EXCEPT !.p = p, !.id = n]

AuEd(k) == [t |-> "ed", k |-> k, fx |-> "", mx |-> 0, sk |-> "0"]
AuT(t, k, mx) == [t |-> t, k |-> k, fx |-> "", mx |-> mx, sk |-> "0"]

PfEd(k) == [m |-> "ed", by |-> k, c |-> 0, sl |-> 0, v |-> "ok"]
\* a valid proof for role r of wallet w, for an operation of kind i
Pf(s, w, r, i) ==
    LET ro == s.sw[w].ro
        j == IF s.sw[w].ex = "live" THEN RoleIdx(ro, r) ELSE 0
    IN IF j = 0 THEN PfEd("e5")
       ELSE LET au == ro[j].au IN
            IF IsSession(au.t) /\ i # "sess" THEN PfEd(IF au.sk = "0" THEN "e5" ELSE au.sk)
            ELSE CASE Plain(au.t) = "ed" -> PfEd(au.k)
                   [] Plain(au.t) \in {"k1", "r1"} ->
                        [m |-> Plain(au.t), by |-> au.k, c |-> au.odo + 1, sl |-> s.slot, v |-> "ok"]
                   [] OTHER -> [m |-> "pe", by |-> au.k, c |-> 0, sl |-> 0, v |-> "ok"]

NoMu == [m |-> ""]
Create(w, au, acts) == [i |-> "create", w |-> w, pay |-> "pay", au |-> au, acts |-> acts, mu |-> NoMu, fl |-> ""]
Add(s, w, r, au, acts) == [i |-> "add", w |-> w, r |-> r, pay |-> "pay", au |-> au, acts |-> acts, mu |-> NoMu,
                           fl |-> "", pf |-> Pf(s, w, r, "add")]
Rem(s, w, r, t) == [i |-> "rem", w |-> w, r |-> r, pay |-> "pay", tgt |-> t, fl |-> "", pf |-> Pf(s, w, r, "rem")]
UpdOp(s, w, r, t, m, acts, tys, idx) ==
    [i |-> "upd", w |-> w, r |-> r, pay |-> "pay", tgt |-> t, m |-> m, acts |-> acts, tys |-> tys, idx |-> idx,
     mu |-> NoMu, fl |-> "", pf |-> Pf(s, w, r, "upd")]
Repl(s, w, r, t, key, kl) ==
    [i |-> "repl", w |-> w, r |-> r, tgt |-> t, key |-> key, nk |-> key, kl |-> kl, fl |-> "",
     cur |-> IF s.sw[w].ex = "live" /\ HasRole(s.sw[w], t) THEN [t |-> RoleOf(s.sw[w], t).au.t, k |-> RoleOf(s.sw[w], t).au.k]
             ELSE [t |-> "ed", k |-> "e5"],
     pf |-> Pf(s, w, r, "repl")]
Sess(s, w, r, key, dur) == [i |-> "sess", w |-> w, r |-> r, pay |-> "pay", key |-> key, dur |-> dur, fl |-> "",
                            pf |-> Pf(s, w, r, "sess")]
Slot(d) == [i |-> "slot", d |-> d]
Fund(n, a) == [i |-> "fund", n |-> n, a |-> a]

NoIx == [i |-> "", f |-> "", t |-> "", a |-> 0, p |-> "", m |-> "", au |-> "wa:A", k |-> "", mi |-> "m1"]
Xfer(f, t, a) == [NoIx EXCEPT !.i = "xfer", !.f = f, !.t = t, !.a = a, !.p = "sys", !.au = f]
TokX(p, f, t, a, mi, au) == [NoIx EXCEPT !.i = "tok", !.f = f, !.t = t, !.a = a, !.p = p, !.mi = mi, !.au = au]
TokC(p, f, t, a, mi, au) == [TokX(p, f, t, a, mi, au) EXCEPT !.k = "c"]
Ix(i, p, f, t, a) == [NoIx EXCEPT !.i = i, !.p = p, !.f = f, !.t = t, !.a = a]
Pup(p, k, f, t, a) == [NoIx EXCEPT !.i = "pup", !.p = p, !.f = f, !.t = t, !.a = a, !.k = k]
\* transfers a program makes on its own with the signature it is given
Pull(f, t, a) == [Pup("pA", "pull", f, t, a) EXCEPT !.au = f]
TPull(p, f, t, a, au) == [Pup("pA", "tpull", f, t, a) EXCEPT !.au = au, !.m = p]

\* a call of the wallet program, from inside a batch
Via(op) == ("via" :> TRUE) @@ op
Call(op) == LET x == [NoIx EXCEPT !.i = "swig"] IN
            [f \in DOMAIN x \cup {"op", "ms"} |-> IF f = "op" THEN op ELSE IF f = "ms" THEN Metas(op) ELSE x[f]]

RECURSIVE Uniq(_, _)
Uniq(s, skip) == IF s = <<>> THEN <<>>
                 ELSE LET h == Head(s) IN
                      IF h \in skip THEN Uniq(Tail(s), skip) ELSE <<h>> \o Uniq(Tail(s), skip \cup {h})
RECURSIVE AllMetas(_)
AllMetas(ixs) == IF ixs = <<>> THEN <<>>
                 ELSE IxMetas(Head(ixs)) \o <<IxProgram(Head(ixs))>> \o AllMetas(Tail(ixs))
\* the accounts a batch needs beyond the fixed ones
Ls(ixs, fixed) == Uniq(AllMetas(ixs), fixed)

SignBy(w, r, pf, ixs) ==
    [i |-> "sign", w |-> w, r |-> r, k1 |-> "wa:" \o w, ls |-> Ls(ixs, {"sw:" \o w, "wa:" \o w, "sys"}),
     os |-> <<>>, ro |-> <<>>, ix |-> ixs, enc |-> "o", fl |-> "", pf |-> pf]
Sign(s, w, r, ixs) == SignBy(w, r, Pf(s, w, r, "sign"), ixs)

NoTokX == [f |-> "", t |-> "", p |-> "tok"]
Cs1(s, w, r, sub) == [i |-> "cs1", w |-> w, r |-> r, pay |-> "pay", sub |-> sub, fl |-> "", pf |-> Pf(s, w, r, "cs1")]
Tg1(s, w, r, tr, sub, en) == [i |-> "tg1", w |-> w, r |-> r, tr |-> tr, pay |-> "pay", sub |-> sub, en |-> en, fl |-> "",
                              pf |-> Pf(s, w, r, "tg1")]
Wd1(s, w, r, sub, a, tok) == [i |-> "wd1", w |-> w, r |-> r, sub |-> sub, pay |-> "pay", k1 |-> "wa:" \o w, a |-> a, tok |-> tok,
                              fl |-> "", pf |-> Pf(s, w, r, "wd1")]
Ss1(s, w, r, sub, ixs) == [i |-> "ss1", w |-> w, r |-> r, sub |-> sub, ls |-> Ls(ixs, {"sw:" \o w, sub, "sys"}), os |-> <<>>,
                           ro |-> <<>>, ix |-> ixs, enc |-> "o", fl |-> "", pf |-> Pf(s, w, r, "ss1")]
Cs2(s, w, r, n) == [i |-> "cs2", w |-> w, r |-> r, n |-> n, pay |-> "pay", fl |-> "", pf |-> Pf(s, w, r, "cs2")]
Tg2(s, w, r, n, en) == [i |-> "tg2", w |-> w, r |-> r, n |-> n, en |-> en, pay |-> "pay", fl |-> "", pf |-> Pf(s, w, r, "tg2")]
Wd2(s, w, r, n, a, tok) == [i |-> "wd2", w |-> w, r |-> r, n |-> n, a |-> a, tok |-> tok, pay |-> "pay", k1 |-> "wa:" \o w, fl |-> "",
                            pf |-> Pf(s, w, r, "wd2")]
Ss2(s, w, r, n, ixs) == [i |-> "ss2", w |-> w, r |-> r, n |-> n, os |-> <<>>, ro |-> <<>>, ix |-> ixs, enc |-> "o", fl |-> "",
                         ls |-> Ls(ixs, {"sw:" \o w, StName(w, n), AsName(w, n), "sys"}), pf |-> Pf(s, w, r, "ss2")]
\* naming another wallet's, or another number's, state or asset account
Sn(op, w) == [x \in DOMAIN op \cup {"sn"} |-> IF x = "sn" THEN w ELSE op[x]]
Si(op, n) == [x \in DOMAIN op \cup {"si"} |-> IF x = "si" THEN n ELSE op[x]]
Ai(op, n) == [x \in DOMAIN op \cup {"ai"} |-> IF x = "ai" THEN n ELSE op[x]]
Claim(s, w, r, key) == [i |-> "claim", w |-> w, r |-> r, pay |-> "pay", key |-> key, fl |-> "", pf |-> Pf(s, w, r, "claim")]
CloseTok(s, w, r, dst, ls) == [i |-> "closetok", w |-> w, r |-> r, dst |-> dst, ls |-> ls, off |-> 0, p |-> "tok", fl |-> "",
                               pf |-> Pf(s, w, r, "closetok")]
CloseSwig(s, w, r, dst) == [i |-> "closeswig", w |-> w, r |-> r, dst |-> dst, fl |-> "", pf |-> Pf(s, w, r, "closeswig")]
Mig(s, w, r) == [i |-> "mig", w |-> w, r |-> r, pay |-> "pay", fl |-> "", pf |-> Pf(s, w, r, "mig")]
XAssets(s, w, r, tr) == [i |-> "xassets", w |-> w, r |-> r, pay |-> "pay", tr |-> tr, fl |-> "", pf |-> Pf(s, w, r, "xassets")]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
===============================================================================

-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by every part of the specification: permissions,        *)
(* authorities, sizes, rent and the accounting of spending limits.           *)
(*                                                                           *)
(* Units.  Lamports are counted in units of two lamports-per-byte-year, so   *)
(* the rent-exempt minimum of an n byte account is exactly 128 + n units.    *)
(* Token amounts are counted in units of a scale chosen per run.  Slots are  *)
(* relative to a base slot; a stored raw zero is st.z0.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SX == INSTANCE SequencesExt
FX == INSTANCE Functions

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Monus(a, b) == IF a >= b THEN a - b ELSE 0
Get(op, f, d) == IF f \in DOMAIN op THEN op[f] ELSE d
ToSet(s) == {s[i] : i \in DOMAIN s}
Pad8(n) == ((n + 7) \div 8) * 8

\* programs of the environment; ~N is a program whose id is one byte off that of N
Puppets == {"pA", "pB", "pC", "~sys", "~tok", "~t22", "~stk"}

SumSeq(s) == SX!FoldSeq(LAMBDA x, n : n + x, 0, s)
\* the least of a set of positions; 0 if there is none
Least(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* the elements of s whose index satisfies keep
KeepIdx(s, i, drop) ==
    SX!FoldSeq(LAMBDA j, t : IF j < i \/ j \in drop THEN t ELSE Append(t, s[j]), <<>>, [j \in DOMAIN s |-> j])

Rent(n) == 128 + n

(* ------------------------------ permissions ------------------------------ *)
SolLimit == 1          SolRec == 2           Program == 3       ProgScope == 4
TokLimit == 5          TokRec == 6           All == 7           Manage == 8
SubAcct == 9           StakeLimit == 10      StakeRec == 11     StakeAll == 12
ProgAll == 13          ProgCurated == 14     AllButManage == 15 SolDest == 16
SolRecDest == 17       TokDest == 18         TokRecDest == 19   CloseAuth == 20
ReplaceAuth == 21      V2Create == 22        V2All == 23        V2Sign == 24
V2Withdraw == 25       V2Toggle == 26
Known == 1..26
V2Scoped == {V2All, V2Sign, V2Withdraw, V2Toggle}

ActLenT == <<8, 32, 32, 144, 40, 64, 0, 0, 72, 8, 32, 0, 0, 32, 0, 40, 64, 72, 96,
             0, 8, 0, 8, 8, 8, 8>>
ActLen(p) == ActLenT[p]
ActsLen(ac) == SX!FoldSeq(LAMBDA a, n : n + 8 + ActLen(a.p), 0, ac)

NoAct == [p |-> 0, k |-> "0", k2 |-> "0", a |-> 0, l |-> 0, w |-> 0, r |-> 0, id |-> 0,
          s |-> <<0, 0, 0>>]

\* first permission at or after i of kind p satisfying the key test; 0 if none
FirstP(a, p, i) == Least({j \in DOMAIN a : j >= i /\ a[j].p = p})
FirstK(a, p, k, i) == Least({j \in DOMAIN a : j >= i /\ a[j].p = p /\ a[j].k = k})
FirstKK(a, p, k, k2, i) == Least({j \in DOMAIN a : j >= i /\ a[j].p = p /\ a[j].k = k /\ a[j].k2 = k2})
Has(a, p) == \E i \in DOMAIN a : a[i].p = p
HasK(a, p, k) == \E i \in DOMAIN a : a[i].p = p /\ a[i].k = k
HasId(a, p, n) == \E i \in DOMAIN a : a[i].p = p /\ a[i].id = n
CanManage(a) == Has(a, All) \/ Has(a, Manage)

(* ------------------------------ authorities ------------------------------ *)
Plain(t) == IF t = "eds" THEN "ed" ELSE IF t = "k1s" THEN "k1" ELSE IF t = "r1s" THEN "r1"
            ELSE IF t = "pes" THEN "pe" ELSE t
IsSession(t) == t \in {"eds", "k1s", "r1s", "pes"}
AuthLen(t) == CASE t = "ed" -> 32 [] t = "eds" -> 80 [] t \in {"k1", "r1"} -> 40
              [] t \in {"k1s", "r1s"} -> 88 [] t = "pe" -> 80 [] t = "pes" -> 128
RoleLen(r) == 16 + AuthLen(r.au.t) + ActsLen(r.ac)
RolesLen(ro) == SX!FoldSeq(LAMBDA r, n : n + RoleLen(r), 0, ro)
SwigLen(s) == 48 + RolesLen(s.ro) + (IF s.cl = "0" THEN 0 ELSE 40)

\* where the role numbered id is; role numbers are unique (C02)
RoleIdx(ro, id) ==
    IF \E i \in DOMAIN ro : ro[i].id = id THEN CHOOSE i \in DOMAIN ro : ro[i].id = id ELSE 0

(* --------------------------- well-formed permissions --------------------------- *)
NumWidth(t) == CASE t = 0 -> 1 [] t = 1 -> 4 [] t = 2 -> 8 [] t = 3 -> 16 [] OTHER -> -1

\* a permission as it may be submitted: exact shape, fresh usage state
FreshAct(st, a) ==
    CASE a.p \in {SolRec, TokRec, StakeRec} -> a.w # 0 /\ a.a = a.l /\ a.r = st.z0
      [] a.p \in {SolRecDest, TokRecDest} -> a.w # 0 /\ a.a <= a.l
      [] a.p = SubAcct -> a.k = "0"
      [] a.p = ProgScope -> ~(a.id = 2 /\ a.w = 0)
      [] OTHER -> a.p \in Known

NoDupScoped(acts) ==
    /\ \A i, j \in DOMAIN acts :
          i < j /\ acts[i].p = acts[j].p => ~(acts[i].p \in V2Scoped /\ acts[i].id = acts[j].id)
    /\ Cardinality({i \in DOMAIN acts : acts[i].p = V2Create}) <= 1

\* mutations of the submitted encoding that leave its meaning alone
BenignMu == {"", "bd0", "bdx", "hide"}
\* does the mutated encoding still denote the list it was made from?
EncOk(op) ==
    LET m == op.mu.m  j == Get(op.mu, "j", 0) + 1  n == Len(op.acts)  last == op.acts[n] IN
    \/ m \in BenignMu
    \/ m \in {"type", "type0", "long", "short", "lenhdr", "lenhdr1", "lenbig", "empty"} /\ j > n

StoredAct(a) == IF a.p = SubAcct THEN [NoAct EXCEPT !.p = SubAcct] ELSE a
\* permission list given in op.acts: accepted?
ActsOk(st, op) ==
    /\ op.acts # <<>> /\ Len(op.acts) <= 255
    /\ EncOk(op)
    /\ \A i \in DOMAIN op.acts : op.acts[i].p \in Known /\ FreshAct(st, op.acts[i])
    /\ NoDupScoped(op.acts)

(* ------------------------------ spending limits ------------------------------ *)
AlignSlot(slot, w) == IF w >= 2000000000 THEN -1 ELSE (slot \div w) * w

\* result of charging amt against permission a in slot: [ok, a]
Charge(st, a, amt) ==
    CASE a.p \in {SolLimit, TokLimit, StakeLimit, SolDest, TokDest} ->
           [ok |-> a.a >= amt, a |-> [a EXCEPT !.a = @ - amt]]
      [] a.p \in {SolRec, TokRec, StakeRec} ->
           LET reset == st.slot - a.r > a.w /\ amt <= a.l
               b == IF reset THEN [a EXCEPT !.a = a.l, !.r = AlignSlot(st.slot, a.w)] ELSE a
           IN [ok |-> b.a >= amt, a |-> [b EXCEPT !.a = @ - amt]]
      [] a.p \in {SolRecDest, TokRecDest} ->
           LET reset == Monus(st.slot, a.r) > a.w /\ amt <= a.l
               b == IF reset THEN [a EXCEPT !.a = a.l, !.r = st.slot] ELSE a
           IN [ok |-> b.a >= amt, a |-> [b EXCEPT !.a = @ - amt]]
      [] a.p = ProgScope ->
           CASE a.id = 0 -> [ok |-> TRUE, a |-> a]
             [] a.id = 1 -> [ok |-> a.a + amt <= a.l, a |-> [a EXCEPT !.a = @ + amt]]
             [] a.id = 2 ->
                  LET b == IF st.slot - a.r > a.w
                           THEN [a EXCEPT !.a = 0, !.r = AlignSlot(st.slot, a.w)] ELSE a
                  IN [ok |-> b.a + amt <= b.l, a |-> [b EXCEPT !.a = @ + amt]]
             [] OTHER -> [ok |-> FALSE, a |-> a]

Fail == [ok |-> FALSE]
=============================================================================

-------------------------------- MODULE Trace --------------------------------
(* Is a recorded run of the real program a run of the specification, and does *)
(* every step of it keep the listed properties?  Each line of the run is      *)
(* judged on its own: from the last recorded state before it, the             *)
(* specification must take the same decision and reach the same state.        *)
(* Disagreements are printed and the run goes on.                              *)
EXTENDS Props, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

Before(k) == T[T[k].p].st
Same(k) == "st" \notin DOMAIN T[k]
After(k) == IF Same(k) THEN Before(k) ELSE T[k].st

\* calls whose outcome the specification leaves open: a wallet that was never
\* migrated has no usable signing seeds
MayRefuse(st, op) ==
  \/ \E j \in Inside(op) : op.ix[j].op.i = "claim" /\ ~st.sw[op.ix[j].op.w].v2
  \/
    /\ op.i \in {"claim", "sign"} /\ Live(st, op.w) /\ ~st.sw[op.w].v2
    /\ op.i = "sign" => op.ix # <<>>

Report(k, what, st, props) ==
    PrintT("DIVERGE " \o ToJson([k |-> k, op |-> T[k].op.i, what |-> what, props |-> props, st |-> st]))

\* a list of instructions was encoded, perhaps damaged, and read back by the program's own iterator
Compact == INSTANCE Compact
JudgeList(k) ==
    LET op == T[k].op
        want == Compact!Decoded(op.by, op.ac2, op.me, ToSet(op.rk))
        client == op.enc \in {"c", "s"}
        fits == op.mu = <<>> /\ Len(op.ac2) <= 256 /\ Len(op.int) <= 255
                /\ \A j \in DOMAIN op.int : Len(op.int[j].a) <= Compact!MaxAccounts
    IN IF \A j \in DOMAIN op.got : op.got[j] = want
       THEN IF (fits => Compact!Same(want, op.int))
               /\ (client => Compact!Lists(op.ac, op.ac1, op.int, op.rt, {op.me} \cup (IF op.enc = "s" THEN {op.ac[1][1]} ELSE {})))
            THEN TRUE ELSE Report(k, "encoded", 0, {"C25"})
       ELSE Report(k, "decoded", [er |-> want.er, n |-> Len(want.ix)], {"C25"})

\* steps on the bytes of a wallet account
Layout == INSTANCE Layout
JudgeBytes(k) ==
    LET w == Layout!Wrong(T[k].op)
        prop(x) == IF x.q.s = "dmg" THEN {"C28"}
                   ELSE IF x.q.s = "tail" THEN {"C23"}
                   ELSE IF x.q.s = "rem" THEN {"C01", "C02", "C28"}
                   ELSE IF x.ok # x.q.ok THEN {"C19"} ELSE {"C02", "C19", "C28"}
    IN IF w = <<>> THEN TRUE ELSE Report(k, "bytes", w, UNION {prop(w[j]) : j \in DOMAIN w})

Judge(k) ==
    LET st == Before(k)  op == T[k].op
        r == Apply(st, op)
        b == Blame(st, op, r, T[k].ok, After(k), T[k].w)
        broken == IF T[k].ok THEN Broken(st, op, After(k)) ELSE {}
        same == r.ok = T[k].ok /\ (IF r.ok THEN r.st = After(k) ELSE Same(k))
    IN IF same THEN (IF broken = {} THEN TRUE ELSE Report(k, "broken", 0, broken))
       ELSE IF r.ok /\ ~T[k].ok /\ MayRefuse(st, op) /\ Same(k) THEN TRUE
       ELSE Report(k, IF r.ok # T[k].ok THEN (IF r.ok THEN "refused" ELSE "accepted")
                      ELSE IF r.ok THEN "state" ELSE "leftover",
                   IF r.ok THEN r.st ELSE 0, b \cup broken)

VARIABLE k
Init == k = 1
Next == /\ k < Len(T)
        /\ k' = k + 1
        /\ IF T[k'].op.i = "init" THEN TRUE ELSE IF T[k'].op.i = "dec" THEN JudgeList(k')
           ELSE IF T[k'].op.i = "lay" THEN JudgeBytes(k') ELSE Judge(k')
Done == k = Len(T) => PrintT(<<"JUDGED", k>>)
=============================================================================

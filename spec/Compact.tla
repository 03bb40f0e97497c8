------------------------------- MODULE Compact -------------------------------
(* The compact encoding of a list of instructions, byte by byte:             *)
(*   number of instructions, then for each: index of the program, number of  *)
(*   accounts, their indexes, length of the data (two bytes, low first), the  *)
(*   data.  Indexes point into the account list of the outer instruction.     *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL SX == INSTANCE SequencesExt

MaxAccounts == 254

\* rights an inner instruction gets for entry e of the account list
Right(e, me, rk) ==
    LET s == (e[1] = me \/ e[2] = 1) /\ e[1] \notin rk IN <<e[1], IF s THEN 1 ELSE 0, e[3]>>

\* reads one more instruction at position s.c of b
ReadOne(b, ac, me, rk, s) ==
    LET c == s.c  N == Len(b)
        no == [s EXCEPT !.er = TRUE]
    IN IF s.er \/ c + 1 > N THEN no
       ELSE LET p == b[c] + 1  na == b[c + 1]  d0 == c + 2 + na IN
            IF p > Len(ac) \/ na > MaxAccounts \/ d0 + 1 > N THEN no
            ELSE IF \E j \in 1..na : b[c + 1 + j] >= Len(ac) THEN no
            ELSE LET dl == b[d0] + 256 * b[d0 + 1]
                     a == [j \in 1..na |-> Right(ac[b[c + 1 + j] + 1], me, rk)]
                 IN IF d0 + 1 + dl > N THEN no
                    ELSE [c |-> d0 + 2 + dl, er |-> FALSE,
                          ix |-> Append(s.ix, [p |-> ac[p][1], a |-> a, d |-> SubSeq(b, d0 + 2, d0 + 1 + dl),
                                               u |-> \E j \in 1..na : a[j][1] = me /\ a[j][2] = 1])]

\* everything up to the first instruction that cannot be read
Decoded(b, ac, me, rk) ==
    IF b = <<>> THEN [er |-> TRUE, ix |-> <<>>]
    ELSE LET r == SX!FoldSeq(LAMBDA k, s : IF s.er THEN s ELSE ReadOne(b, ac, me, rk, s),
                             [c |-> 2, er |-> FALSE, ix |-> <<>>], [k \in 1..b[1] |-> k])
         IN [er |-> r.er, ix |-> r.ix]

\* what an encoder may make of the list `int` meant for the accounts `ac`:
\* `ac1` is the longer account list, rt the rights every account needs
Lists(ac, ac1, int, rt, hidden) ==
    /\ Len(ac1) >= Len(ac) /\ SubSeq(ac1, 1, Len(ac)) = ac
    /\ \A j \in Len(ac) + 1..Len(ac1) :
         LET e == ac1[j] IN
         \/ e[2] = 0 /\ e[3] = 0 /\ \E k \in DOMAIN int : int[k].p = e[1]
         \/ /\ \E k \in DOMAIN int : \E i \in DOMAIN int[k].a : int[k].a[i] = e[1]
            /\ e[3] = rt[e[1]][2]
            /\ e[2] = (IF e[1] \in hidden THEN 0 ELSE rt[e[1]][1])

\* decoding gives back what was meant
Same(dec, int) ==
    /\ ~dec.er /\ Len(dec.ix) = Len(int)
    /\ \A k \in DOMAIN int :
         /\ dec.ix[k].p = int[k].p /\ dec.ix[k].d = int[k].d
         /\ [j \in DOMAIN dec.ix[k].a |-> dec.ix[k].a[j][1]] = int[k].a
=============================================================================

------------------------------- MODULE Layout --------------------------------
(* The wallet account, byte by byte:                                          *)
(*   header (48): 1, bump, id (32), roles (2), next role (4), bump of the      *)
(*   wallet address, 3 zeros, next sub-account (4)                             *)
(*   roles: kind (2), length of the authority (2), number of permissions (2),  *)
(*   2 zeros, id (4), end of the role (4), authority, permissions              *)
(*   permission: kind (2), length (2), end within the list (4), value          *)
(*   tail: nothing, or one rent-claimer record (40)                            *)
(* and what the library may make of arbitrary bytes offered as authority,      *)
(* permission list or tail.  Numbers are stored low byte first.                *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL SX == INSTANCE SequencesExt

Z(n) == [j \in 1..n |-> 0]
\* bytes o .. o+n-1, counted from zero
At(b, o, n) == SubSeq(b, o + 1, o + n)
Num(b, o, n) == IF n = 2 THEN b[o + 1] + 256 * b[o + 2]
                ELSE b[o + 1] + 256 * (b[o + 2] + 256 * (b[o + 3] + 256 * b[o + 4]))
Two(n) == <<n % 256, n \div 256>>
Four(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
\* equal-length numbers of any width
Leq(x, y) == \/ x = y
             \/ LET d == CHOOSE j \in DOMAIN x : x[j] # y[j] /\ \A i \in j + 1..Len(x) : x[i] = y[i] IN x[d] < y[d]
NonZero(x) == \E j \in DOMAIN x : x[j] # 0

(* ------------------------------ permissions ------------------------------ *)
Size == <<8, 32, 32, 144, 40, 64, 0, 0, 72, 8, 32, 0, 0, 32, 0, 40, 64, 72, 96, 0, 8, 0, 8, 8, 8, 8>>

\* a fresh permission of kind t with value d
WellFormed(t, d) ==
    /\ t \in 1..26 /\ Len(d) = Size[t]
    /\ CASE t \in {2, 11} -> At(d, 0, 8) = At(d, 24, 8) /\ NonZero(At(d, 8, 8)) /\ ~NonZero(At(d, 16, 8))
         [] t = 6 -> At(d, 40, 8) = At(d, 48, 8) /\ NonZero(At(d, 32, 8)) /\ ~NonZero(At(d, 56, 8))
         [] t = 17 -> NonZero(At(d, 40, 8)) /\ Leq(At(d, 56, 8), At(d, 32, 8))
         [] t = 19 -> NonZero(At(d, 72, 8)) /\ Leq(At(d, 88, 8), At(d, 64, 8))
         [] t = 4 -> d[113] = 2 => NonZero(At(d, 32, 8))
         [] t = 9 -> ~NonZero(At(d, 0, 32))
         [] OTHER -> TRUE

\* the permissions in b, as far as they can be told apart
Listed(b) ==
    LET one(k, s) ==
            IF s.er \/ s.c = Len(b) THEN s
            ELSE IF s.c + 8 > Len(b) THEN [s EXCEPT !.er = TRUE]
            ELSE LET n == Num(b, s.c + 2, 2) IN
                 IF s.c + 8 + n > Len(b) THEN [s EXCEPT !.er = TRUE]
                 ELSE [c |-> s.c + 8 + n, er |-> FALSE, l |-> Append(s.l, <<Num(b, s.c, 2), At(b, s.c + 8, n)>>)]
    IN SX!FoldSeq(one, [c |-> 0, er |-> FALSE, l |-> <<>>], [j \in 1..(Len(b) \div 8) + 1 |-> j])

\* what distinguishes two permissions of the newer sub-accounts
Mark(x) == IF x[1] = 22 THEN <<22, << >> >> ELSE <<x[1], At(x[2], 0, 4)>>

GoodList(p) ==
    /\ ~p.er /\ Len(p.l) \in 1..255
    /\ \A j \in DOMAIN p.l : WellFormed(p.l[j][1], p.l[j][2])
    /\ \A i, j \in DOMAIN p.l : i < j /\ p.l[i][1] \in 22..26 /\ p.l[j][1] \in 22..26 => Mark(p.l[i]) # Mark(p.l[j])

Stored(l) ==
    SX!FoldSeq(LAMBDA x, s : s \o Two(x[1]) \o Two(Len(x[2])) \o Four(Len(s) + 8 + Len(x[2])) \o x[2], <<>>, l)

\* the first permission of kind t in bytes nobody has checked
Found(b, t) ==
    LET p == Listed(b)
        hit == {j \in DOMAIN p.l : p.l[j][1] = t}
    IN IF hit # {} THEN LET d == p.l[CHOOSE j \in hit : \A i \in hit : j <= i][2] IN
                        IF Len(d) = Size[t] THEN [r |-> "found", d |-> d] ELSE [r |-> "error", d |-> <<>>]
       ELSE [r |-> IF p.er THEN "error" ELSE "none", d |-> <<>>]

(* ------------------------------ authorities ------------------------------ *)
Pressed(k) == <<2 + (k[64] % 2)>> \o At(k, 0, 32)

\* what is stored for an authority of kind t made from bytes d; nothing when refused
Authority(t, d, me) ==
    LET n == Len(d) IN
    CASE t = 1 -> IF n = 32 THEN d ELSE <<>>
      [] t = 2 -> IF n = 72 THEN d \o Z(8) ELSE <<>>
      [] t = 3 -> IF n = 33 THEN d \o Z(7) ELSE IF n = 64 THEN Pressed(d) \o Z(7) ELSE <<>>
      [] t = 4 -> IF n # 104 THEN <<>>
                  ELSE (IF NonZero(At(d, 33, 31)) THEN Pressed(d) ELSE At(d, 0, 33)) \o Z(7) \o At(d, 64, 40) \o Z(8)
      [] t = 5 -> IF n = 33 THEN d \o Z(7) ELSE <<>>
      [] t = 6 -> IF n = 80 THEN At(d, 0, 33) \o Z(7) \o At(d, 40, 40) \o Z(8) ELSE <<>>
      [] t = 7 -> IF n # 80 THEN <<>>
                  ELSE IF d[33] > 40 \/ At(d, 0, 32) = me THEN <<>>
                  ELSE At(d, 0, 33) \o Z(7) \o At(d, 40, d[33]) \o Z(40 - d[33])
      [] t = 8 -> IF n # 128 THEN <<>>
                  ELSE IF d[33] > 40 \/ At(d, 0, 32) = me THEN <<>>
                  ELSE At(d, 0, 33) \o Z(7) \o At(d, 40, 80) \o Z(8)
      [] OTHER -> <<>>

(* -------------------------------- the tail ------------------------------- *)
\* the records in b: each is kind, version, length (2), 4 bytes, value
Records(b) ==
    LET one(k, s) ==
            IF s.er \/ s.c = Len(b) THEN s
            ELSE IF s.c + 8 > Len(b) THEN [s EXCEPT !.er = TRUE]
            ELSE LET n == Num(b, s.c + 2, 2) IN
                 IF s.c + 8 + n > Len(b) THEN [s EXCEPT !.er = TRUE]
                 ELSE [c |-> s.c + 8 + n, er |-> FALSE, l |-> Append(s.l, [k |-> b[s.c + 1], v |-> At(b, s.c + 8, n)])]
    IN SX!FoldSeq(one, [c |-> 0, er |-> FALSE, l |-> <<>>], [j \in 1..(Len(b) \div 8) + 1 |-> j])

\* the only tails a wallet may have
GoodTail(b) == b = <<>> \/ (Len(b) = 40 /\ At(b, 0, 8) = <<1, 1, 32, 0, 0, 0, 0, 0>>)

\* the claimer named first among any records
Claimer(b) ==
    LET p == Records(b)
        hit == {j \in DOMAIN p.l : p.l[j].k = 1}
    IN IF hit # {} THEN LET v == p.l[CHOOSE j \in hit : \A i \in hit : j <= i].v IN
                        IF Len(v) = 32 THEN [r |-> "found", d |-> v] ELSE [r |-> "error", d |-> <<>>]
       ELSE [r |-> IF p.er THEN "error" ELSE "none", d |-> <<>>]
Strict(b) == IF ~GoodTail(b) THEN [r |-> "error", d |-> <<>>]
             ELSE IF b = <<>> THEN [r |-> "none", d |-> <<>>] ELSE [r |-> "found", d |-> At(b, 8, 32)]
All(b) == LET p == Records(b) IN
          IF p.er \/ \E j \in DOMAIN p.l : p.l[j].k = 1 /\ Len(p.l[j].v) # 32 THEN [r |-> "error", l |-> <<>>]
          ELSE [r |-> "found", l |-> p.l]
Readings(b) == [strict |-> Strict(b), first |-> Claimer(b), all |-> All(b)]

(* ------------------------------ the account ------------------------------ *)
\* a.h: parts of the header, a.l: the roles, a.t: the tail
Role(r, end) == Two(r.k) \o Two(Len(r.au)) \o Two(Len(r.ac)) \o Z(2) \o Four(r.id) \o Four(end) \o r.au \o Stored(r.ac)
Roles(l) == SX!FoldSeq(LAMBDA r, s : s \o Role(r, Len(s) + 16 + Len(r.au) + Len(Stored(r.ac))), <<>>, l)
Bytes(a) ==
    <<1, a.h.bump>> \o a.h.id \o Two(Len(a.l)) \o Four(a.h.next) \o <<a.h.wb>> \o Z(3) \o Four(a.h.subs) \o Roles(a.l) \o a.t

(* ------------------------- bytes nobody vouches for ----------------------- *)
\* the roles as each one's end leads to the next; -1 as the end of an inconsistent table
Chain(b) ==
    LET one(k, s) ==
            IF s.e = -1 THEN s
            ELSE IF 48 + s.e + 16 > Len(b) THEN [s EXCEPT !.e = -1]
            ELSE IF b[48 + s.e + 16] > 0 \/ b[48 + s.e + 15] > 63 THEN [s EXCEPT !.e = -1]  \* far beyond any account
            ELSE LET n == Num(b, 48 + s.e + 12, 4) IN
                 IF n < s.e + 16 \/ 48 + n > Len(b) THEN [s EXCEPT !.e = -1]
                 ELSE [e |-> n, k |-> s.k \cup {Num(b, 48 + s.e, 2)}]
        n == Num(b, 34, 2)
        most == (Len(b) - 48) \div 16 + 1
    IN IF Len(b) < 48 THEN [e |-> -1, k |-> {}]
       ELSE SX!FoldSeq(one, [e |-> 0, k |-> {}], [j \in 1..(IF n < most THEN n ELSE most) |-> j])
Doubt(b, kind) ==
    LET c == Chain(b)
        p == IF c.e = -1 THEN <<0, 0>> ELSE <<c.e, Len(b) - 48 - c.e>>
        r == IF c.e = -1 THEN "error" ELSE "none"
    IN [end |-> IF c.e = -1 THEN -1 ELSE 48 + c.e, whole |-> c.e # -1, parts |-> <<p, p, p, p>>, id |-> r,
        key |-> IF ~kind THEN "" ELSE IF c.k \subseteq 1..8 THEN r ELSE "error"]

Refused(a) == [ok |-> FALSE, a |-> a]
Step(a, q, me) ==
    CASE q.s = "add" ->
           LET p == Listed(q.ac)
               au == Authority(q.t, q.ad, me)
           IN IF ~GoodTail(a.t) \/ ~GoodList(p) THEN Refused(a)
              ELSE IF au = <<>> THEN Refused(a)
              ELSE [ok |-> TRUE, a |-> [a EXCEPT !.l = Append(@, [k |-> q.t, au |-> au, ac |-> p.l, id |-> a.h.next]),
                                                 !.h.next = @ + 1]]
      [] q.s = "rem" ->
           IF ~GoodTail(a.t) \/ ~\E j \in DOMAIN a.l : a.l[j].id = q.r THEN Refused(a)
           ELSE [ok |-> TRUE, a |-> [a EXCEPT !.l = SelectSeq(@, LAMBDA r : r.id # q.r)]]
      [] q.s = "dmg" -> [ok |-> TRUE, a |-> a]
      [] q.s = "tail" -> [ok |-> TRUE, a |-> [a EXCEPT !.t = q.by]]
      [] OTHER -> Refused(a)

\* a role nobody has can only be looked for where the roles end as they should
Says(q) == LET d == Doubt(q.by, q.f = "kind") IN
           /\ \A f \in DOMAIN d : q.says[f] = d[f]
           /\ d.whole => q.says["mut"] = "none"

\* the steps that came out otherwise than they should
Wrong(op) ==
    LET one(q, s) ==
            LET r == Step(s.a, q, op.me)
                same == /\ q.ok = r.ok
                        /\ r.ok /\ q.s # "dmg" => q.got = Bytes(r.a)
                        /\ q.s = "dmg" => Says(q)
                        /\ q.s = "tail" => q.rd = Readings(q.by)
                        /\ q.s = "add" => \A j \in DOMAIN q.fd : [r |-> q.fd[j].r, d |-> q.fd[j].d] = Found(q.ac, q.fd[j].t)
                        /\ q.bad = ""
            IN [a |-> r.a, w |-> IF same THEN s.w ELSE Append(s.w, [q |-> q, ok |-> r.ok, by |-> IF r.ok THEN Bytes(r.a) ELSE <<>>])]
    IN SX!FoldLeft(LAMBDA s, q : one(q, s),
                   [a |-> [h |-> op.h, l |-> <<>>, t |-> <<>>], w |-> <<>>], op.q).w
=============================================================================

------------------------------- MODULE MC_roles -------------------------------
(* The role table: adding, removing, editing and re-keying roles by roles of  *)
(* every standing, with limits partly used (C01-C03, C09, C18, C19, C28).     *)
(* The ghost remembers which ids were ever given out and whose they are.      *)
EXTENDS MC

\* who the second role is: one standing per shard
Second(s) == << <<Act(Manage)>>,
                <<Act(AllButManage)>>,
                <<Act(All), ActA(SolLimit, "0", 9)>>,
                <<ActA(SolLimit, "0", 5), Act(ProgAll), ActId(ReplaceAuth, 2)>>,
                <<Act(CloseAuth), ActId(V2All, 0), Act(V2Create), [Act(SubAcct) EXCEPT !.k = "0"]>>,
                <<ActR(s, SolRec, "0", 5, 3), Act(Manage), ActDest(s, SolRecDest, "d1", "0", 4, 3)>> >>[Shard]
Third(s) == <<Act(ProgAll), ActA(SolLimit, "0", 5), ActDest(s, SolDest, "d1", "0", 4, 0), ActA(TokLimit, "m1", 3)>>

By(s, r) ==
    << Add(s, "A", r, AuEd("e4"), <<ActA(SolLimit, "0", 3)>>),
       Add(s, "A", r, AuT("k1", "s1", 0), <<Act(Manage), ActA(TokLimit, "m1", 3), Act(ProgAll)>>),
       Rem(s, "A", r, 0), Rem(s, "A", r, 1), Rem(s, "A", r, 2), Rem(s, "A", r, 3),
       UpdOp(s, "A", r, 2, "rep", <<ActDest(s, SolDest, "d2", "0", 2, 0), Act(ProgAll)>>, <<>>, <<>>),
       UpdOp(s, "A", r, 2, "add", <<ActDest(s, TokDest, "m1", "u1", 2, 0)>>, <<>>, <<>>),
       UpdOp(s, "A", r, 2, "add", <<ActId(V2Sign, 1), ActId(V2Sign, 1)>>, <<>>, <<>>),
       UpdOp(s, "A", r, 2, "delt", <<>>, <<SolLimit>>, <<>>),
       UpdOp(s, "A", r, 2, "deli", <<>>, <<>>, <<0>>),
       UpdOp(s, "A", r, 2, "deli", <<>>, <<>>, <<0, 1, 2, 3>>),
       UpdOp(s, "A", r, 1, "delt", <<>>, <<SolLimit, SolRec, ProgAll>>, <<>>),
       UpdOp(s, "A", r, 0, "rep", <<Act(Manage), ActR(s, TokRec, "m1", 5, 3)>>, <<>>, <<>>),
       Repl(s, "A", r, 2, "e5", "32"),
       Repl(s, "A", r, 1, "e3", "32") >>

RolesAlphabet(s, d) ==
    CASE d = 0 -> <<Create("A", AuEd("e1"), <<Act(All)>>)>>
      [] d = 1 -> <<Add(s, "A", 0, AuEd("e2"), Second(s))>>
      [] d = 2 -> <<Add(s, "A", 0, AuT("eds", "e3", 9), Third(s)), Add(s, "A", 0, AuEd("e3"), Third(s))>>
      [] d = 3 -> <<Fund("wa:A", 60)>>
      [] OTHER -> By(s, 0) \o By(s, 1)
                  \o <<Sign(s, "A", 2, <<Xfer("wa:A", "d1", 2)>>), Sess(s, "A", 2, "e5", 9)>>

RolesGhost0(s) == [key |-> <<>>]
KeyOf(m, id) == IF id + 1 <= Len(m.key) THEN m.key[id + 1] ELSE "-"
\* key[id+1]: the key id stands for; "" once it was removed
RolesGhost(m, s, op, t) ==
    CASE op.i \in {"create", "add"} -> [m EXCEPT !.key = Append(@, op.au.k)]
      [] op.i = "rem" -> [m EXCEPT !.key[op.tgt + 1] = ""]
      [] op.i = "repl" -> [m EXCEPT !.key[op.tgt + 1] = op.nk]
      [] OTHER -> m
RolesInv(s, m) ==
    LET w == s.sw["A"] IN
    IF w.ex # "live" THEN m.key = <<>>
    ELSE /\ w.ctr = Len(m.key)
         /\ w.ro # <<>> /\ w.ro[1].id = 0
         /\ \A i, j \in DOMAIN w.ro : i < j => w.ro[i].id < w.ro[j].id
         /\ \A id \in 0..(Len(m.key) - 1) :
              IF HasRole(w, id) THEN RoleOf(w, id).au.k = m.key[id + 1] ELSE m.key[id + 1] = ""
         /\ s.ac["sw:A"].n = SwigLen(w) /\ s.ac["sw:A"].l >= Rent(SwigLen(w))
===============================================================================

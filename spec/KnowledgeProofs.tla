-------------------------- MODULE KnowledgeProofs --------------------------
(***************************************************************************)
(* The laws of Knowledge.tla for every generation and incarnation (C01),   *)
(* proved with TLAPS: Join is idempotent, and commutative, associative and *)
(* forward-only up to the incarnation remembered next to Down.             *)
(***************************************************************************)
EXTENDS Membership, TLAPS
Rec == Nat \X Nat \X {0, 1, 2}

THEOREM Idempotent == \A r \in Rec : Join(r, r) = r
  BY DEF Join, Beats, Rec, Down, Alive, Suspect
THEOREM Strict == \A r, s \in Rec : ~(Beats(r, s) /\ Beats(s, r))
  BY DEF Beats, Rec, Down, Alive, Suspect
THEOREM Transitive == \A r, s, t \in Rec : Beats(r, s) /\ Beats(s, t) => Beats(r, t)
  BY DEF Beats, Rec, Down, Alive, Suspect
THEOREM Commutative == \A r, s \in Rec : SameRec(Join(r, s), Join(s, r))
  BY DEF SameRec, Join, Beats, Rec, Down, Alive, Suspect
THEOREM Associative == \A r, s, t \in Rec : SameRec(Join(Join(r, s), t), Join(r, Join(s, t)))
  BY DEF SameRec, Join, Beats, Rec, Down, Alive, Suspect
THEOREM Congruent == \A r, s, t \in Rec : SameRec(r, s) => SameRec(Join(r, t), Join(s, t)) /\ SameRec(Join(t, r), Join(t, s))
  BY DEF SameRec, Join, Beats, Rec, Down, Alive, Suspect
THEOREM Forward == \A r, s \in Rec : Join(r, s) = r \/ Beats(Join(r, s), r)
  BY DEF Join
THEOREM DownFinal == \A r, s \in Rec : r[3] = Down /\ s[1] <= r[1] => Join(r, s) = r
  BY DEF Join, Beats, Rec, Down, Alive, Suspect
=============================================================================

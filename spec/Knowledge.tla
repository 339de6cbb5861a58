----------------------------- MODULE Knowledge -----------------------------
(***************************************************************************)
(* C01 on the specification: Join of Membership.tla is the join of a       *)
(* semilattice on records of one address (up to the incarnation remembered *)
(* next to Down), over generations, incarnations and states in a finite    *)
(* universe here, over all naturals in KnowledgeProofs.tla.  The machine   *)
(* below delivers any multiset of updates in any order to two instances    *)
(* that may exchange their full states.                                    *)
(***************************************************************************)
EXTENDS Membership, TLC
CONSTANTS G, I, K   \* generations, incarnations, number of distinct updates

Rec == (0..G) \X (0..I) \X (0..2)
ASSUME Idempotent == \A r \in Rec : Join(r, r) = r
ASSUME Commutative == \A r, s \in Rec : SameRec(Join(r, s), Join(s, r))
ASSUME Associative == \A r, s, t \in Rec : SameRec(Join(Join(r, s), t), Join(r, Join(s, t)))
ASSUME Congruent == \A r, s, t \in Rec : SameRec(r, s) => SameRec(Join(r, t), Join(s, t)) /\ SameRec(Join(t, r), Join(t, s))
ASSUME Forward == \A r, s \in Rec : Join(r, s) = r \/ Beats(Join(r, s), r)
ASSUME DownFinal == \A r, s \in Rec : r[3] = Down /\ s[1] <= r[1] => Join(r, s) = r
ASSUME Strict == \A r, s, t \in Rec : /\ ~(Beats(r, s) /\ Beats(s, r))
                                      /\ Beats(r, s) /\ Beats(s, t) => Beats(r, t)

(* every instance absorbs the same updates in an order of its own, any     *)
(* number of times; then they exchange their states                        *)
VARIABLES ups, todo, va, vb, ph
Addr == 1..2
Upd == Addr \X (0..G) \X (0..I) \X (0..2)
Empty == [x \in {} |-> 0]
Init ==
  /\ ups \in [1..K -> Upd]
  /\ todo = [i \in {"a", "b"} |-> 1..K]
  /\ va = Empty /\ vb = Empty /\ ph = "deliver"
Deliver ==
  /\ ph = "deliver"
  /\ \E i \in 1..K :
       \/ i \in todo["a"] /\ va' = Absorb(va, ups[i]) /\ todo' = [todo EXCEPT !["a"] = @ \ {i}] /\ UNCHANGED vb
       \/ i \in todo["b"] /\ vb' = Absorb(vb, ups[i]) /\ todo' = [todo EXCEPT !["b"] = @ \ {i}] /\ UNCHANGED va
       \/ i \notin todo["a"] /\ va' = Absorb(va, ups[i]) /\ UNCHANGED <<vb, todo>>  \* a duplicate
  /\ UNCHANGED <<ups, ph>>
RECURSIVE All(_, _)
All(v, S) == IF S = {} THEN v ELSE LET a == CHOOSE a \in S : TRUE IN All(Absorb(v, a), S \ {a})
StateOf(v) == {<<a, v[a][1], v[a][2], v[a][3]>> : a \in DOMAIN v}
Exchange ==
  /\ ph = "deliver" /\ ph' = "exchanged"
  /\ vb' = All(vb, StateOf(va))
  /\ va' = All(va, StateOf(vb'))
  /\ UNCHANGED <<ups, todo>>
Next == Deliver \/ Exchange

Sym(v, w) == DOMAIN v = DOMAIN w /\ \A a \in DOMAIN v : SameRec(v[a], w[a])
Confluent == ph = "deliver" /\ todo["a"] = {} /\ todo["b"] = {} => Sym(va, vb)
Agree == ph = "exchanged" => Sym(va, vb)
Reapply == Sym(All(va, StateOf(va)), va)
=============================================================================

----------------------------- MODULE Membership -----------------------------
(***************************************************************************)
(* SWIM knowledge about members: records, precedence order and join.       *)
(*                                                                         *)
(* An identity is <<addr, gen>>; among identities sharing an address the   *)
(* one with the larger generation wins the conflict (a lawful              *)
(* win_addr_conflict).  A record is <<gen, inc, st>>, st in {0 Alive,      *)
(* 1 Suspect, 2 Down}; a view is a function addr -> record.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Alive == 0
Suspect == 1
Down == 2
MaxInc == 65535

Active(r) == r[3] # Down

(* Strictly-forward relation among records of one address.  The incarnation
   remembered next to Down carries no meaning.                             *)
Beats(n, o) ==
  \/ n[1] > o[1]
  \/ /\ n[1] = o[1]
     /\ o[3] # Down
     /\ \/ n[3] = Down
        \/ n[2] > o[2]
        \/ n[2] = o[2] /\ n[3] = Suspect /\ o[3] = Alive

Join(o, n) == IF Beats(n, o) THEN n ELSE o

Has(v, a) == a \in DOMAIN v
Put(v, a, r) == [x \in (DOMAIN v) \cup {a} |-> IF x = a THEN r ELSE v[x]]
Del(v, a) == [x \in (DOMAIN v) \ {a} |-> v[x]]

(* u = <<addr, gen, inc, st>>, about anybody but the current own identity *)
Absorb(v, u) ==
  IF Has(v, u[1]) THEN Put(v, u[1], Join(v[u[1]], <<u[2], u[3], u[4]>>))
  ELSE Put(v, u[1], <<u[2], u[3], u[4]>>)

Changes(v, u) == ~Has(v, u[1]) \/ Beats(<<u[2], u[3], u[4]>>, v[u[1]])

(* Updates about another identity of the own address are taken as Down *)
AsSeenBy(me, u) == IF u[1] = me[1] THEN <<u[1], u[2], 0, Down>> ELSE u

NumActive(v) == Cardinality({a \in DOMAIN v : Active(v[a])})
ActiveIds(v) == {<<a, v[a][1]>> : a \in {x \in DOMAIN v : Active(v[x])}}

(* Equality of views, up to the incarnation remembered next to Down *)
SameRec(r, s) == r[1] = s[1] /\ r[3] = s[3] /\ (r[3] = Down \/ r[2] = s[2])
SameView(v, w) == DOMAIN v = DOMAIN w /\ \A a \in DOMAIN v : SameRec(v[a], w[a])

(* Identity::renew as modelled: 0 none, 1 next, 2 same, 3 lower, 4 jump *)
Renewed(ren, me) ==
  CASE ren = 1 -> IF me[2] < 65535 THEN <<me[1], me[2] + 1>> ELSE me
    [] ren = 4 -> IF me[2] <= 65532 THEN <<me[1], me[2] + 3>> ELSE me
    [] OTHER -> me
CanRenew(ren, me) == Renewed(ren, me) # me
=============================================================================

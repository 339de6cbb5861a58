----------------------------- MODULE RoundRobin -----------------------------
(***************************************************************************)
(* The probe order of a stable membership (C14): the vector of known       *)
(* members, the cursor, the shuffle when the cursor ran past the end.      *)
(* A start may be in the middle of anything: every arrangement of the n    *)
(* active and d Down records and every cursor.  Claim: no active member    *)
(* goes without a probe for 2n-1 consecutive rounds; and the bound is      *)
(* tight (cfg RoundRobinTight expects the stronger claim to fail).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, D
VARIABLES n, d, vec, cur, gap, last

END == 1000000    \* "past any end", as set by a wrap-around
L == n + d
(* 0 stands for a Down record *)
Arrangements(a, b) ==
  {v \in [1..(a + b) -> 0..a] : \A x \in 1..a : Cardinality({i \in 1..(a + b) : v[i] = x}) = 1}

Init ==
  /\ n \in 1..N /\ d \in 0..D
  /\ vec \in Arrangements(n, d)
  /\ cur \in (0..L) \cup {END}
  /\ gap = [x \in 1..n |-> 0] /\ last = 0

Pick(v, c) ==
  LET after == {i \in 1..L : i > c /\ v[i] # 0}
      before == {i \in 1..L : i <= c /\ v[i] # 0}
      pos == IF after # {} THEN CHOOSE i \in after : \A j \in after : i <= j
             ELSE CHOOSE i \in before : \A j \in before : i <= j
  IN /\ vec' = v
     /\ last' = v[pos]
     /\ cur' = IF after # {} THEN pos ELSE END
     /\ gap' = [x \in 1..n |-> IF x = v[pos] THEN 0 ELSE gap[x] + 1]
     /\ UNCHANGED <<n, d>>
Next ==
  IF cur >= L THEN \E v \in Arrangements(n, d) : Pick(v, 0)
  ELSE Pick(vec, cur)

OnlyActive == last \in 0..n
EveryoneIn == \A x \in 1..n : gap[x] < 2 * n - 1 \/ (n = 1 /\ gap[x] = 0)
Tighter == n < 2 \/ \A x \in 1..n : gap[x] < 2 * n - 2
=============================================================================

------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* What an observer of a whole cluster sees, shared by the cluster         *)
(* monitors: the identity and the records of every instance, who is up,    *)
(* and obligations with deadlines.  Events carry the time (ms); calls that *)
(* change nothing observable are not recorded.  Instances are numbered     *)
(* from 0, which is also their address.                                    *)
(***************************************************************************)
EXTENDS Obs

Node(h) == 0..(h.n - 1)

CInit(h) ==
  [h |-> h,
   v |-> [i \in Node(h) |-> [x \in {} |-> 0]],  \* records: address -> <<gen, inc, state>>
   g |-> [i \in Node(h) |-> 0],                 \* current generation of each identity
   up |-> Node(h),                              \* not crashed, not left
   in |-> {},                                   \* part of the cluster: announced or was announced to
   t |-> 0]

IsCall(e) == e.op \in {"data", "timer", "api"}

RECURSIVE Patch(_, _)
Patch(f, ch) ==
  IF ch = <<>> THEN f
  ELSE LET c == Head(ch)
       IN Patch(IF c[4] = 3 THEN [a \in DOMAIN f \ {c[1]} |-> f[a]]
                ELSE (c[1] :> <<c[2], c[3], c[4]>>) @@ f, Tail(ch))

CStep(c, e) ==
  [c EXCEPT
    !.t = e.t,
    !.v = IF IsCall(e) THEN [@ EXCEPT ![e.i] = Patch(@, e.ch)] ELSE @,
    !.g = IF IsCall(e) THEN [@ EXCEPT ![e.i] = e.me[2]] ELSE @,
    !.up = IF e.op \in {"crash", "leaving"} THEN @ \ {e.i} ELSE @,
    !.in = IF e.op = "join" THEN @ \cup {e.i, e.to} ELSE @]

NotesOf(e) == IF IsCall(e) THEN {e.notes[i] : i \in DOMAIN e.notes} ELSE {}
Noted(e, k) == \E x \in NotesOf(e) : x.k = k
Res(e) == IF IsCall(e) THEN e.res ELSE "Ok"

(* i lists j, under its current identity, as active / alive *)
Lists(c, i, j) == j \in DOMAIN c.v[i] /\ c.v[i][j][1] = c.g[j] /\ c.v[i][j][3] # Down
ListsAlive(c, i, j) == Lists(c, i, j) /\ c.v[i][j][3] = Alive
Pairs(S) == {p \in S \X S : p[1] # p[2]}
Missing(c, S) == {p \in Pairs(S) : ~Lists(c, p[1], p[2])}
(* iter_members agrees with the records: nobody else is listed *)
ExactActive(c, e, S) == \A i \in S : Rng(e.act[i + 1]) = {<<j, c.g[j]>> : j \in S \ {i}}
=============================================================================

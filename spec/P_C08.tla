------------------------------- MODULE P_C08 -------------------------------
(* Notifications mirror membership and connection state.                   *)
EXTENDS Obs

(* Result of replaying notifications: up set, connection state, bad *)
RECURSIVE Replay(_, _)
Replay(s, ns) ==
  IF ns = <<>> \/ s.bad # "" THEN s
  ELSE
  LET o == Head(ns)
      t == CASE o.k = "up" ->
                  IF o.a \in s.up THEN [s EXCEPT !.bad = "MemberUp for a member already up"]
                  ELSE [s EXCEPT !.up = @ \cup {o.a}]
             [] o.k = "down" ->
                  IF o.a \notin s.up THEN [s EXCEPT !.bad = "MemberDown for a member not up"]
                  ELSE [s EXCEPT !.up = @ \ {o.a}]
             [] o.k = "rename" ->
                  IF o.a \in s.up THEN [s EXCEPT !.up = (@ \ {o.a}) \cup {o.b}] ELSE s
             [] o.k = "active" ->
                  IF s.conn # "idle" THEN [s EXCEPT !.bad = "Active while not idle"]
                  ELSE IF s.up = {} THEN [s EXCEPT !.bad = "Active without active members"]
                  ELSE [s EXCEPT !.conn = "active"]
             [] o.k = "idle" ->
                  IF s.conn # "active" THEN [s EXCEPT !.bad = "Idle while not active"]
                  ELSE IF s.up # {} THEN [s EXCEPT !.bad = "Idle with active members"]
                  ELSE [s EXCEPT !.conn = "idle"]
             [] o.k = "defunct" -> [s EXCEPT !.conn = "defunct", !.self = @ + 1]
             [] o.k = "rejoin" -> [s EXCEPT !.conn = "idle", !.self = @ + 1, !.rej = Append(@, o.a)]
             [] OTHER -> s
  IN Replay(t, Tail(ns))

MInit(h) == [b |-> BInit(h), up |-> {}, bad |-> "", own |-> OwnInit,
             n |-> [ev |-> 0, notes |-> 0, selfdeath |-> 0, rejoins |-> 0, idle |-> 0, renames |-> 0]]

MStep(m, e) ==
  IF Panicked(e) THEN m ELSE
  LET b == m.b
      s == Replay([up |-> m.up, conn |-> BConn0(b, e), self |-> 0, rej |-> <<>>, bad |-> ""], Notes(e))
      w == OwnWalkOf(m.own, b, e)
      act == {<<e.act[i][1], e.act[i][2]>> : i \in DOMAIN e.act}
      memA == MemAfter(b, e)
      acc == DataAccepted(b, e)
      sact == acc /\ SenderActive(b.mem, e.c.src)
      tu == acc /\ e.c.kind = "turnundead"
      (* learned for sure in this call *)
      must == \/ w.deaths # <<>>
              \/ e.c.op = "leave"
              \/ tu /\ ~sact
              \/ /\ tu /\ sact /\ b.conn # "defunct"
                 /\ s.conn # "idle" \/ s.rej # <<>>
      may == must \/ w.maybe \/ tu
      defunctStays == b.conn = "defunct" /\ s.conn = "defunct"
      bad == FirstBad(<<
        <<s.bad = "", s.bad>>,
        <<s.up = act, "mirror of MemberUp/MemberDown/Rename differs from iter_members">>,
        <<e.num = Cardinality(act) /\ Len(e.act) = e.num, "num_members differs from iter_members">>,
        <<act = ActiveIds(memA), "iter_members differs from the active part of iter_membership_state">>,
        <<s.conn = "active" => s.up # {}, "still active with no active members (Idle missing)">>,
        <<e.c.op = "reuse" => (e.res = "Ok") = (b.conn = "defunct"), "reuse_down_identity result does not match the connection state">>,
        <<s.self > 0 => may, "Defunct or Rejoin without learning of the own death">>,
        <<~must \/ s.self > 0 \/ defunctStays, "own death learned, but neither Defunct nor Rejoin">>,
        <<s.rej = <<>> \/ s.rej[Len(s.rej)] = e.me \/ e.c.op = "changeid", "Rejoin does not report the identity in use">>,
        <<e.me = b.me \/ s.rej # <<>> \/ e.c.op = "changeid", "identity switched without Rejoin">>,
        <<\A i \in DOMAIN s.rej : s.rej[i] # b.me, "Rejoin without a new identity">>,
        <<HasF(e, "acc") => /\ e.acc["as"] = e.acc.ds /\ e.acc["at"] = e.acc.dt /\ e.acc.an = e.acc.dn
                            /\ e.acc.bl = Len(e.acc.ds) + Len(e.acc.dt) + Len(e.acc.dn),
          "AccumulatingRuntime differs from a direct Runtime">> >>)
  IN [m EXCEPT !.b = BStep(b, e), !.up = s.up, !.bad = bad, !.own = OwnAfter(m.own, b, e),
        !.n = [ev |-> @.ev + 1, notes |-> @.notes + Len(Notes(e)), selfdeath |-> @.selfdeath + B2N(must),
               rejoins |-> @.rejoins + Len(s.rej),
               idle |-> @.idle + B2N(\E o \in Rng(Notes(e)) : o.k = "idle"),
               renames |-> @.renames + B2N(\E o \in Rng(Notes(e)) : o.k = "rename")]]
=============================================================================

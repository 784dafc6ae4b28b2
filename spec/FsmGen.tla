-------------------------------- MODULE FsmGen --------------------------------
(* Enumerates all deterministic machines with at most N reachable states,    *)
(* exactly once up to renaming: transitions are filled in breadth-first       *)
(* order and a new state number is used only when it is first discovered.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, K, O, Mealy
VARIABLES delta, out, seen
vars == <<delta, out, seen>>
Init == /\ delta = <<>> /\ seen = 1
        /\ out \in (IF Mealy THEN {<<>>} ELSE {<<o>> : o \in 0..(O-1)})
Done == Len(delta) = seen * K
AddTransition(t) ==
  /\ ~Done
  /\ delta' = Append(delta, t)
  /\ seen' = IF t > seen THEN t ELSE seen
  /\ IF Mealy \/ t > seen THEN \E o \in 0..(O-1) : out' = Append(out, o) ELSE out' = out
Next == \E t \in 1..(IF seen < N THEN seen + 1 ELSE N) : AddTransition(t)
Spec == Init /\ [][Next]_vars
(* every number below seen really is reachable by construction *)
Canonical == \A s \in 2..seen : \E i \in 1..Len(delta) : delta[i] = s
Emit == Done => PrintT("@M " \o ToJson([n |-> seen, d |-> delta, o |-> out]))
=============================================================================

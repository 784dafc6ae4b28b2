---------------------------------- MODULE Run ---------------------------------
(* Running an automaton: the only state is the current state.                  *)
EXTENDS Graph
Unknown == -7
VARIABLE cur
(* a chain without outgoing transitions stays where it is *)
StepOpts(g, s, a) == IF g.absorb /\ Opts(g, s, a) = {} THEN {<<g.lab[s], s>>} ELSE Opts(g, s, a)
RInit(g) == cur = g.init
DoReset(g) == cur' = g.init
(* a step moves along one transition and answers its output *)
DoStep(g, a, out) == cur \in GStates(g) /\ \E p \in Opts(g, cur, a) : out = p[1] /\ cur' = p[2]
(* no input: models with state labels answer the label and stay *)
DoIdle(g, out) == g.eps /\ cur \in GStates(g) /\ out = g.lab[cur] /\ UNCHANGED cur
(* undefined input: an error, and no move *)
DoUndef(g, a) == cur \in GStates(g) /\ (IF a = 0 THEN ~g.eps ELSE Opts(g, cur, a) = {}) /\ UNCHANGED cur
(* looking ahead from any state: the outputs of a run from there, no move *)
DoLook(g, s, w, outs) == Len(outs) = Len(w) /\ RunSet(g, {s}, w, outs) # {} /\ UNCHANGED cur
DoLookEps(g, s, outs) == g.eps /\ outs = <<g.lab[s]>> /\ UNCHANGED cur
(* executing a sequence moves to s first and then along the run *)
DoExec(g, s, w, outs) == Len(outs) = Len(w) /\ cur' \in RunSet(g, {s}, w, outs)
(* after an execution that broke off the position is not specified *)
DoBroken(g, s, w) == ~Defined(g, s, w) /\ cur' = Unknown
=============================================================================

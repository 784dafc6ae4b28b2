-------------------------------- MODULE Dialogue -------------------------------
(* An equivalence query answered by a person.  The person steps hypothesis and    *)
(* system side by side, is shown both outputs, may start over, look things up,    *)
(* and ends by returning the inputs entered so far or by saying there are none.    *)
EXTENDS Fsm
VARIABLES word,   \* inputs entered since the last reset
          phase,  \* "idle", "talk", then "cex" or "none" until the query returns
          said,   \* what the last command showed
          nq, ns  \* tests opened and inputs executed by the oracle so far
dvars == <<word, phase, said, nq, ns>>
Shown(k, h, s, q) == [k |-> k, hyp |-> h, sul |-> s, list |-> q]
Nothing == Shown("nothing", "", "", <<>>)
DInit == word = <<>> /\ phase = "idle" /\ said = Nothing /\ nq = 0 /\ ns = 0
Begin == phase = "idle" /\ phase' = "talk" /\ word' = <<>> /\ nq' = nq + 1 /\ said' = Nothing /\ UNCHANGED ns
Letter(H, T, a) ==
  /\ phase = "talk" /\ word' = Append(word, a) /\ ns' = ns + 1
  /\ said' = Shown("outs", LastOut(H, H.init, Append(word, a)), LastOut(T, T.init, Append(word, a)), <<>>)
  /\ UNCHANGED <<phase, nq>>
StartOver == phase = "talk" /\ word' = <<>> /\ nq' = nq + 1 /\ said' = Nothing /\ UNCHANGED <<phase, ns>>
Show(k, q) == phase = "talk" /\ said' = Shown(k, "", "", q) /\ UNCHANGED <<word, phase, nq, ns>>
Ignore == phase = "talk" /\ said' = Nothing /\ UNCHANGED <<word, phase, nq, ns>>
Cex == /\ phase = "talk" /\ IF word = <<>> THEN Ignore
                            ELSE phase' = "cex" /\ said' = Nothing /\ UNCHANGED <<word, nq, ns>>
End == phase = "talk" /\ phase' = "none" /\ said' = Nothing /\ UNCHANGED <<word, nq, ns>>
Return == phase \in {"cex", "none"} /\ phase' = "idle" /\ said' = Nothing /\ UNCHANGED <<word, nq, ns>>
Claimed == said.k = "outs" /\ said.hyp # said.sul      \* the person is told of the difference
(* what was entered, from the commands alone *)
RECURSIVE Entered(_)
Entered(h) == IF h = <<>> THEN <<>>
              ELSE LET x == h[Len(h)]  p == SubSeq(h, 1, Len(h) - 1)
                   IN CASE x[1] = "letter" -> Append(Entered(p), x[2])
                        [] x[1] \in {"reset", "begin"} -> <<>>
                        [] OTHER -> Entered(p)
=============================================================================

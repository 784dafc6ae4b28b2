------------------------------ MODULE MCGenerator ------------------------------
EXTENDS Generator, TLC, Json
(* how often a drawing with every state reachable is minimal, for the replay *)
Well == {f \in Wirings : AllReachable(Machine(f, CHOOSE l \in Labellings : TRUE))}
Share == LET all == {<<f, l>> : f \in Well, l \in Labellings} IN
         [kind |-> Kind, n |-> N, k |-> K, o |-> O, acc |-> Acc, all |-> Cardinality(all),
          min |-> Cardinality({x \in all : Minimal(Machine(x[1], x[2]))})]
ShareInit == phase = "outputs" /\ lab = <<>> /\ d = <<>> /\ tries = 1
ShareSpec == ShareInit /\ [][FALSE]_gvars
Emit == PrintT("@M " \o ToJson(Share))
=============================================================================

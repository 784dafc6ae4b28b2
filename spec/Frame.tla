--------------------------------- MODULE Frame ---------------------------------
(* A call leaves what it was given as it was, and gives the same again: to equal  *)
(* arguments after other calls, and to the very same arguments once more.          *)
EXTENDS Integers, Sequences, FiniteSets
(* c.args: sequence of [name, before, after]; c.first: the result of the call alone, *)
(* c.later: after another call, c.again: with the very arguments of the last one *)
Changed(c) == {i \in 1..Len(c.args) : c.args[i].before # c.args[i].after}
Judged(c) == IF Changed(c) # {} THEN "ArgumentChanged"
             ELSE IF c.first # c.later THEN "DependsOnEarlierCalls"
             ELSE IF c.first # c.again THEN "NotRepeatable"
             ELSE "ok"
===============================================================================

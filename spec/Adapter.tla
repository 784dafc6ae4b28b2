-------------------------------- MODULE Adapter --------------------------------
(* A wrapped object behind the interface pre / step / post / query.  The object   *)
(* is a machine, a graph with several possible runs, a regular expression (as a    *)
(* tree, over characters), a Tomita grammar or a language of balanced strings; obj.str[a] are the characters of    *)
(* letter a.  Runs start fresh with pre.                                          *)
EXTENDS Graph, SequencesExt, TLC
VARIABLES w,       \* inputs since the last pre
          S,       \* states a graph may be in
          runs     \* everything seen: finished and unfinished runs, as sequences of <<input, output>>
avars == <<w, S, runs>>
Truth(b) == IF b THEN "bool:True" ELSE "bool:False"
(* ---- regular expressions: positions after matching r from position i of s       *)
RECURSIVE Ends(_, _, _)
RECURSIVE Loop(_, _, _, _)
Loop(r, s, seen, front) == IF front = {} THEN seen ELSE LET n == UNION {Ends(r, s, i) : i \in front} \ seen IN Loop(r, s, seen \cup n, n)
Ends(r, s, i) ==
  CASE r.k = "sym" -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
    [] r.k = "set" -> IF i <= Len(s) /\ (\E j \in 1..Len(r.cs) : s[i] = r.cs[j]) # r.neg THEN {i + 1} ELSE {}
    [] r.k = "any" -> IF i <= Len(s) /\ s[i] # 10 THEN {i + 1} ELSE {}
    [] r.k = "cat" -> UNION {Ends(r.y, s, j) : j \in Ends(r.x, s, i)}
    [] r.k = "alt" -> Ends(r.x, s, i) \cup Ends(r.y, s, i)
    [] r.k = "opt" -> {i} \cup Ends(r.x, s, i)
    [] r.k = "star" -> Loop(r.x, s, {i}, {i})
    [] r.k = "plus" -> LET F == Ends(r.x, s, i) IN Loop(r.x, s, F, F)
    [] OTHER -> {i}
Matches(r, s) == Len(s) + 1 \in Ends(r, s, 1)
(* ---- Tomita grammars over 0 and 1 *)
Count(s, b) == Cardinality({i \in 1..Len(s) : s[i] = b})
RunsOf(s) == FoldLeft(LAMBDA q, b : IF q # <<>> /\ q[Len(q)][1] = b THEN [q EXCEPT ![Len(q)] = <<b, q[Len(q)][2] + 1>>] ELSE Append(q, <<b, 1>>), <<>>, s)
OddOnesThenZeros(s) == LET q == RunsOf(s) IN \E i, j \in 1..Len(q) : i < j /\ q[i][1] = 1 /\ q[j][1] = 0 /\ q[i][2] % 2 = 1 /\ q[j][2] % 2 = 1
Tomita(n, s) ==
  CASE n = 1 -> Count(s, 0) = 0
    [] n = 2 -> Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : s[i] = i % 2
    [] n = 3 -> ~OddOnesThenZeros(s)
    [] n = 4 -> ~\E i \in 1..(Len(s) - 2) : s[i] = 0 /\ s[i+1] = 0 /\ s[i+2] = 0
    [] n = 5 -> Count(s, 0) % 2 = 0 /\ Count(s, 1) % 2 = 0
    [] n = 6 -> (Count(s, 0) + 2 * Count(s, 1)) % 3 = 0
    [] n = 7 -> Cardinality({i \in 1..(Len(s) - 1) : s[i] = 1 /\ s[i+1] = 0}) <= 1
    [] OTHER -> OddOnesThenZeros(s)
(* ---- balanced strings over pairs of brackets; other characters do not matter    *)
RECURSIVE Nest(_, _, _, _)
Nest(opens, closes, s, stack) ==
  IF s = <<>> THEN stack = <<>>
  ELSE LET x == Head(s) IN
       IF \E i \in 1..Len(opens) : opens[i] = x THEN Nest(opens, closes, Tail(s), <<x>> \o stack)
       ELSE IF \E i \in 1..Len(closes) : closes[i] = x
            THEN IF stack = <<>> THEN FALSE
                 ELSE IF \E i \in 1..Len(opens) : opens[i] = Head(stack) /\ closes[i] = x THEN Nest(opens, closes, Tail(s), Tail(stack)) ELSE FALSE
       ELSE Nest(opens, closes, Tail(s), stack)
BalancedText(obj, s) == (s # <<>> \/ obj.empty) /\ Nest(obj.opens, obj.closes, s, <<>>)
Text(obj, v) == FlattenSeq([i \in 1..Len(v) |-> obj.str[v[i]]])
RECURSIVE After(_, _, _)
After(m, s, v) == IF v = <<>> THEN s ELSE After(m, m.d[s][Head(v)], Tail(v))
(* the only possible answer after the inputs v (not for graphs) *)
Answer(obj, v) ==
  CASE obj.k = "machine" -> (IF obj.m.mealy THEN LET u == SubSeq(v, 1, Len(v) - 1) IN obj.m.o[After(obj.m, obj.m.init, u)][v[Len(v)]]
                             ELSE obj.m.o[After(obj.m, obj.m.init, v)])
    [] obj.k = "regex" -> Truth(Matches(obj.r, Text(obj, v)))
    [] obj.k = "balanced" -> Truth(BalancedText(obj, Text(obj, v)))
    [] OTHER -> Truth(Tomita(obj.n, Text(obj, v)))
AInit(obj) == w = <<>> /\ S = (IF obj.k = "graph" THEN {obj.g.init} ELSE {}) /\ runs = <<>>
Fresh(obj) == IF obj.k = "graph" THEN {obj.g.init} ELSE {}
MoveSet(obj, T, a, o) == {p[2] : p \in {p \in UNION {Opts(obj.g, s, a) : s \in T} : p[1] = o}}
(* is the answer o to a (0: no input) after v possible, and where does it lead?   *)
Possible(obj, T, v, a, o) ==
  IF obj.k = "graph" THEN (IF a = 0 THEN \A s \in T : obj.g.lab[s] = o ELSE MoveSet(obj, T, a, o) # {})
  ELSE Answer(obj, IF a = 0 THEN v ELSE Append(v, a)) = o
RECURSIVE RunOk(_, _, _, _, _)
RunOk(obj, T, v, u, outs) ==
  IF u = <<>> THEN TRUE
  ELSE /\ Possible(obj, T, v, Head(u), Head(outs))
       /\ RunOk(obj, IF obj.k = "graph" THEN MoveSet(obj, T, Head(u), Head(outs)) ELSE {}, Append(v, Head(u)), Tail(u), Tail(outs))
RECURSIVE EndSet(_, _, _, _)
EndSet(obj, T, u, outs) == IF u = <<>> THEN T ELSE EndSet(obj, MoveSet(obj, T, Head(u), Head(outs)), Tail(u), Tail(outs))
Pairs(u, outs) == [i \in 1..Len(u) |-> <<u[i], outs[i]>>]
Extended(q, x) == [q EXCEPT ![Len(q)] = Append(@, x)]
Pre(obj) == w' = <<>> /\ S' = Fresh(obj) /\ runs' = Append(runs, <<>>)
StepA(obj, a, o) == /\ w' = (IF a = 0 THEN w ELSE Append(w, a)) /\ S' = (IF obj.k = "graph" /\ a # 0 THEN MoveSet(obj, S, a, o) ELSE S)
                    /\ runs' = (IF a = 0 THEN runs ELSE Extended(runs, <<a, o>>))
Query(obj, u, outs) == w' = u /\ S' = (IF obj.k = "graph" /\ u # <<>> THEN EndSet(obj, Fresh(obj), u, outs) ELSE Fresh(obj)) /\ runs' = Append(runs, IF u = <<>> THEN <<>> ELSE Pairs(u, outs))
(* how often a run began with p *)
Freq(p) == Cardinality({i \in 1..Len(runs) : Len(runs[i]) >= Len(p) /\ SubSeq(runs[i], 1, Len(p)) = p})
=============================================================================

-------------------------------- MODULE MCFrame --------------------------------
(* A library function over lists, correct or faulty in one of the ways in which    *)
(* functions in a language with shared mutable values are faulty, under any         *)
(* history of earlier calls. The three-call protocol of Frame accuses a faulty       *)
(* function on some argument after some history and never accuses a correct one.     *)
EXTENDS Frame, TLC
CONSTANTS Values, Size
Lists == UNION {[1..i -> Values] : i \in 0..Size}
Faults == {"none", "sorts", "consumes", "remembers", "caches by length", "counts"}
VARIABLES fault, hidden, history, bad
vars == <<fault, hidden, history, bad>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
(* the function adds up what it is given; state is what it keeps between calls *)
Fresh == [list |-> <<>>, memo |-> <<>>, n |-> 0]
Memo(h, s) == {i \in 1..Len(h.memo) : h.memo[i][1] = Len(s)}
Run(f, h, s) ==
  CASE f = "none" -> [out |-> Sum(s), arg |-> s, st |-> h]
    [] f = "sorts" -> [out |-> Sum(s), arg |-> Sorted(s), st |-> h]
    [] f = "consumes" -> [out |-> Sum(s), arg |-> IF s = <<>> THEN s ELSE Tail(s), st |-> h]
    [] f = "remembers" -> LET l == h.list \o s IN [out |-> Sum(l), arg |-> s, st |-> [h EXCEPT !.list = l]]
    [] f = "caches by length" -> IF Memo(h, s) # {} THEN [out |-> h.memo[CHOOSE i \in Memo(h, s) : TRUE][2], arg |-> s, st |-> h]
                                 ELSE [out |-> Sum(s), arg |-> s, st |-> [h EXCEPT !.memo = Append(@, <<Len(s), Sum(s)>>)]]
    [] f = "counts" -> [out |-> Sum(s) + (IF h.n > 1 THEN 1 ELSE 0), arg |-> s, st |-> [h EXCEPT !.n = @ + 1]]
(* the call alone; after others, with equal arguments; once more with the same ones *)
Record(f, h, s, t) ==
  LET a == Run(f, Fresh, s)
      b == Run(f, h, t)
      c == Run(f, b.st, s)
      d == Run(f, c.st, c.arg) IN
  [rec |-> [args |-> <<[name |-> "list", before |-> s, after |-> a.arg]>>, first |-> a.out, later |-> c.out, again |-> d.out], st |-> d.st]
Init == fault \in Faults /\ hidden = Fresh /\ history = 0 /\ bad = "ok"
Next == /\ history < 2 /\ bad = "ok"
        /\ \E s, t \in Lists : LET r == Record(fault, hidden, s, t) IN hidden' = r.st /\ bad' = Judged(r.rec)
        /\ history' = history + 1 /\ fault' = fault
Spec == Init /\ [][Next]_vars
NoFalseAlarm == fault = "none" => bad = "ok"
(* whatever came before, some pair of calls accuses a faulty function at once *)
Accused == fault # "none" => \E s, t \in Lists : Judged(Record(fault, hidden, s, t).rec) # "ok"
===============================================================================

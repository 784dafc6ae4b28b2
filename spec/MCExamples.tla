------------------------------ MODULE MCExamples ------------------------------
(* The definitions of Examples.tla checked against independent ones: words are   *)
(* grown letter by letter, the mock broker and the probabilistic systems are run. *)
EXTENDS Examples
CONSTANTS L, What
VARIABLES w, c, s
vars == <<w, c, s>>
Proc == What \in {"coffee", "weird", "pomdp", "mqtt", "grid"}
Sigma == CASE What = "dyck" -> {"(", ")", "[", "]"} [] What = "odd" -> {"(", ")", "x"} [] What = "blocks" -> {"a", "b", "c", "d"}
           [] What = "prime" -> {"a", "b"} [] What = "sums" -> {"(", ")", "1", "+"} [] OTHER -> {}
Ops == {"connect", "disconnect", "publish", "subscribe", "unsubscribe"}
Init == w = <<>> /\ c = MockInit /\ s = (IF Proc THEN Start(What) ELSE "")
Grow == Len(w) < L /\ \E x \in Sigma : w' = Append(w, x) /\ UNCHANGED <<c, s>>
Mock == What = "mock" /\ \E op \in Ops : \E t \in {"t", "u"} : \E b \in BOOLEAN : c' = MockNext(c, op, t, b) /\ UNCHANGED <<w, s>>
Run == Proc /\ \E a \in Inputs(What) : \E m \in Moves(What, s, a) : s' = m.t /\ UNCHANGED <<w, c>>
Next == Grow \/ Mock \/ Run
Spec == Init /\ [][Next]_vars
(* nesting by deletion of innermost pairs *)
RECURSIVE Reduce(_, _)
Reduce(P, v) == LET I == {i \in 1..(Len(v) - 1) : <<v[i], v[i + 1]>> \in P} IN
  IF I = {} THEN v ELSE LET i == CHOOSE i \in I : TRUE IN Reduce(P, SubSeq(v, 1, i - 1) \o SubSeq(v, i + 2, Len(v)))
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
Partner(P, x) == CHOOSE y \in Rets(P) : <<x, y>> \in P
DyckByDeletion == What = "dyck" => (Dyck(Two, w) <=> w # <<>> /\ Reduce(Two, w) = <<>>)
NestIsPalindrome == What = "dyck" => (Lang("nest2", w) <=> Len(w) > 0 /\ Len(w) % 2 = 0 /\ LET h == Len(w) \div 2 IN
    (\A i \in 1..h : w[i] \in Calls(Two)) /\ \A i \in 1..h : w[Len(w) + 1 - i] = Partner(Two, w[i]))
OddIsOdd == What = "odd" => (Lang("odd", w) => Stack(Round, <<>>, w) /\ (Len(SelectSeq(w, LAMBDA x : x = "(")) % 2 = 1))
PrimeIsWrapped == What = "prime" => (Prime("a", "b", w) <=> Len(w) >= 2 /\ w[1] = "a" /\ w[Len(w)] = "b" /\ Stack({<<"a", "b">>}, <<>>, SubSeq(w, 2, Len(w) - 1)))
BlocksGrow == What = "blocks" => (Lang("blocks2", w) <=> Len(w) >= 4 /\ SubSeq(w, 1, 2) = <<"a", "b">> /\ SubSeq(w, Len(w) - 1, Len(w)) = <<"c", "d">>
    /\ LET v == SubSeq(w, 3, Len(w) - 2) IN v = <<>> \/ Lang("blocks2", v))
RECURSIVE Derive(_)
Derive(v) == v = <<"1">> \/ (\E i \in 2..(Len(v) - 1) : v[i] = "+" /\ Derive(SubSeq(v, 1, i - 1)) /\ Derive(SubSeq(v, i + 1, Len(v))))
             \/ (Len(v) >= 3 /\ v[1] = "(" /\ v[Len(v)] = ")" /\ Derive(SubSeq(v, 2, Len(v) - 1)))
SumsAreDerived == What = "sums" => (Sum(w, TRUE, 0) <=> Derive(w))
ClosedForgets == ~c.open => c.topics = {}
AddsUp == Proc => \A a \in Inputs(What) : SumOf(Moves(What, s, a), LAMBDA m : m.p) = 10
Labelled == Proc /\ What # "pomdp" => \A a \in Inputs(What) : \A m, n \in Moves(What, s, a) : m.o = n.o => m = n
================================================================================

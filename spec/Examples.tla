------------------------------- MODULE Examples -------------------------------
(* The example systems the library ships, as they are documented: languages of   *)
(* nested words, probabilistic systems, the mock MQTT broker and the validator   *)
(* of dates.  Words are sequences of strings, probabilities are in tenths.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* ---- languages --------------------------------------------------------------- *)
Count(w, S) == Cardinality({i \in 1..Len(w) : w[i] \in S})
(* properly nested over the pairs P (call, return); the other letters are free *)
RECURSIVE Stack(_, _, _)
Stack(P, st, w) ==
  IF w = <<>> THEN st = <<>>
  ELSE LET x == Head(w) IN
       IF \E p \in P : p[1] = x THEN Stack(P, <<x>> \o st, Tail(w))
       ELSE IF \E p \in P : p[2] = x
            THEN IF st = <<>> THEN FALSE ELSE IF <<Head(st), x>> \in P THEN Stack(P, Tail(st), Tail(w)) ELSE FALSE
       ELSE Stack(P, st, Tail(w))
Dyck(P, w) == w # <<>> /\ Stack(P, <<>>, w)
Calls(P) == {p[1] : p \in P}
Rets(P) == {p[2] : p \in P}
(* all calls before all returns *)
OneNest(P, w) == ~\E i, j \in 1..Len(w) : i < j /\ w[i] \in Rets(P) /\ w[j] \in Calls(P)
(* n >= 1 blocks from U followed by n blocks from V, blocks of b letters *)
Blocks(U, V, b, w) == LET n == Len(w) \div (2 * b) IN
   /\ n >= 1 /\ Len(w) = 2 * b * n
   /\ \A i \in 0..(2 * n - 1) : SubSeq(w, i * b + 1, i * b + b) \in (IF i < n THEN U ELSE V)
Round == {<<"(", ")">>}
Two == Round \cup {<<"[", "]">>}
Three == Two \cup {<<"{", "}">>}
Four == Three \cup {<<"<", ">">>}
ABC(w) == \A i \in 1..Len(w) :                       \* a, b, c only one after the other
   /\ w[i] = "a" => i + 2 <= Len(w) /\ w[i + 1] = "b" /\ w[i + 2] = "c"
   /\ w[i] = "b" => i > 1 /\ w[i - 1] = "a"
   /\ w[i] = "c" => i > 1 /\ w[i - 1] = "b"
Letter(S) == {<<x>> : x \in S}
Prime(c, r, w) == /\ Len(w) >= 2 /\ Count(w, {c}) = Count(w, {r})
                  /\ \A i \in 1..(Len(w) - 1) : LET u == SubSeq(w, 1, i) IN Count(u, {c}) > Count(u, {r})
(* sums: operands separated by plus signs, an operand is 1 or a sum in brackets *)
RECURSIVE Sum(_, _, _)
Sum(w, want, depth) ==                                \* want: an operand is expected
  IF w = <<>> THEN ~want /\ depth = 0
  ELSE LET x == Head(w) IN
       IF want THEN (IF x = "1" THEN Sum(Tail(w), FALSE, depth) ELSE IF x = "(" THEN Sum(Tail(w), TRUE, depth + 1) ELSE FALSE)
       ELSE IF x = "+" THEN Sum(Tail(w), TRUE, depth) ELSE IF x = ")" /\ depth > 0 THEN Sum(Tail(w), FALSE, depth - 1) ELSE FALSE
UnaryPlus(w) == \E i \in 1..Len(w) : w[i] = "+" /\ (i = 1 \/ w[IF i = 1 THEN 1 ELSE i - 1] \in {"+", "("})
Lang(name, w) ==
  CASE name = "anbn" -> Blocks(Letter({"a"}), Letter({"b"}), 1, w)
    [] name = "abncdn" -> Blocks(Letter({"a", "b"}), Letter({"c", "d"}), 1, w)
    [] name = "abcdnefghn" -> Blocks({<<"a", "b">>, <<"c", "d">>}, {<<"e", "f">>, <<"g", "h">>}, 2, w)
    [] name = "blocks2" -> Blocks({<<"a", "b">>}, {<<"c", "d">>}, 2, w)
    [] name = "blocks3" -> Blocks({<<"a", "b", "c">>}, {<<"d", "e", "f">>}, 3, w)
    [] name = "dyck2" -> Dyck(Two, w)
    [] name = "dyck3" -> Dyck(Three, w)
    [] name = "dyck4" -> Dyck(Four, w)
    [] name = "nest2" -> Dyck(Two, w) /\ OneNest(Two, w)
    [] name = "dyck1letters" -> Dyck(Round, w)
    [] name = "dyck2letters" -> Dyck(Two, w)
    [] name = "dyck1abc" -> Dyck(Round, w) /\ ABC(w)
    [] name = "prime" -> Prime("a", "b", w)
    [] name = "odd" -> Dyck(Round, w) /\ OneNest(Round, w) /\ Count(w, {"("}) % 2 = 1
    [] name = "sums" -> Sum(w, TRUE, 0)
    [] name = "evens" -> Count(w, {"a"}) % 2 = 0 /\ Count(w, {"b"}) % 2 = 0
    [] OTHER -> FALSE
(* what must and what may be accepted *)
Must(name, w) == IF name = "even" THEN Dyck(Round, w) /\ OneNest(Round, w) /\ Count(w, {"("}) % 2 = 0
                 ELSE IF name = "blocks5" THEN Blocks({<<"a", "b", "c", "d", "e">>}, {<<"v", "w", "x", "y", "z">>}, 5, w) ELSE Lang(name, w)
May(name, w) == IF name = "even" THEN Dyck(Round, w) /\ Count(w, {"("}) % 2 = 0
                ELSE IF name = "blocks5" THEN Count(w, {"a"}) = Count(w, {"v"})
                ELSE IF name = "data" THEN Sum(w, TRUE, 0) \/ UnaryPlus(w) ELSE Lang(name, w)
(* ---- probabilistic systems: Start, first output and the moves [o, t, p] ---------- *)
M1(o, t) == {[o |-> o, t |-> t, p |-> 10]}
M2(o, t, p, o2, t2) == {[o |-> o, t |-> t, p |-> p], [o |-> o2, t |-> t2, p |-> 10 - p]}
(* coin and button; with "koin" a second coin, after whose coffee the machine breaks at the second step *)
Coffee(s, a) ==
  IF a = "coin" THEN M1("beep", "paid")
  ELSE IF s = "paid" THEN M2("coffee", "served", 9, "init", "idle") ELSE M1("init", "idle")
Weird(s, a) ==
  CASE s \in {"broken", "crash"} -> M1("crash", "crash")
    [] a = "coin" -> M1("beep", "paid")
    [] a = "koin" -> M1("beep", "kpaid")
    [] s = "paid" -> M2("coffee", "served", 9, "init", "idle")
    [] s = "kpaid" -> M2("coffee", "kserved", 9, "init", "idle")
    [] s = "kserved" -> M1("init", "broken")
    [] OTHER -> M1("init", "idle")
Pomdp(s, a) ==
  CASE s \in {"coffee", "tea"} -> M1(s, s)
    [] s = "init" -> IF a = "coin" THEN M2("beep", "good", 8, "beep", "bad") ELSE M1("init", "init")
    [] s = "good" -> IF a = "coin" THEN M1("beep", "good") ELSE M1("coffee", "coffee")
    [] OTHER -> IF a = "coin" THEN M2("beep", "bad", 3, "beep", "good") ELSE M1("tea", "tea")
Mqtt(s, a) ==
  CASE a = "connect" -> IF s = "closed" THEN M1("CONNACK", "open") ELSE M1("CONCLOSED", "closed")
    [] s = "closed" \/ a = "disconnect" -> M1("CONCLOSED", "closed")
    [] a = "subscribe" -> M1("SUBACK", "sub")
    [] a = "publish" -> IF s = "sub" THEN M1("PUBLISH_PUBACK", "sub") ELSE M2("PUBACK", "open", 9, "CONCLOSED", "closed")
    [] OTHER -> IF s = "sub" THEN M2("UNSUBACK", "open", 8, "SUBACK", "sub") ELSE M1("UNSUBACK", "open")
(* a two by two grid in walls, <<row, column>>, grass where row = column and mud elsewhere;  *)
(* a move may slip to the tile diagonally opposite to where it started                       *)
Tile(t) == IF t[1] = t[2] THEN "grass" ELSE "mud"
Sure(t) == IF Tile(t) = "grass" THEN 8 ELSE 6
Aim(s, a) == CASE a = "north" -> <<s[1] - 1, s[2]>> [] a = "south" -> <<s[1] + 1, s[2]>> [] a = "west" -> <<s[1], s[2] - 1>> [] OTHER -> <<s[1], s[2] + 1>>
Grid(s, a) == LET t == Aim(s, a)
                  d == <<1 - s[1], 1 - s[2]>> IN
  IF t \notin {0, 1} \X {0, 1} THEN M1("wall", s) ELSE M2(Tile(t), t, Sure(t), Tile(d), d)
Start(name) == CASE name \in {"coffee", "weird"} -> "idle" [] name = "pomdp" -> "init" [] name = "mqtt" -> "closed" [] OTHER -> <<0, 0>>
FirstOutput(name) == IF name \in {"coffee", "weird", "pomdp"} THEN "init" ELSE ""
Inputs(name) == CASE name \in {"coffee", "pomdp"} -> {"coin", "but"} [] name = "weird" -> {"coin", "koin", "but"}
                  [] name = "mqtt" -> {"connect", "disconnect", "publish", "subscribe", "unsubscribe"} [] OTHER -> {"north", "south", "east", "west"}
Moves(name, s, a) == CASE name = "coffee" -> Coffee(s, a) [] name = "weird" -> Weird(s, a) [] name = "pomdp" -> Pomdp(s, a)
                       [] name = "mqtt" -> Mqtt(s, a) [] OTHER -> Grid(s, a)
(* beliefs: a function from states to weights; one step under input a and output o *)
SumOf(S, F(_)) == LET R[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + R[T \ {x}] IN R[S]
After(B, mv(_, _), a, o) == LET E == UNION {{<<s, m>> : m \in {m \in mv(s, a) : m.o = o}} : s \in DOMAIN B}
                                T == {e[2].t : e \in E}
                            IN [t \in T |-> SumOf({e \in E : e[2].t = t}, LAMBDA e : B[e[1]] * e[2].p)]
Weight(B) == SumOf(DOMAIN B, LAMBDA s : B[s])
OutsOf(B, mv(_, _), a) == UNION {{m.o : m \in mv(s, a)} : s \in DOMAIN B}
RECURSIVE SameProcess(_, _, _, _, _, _)
SameProcess(B, mv(_, _), D, mw(_, _), A, depth) ==
  depth = 0 \/ \A a \in A :
     LET O == OutsOf(B, mv, a) IN
     /\ O = OutsOf(D, mw, a)
     /\ \A o \in O : LET x == TLCEval(After(B, mv, a, o))
                         y == TLCEval(After(D, mw, a, o)) IN Weight(x) = Weight(y) /\ SameProcess(x, mv, y, mw, A, depth - 1)
(* ---- the nondeterministic benchmark: <<output, state>> per state and input ---------- *)
Bench(s, a) ==
  CASE s = "q0" -> IF a = "a" THEN {<<"0", "q1">>} ELSE {<<"2", "q0">>, <<"0", "q2">>}
    [] s = "q1" -> IF a = "a" THEN {<<"2", "q0">>} ELSE {<<"3", "q1">>}
    [] s = "q2" -> IF a = "a" THEN {<<"2", "q3">>} ELSE {<<"0", "q2">>, <<"3", "q2">>}
    [] OTHER -> IF a = "a" THEN {<<"2", "q1">>} ELSE {<<"3", "q3">>}
RECURSIVE SameTraces(_, _, _, _)
SameTraces(g, s, r, depth) ==            \* g: states of a projected machine, both observable
  depth = 0 \/ \A a \in {"a", "b"} :
     LET X == {m \in {g.e[i] : i \in 1..Len(g.e)} : m.s = s /\ m.a = a}
         Y == Bench(r, a) IN
     /\ {m.o : m \in X} = {p[1] : p \in Y}
     /\ \A m \in X : \A p \in Y : m.o = p[1] => SameTraces(g, m.t, p[2], depth - 1)
(* ---- the mock broker ----------------------------------------------------------------- *)
MockInit == [open |-> FALSE, topics |-> {}]
Shut == MockInit
MockNext(c, op, t, bad) ==
  CASE op = "connect" -> IF c.open THEN Shut ELSE [open |-> TRUE, topics |-> {}]
    [] op = "disconnect" -> Shut
    [] bad -> Shut
    [] op = "subscribe" /\ c.open -> [c EXCEPT !.topics = @ \cup {t}]
    [] op = "unsubscribe" /\ c.open -> [c EXCEPT !.topics = @ \ {t}]
    [] OTHER -> c
MockOut(c, d, op, t) ==
  IF ~d.open THEN "CONCLOSED"
  ELSE CASE op = "connect" -> "CONNACK" [] op = "subscribe" -> "SUBACK" [] op = "unsubscribe" -> "UNSUBACK"
         [] OTHER -> IF t \in c.topics THEN "PUBACK_PUBACK" ELSE "PUBACK"
(* ---- dates ---------------------------------------------------------------------------- *)
Days(m) == IF m = 2 THEN 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsDate(d, m, y) == y \in 0..9999 /\ m \in 1..12 /\ d \in 1..Days(m)
===============================================================================

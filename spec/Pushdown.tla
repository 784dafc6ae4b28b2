------------------------------- MODULE Pushdown -------------------------------
(* Visibly pushdown systems.  The state is a control state and a stack.          *)
(*  g.n states 1..n, g.init, g.acc[s]; letters 1..g.ni are internal, the next     *)
(*  g.nc calls, the next g.nr returns; g.sevpa: a call pushes <<state, letter>>   *)
(*  and moves to the initial state.  g.e is a sequence of [s, a, t, gs, gc]:      *)
(*  gc the symbol pushed (calls) or popped (returns), gs the state half of it     *)
(*  (0 for ordinary systems).                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IsInt(g, a) == a \in 1..g.ni
IsCall(g, a) == a \in (g.ni + 1)..(g.ni + g.nc)
IsRet(g, a) == a \in (g.ni + g.nc + 1)..(g.ni + g.nc + g.nr)
Letters(g) == 1..(g.ni + g.nc + g.nr)
PEdges(g) == {g.e[i] : i \in 1..Len(g.e)}
PDet(g) == \A i, j \in 1..Len(g.e) : i < j => LET x == g.e[i]
                                                    y == g.e[j] IN ~(x.s = y.s /\ x.a = y.a /\ x.gs = y.gs /\ x.gc = y.gc)
(* the same transitions as tables (0: none): ti[s][i], tc[s][i] = <<target, pushed letter>>, *)
(* tr[s][i][symbol number]                                                                  *)
SymNo(g, sym) == IF g.sevpa THEN (sym[1] - 1) * g.nc + sym[2] - g.ni ELSE sym[2] - g.ni
TablesMatch(g) == /\ \A i \in 1..Len(g.e) : LET x == g.e[i] IN
                        IF IsInt(g, x.a) THEN g.ti[x.s][x.a] = x.t
                        ELSE IF IsCall(g, x.a) THEN g.tc[x.s][x.a - g.ni] = <<x.t, x.gc>>
                        ELSE g.tr[x.s][x.a - g.ni - g.nc][SymNo(g, <<x.gs, x.gc>>)] = x.t
                  /\ Len(g.e) = Cardinality({<<s, i>> \in (1..g.n) \X (1..g.ni) : g.ti[s][i] # 0})
                                + Cardinality({<<s, i>> \in (1..g.n) \X (1..g.nc) : ~g.sevpa /\ g.tc[s][i][1] # 0})
                                + Cardinality({<<s, i, j>> \in (1..g.n) \X (1..g.nr) \X (1..(IF g.sevpa THEN g.n * g.nc ELSE g.nc)) : g.tr[s][i][j] # 0})
Dead == 0
DeadSym == <<0, 0>>
(* single moves on control states; 0 is the dead state, never left *)
IntMove(g, s, a) == IF s = Dead THEN Dead ELSE g.ti[s][a]
CallMove(g, s, a) == IF s = Dead THEN <<Dead, DeadSym>>
   ELSE IF g.sevpa THEN <<g.init, <<s, a>>>>
   ELSE LET m == g.tc[s][a - g.ni] IN IF m[1] = 0 THEN <<Dead, DeadSym>> ELSE <<m[1], <<0, m[2]>>>>
RetMove(g, s, a, sym) == IF s = Dead \/ sym = DeadSym THEN Dead ELSE g.tr[s][a - g.ni - g.nc][SymNo(g, sym)]
(* configurations *)
Conf0(g) == [s |-> g.init, st |-> <<>>]
DeadConf == [s |-> Dead, st |-> <<>>]
PMove(g, c, a) ==
  IF c.s = Dead \/ a \notin Letters(g) THEN DeadConf
  ELSE IF IsCall(g, a) THEN (LET m == CallMove(g, c.s, a) IN IF m[1] = Dead THEN DeadConf ELSE [s |-> m[1], st |-> Append(c.st, m[2])])
  ELSE IF IsRet(g, a) THEN (IF c.st = <<>> THEN DeadConf
                            ELSE LET t == RetMove(g, c.s, a, c.st[Len(c.st)])
                                 IN IF t = Dead THEN DeadConf ELSE [s |-> t, st |-> SubSeq(c.st, 1, Len(c.st) - 1)])
  ELSE LET t == IntMove(g, c.s, a) IN IF t = Dead THEN DeadConf ELSE [s |-> t, st |-> c.st]
Accepting(g, c) == c.s # Dead /\ g.acc[c.s] /\ c.st = <<>>
RECURSIVE PRun(_, _, _)
PRun(g, c, w) == IF w = <<>> THEN c ELSE PRun(g, PMove(g, c, Head(w)), Tail(w))
Accepts(g, w) == Accepting(g, PRun(g, Conf0(g), w))
(* balance of a word: never more returns than calls, none open at the end *)
RECURSIVE Depth(_, _, _)
Depth(calls, rets, w) == IF w = <<>> THEN 0
   ELSE LET d == Depth(calls, rets, SubSeq(w, 1, Len(w) - 1)) IN
        IF d < 0 THEN -1 ELSE IF w[Len(w)] \in calls THEN d + 1 ELSE IF w[Len(w)] \in rets THEN d - 1 ELSE d
Balanced(calls, rets, w) == Depth(calls, rets, w) = 0
CallSet(g) == {a \in Letters(g) : IsCall(g, a)}
RetSet(g) == {a \in Letters(g) : IsRet(g, a)}
(* language equivalence of two deterministic systems over the same letters: least *)
(* fixpoint of "from entry pair e the pair c is reachable by a balanced word".     *)
CallPair(g, h, c, a) == LET x == CallMove(g, c[1], a)
                            y == CallMove(h, c[2], a) IN <<<<x[1], y[1]>>, x[2], y[2]>>
(* R: the pairs found, N: those found last (R includes N) *)
IntPairs(g, h, N) == {<<q[1][1], <<IntMove(g, q[1][2][1], q[2]), IntMove(h, q[1][2][2], q[2])>>>> : q \in N \X {a \in Letters(g) : IsInt(g, a)}}
Entries(g, h, N) == {LET p == CallPair(g, h, q[1][2], q[2])[1] IN <<p, p>> : q \in N \X CallSet(g)}
Returns(g, h, Q, inner) ==    \* calls made in Q, closed by runs in inner
  UNION {LET cp == CallPair(g, h, q[1][2], q[2])
         IN {<<q[1][1], <<RetMove(g, x[1][2][1], x[2], cp[2]), RetMove(h, x[1][2][2], x[2], cp[3])>>>> :
                x \in {r \in inner : r[1] = cp[1]} \X RetSet(g)}
         : q \in Q \X CallSet(g)}
RECURSIVE Summary(_, _, _, _)
Summary(g, h, R, N) ==
  IF N = {} THEN R
  ELSE LET new == TLCEval((IntPairs(g, h, N) \cup Entries(g, h, N) \cup Returns(g, h, N, R) \cup Returns(g, h, R, N)) \ R)
       IN Summary(g, h, TLCEval(R \cup new), new)
BaseReach(g, h) == LET i == <<g.init, h.init>> IN {r[2] : r \in {r \in Summary(g, h, {<<i, i>>}, {<<i, i>>}) : r[1] = i}}
Acc0(g, s) == s # Dead /\ g.acc[s]
SameLanguage(g, h) == \A p \in BaseReach(g, h) : Acc0(g, p[1]) = Acc0(h, p[2])
(* the machine *)
VARIABLE conf
PInit(g) == conf = Conf0(g)
PReset(g) == conf' = Conf0(g)
PStep(g, a, out) == conf' = PMove(g, conf, a) /\ out = Accepting(g, conf')
PIdle(g, out) == out = Accepting(g, conf) /\ UNCHANGED conf
=============================================================================

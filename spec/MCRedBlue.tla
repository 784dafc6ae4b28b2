------------------------------- MODULE MCRedBlue -------------------------------
(* Generalized merging itself, over every small data set and a choice of criteria: *)
(* whichever admissible promotions and merges are taken, merging ends, no          *)
(* observation is lost, every trace stays possible, and a structure required to be *)
(* deterministic is.                                                              *)
EXTENDS RedBlue, FiniteSetsExt
CONSTANTS MaxLen, NSyms, MaxSize
VARIABLES dt, kk, fin
mvars == <<st, red, dep, open, dt, kk, fin>>
SymA == <<1, 1, 2, 2>>
SymO == <<"0", "1", "0", "1">>
RECURSIVE WordsOf(_)
WordsOf(n) == IF n = 0 THEN {<<>>} ELSE LET W == WordsOf(n - 1) IN W \cup {Append(w, s) : w \in {w \in W : Len(w) = n - 1}, s \in 1..NSyms}
PrefOf(w, i) == SubSeq(w, 1, i)
Closed(W) == {p \in WordsOf(MaxLen) : \E w \in W : Len(p) <= Len(w) /\ PrefOf(w, Len(p)) = p}
Tree(W, moore) == LET P == Closed(W) \cup {<<>>}
                      q == SetToSortSeq(P, LAMBDA a, b : Len(a) < Len(b) \/ (Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]))
                      num(p) == IF p \in P THEN CHOOSE i \in 1..Len(q) : q[i] = p ELSE 0 IN
  [N |-> Len(q), S |-> NSyms, symA |-> SubSeq(SymA, 1, NSyms), symO |-> SubSeq(SymO, 1, NSyms),
   kid |-> [n \in 1..Len(q) |-> [s \in 1..NSyms |-> num(Append(q[n], s))]],
   cnt |-> [n \in 1..Len(q) |-> [s \in 1..NSyms |-> Cardinality({w \in W : Len(w) > Len(q[n]) /\ PrefOf(w, Len(q[n])) = q[n] /\ w[Len(q[n]) + 1] = s})]],
   par |-> [n \in 1..Len(q) |-> IF n = 1 THEN 1 ELSE num(PrefOf(q[n], Len(q[n]) - 1))], by |-> [n \in 1..Len(q) |-> IF n = 1 THEN 1 ELSE q[n][Len(q[n])]],
   dep |-> [n \in 1..Len(q) |-> Len(q[n])], lab |-> [n \in 1..Len(q) |-> IF ~moore THEN "" ELSE IF n = 1 THEN "0" ELSE SymO[q[n][Len(q[n])]]], rank |-> [n \in 1..Len(q) |-> n]]
Base == [moore |-> FALSE, det |-> FALSE, locals |-> <<>>, bad |-> <<>>, depth |-> 9, sink |-> "", score |-> "true", min |-> 0, minblue |-> FALSE, near |-> FALSE, weighted |-> FALSE, mode |-> "none", greedy |-> FALSE]
DetL == <<[what |-> "det", lo |-> 0, hi |-> 0]>>
HoefL == <<[what |-> "hoef", lo |-> 14, hi |-> 15]>>
Crits == {[Base EXCEPT !.det = TRUE], [Base EXCEPT !.det = TRUE, !.score = "evid"], [Base EXCEPT !.moore = TRUE, !.mode = "fold", !.locals = DetL],
          [Base EXCEPT !.mode = "now", !.locals = HoefL, !.minblue = TRUE, !.near = TRUE], [Base EXCEPT !.mode = "pta", !.locals = DetL, !.depth = 1, !.sink = "never"],
          [Base EXCEPT !.moore = TRUE, !.mode = "global", !.locals = DetL, !.score = "freq"]}
DataSets == UNION {kSubset(i, {w \in WordsOf(MaxLen) : w # <<>>}) : i \in 1..MaxSize}
TreeDet(d) == \A n \in 1..d.N : DetHere(d, [kid |-> d.kid], n)
Init == /\ kk \in Crits /\ dt \in {Tree(W, kk.moore) : W \in DataSets} /\ (kk.det => TreeDet(dt)) /\ Begin(dt) /\ fin = FALSE
DoPromote == \E n \in 1..dt.N : st.rep[n] = n /\ PromoteVerdict(dt, kk, n) = "ok" /\ Promote(dt, n) /\ UNCHANGED <<dt, kk, fin>>
DoMerge == \E r \in red, n \in 1..dt.N : st.rep[n] = n /\ MergeEventVerdict(dt, kk, r, n) = "ok" /\ MergeStep(dt, r, n) /\ UNCHANGED <<dt, kk, fin>>
Stop == red # {} /\ Blues(dt, st, red) = {} /\ fin' = TRUE /\ UNCHANGED <<st, red, dep, open, dt, kk>>
Next == ~fin /\ (DoPromote \/ DoMerge \/ Stop)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
(* ---- what holds throughout *)
Reached == LET RECURSIVE G(_, _)
               G(seen, f) == IF f = {} THEN seen ELSE LET n == ({st.kid[x][s] : x \in f, s \in Syms(dt)} \ {0}) \ seen IN G(seen \cup n, n) IN G({1}, {1})
Weight(v) == LET RECURSIVE S2(_) S2(X) == IF X = {} THEN 0 ELSE LET n == CHOOSE n \in X : TRUE IN All(dt, v[n]) + S2(X \ {n}) IN S2(Reached)
RECURSIVE WeightAll(_)
WeightAll(X) == IF X = {} THEN 0 ELSE LET n == CHOOSE n \in X : TRUE IN All(dt, dt.cnt[n]) + WeightAll(X \ {n})
NothingLost == Weight(st.cnt) = WeightAll(NodesOf(dt))
TracesStay == \A n \in 2..dt.N : st.kid[st.rep[dt.par[n]]][dt.by[n]] = st.rep[n]
RedStay == red \subseteq Reached \/ red = {}
Deterministic == kk.det => \A n \in Reached : DetHere(dt, st, n)
LabelsAgree == kk.moore => \A n \in NodesOf(dt) : dt.lab[st.rep[n]] = dt.lab[n]
NeverStuck == fin \/ ENABLED Next
Ends == <>fin
=============================================================================

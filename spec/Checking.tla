-------------------------------- MODULE Checking ------------------------------
(* Asking an external probabilistic model checker about a model, and learning     *)
(* until its answers are good enough.  Numbers are in millionths.  What the        *)
(* checker prints is a sequence of lines [res, v]; only result lines are answers.  *)
EXTENDS Convert, SequencesExt
Answers(lines) == LET q == SelectSeq(lines, LAMBDA x : x.res) IN [i \in 1..Len(q) |-> q[i].v]
Dist(a, b) == IF a < b THEN b - a ELSE a - b
(* x, a decimal with d digits, is y rounded to d digits                            *)
Unit(d) == CASE d = 2 -> 10000 [] d = 3 -> 1000 [] d = 4 -> 100 [] d = 5 -> 10 [] OTHER -> 1
Rounds(x, y, d) == 2 * Dist(x, y) <= Unit(d) /\ x % Unit(d) = 0
Named(q) == \A i \in 1..Len(q) : q[i].i = i
Values(q) == [i \in 1..Len(q) |-> q[i].v]
(* the error of an answer as it is compared: rounded to 4 digits                    *)
Round4(x) == ((x + 50) \div 100) * 100
Errors(ans, want) == [i \in 1..Len(ans) |-> Round4(Dist(ans[i], want[i]))]
GoodEnough(ans, want, bound) == /\ Len(ans) = Len(want) /\ Len(ans) > 0
                                /\ \A i \in 1..Len(ans) : Errors(ans, want)[i] <= bound
EvalVerdict(c) == IF ~Named(c.got) THEN "PropertyMisnamed"
                  ELSE IF Values(c.got) # Answers(c.lines) THEN "AnswerMisreported" ELSE "ok"
Asked(c) == IF c.asked # 1 THEN "NotAskedOnce"
            ELSE IF ~c.props THEN "OtherPropertiesChecked"
            ELSE IF c.left > 0 THEN "FilesLeftBehind"
            ELSE PrismVerdict(c.model)
CheckVerdict(c) == IF Asked(c) # "ok" THEN Asked(c) ELSE EvalVerdict(c)
ExperimentVerdict(c) ==
  LET a == Answers(c.lines) IN
  IF Asked(c) # "ok" THEN Asked(c)
  ELSE IF ~Named(c.got) \/ ~Named(c.diff) THEN "PropertyMisnamed"
  ELSE IF Len(c.got) # Len(a) \/ Len(c.diff) # Len(a) THEN "AnswerMisreported"
  ELSE IF \E i \in 1..Len(a) : ~Rounds(c.got[i].v, a[i], c.digits) THEN "AnswerMisreported"
  ELSE IF \E i \in 1..Len(a) : ~Rounds(c.diff[i].v, Dist(a[i], c.want[i]), c.digits) THEN "ErrorMisreported"
  ELSE "ok"
ConfidenceVerdict(c) ==
  IF Asked(c) # "ok" THEN Asked(c)
  ELSE IF c.stop # GoodEnough(Answers(c.lines), c.want, c.bound) THEN IF c.stop THEN "StoppedTooEarly" ELSE "GoodModelRejected"
  ELSE "ok"
(* ---- learning with property based stopping.  A round resamples (or finds nothing  *)
(* to resample), then from round `min` on asks the checker; learning ends when the    *)
(* answers are good, when nothing was resampled, or at round `max`.                   *)
LNext(s, p, resampled, good) ==
  IF s.done THEN s
  ELSE LET r == s.round + 1
           asks == r >= p.min
           d == IF asks THEN good \/ r >= p.max \/ ~resampled ELSE r >= p.max \/ ~resampled
       IN [round |-> r, asked |-> s.asked + (IF asks THEN 1 ELSE 0), done |-> d, ok |-> asks /\ good]
LStart == [round |-> 0, asked |-> 0, done |-> FALSE, ok |-> FALSE]
RECURSIVE LRun(_, _, _, _, _)
LRun(s, p, qs, i, n) ==     \* qs[i]: the answers to the i-th question and whether the round resampled
  IF s.round = n \/ s.done THEN s
  ELSE LET asks == s.round + 1 >= p.min
           q == IF asks /\ i <= Len(qs) THEN qs[i] ELSE [good |-> FALSE, resampled |-> TRUE]
       IN LRun(LNext(s, p, q.resampled, q.good), p, qs, IF asks THEN i + 1 ELSE i, n)
LearnVerdict(c) ==
  LET p == [min |-> c.min, max |-> c.max]
      read(unknown) == [i \in 1..Len(c.asks) |-> [good |-> GoodEnough(Answers(c.asks[i].lines), c.want, c.bound),
                          resampled |-> c.asks[i].resampled = "yes" \/ (c.asks[i].resampled = "?" /\ unknown)]]
      qs == read(FALSE)
      before == LRun(LStart, p, read(TRUE), 1, c.rounds - 1)
      end == LRun(before, p, qs, before.asked + 1, c.rounds)
  IN IF before.done THEN "LearnedOnThoughDone"
     ELSE IF Len(qs) # end.asked THEN "CheckerNotAskedEveryRound"
     ELSE IF ~end.done /\ end.asked > 0 THEN "StoppedTooEarly"
     ELSE IF \E i \in 1..Len(c.asks) : ~c.asks[i].props THEN "OtherPropertiesChecked"
     ELSE IF c.left > 0 THEN "FilesLeftBehind"
     ELSE IF c.haslast THEN PrismVerdict(c.model) ELSE "ok"
CheckingVerdict(c) == CASE c.e = "evaluate" -> EvalVerdict(c)
                        [] c.e = "check" -> CheckVerdict(c)
                        [] c.e = "experiment" -> ExperimentVerdict(c)
                        [] c.e = "confidence" -> ConfidenceVerdict(c)
                        [] c.e = "learn" -> LearnVerdict(c)
                        [] OTHER -> "UnknownCall"
=============================================================================

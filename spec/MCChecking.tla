------------------------------- MODULE MCChecking ------------------------------
(* Laws of Checking: all question/answer histories within small bounds.           *)
EXTENDS Checking, TLC
CONSTANTS MaxRounds, Vals
VARIABLES s, p, hist, rs
vars == <<s, p, hist, rs>>
Want == <<500000>>
Init == /\ p \in [min : 1..MaxRounds, max : 1..MaxRounds] /\ s = LStart /\ hist = <<>> /\ rs = TRUE
Lines(v) == IF v = 0 THEN <<>> ELSE <<[res |-> FALSE, v |-> 0], [res |-> TRUE, v |-> v]>>
Step == /\ ~s.done
        /\ \E r \in BOOLEAN, v \in Vals :
             LET asks == s.round + 1 >= p.min
                 good == asks /\ GoodEnough(Answers(Lines(v)), Want, 20000)
             IN /\ s' = LNext(s, p, r, good)
                /\ hist' = IF asks THEN Append(hist, [good |-> good, resampled |-> r]) ELSE hist
                /\ rs' = r
        /\ UNCHANGED p
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* never good before the end, never past the limit, and it ends                     *)
OnlyLastGood == \A i \in 1..(Len(hist) - 1) : ~hist[i].good
AskedRight == s.asked = Len(hist) /\ s.asked = (IF s.round < p.min THEN 0 ELSE s.round - p.min + 1)
Limited == s.round <= p.max
StopsForReason == s.done => s.ok \/ s.round = p.max \/ ~rs
GoodStops == (hist # <<>> /\ hist[Len(hist)].good /\ s.round >= p.min) => s.done
Ends == <>s.done
(* the fold used on recorded runs is the state machine: on histories that resample in all unasked rounds *)
FoldAgrees == s.round < p.min \/ LET f == LRun(LStart, p, hist, 1, s.round) IN (f.asked = s.asked /\ f.done = s.done)
(* rounding: the error is within half a unit, and monotone                           *)
ASSUME \A x \in 0..400 : Dist(Round4(x), x) <= 50 /\ Rounds(Round4(x), x, 4)
ASSUME \A x, y \in 0..300 : x <= y => Round4(x) <= Round4(y)
ASSUME GoodEnough(<<520000>>, Want, 20000) /\ ~GoodEnough(<<520100>>, Want, 20000) /\ ~GoodEnough(<<>>, Want, 20000)
ASSUME ~GoodEnough(<<500000>>, <<500000, 100000>>, 20000)
=============================================================================

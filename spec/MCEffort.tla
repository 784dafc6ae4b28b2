------------------------------- MODULE MCEffort -------------------------------
(* Searching a counterexample for the place where the model goes wrong: s[i + 1]   *)
(* says whether the system, driven to the state the model reaches after i letters,   *)
(* still gives the counterexample's last answer. It does at 0 and not at M. Every     *)
(* search ends with a place where the answer changes, in as many questions as         *)
(* Effort allows. The interval left to L# shrinks in either of two ways.              *)
EXTENDS Effort
CONSTANTS L
VARIABLES s, how, lo, hi, asked, found, step, phase
vars == <<s, how, lo, hi, asked, found, step, phase>>
M == Len(s) - 1
Answer(i) == s[i + 1]
Seqs == {x \in UNION {[1..i -> BOOLEAN] : i \in 2..(L + 1)} : x[1] /\ ~x[Len(x)]}
Init == /\ how \in {"rs", "linear_fwd", "exponential_fwd", "exponential_bwd", "sharp"}
        /\ IF how = "sharp" THEN s \in {[i \in 1..(l + 1) |-> i = 1] : l \in 1..L} ELSE s \in Seqs
        /\ asked = 0 /\ found = -1 /\ phase = IF how \in {"exponential_fwd", "exponential_bwd"} THEN "jump" ELSE "search"
        /\ step = 1
        /\ lo = 0 /\ hi = Len(s) - 1
Place(a, b) == IF b - a = 1 THEN found' = a ELSE found' = found
(* invariant of the searches: the answer is right at lo and wrong at hi *)
Narrow(i) == IF Answer(i) THEN lo' = i /\ hi' = hi /\ Place(i, hi) ELSE hi' = i /\ lo' = lo /\ Place(lo, i)
Bis == /\ found = -1 /\ phase = "search" /\ how # "sharp" /\ how # "linear_fwd"
       /\ IF hi - lo = 1 THEN found' = lo /\ UNCHANGED <<lo, hi, asked>>
          ELSE asked' = asked + 1 /\ Narrow((lo + hi) \div 2)
       /\ UNCHANGED <<s, how, step, phase>>
Line == /\ found = -1 /\ how = "linear_fwd"
        /\ IF hi - lo = 1 THEN found' = lo /\ UNCHANGED <<lo, hi, asked>>
           ELSE asked' = asked + 1 /\ IF Answer(lo + 1) THEN lo' = lo + 1 /\ UNCHANGED <<hi, found>> ELSE found' = lo /\ UNCHANGED <<lo, hi>>
        /\ UNCHANGED <<s, how, step, phase>>
Jump == /\ phase = "jump"
        /\ LET i == IF how = "exponential_fwd" THEN step ELSE M - step IN
           IF i >= M \/ i <= 0 THEN phase' = "search" /\ UNCHANGED <<lo, hi, asked, step>>
           ELSE /\ asked' = asked + 1 /\ step' = 2 * step
                /\ IF how = "exponential_fwd"
                   THEN IF Answer(i) THEN lo' = i /\ UNCHANGED <<hi, phase>> ELSE hi' = i /\ phase' = "search" /\ UNCHANGED lo
                   ELSE IF Answer(i) THEN lo' = i /\ phase' = "search" /\ UNCHANGED hi ELSE hi' = i /\ UNCHANGED <<lo, phase>>
        /\ UNCHANGED <<s, how, found>>
(* L#: hi - lo letters of the counterexample lie beyond what is already identified *)
Halve == /\ how = "sharp" /\ found = -1
         /\ IF hi - lo <= 0 THEN found' = lo /\ UNCHANGED <<lo, hi, asked>>
            ELSE /\ asked' = asked + 1 /\ found' = found
                 /\ LET d == hi - lo
                        h == lo + (d \div 2) IN (hi' = h /\ lo' = lo) \/ (lo' = h + 1 /\ hi' = hi)
         /\ UNCHANGED <<s, how, step, phase>>
Next == Bis \/ Line \/ Jump \/ Halve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Changes == found >= 0 /\ how # "sharp" => Answer(found) /\ ~Answer(found + 1)
Kept == how # "sharp" => Answer(lo) /\ ~Answer(hi)
Quick == asked + 2 <= IF how = "sharp" THEN Bisect(M) + 2 ELSE Locate(how, M)
Ends == <>(found >= 0)
===============================================================================

------------------------------- MODULE SulProto ------------------------------
(* How a system under learning is used: tests are opened, stepped, closed,    *)
(* one at a time, either for learning or for equivalence checking; the totals *)
(* of both kinds are counted.  Ending a test when none is open is harmless.   *)
EXTENDS Naturals
VARIABLES open,            \* a test is open
          phase,           \* "learn" | "eq"
          tests, steps     \* [phase -> number of tests opened / inputs executed]
pvars == <<open, phase, tests, steps>>
Zero == [learn |-> 0, eq |-> 0]
PInit == open = FALSE /\ phase = "learn" /\ tests = Zero /\ steps = Zero
OpenTest == /\ ~open /\ open' = TRUE /\ tests' = [tests EXCEPT ![phase] = @ + 1]
            /\ UNCHANGED <<phase, steps>>
(* n inputs are executed; looking at the initial output is no step *)
StepN(n) == /\ open /\ steps' = [steps EXCEPT ![phase] = @ + n] /\ UNCHANGED <<open, phase, tests>>
CloseTest == open' = FALSE /\ UNCHANGED <<phase, tests, steps>>
(* c complete tests with n inputs altogether *)
WholeTests(c, n) == /\ ~open /\ tests' = [tests EXCEPT ![phase] = @ + c]
                    /\ steps' = [steps EXCEPT ![phase] = @ + n] /\ UNCHANGED <<open, phase>>
BeginEq == phase = "learn" /\ phase' = "eq" /\ UNCHANGED <<open, tests, steps>>
EndEq == phase = "eq" /\ phase' = "learn" /\ UNCHANGED <<open, tests, steps>>
(* ---- properties ---- *)
StepsNeedTests == \A p \in {"learn", "eq"} : steps[p] > 0 => tests[p] > 0
=============================================================================

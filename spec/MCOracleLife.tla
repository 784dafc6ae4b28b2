----------------------------- MODULE MCOracleLife ----------------------------
(* Design check of the memory of an oracle over its life: searches spend tests, *)
(* find something or not, and the owner may ask for a fresh start.  Without      *)
(* renewal the whole life costs at most the budget; with renewal every search    *)
(* after a counterexample or a fresh start has the whole budget; a silent search *)
(* has always spent all that was left.                                           *)
EXTENDS Oracle
CONSTANTS Kind, Walks, Len0, Searches
VARIABLES mem, renew, n, total, last
vars == <<mem, renew, n, total, last>>
P == [walks |-> Walks, steps |-> Walks * Len0, renew |-> renew]
Test == [i \in 1..Len0 |-> 1]
Tests(j) == [i \in 1..j |-> Test]
Init == /\ renew \in BOOLEAN /\ n = 0 /\ total = 0 /\ last = "new"
        /\ mem = FreshMemory(Kind, [walks |-> Walks, steps |-> Walks * Len0, renew |-> renew])
Search(reset, j, found) ==
  LET now == Prepared(Kind, P, mem, <<<<>>>>, reset) IN
  /\ n < Searches
  /\ LimitVerdict(Kind, P, now, Tests(j)) = "ok"
  /\ ~found => Spent(Kind, Tests(j)) = now.left
  /\ mem' = Remembered(Kind, P, now, Tests(j), IF found THEN <<1>> ELSE NoCex)
  /\ n' = n + 1 /\ total' = total + Spent(Kind, Tests(j)) /\ last' = (IF found THEN "found" ELSE "silent")
  /\ UNCHANGED renew
Next == \E reset, found \in BOOLEAN, j \in 0..(Walks + 1) : Search(reset, j, found)
LeftInRange == mem.left \in 0..Whole(Kind, P)
NeverMoreThanBudget == ~renew => total + mem.left = Whole(Kind, P)
RenewedAfterFound == (renew /\ last = "found") => mem.left = Whole(Kind, P)
EmptyAfterSilence == last = "silent" => mem.left = 0
HistoryKept == SumLen(mem.hist) = total * (IF Kind = "randomwalk" THEN 1 ELSE Len0)
CannotExceed == \A j \in 0..(Walks + 1) : ENABLED Search(FALSE, j, TRUE) => j <= Walks
=============================================================================

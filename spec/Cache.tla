-------------------------------- MODULE Cache --------------------------------
(* A caching wrapper around a system that may answer inconsistently.         *)
(* obs is everything the wrapper has been told so far (nonempty words only); *)
(* a whole query is answered from obs when possible, otherwise executed; a    *)
(* stepwise test always goes to the system.  An output contradicting obs      *)
(* stops the interaction with an error.                                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES obs,      \* word -> output of its last letter
          cur,      \* word of the open stepwise test, Closed if none
          failed,   \* a contradiction was reported
          nq, ns, nc  \* executed whole queries, their steps, cached queries
cvars == <<obs, cur, failed, nq, ns, nc>>
Closed == <<0>>

Pre(w, i) == SubSeq(w, 1, i)
Known(w) == \A i \in 1..Len(w) : Pre(w, i) \in DOMAIN obs
Recall(w) == [i \in 1..Len(w) |-> obs[Pre(w, i)]]
Conflict(w, o) == \E i \in 1..Len(w) : Pre(w, i) \in DOMAIN obs /\ obs[Pre(w, i)] # o[i]
Learn(w, o) == [u \in DOMAIN obs \cup {Pre(w, i) : i \in 1..Len(w)} |->
                  IF u \in DOMAIN obs THEN obs[u] ELSE o[Len(u)]]

Start == /\ obs = <<>> /\ cur = Closed /\ failed = FALSE /\ nq = 0 /\ ns = 0 /\ nc = 0
         
(* observations supplied in advance *)
Preload(w, o) ==
  /\ cur = Closed /\ ~failed /\ ~Conflict(w, o)
  /\ obs' = Learn(w, o)
  /\ UNCHANGED <<cur, failed, nq, ns, nc>>
(* ... which contradict each other or what was observed: Learn keeps the first *)
PreloadContradicted(w, o) ==
  /\ cur = Closed /\ ~failed /\ Conflict(w, o)
  /\ failed' = TRUE /\ UNCHANGED <<obs, cur, nq, ns, nc>>
(* a whole query answered without executing anything *)
QueryCached(w, res) ==
  /\ cur = Closed /\ ~failed /\ w # <<>> /\ Known(w)
  /\ res = Recall(w)
  /\ nc' = nc + 1 /\ UNCHANGED <<obs, cur, failed, nq, ns>>
(* a whole query executed on the system, which answers outs *)
QueryExecuted(w, outs, res) ==
  /\ cur = Closed /\ ~failed /\ (w = <<>> \/ ~Known(w))
  /\ ~Conflict(w, outs)
  /\ res = outs
  /\ obs' = Learn(w, outs)
  /\ nq' = nq + 1 /\ ns' = ns + Len(w) /\ UNCHANGED <<cur, failed, nc>>
QueryContradicted(w, outs) ==
  /\ cur = Closed /\ ~failed /\ ~Known(w) /\ Conflict(w, outs)
  /\ failed' = TRUE /\ UNCHANGED <<obs, cur, nq, ns, nc>>
Open == /\ ~failed /\ cur = Closed /\ cur' = <<>> /\ UNCHANGED <<obs, failed, nq, ns, nc>>
Close == /\ ~failed /\ cur # Closed /\ cur' = Closed /\ UNCHANGED <<obs, failed, nq, ns, nc>>
(* initial output (states carry outputs): reported, not part of the history *)
Peek(out, res) == /\ ~failed /\ cur = <<>> /\ res = out /\ UNCHANGED cvars
Step(a, out, res) ==
  /\ ~failed /\ cur # Closed
  /\ LET w == Append(cur, a)
     IN /\ w \in DOMAIN obs => obs[w] = out
        /\ obs' = IF w \in DOMAIN obs THEN obs ELSE [u \in DOMAIN obs \cup {w} |-> IF u \in DOMAIN obs THEN obs[u] ELSE out]
        /\ cur' = w
  /\ res = out
  /\ UNCHANGED <<failed, nq, ns, nc>>
StepContradicted(a, out) ==
  /\ ~failed /\ cur # Closed
  /\ LET w == Append(cur, a) IN w \in DOMAIN obs /\ obs[w] # out
  /\ failed' = TRUE /\ UNCHANGED <<obs, cur, nq, ns, nc>>

(* ---- properties ---- *)
PrefixClosed == \A w \in DOMAIN obs : w # <<>> /\ \A i \in 1..Len(w) : Pre(w, i) \in DOMAIN obs
=============================================================================

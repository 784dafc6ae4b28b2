-------------------------------- MODULE Persist -------------------------------
(* A model written out and read back, or copied: g/gids the original before,     *)
(* after/afterids the original afterwards, h/hids the result.  States of h are   *)
(* numbered by the position of their identifier in gids.                         *)
EXTENDS Algo
PersistVerdict(c) ==
  IF c.err # "" THEN c.err
  ELSE IF ~c.cls THEN "OtherClass"
  ELSE IF Len(c.hids) # Cardinality(SetOf(c.hids)) THEN "IdentifiersRepeated"
  ELSE IF SetOf(c.hids) # SetOf(c.gids) THEN "IdentifiersDiffer"
  ELSE IF c.h.init # c.g.init THEN "OtherInitialState"
  ELSE IF c.h.lab # c.g.lab THEN "OtherStateOutput"
  ELSE IF ~SameEdges(c.g, c.h) THEN "OtherTransitions"
  ELSE IF ~SameGraph(c.g, c.after) \/ c.afterids # c.gids THEN "OriginalChanged"
  ELSE IF c.shared # 0 THEN "StatesShared"
  ELSE IF c.cur # c.g.init THEN "ResultDoesNotStartInitially"
  ELSE IF c.wantpref /\ \E s \in 1..c.m.n : PathVerdict(c.m, c.m.init, s, c.pref[s]) # "ok" THEN "PrefixWrong"
  ELSE IF c.haslate /\ ~SameGraph(c.g, c.late) THEN "ChangedWithItsCopy"
  ELSE "ok"
=============================================================================

------------------------------- MODULE TraceRun -------------------------------
(* Recorded operations on a model.  Every event carries the position of the     *)
(* model afterwards (cur, 0 = none of its states).  C.g is the graph the model  *)
(* was built from, the final event carries the graph read off afterwards.        *)
EXTENDS Run, TraceBase
VARIABLES ci, l, verdict
tvars == <<cur, ci, l, verdict>>
C == Batch[ci]
Ev == C.ev[l]
G == C.g
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ cur = Batch[ci].g.init
Fail(v) == verdict' = v /\ UNCHANGED <<cur, ci, l>> /\ Report(ci, l, v)
Consume == l' = l + 1 /\ UNCHANGED <<ci, verdict>>
IsEvent(e) == verdict = "run" /\ l <= Len(C.ev) /\ Ev.op = e
Moved == cur' = Ev.cur
TReset == IsEvent("reset") /\ IF Ev.cur # G.init THEN Fail("ResetNotInitial") ELSE Consume /\ DoReset(G)
TStep == IsEvent("step") /\
   IF cur = Unknown THEN Consume /\ UNCHANGED cur
   ELSE LET a == Ev.w[1]
            o == StepOpts(G, cur, a)
        IN IF a = 0 /\ G.eps
           THEN IF Ev.err THEN Fail("NoInputRejected")
                ELSE IF Ev.outs # <<G.lab[cur]>> THEN Fail("WrongStateOutput")
                ELSE IF Ev.cur # cur THEN Fail("MovedWithoutInput")
                ELSE Consume /\ DoIdle(G, Ev.outs[1])
           ELSE IF a = 0 \/ o = {}
           THEN IF ~Ev.err THEN Fail("UndefinedInputAnswered")
                ELSE IF Ev.cur # cur THEN Fail("MovedOnUndefinedInput")
                ELSE Consume /\ DoUndef(G, a)
           ELSE IF Ev.err THEN Fail("DefinedInputRejected")
           ELSE IF Ev.outs[1] \notin {p[1] : p \in o} THEN Fail("WrongOutput")
           ELSE IF <<Ev.outs[1], Ev.cur>> \notin o THEN Fail("WrongSuccessor")
           ELSE Consume /\ cur' = Ev.cur
(* output of a state for a word, or of a single input (peek) *)
TLook == (IsEvent("look") \/ IsEvent("peek")) /\
   IF Ev.w = <<>> \/ Ev.w = <<0>>
   THEN IF G.eps
        THEN IF Ev.err THEN Fail("LookFailed")
             ELSE IF Ev.outs # <<G.lab[Ev.s]>> THEN Fail("LookWrongStateOutput")
             ELSE IF cur # Unknown /\ Ev.cur # cur THEN Fail("LookMoved") ELSE Consume /\ UNCHANGED cur
        ELSE IF Ev.w = <<0>> THEN (IF ~Ev.err THEN Fail("UndefinedInputAnswered") ELSE Consume /\ cur' = Unknown)
        ELSE IF Ev.err \/ Ev.outs # <<>> THEN Fail("LookWrong")
        ELSE IF cur # Unknown /\ Ev.cur # cur THEN Fail("LookMoved") ELSE Consume /\ UNCHANGED cur
   ELSE IF ~PossiblyDefined(G, Ev.s, Ev.w)
   THEN IF ~Ev.err THEN Fail("UndefinedInputAnswered") ELSE Consume /\ cur' = Unknown
   ELSE IF Ev.err THEN (IF Defined(G, Ev.s, Ev.w) THEN Fail("LookFailed") ELSE Consume /\ cur' = Unknown)
   ELSE IF Len(Ev.outs) # Len(Ev.w) THEN Fail("LookWrongLength")
   ELSE IF RunSet(G, {Ev.s}, Ev.w, Ev.outs) = {} THEN Fail("LookWrongOutputs")
   ELSE IF cur # Unknown /\ Ev.cur # cur THEN Fail("LookMoved")
   ELSE Consume /\ UNCHANGED cur
TExec == IsEvent("exec") /\
   IF ~PossiblyDefined(G, Ev.s, Ev.w)
   THEN IF ~Ev.err THEN Fail("UndefinedInputAnswered") ELSE Consume /\ DoBroken(G, Ev.s, Ev.w)
   ELSE IF Ev.err THEN (IF Defined(G, Ev.s, Ev.w) THEN Fail("ExecFailed") ELSE Consume /\ cur' = Unknown)
   ELSE IF Len(Ev.outs) # Len(Ev.w) THEN Fail("ExecWrongLength")
   ELSE IF RunSet(G, {Ev.s}, Ev.w, Ev.outs) = {} THEN Fail("ExecWrongOutputs")
   ELSE IF Ev.cur \notin RunSet(G, {Ev.s}, Ev.w, Ev.outs) THEN Fail("ExecWrongSuccessor")
   ELSE Consume /\ cur' = Ev.cur
(* step to a given output: moves to the successor for it or reports there is none *)
TStepTo == IsEvent("stepto") /\
   IF cur = Unknown THEN Consume /\ UNCHANGED cur
   ELSE LET t == {p[2] : p \in {p \in Opts(G, cur, Ev.w[1]) : p[1] = Ev.o}}
        IN IF t = {} THEN (IF ~Ev.none THEN Fail("StepToInvented")
                           ELSE IF Ev.cur # cur THEN Fail("StepToMoved") ELSE Consume /\ UNCHANGED cur)
           ELSE IF Ev.none THEN Fail("StepToRefused")
           ELSE IF Ev.outs # <<Ev.o>> THEN Fail("StepToWrongOutput")
           ELSE IF Ev.cur \notin t THEN Fail("StepToWrongSuccessor")
           ELSE Consume /\ cur' = Ev.cur
(* outputs offered on an input in the current state *)
TOffers == IsEvent("offers") /\
   IF cur # Unknown /\ {Ev.outs[i] : i \in 1..Len(Ev.outs)} # {p[1] : p \in Opts(G, cur, Ev.w[1])} THEN Fail("WrongOffers")
   ELSE IF cur # Unknown /\ Ev.cur # cur THEN Fail("LookMoved") ELSE Consume /\ UNCHANGED cur
RECURSIVE SumOf(_, _)
SumOf(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumOf(q, i - 1)
(* many independent steps from one state on one input: only options of the graph, *)
(* and each of them at least once                                                *)
TSample == IsEvent("sample") /\
   LET got == {Ev.res[i] : i \in 1..Len(Ev.res)}
       want == StepOpts(G, Ev.s, Ev.w[1])
       here == SelectSeq(G.tr, LAMBDA e : e.s = Ev.s /\ e.a = Ev.w[1])
       tot == SumOf([i \in 1..Len(here) |-> here[i].p \div 1000], Len(here))
       mass(p) == SumOf([i \in 1..Len(here) |-> IF here[i].o = p[1] /\ here[i].t = p[2] THEN here[i].p \div 1000 ELSE 0], Len(here))
       off(i) == LET x == Ev.cnt[i] * tot - Ev.n * mass(Ev.res[i]) IN IF x < 0 THEN -x ELSE x
   IN IF got \ want # {} THEN Fail("ImpossibleStep")
      ELSE IF want \ got # {} THEN Fail("OptionNeverTaken")
      ELSE IF Ev.weighted /\ tot > 0 /\ \E i \in 1..Len(Ev.res) : 100 * (off(i) \div Ev.n) > 8 * tot THEN Fail("WrongFrequency")
      ELSE Consume /\ cur' = Unknown
(* transitions of a state on an input, all or those with one output *)
TLookup == IsEvent("lookup") /\
   LET all == Opts(G, Ev.s, Ev.w[1])
       want == IF Ev.o = "any" THEN all ELSE {p \in all : p[1] = Ev.o}
       got == {Ev.res[i] : i \in 1..Len(Ev.res)}
   IN IF got \ want # {} THEN Fail("LookupInvented")
      ELSE IF IF Ev.o = "any" THEN want \ got # {} ELSE want # {} /\ got = {} THEN Fail("LookupMissed")
      ELSE IF cur # Unknown /\ Ev.cur # cur THEN Fail("LookMoved") ELSE Consume /\ UNCHANGED cur
TEnd == IsEvent("end") /\ IF ~SameGraph(G, Ev.g) THEN Fail("StructureChanged")
   ELSE IF ~Ev.mc /\ ~SameInputs(G, Ev.known) THEN Fail("DefinedInputsChanged") ELSE Consume /\ UNCHANGED cur
TFail == IsEvent("fail") /\ Fail(Ev.what)
Done == verdict = "run" /\ l > Len(C.ev) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<cur, ci, l>>
TraceNext == TReset \/ TStep \/ TLook \/ TExec \/ TStepTo \/ TOffers \/ TSample \/ TLookup \/ TEnd \/ TFail \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================

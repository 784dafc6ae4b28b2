----------------------------- MODULE TraceDialogue ----------------------------
(* Validates recorded dialogues.  C.t the system, C.hs the hypotheses of the      *)
(* successive queries.  Event: e (command), a (input), sul (calls on the system    *)
(* during the command, <<"pre">>, <<"post">> or <<"step", a>>), k/hyp/out/list     *)
(* (what was shown), claim (a difference was announced), q, s (counters after).     *)
EXTENDS Dialogue, TraceBase
VARIABLES ci, l, verdict, round, open, drawn
tvars == <<dvars, ci, l, verdict, round, open, drawn>>
C == Batch[ci]
Ev == C.ev[l]
TraceInit == ci \in 1..NumCases /\ l = 1 /\ verdict = "run" /\ DInit /\ round = 0 /\ open = FALSE /\ drawn = {}
Fail(v) == verdict' = v /\ UNCHANGED <<dvars, ci, l, round, open, drawn>> /\ Report(ci, l, v)
Consume == l' = l + 1 /\ UNCHANGED <<ci, verdict>>
IsEvent(op) == verdict = "run" /\ l <= Len(C.ev) /\ Ev.e = op
H == C.hs[round]
(* calls on the system: a new test is opened exactly once, after closing an open one *)
Posts(q) == \A i \in 1..Len(q) : q[i] = <<"post">>
Opens(q) == /\ q # <<>> /\ q[Len(q)] = <<"pre">> /\ Posts(SubSeq(q, 1, Len(q) - 1))
            /\ open => Len(q) > 1
Closes(q) == Posts(q) /\ (open => q # <<>>)
Counters(q, s) == Ev.q = q /\ Ev.s = s
TBegin == /\ IsEvent("begin")
          /\ IF ~Opens(Ev.sul) THEN Fail("SystemNotReset")
             ELSE IF ~Counters(nq + 1, ns) THEN Fail("WrongCounters")
             ELSE IF Len(Ev.drawn) # 1 THEN Fail("HypothesisNotShownOnce")
             ELSE IF Ev.drawn[1] \in drawn THEN Fail("EarlierPictureOverwritten")
             ELSE Consume /\ Begin /\ round' = round + 1 /\ open' = TRUE /\ drawn' = drawn \cup {Ev.drawn[1]}
TLetter == /\ IsEvent("letter")
           /\ LET w == Append(word, Ev.a) IN
              IF Ev.sul # <<<<"step", Ev.a>>>> THEN Fail("InputNotExecutedOnce")
              ELSE IF ~Counters(nq, ns + 1) THEN Fail("WrongCounters")
              ELSE IF Ev.hyp # LastOut(H, H.init, w) THEN Fail("WrongHypothesisOutput")
              ELSE IF Ev.out # LastOut(C.t, C.t.init, w) THEN Fail("WrongSystemOutput")
              ELSE IF Ev.claim # (LastOut(H, H.init, w) # LastOut(C.t, C.t.init, w)) THEN Fail("DifferenceMisreported")
              ELSE Consume /\ Letter(H, C.t, Ev.a) /\ UNCHANGED <<round, open, drawn>>
TReset == /\ IsEvent("reset")
          /\ IF ~Opens(Ev.sul) THEN Fail("SystemNotReset")
             ELSE IF ~Counters(nq + 1, ns) THEN Fail("WrongCounters")
             ELSE Consume /\ StartOver /\ UNCHANGED <<round, open, drawn>>
Silent == Ev.sul = <<>> /\ Counters(nq, ns)
Keep3 == UNCHANGED <<round, open, drawn>>
TShow == \/ /\ IsEvent("alphabet")
            /\ IF ~Silent THEN Fail("CommandExecuted") ELSE IF Ev.list # C.order THEN Fail("AlphabetMisreported")
               ELSE Consume /\ Show("alphabet", C.order) /\ Keep3
         \/ /\ IsEvent("current")
            /\ IF ~Silent THEN Fail("CommandExecuted") ELSE IF Ev.list # word THEN Fail("InputsMisreported")
               ELSE Consume /\ Show("current", word) /\ Keep3
TIgnore == /\ verdict = "run" /\ l <= Len(C.ev) /\ (Ev.e \in {"junk", "help"} \/ (Ev.e = "cex" /\ word = <<>>))
           /\ IF ~Silent THEN Fail("CommandExecuted") ELSE IF Ev.claim THEN Fail("DifferenceMisreported") ELSE Consume /\ Ignore /\ Keep3
Leave == IF ~Closes(Ev.sul) THEN "TestLeftOpen" ELSE IF ~Counters(nq, ns) THEN "WrongCounters" ELSE "ok"
TCex == /\ IsEvent("cex") /\ word # <<>>
        /\ IF Leave # "ok" THEN Fail(Leave) ELSE Consume /\ Cex /\ open' = FALSE /\ UNCHANGED <<round, drawn>>
TEnd == /\ IsEvent("end")
        /\ IF Leave # "ok" THEN Fail(Leave) ELSE Consume /\ End /\ open' = FALSE /\ UNCHANGED <<round, drawn>>
TReturn == /\ IsEvent("return")
           /\ IF phase \notin {"cex", "none"} THEN Fail("ReturnedUnasked")
              ELSE IF Ev.some # (phase = "cex") THEN Fail("WrongResult")
              ELSE IF phase = "cex" /\ Ev.list # word THEN Fail("WrongCounterexample")
              ELSE IF Ev.after # H THEN Fail("HypothesisChanged")
              ELSE Consume /\ Return /\ Keep3
TBad == /\ verdict = "run" /\ l <= Len(C.ev) /\ phase \in {"cex", "none"} /\ Ev.e # "return" /\ Fail("AskedOnAfterTheEnd")
TCrash == IsEvent("crash") /\ phase \in {"idle", "talk"} /\ Fail("Crash")
Done == verdict = "run" /\ l > Len(C.ev) /\ verdict' = "ok" /\ Report(ci, l, "ok") /\ UNCHANGED <<dvars, ci, l, round, open, drawn>>
Talk == phase = "talk" /\ (TLetter \/ TReset \/ TShow \/ TIgnore \/ TCex \/ TEnd)
TraceNext == (phase = "idle" /\ TBegin) \/ Talk \/ TReturn \/ TBad \/ TCrash \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Inv == phase = "cex" => word # <<>>
=============================================================================

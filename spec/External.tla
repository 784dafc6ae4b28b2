------------------------------- MODULE External --------------------------------
(* Learning with an external program: it is handed the data and the parameters,   *)
(* writes a model or not, and that model is the result.  c.given: the sequences as  *)
(* lists of texts; c.calls: the calls made of the program, each with the data it     *)
(* saw (seen), its parameters and whether a stale model was lying around; c.wrote:   *)
(* it wrote the model c.model; c.some: a model c.got was returned; c.left: files      *)
(* left behind; c.may: program and data exist.                                      *)
EXTENDS Convert
ExternalVerdict(c) ==
  IF Len(c.calls) # (IF c.may THEN 1 ELSE 0) THEN "ProgramNotCalledOnce"
  ELSE IF c.may /\ c.calls[1].seen # c.given THEN "OtherDataHandedOver"
  ELSE IF c.may /\ c.calls[1].eps # c.eps THEN "OtherEpsilon"
  ELSE IF c.may /\ c.calls[1].type # c.type THEN "OtherModelType"
  ELSE IF c.may /\ c.calls[1].heap # c.heap THEN "OtherHeapSize"
  ELSE IF c.may /\ c.calls[1].stale THEN "StaleModelInTheWay"
  ELSE IF c.some # (c.may /\ c.wrote) THEN IF c.some THEN "ModelFromNowhere" ELSE "ModelLost"
  ELSE IF c.some /\ ~c.cls THEN "WrongClass"
  ELSE IF c.some /\ ~(InRange(c.got) /\ Bisimilar(c.model, c.got)) THEN "OtherModelReturned"
  ELSE IF c.some /\ c.left > 0 THEN "FilesLeftBehind"
  ELSE IF ~c.kept THEN "DataFileChanged" ELSE "ok"
=============================================================================

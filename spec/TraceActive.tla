------------------------------- MODULE TraceActive ------------------------------
EXTENDS TraceCalls
A == INSTANCE Active WITH data <- {}, model <- <<>>, rounds <- 0
JudgeActive(c) == A!JudgeA(c)
=============================================================================

----------------------------- MODULE TraceGenerator -----------------------------
EXTENDS TraceCalls
A == INSTANCE Generator WITH phase <- "", lab <- <<>>, d <- <<>>, tries <- 0,
       Kind <- "dfa", N <- 1, K <- 1, O <- 1, Acc <- 0, Ensure <- FALSE, Limit <- 1
JudgeGenerator(c) == A!JudgeG(c)
=============================================================================

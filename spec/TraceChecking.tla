----------------------------- MODULE TraceChecking -----------------------------
EXTENDS Checking, TraceCalls
=============================================================================

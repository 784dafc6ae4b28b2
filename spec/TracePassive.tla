------------------------------ MODULE TracePassive -----------------------------
EXTENDS Passive, TraceCalls
=============================================================================

------------------------------- MODULE TraceOnfsm ------------------------------
EXTENDS Onfsm, TraceCalls
=============================================================================

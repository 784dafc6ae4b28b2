------------------------------ MODULE TraceConvert -----------------------------
EXTENDS Convert, TraceCalls
=============================================================================

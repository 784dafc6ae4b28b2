----------------------------- MODULE TraceExternal -----------------------------
EXTENDS External, TraceCalls
=============================================================================

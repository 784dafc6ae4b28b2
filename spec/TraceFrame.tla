------------------------------ MODULE TraceFrame ------------------------------
EXTENDS Frame, TraceCalls
FrameVerdict(c) == Judged(c)
===============================================================================

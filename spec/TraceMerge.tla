------------------------------- MODULE TraceMerge ------------------------------
EXTENDS Merge, TraceCalls
=============================================================================

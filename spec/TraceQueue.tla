----------------------------- MODULE TraceQueue -----------------------------
EXTENDS Queue, TraceBase
=============================================================================

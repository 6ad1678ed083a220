----------------------------- MODULE TraceEvent -----------------------------
EXTENDS Event, TraceBase
=============================================================================

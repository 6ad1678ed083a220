----------------------------- MODULE TraceConfig -----------------------------
EXTENDS Config, TraceBase
=============================================================================

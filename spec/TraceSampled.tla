------------------------------ MODULE TraceSampled ------------------------------
EXTENDS Sampled, TraceBase
=============================================================================

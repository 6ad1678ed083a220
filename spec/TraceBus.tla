------------------------------ MODULE TraceBus ------------------------------
EXTENDS Bus, TraceBase
=============================================================================

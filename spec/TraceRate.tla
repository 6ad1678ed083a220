------------------------------ MODULE TraceRate ------------------------------
EXTENDS Rate, TraceBase
=============================================================================

----------------------------- MODULE TraceLin -----------------------------
EXTENDS Lin, TraceBase
=============================================================================

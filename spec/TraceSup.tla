------------------------------ MODULE TraceSup ------------------------------
EXTENDS Sup, TraceBase
=============================================================================

------------------------------ MODULE TraceStat ------------------------------
EXTENDS Stat, TraceBase
=============================================================================

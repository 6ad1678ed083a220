------------------------------ MODULE TraceFsm ------------------------------
EXTENDS Fsm, TraceBase
=============================================================================

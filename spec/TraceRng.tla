------------------------------ MODULE TraceRng ------------------------------
EXTENDS Rng, TraceBase
=============================================================================

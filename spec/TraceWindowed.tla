----------------------------- MODULE TraceWindowed -----------------------------
EXTENDS Windowed, TraceBase
=============================================================================

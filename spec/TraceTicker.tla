----------------------------- MODULE TraceTicker -----------------------------
EXTENDS Ticker, TraceBase
=============================================================================

----------------------------- MODULE TraceNames -----------------------------
EXTENDS Names, TraceBase
=============================================================================

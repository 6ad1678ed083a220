------------------------------ MODULE TraceJson ------------------------------
EXTENDS JsonRule, TraceBase
=============================================================================

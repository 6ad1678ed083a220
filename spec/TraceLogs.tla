------------------------------ MODULE TraceLogs ------------------------------
EXTENDS Logs, TraceBase
=============================================================================

----------------------------- MODULE TraceConn -----------------------------
EXTENDS Conn, TraceBase
=============================================================================

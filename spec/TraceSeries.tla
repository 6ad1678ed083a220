------------------------------ MODULE TraceSeries ------------------------------
EXTENDS Series, TraceBase
=============================================================================

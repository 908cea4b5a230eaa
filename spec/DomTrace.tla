------------------------------ MODULE DomTrace ------------------------------
EXTENDS Dom, TraceBase
=============================================================================

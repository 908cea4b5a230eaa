------------------------------ MODULE PageTrace ------------------------------
EXTENDS Page, TraceBase
=============================================================================

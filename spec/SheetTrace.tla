------------------------------ MODULE SheetTrace ------------------------------
EXTENDS Sheet, TraceBase
=============================================================================

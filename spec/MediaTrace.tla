------------------------------ MODULE MediaTrace ------------------------------
EXTENDS Media, TraceBase
=============================================================================

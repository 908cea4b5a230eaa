------------------------------ MODULE TypedTrace ------------------------------
EXTENDS Typed, TraceBase
=============================================================================

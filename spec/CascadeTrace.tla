---------------------------- MODULE CascadeTrace ----------------------------
EXTENDS Cascade, TraceBase
=============================================================================

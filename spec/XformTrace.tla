----------------------------- MODULE XformTrace -----------------------------
EXTENDS Xform, TraceBase
=============================================================================

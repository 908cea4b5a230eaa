----------------------------- MODULE AttrsTrace -----------------------------
EXTENDS Attrs, TraceBase
=============================================================================

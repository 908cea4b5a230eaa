----------------------------- MODULE PathTrace -----------------------------
EXTENDS Path, TraceBase
=============================================================================

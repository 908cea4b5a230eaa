----------------------------- MODULE FindTrace -----------------------------
EXTENDS Find, TraceBase
=============================================================================

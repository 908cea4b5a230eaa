----------------------------- MODULE LayTrace -----------------------------
EXTENDS Lay, TraceBase
=============================================================================

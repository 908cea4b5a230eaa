----------------------------- MODULE GeomTrace -----------------------------
EXTENDS Geom, TraceBase
=============================================================================

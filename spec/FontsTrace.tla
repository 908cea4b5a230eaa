------------------------------ MODULE FontsTrace ------------------------------
EXTENDS Fonts, TraceBase
=============================================================================

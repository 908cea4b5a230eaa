------------------------------ MODULE CssTrace ------------------------------
EXTENDS Css, TraceBase
=============================================================================

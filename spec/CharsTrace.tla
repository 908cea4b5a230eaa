------------------------------ MODULE CharsTrace ------------------------------
EXTENDS Chars, TraceBase
=============================================================================

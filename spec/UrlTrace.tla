------------------------------ MODULE UrlTrace ------------------------------
EXTENDS Url, TraceBase
=============================================================================

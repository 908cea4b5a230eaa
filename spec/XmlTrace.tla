------------------------------- MODULE XmlTrace -------------------------------
EXTENDS Xml, TraceBase
=============================================================================

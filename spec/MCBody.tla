------------------------------- MODULE MCBody -------------------------------
EXTENDS BodyNext
MCFile == <<101, 102>>
=============================================================================

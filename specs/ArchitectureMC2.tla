--------------------------- MODULE ArchitectureMC2 ---------------------------
EXTENDS ArchitectureMC
LN2 == <<"A", "B">>
LN3 == <<"A", "B", "C">>
=============================================================================

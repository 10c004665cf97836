----------------------------- MODULE TogetherMC -----------------------------
EXTENDS Together
MCInst == 1..4
\* two alike, one of the same size with another decomposition, one of another size
MCPar == <<[n |-> 8, dec |-> 1], [n |-> 8, dec |-> 1], [n |-> 8, dec |-> 2], [n |-> 16, dec |-> 1]>>
=============================================================================

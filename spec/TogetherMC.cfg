SPECIFICATION Spec
CONSTANTS Inst <- MCInst
 Par <- MCPar
 MaxOps = 3
 Design = "own"
 AtOnce = TRUE
INVARIANT C24Alone
CHECK_DEADLOCK FALSE

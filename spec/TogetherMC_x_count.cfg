SPECIFICATION Spec
CONSTANTS Inst <- MCInst
 Par <- MCPar
 MaxOps = 2
 Design = "count"
 AtOnce = TRUE
INVARIANT C24Alone
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Inst <- MCInst
 Par <- MCPar
 MaxOps = 2
 Design = "slot"
 AtOnce = FALSE
INVARIANT C24Alone
CHECK_DEADLOCK FALSE

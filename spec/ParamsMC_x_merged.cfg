SPECIFICATION Spec
CONSTANTS MaxGroups = 2 MaxLen = 1 Design = "merged"
INVARIANTS C18Report C18Expand C18OneRowEach C18Columns C18NoUnverified

CHECK_DEADLOCK FALSE

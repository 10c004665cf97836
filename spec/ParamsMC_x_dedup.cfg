SPECIFICATION Spec
CONSTANTS MaxGroups = 1 MaxLen = 2 Design = "dedup"
INVARIANTS C18Report C18Expand C18OneRowEach C18Columns C18NoUnverified

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxGroups = 1 MaxLen = 2 Design = "zip"
INVARIANTS C18Report C18Expand C18OneRowEach C18Columns C18NoUnverified

CHECK_DEADLOCK FALSE

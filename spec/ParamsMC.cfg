SPECIFICATION Spec
CONSTANTS MaxGroups = 2 MaxLen = 2 Design = "none"
INVARIANTS C18Report C18Expand C18OneRowEach C18Columns C18NoUnverified
PROPERTIES Ends
CHECK_DEADLOCK FALSE

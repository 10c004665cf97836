SPECIFICATION Spec
CONSTANTS MaxGroups = 0 MaxLen = 0 Design = "badcli"
INVARIANTS C18Report C18Expand C18OneRowEach C18Columns C18NoUnverified

CHECK_DEADLOCK FALSE

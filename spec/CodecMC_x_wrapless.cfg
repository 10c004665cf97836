SPECIFICATION Spec
CONSTANTS LB = 2
 Slack = 2
 Variant = "wrapless"
INVARIANTS RoundTrip AtMargin Distinct DecodeFits DecodeRefines TRoundTrip TRefines
CHECK_DEADLOCK FALSE

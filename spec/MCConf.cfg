SPECIFICATION MSpec
CONSTANTS
  Quirks <- MyQuirks
  Configs <- MyConfigs
  Replies <- MyReplies
  Asked <- MyAsked
  MaxSolves <- MySolves
CHECK_DEADLOCK TRUE
INVARIANTS
  C01
  C02
  C03
  C04
  C05
  C06
  C06b
  C07
  SecantHolds
  C08
  C09
  C10
  C11
  C12
  C13
  C16

\* every file with one or two damages, exported
CONSTANTS Fams = {"obs2", "obs3", "nav2", "nav3", "sp3"}  MaxDamage = 2
SPECIFICATION Spec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

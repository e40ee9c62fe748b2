\* up to two damages of every small file
CONSTANTS Fams = {"obs2", "obs3", "nav2", "nav3", "sp3"}  MaxDamage = 1
SPECIFICATION Spec
INVARIANT Confined
CHECK_DEADLOCK FALSE

\* up to three damages of every small file
CONSTANTS Fams = {"obs2", "obs3", "nav2", "nav3", "sp3"}  MaxDamage = 2
SPECIFICATION Spec
INVARIANT Confined
CHECK_DEADLOCK FALSE

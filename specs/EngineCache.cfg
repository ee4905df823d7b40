SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 Confs = {1, 2}
 MaxRuns = 3
 MaxKills = 1
 MaxDamage = 1
 Slip = "none"
INVARIANTS NoFailure Truth Complete

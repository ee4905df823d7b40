SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 Confs = {1, 2}
 MaxRuns = 4
 MaxKills = 2
 MaxDamage = 2
 Slip = "none"
INVARIANTS NoFailure Truth Complete

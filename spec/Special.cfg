SPECIFICATION MSpec
CONSTANTS Big = 2 MaxD = 2 Eps = 1
INVARIANTS SumsToOne ProjectsToHermitian TraceRight
PROPERTIES ShiftInvariant Idempotent AboveFloorUntouched

SPECIFICATION Spec
CONSTANT Temps <- MCTemps
INVARIANTS TypeOK FinalOK
PROPERTY DropletsStay
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT N = 9
INVARIANTS Ring Quot Exps Coss Known Rounds TablesRight Roots Floors Turns Logs
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANTS PiOK Circle Add Inverse Quarter Eighth

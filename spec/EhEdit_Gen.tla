------------------------------- MODULE EhEdit_Gen -------------------------------
(* All beginnings of the edit machine, as scenarios for the real tool.       *)
EXTENDS EhEdit, Json, TLC
GenInit == Init /\ PrintT("@@GEN " \o ToJson([files |-> old, all |-> all]))
GenNext == FALSE /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================

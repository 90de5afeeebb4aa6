----------------------------- MODULE ReportRun_Gen -----------------------------
(* All beginnings of the reporting machine, as scenarios for the real tool.  *)
EXTENDS ReportRun, Json
GenInit == Init /\ PrintT("@@GEN " \o ToJson([files |-> files, mode |-> mode, verbose |-> verbose]))
GenNext == FALSE /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_vars
=============================================================================

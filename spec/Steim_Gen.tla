------------------------------ MODULE Steim_Gen ------------------------------
(* Behaviours of the encoder machine as test cases for a real decoder.       *)
EXTENDS SteimCodec, IOUtils, Json, TLC
GenSeries == { x.s : x \in Range(ndJsonDeserialize(IOEnv.GEN_SERIES)) }
GenNext == /\ Next
           /\ phase' = "done" =>
                PrintT("@@GEN " \o ToJson([v |-> Ver, s |-> series, blocks |-> blocks']))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================

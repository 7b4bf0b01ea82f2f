------------------------------ MODULE FilterMC ------------------------------
EXTENDS Filter, TLC, Json
Small == {97, 27, 91, 51, 109, 194, 155}
Deeper == {97, 27, 91, 51, 109, 194, 155, 32}
Emitted == (Gen /\ eof') => PrintT("@@" \o ToJson([b |-> fed', cuts |-> cuts']))
=============================================================================

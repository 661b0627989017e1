------------------------------ MODULE ModulesRun ------------------------------
EXTENDS Modules, Json
FromFile == JsonDeserialize("scripts.json")
Report == stack = <<>> => PrintT(ToJson([id |-> sid, status |-> status, log |-> log,
                                         body |-> Cardinality({m \in Mods : runs[m] = 1})]))
=============================================================================

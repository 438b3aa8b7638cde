-------------------------------- MODULE Eval --------------------------------
(* Driver for asking a specification about given inputs (one JSON record    *)
(* per line): the instantiating module defines the answer to a record, and  *)
(* each of a few chains of states works through its share of the inputs.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV
VARIABLE tid
Log == ndJsonDeserialize(IOEnv.TRACE)
Chains == 16
EvalInit == tid \in 1..Chains
EvalNext(Answer(_)) ==
    /\ tid <= Len(Log)
    /\ CSVWrite("%1$s", <<ToJson([tid |-> tid, ans |-> Answer(Log[tid])])>>,
                IOEnv.OUT \o "." \o ToString(tid % Chains))
    /\ tid' = tid + Chains
=============================================================================

------------------------------- MODULE KeyTrace -------------------------------
(***************************************************************************)
(* Judges recorded groupings: the lines of the file which the environment  *)
(* variable TRACES names.                                                  *)
(***************************************************************************)
EXTENDS KeyGroups, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLE t, bad

Judge(x) == IF x.ok THEN Verdict(x.sh, x.ins, x.groups) ELSE {"refused"}

Init == t \in 1..Len(Traces) /\ bad = {"?"}
Next == /\ bad = {"?"}
        /\ bad' = Judge(Traces[t])
        /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"FAIL", Traces[t].id, 1, bad'>>)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, bad>>
=============================================================================

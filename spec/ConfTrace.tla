------------------------------ MODULE ConfTrace ------------------------------
(* What the real daemon did with configurations, judged by Conf *)
EXTENDS Conf, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.PAF_TRACES)
Traces == Data.traces

VARIABLES t, res
vars == <<t, res>>

Init == t \in 1..Len(Traces) /\ res = "run"

Next ==
    /\ res = "run"
    /\ LET c == Traces[t]
           err == Error(c, c.e)
       IN  IF err = ""
           THEN PrintT(<<"END", t>>) /\ res' = "end"
           ELSE PrintT(<<"MISMATCH", t, 1, err, {"C22"}>>) /\ res' = "bad"
    /\ UNCHANGED t

Spec == Init /\ [][Next]_vars
=============================================================================

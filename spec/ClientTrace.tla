----------------------------- MODULE ClientTrace -----------------------------
(* Recordings of the real client library, checked against ClientLib *)
EXTENDS ClientLib, Json, IOUtils

Data == JsonDeserialize(IOEnv.PAF_TRACES)
Traces == Data.traces

VARIABLES t, i, s, res
vars == <<t, i, s, res>>

Ev == Traces[t].ev

Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ res = "run"
        /\ s = Init0(Traces[t].c)

Step(st) == s' = TLCEval(st) /\ i' = i + 1 /\ UNCHANGED <<t, res>>

Reject(why) == /\ PrintT(<<"MISMATCH", t, i, why, {"C19"}>>)
               /\ res' = "bad" /\ UNCHANGED <<t, i, s>>

ToSet(q) == {q[k] : k \in 1..Len(q)}

Check(err, st) == IF err = "" THEN Step(st) ELSE Reject(err)

AtRecv(e) ==
    IF ~ReadyForMore(s) THEN Reject("message neither passed on nor refused")
    ELSE LET v == Verdict(s, e.w)
         IN  CASE v = "ok" -> Step(Passed(s, e.w))
               [] v = "bad" -> Step(Refused(s))
               [] v = "any" -> \/ Step(Passed(s, e.w))
                               \/ Step(Refused(s))

E(e) == [e EXCEPT !.reasons = ToSet(@)]

Next ==
    /\ res = "run"
    /\ IF i > Len(Ev)
       THEN /\ PrintT(<<"END", t>>)
            /\ res' = "end" /\ UNCHANGED <<t, i, s>>
       ELSE LET e == Ev[i]
            IN  CASE e.e = "issue" ->
                       Step(Issued(IF e.block THEN Blocking(s, e.n, e.kind)
                                   ELSE s, e.n, e.cmd, e.body, e.who))
                  [] e.e = "returned" ->
                       Check(ReturnedError(s, e.n, e.ta),
                             Returned(s, e.n, e.ta))
                  [] e.e = "tquery" -> Step(Queried(s))
                  [] e.e = "inform" -> Step(UserInform(s, e.ta, e.tt))
                  [] e.e = "send" ->
                       IF SendError(s, e.w) = "" THEN Step(Sent(s, e.w))
                       ELSE Reject(SendError(s, e.w))
                  [] e.e = "recv" -> AtRecv(e)
                  [] e.e = "eof" -> Step(Refused(s))
                  [] e.e = "cb" -> Check(CallbackError(s, e), Done(s))
                  [] e.e = "ready" ->
                       IF s.exp.t = "ready" THEN Step(Done(s))
                       ELSE Reject("not ready")
                  [] e.e = "tick" -> Step([s EXCEPT !.now = e.t])
                  [] e.e = "proc" -> Step(Woken(s, e.inbox, e.credit))
                  [] e.e = "procend" ->
                       Check(RestError(s, e.recv, e.send), s)
                  [] e.e = "poll" -> Check(PollError(s, e), s)
                  [] e.e = "pollret" -> Step(Woken(s, e.inbox, e.credit))
                  [] e.e = "blockret" ->
                       IF BlockError(s, E(e)) = ""
                       THEN Step(BlockDone(s))
                       ELSE Reject(BlockError(s, E(e)))
                  [] e.e = "raise" -> Check(RaiseError(s, E(e)), Raised(s))
                  [] e.e = "crash" -> Reject(<<"crash", e.what>>)

Spec == Init /\ [][Next]_vars
=============================================================================

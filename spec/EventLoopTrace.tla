---------------------------- MODULE EventLoopTrace ----------------------------
(* Recordings of the real event loop, checked against EventLoop *)
EXTENDS EventLoop, Json, IOUtils

Data == JsonDeserialize(IOEnv.PAF_TRACES)
Traces == Data.traces

VARIABLES t, i, s, res
vars == <<t, i, s, res>>

Ev == Traces[t].ev

Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ res = "run"
        /\ s = Init0(1..Traces[t].n)

Step(st) == s' = TLCEval(st) /\ i' = i + 1 /\ UNCHANGED <<t, res>>

Reject(why) == /\ PrintT(<<"MISMATCH", t, i, why, {"C21"}>>)
               /\ res' = "bad" /\ UNCHANGED <<t, i, s>>

Check(err, st) == IF err = "" THEN Step(st) ELSE Reject(err)

ToSet(q) == {q[k] : k \in 1..Len(q)}

Next ==
    /\ res = "run"
    /\ IF i > Len(Ev)
       THEN /\ PrintT(<<"END", t>>)
            /\ res' = "end" /\ UNCHANGED <<t, i, s>>
       ELSE LET e == Ev[i]
            IN  CASE e.e = "add" -> Step(Add(s, e.src))
                  [] e.e = "remove" -> Step(Remove(s, e.src))
                  [] e.e = "setfd" -> Step(SetFd(s, e.src, e.fd, e.mask))
                  [] e.e = "clearfd" -> Step(ClearFd(s, e.src))
                  [] e.e = "timeout" -> Step(SetTimeout(s, e.src, e.x))
                  [] e.e = "active" -> Step(SetActive(s, e.src, e.b))
                  [] e.e = "close" -> Step(CloseFd(s, e.fd))
                  [] e.e = "tick" -> Step(Tick(s, e.t))
                  [] e.e = "signal" -> Step(Signal(s))
                  [] e.e = "stop" -> Step(Stop(s))
                  [] e.e = "run" ->
                       \* the signals that are caught: INT, TERM
                       IF {2, 15} \subseteq ToSet(e.sigs) THEN Step(Run(s))
                       ELSE Reject("termination signals not caught")
                  [] e.e = "poll" ->
                       Check(PollError(s, e.to,
                               {<<r[1], r[2]>> : r \in ToSet(e.regs)}), s)
                  [] e.e = "pollret" -> Check(PollRetError(s, e.sig),
                                            PollRet(s, ToSet(e.fds), e.sig))
                  [] e.e = "call" ->
                       LET err == CallError(s, e.src)
                       IN  IF err = "" THEN Step(Called(s, e.src))
                           ELSE Reject(err)
                  [] e.e = "end" -> Check(EndError(s), End(s))
                  [] e.e = "crash" -> Reject(<<"crash", e.what>>)

Spec == Init /\ [][Next]_vars
=============================================================================

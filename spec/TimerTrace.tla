------------------------------ MODULE TimerTrace ------------------------------
(* Recordings of the real timer manager, checked against Timer *)
EXTENDS Timer, Json, IOUtils

Data == JsonDeserialize(IOEnv.PAF_TRACES)
Traces == Data.traces

VARIABLES t, i, s, res
vars == <<t, i, s, res>>

Ev == Traces[t].ev

Init == t \in 1..Len(Traces) /\ i = 1 /\ s = Init0 /\ res = "run"

Step(st) == s' = TLCEval(st) /\ i' = i + 1 /\ UNCHANGED <<t, res>>

Reject(why) == /\ PrintT(<<"MISMATCH", t, i, why, {"C18"}>>)
               /\ res' = "bad" /\ UNCHANGED <<t, i, s>>

AtFire(e) ==
    LET c == {id \in Fireable(s) : s.pend[id].h = e.h}
        m == c \cap s.must
    IN  \* several timers may have the same handler and time: they cannot
        \* be told apart, except that some of them must be fired
        IF m # {} THEN Step(Fired(s, CHOOSE id \in m : TRUE))
        ELSE IF c # {} THEN Step(Fired(s, CHOOSE id \in c : TRUE))
        ELSE Reject(
          IF ~\E id \in DOMAIN s.pend : s.pend[id].h = e.h
          THEN "fired a timer that is not pending"
          ELSE IF ~\E id \in DOMAIN s.pend : s.pend[id].h = e.h /\
                                             s.pend[id].x <= s.now
          THEN "fired too early"
          ELSE "fired out of order")

(* an operation is over; nest says whether it was called by a handler *)
AtRet(e) ==
    IF e.next # Earliest(s.pend)
    THEN Reject(<<"wrong next timeout", e.next, Earliest(s.pend)>>)
    ELSE IF e.empty # (DOMAIN s.pend = {}) THEN Reject("wrong emptiness")
    ELSE IF Traces[t].cb /\ ~e.nest /\ ~Informed(s)
    THEN Reject(<<"owner not told", s.told, Earliest(s.pend)>>)
    ELSE Step(s)

Next ==
    /\ res = "run"
    /\ IF i > Len(Ev)
       THEN /\ PrintT(<<"END", t>>)
            /\ res' = "end" /\ UNCHANGED <<t, i, s>>
       ELSE LET e == Ev[i]
            IN  CASE e.e = "add" -> Step(Added(s, e.id, e.x, e.h))
                  [] e.e = "rem" -> Step(Removed(s, e.id))
                  [] e.e = "tick" -> Step(Ticked(s, e.t))
                  [] e.e = "cb" ->
                       IF CanTell(s, e.v) THEN Step(Told(s, e.v))
                       ELSE Reject(<<"wrong next timeout announced", e.v,
                                     Earliest(s.pend)>>)
                  [] e.e = "begin" -> Step(Begun(s))
                  [] e.e = "fire" -> AtFire(e)
                  [] e.e = "end" ->
                       IF CanEnd(s) THEN Step(Ended(s))
                       ELSE Reject(<<"due timers not fired", s.must>>)
                  [] e.e = "ret" -> AtRet(e)
                  [] e.e = "crash" -> Reject(<<"crash", e.what>>)

Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE TimerMC -------------------------------
(***************************************************************************)
(* A small world of timers, with handlers which add and remove timers.     *)
(* The owner processes whenever it likes.  hist records what was fired.    *)
(***************************************************************************)
EXTENDS Timer

CONSTANTS N,        \* timers
          Emit

T == INSTANCE TLCExt

VARIABLES s,
          busy,     \* the handler that runs may still do something
          hist      \* the last firing, and the state before it

Ids == 1..N

(* expiration times of new timers, relative to now *)
Offs == -1..2

(* the times since now *)
Canon(st) == [st EXCEPT !.now = 0,
                        !.told = IF @ = Never THEN Never ELSE @ - st.now,
                        !.pend = [i \in DOMAIN @ |->
                                    [@[i] EXCEPT !.x = @ - st.now]]]

Tell(st) == Told(st, Earliest(st.pend))

Acts ==
    [op : {"add"}, id : Ids \ DOMAIN s.pend, off : Offs]
    \cup [op : {"rem"}, id : DOMAIN s.pend]
    \cup (IF \A i \in DOMAIN s.pend : s.pend[i].x > s.now - 3
          THEN {[op |-> "tick"]} ELSE {})
    \cup (IF s.round
          THEN [op : {"fire"}, id : Fireable(s)] \cup
               (IF CanEnd(s) THEN {[op |-> "end"]} ELSE {})
          ELSE {[op |-> "begin"]})

Allowed(a) == ~s.round \/ busy \/ a.op \in {"fire", "end"}

Effect(a) ==
    LET st == CASE a.op = "add" -> Added(s, a.id, s.now + a.off, a.id)
                [] a.op = "rem" -> Removed(s, a.id)
                [] a.op = "tick" -> Ticked(s, s.now + 1)
                [] a.op = "begin" -> Begun(s)
                [] a.op = "fire" -> Fired(s, a.id)
                [] a.op = "end" -> Ended(s)
    IN  IF st.round THEN st ELSE Tell(st)

Init == /\ s = Init0 /\ busy = FALSE /\ hist = << >>
        /\ Emit => PrintT(<<"I", T!TLCFP(<<Canon(Init0), FALSE>>)>>)

Next ==
    \E a \in Acts :
        /\ Allowed(a)
        /\ s' = TLCEval(Effect(a))
        /\ busy' = (a.op = "fire")
        /\ hist' = IF a.op = "fire" THEN <<s, a.id>>
                   ELSE IF a.op = "end" THEN <<s>> ELSE << >>
        /\ Emit => PrintT(<<"E", T!TLCFP(<<Canon(s), busy>>), a,
                            T!TLCFP(<<Canon(s'), busy'>>)>>)

Spec == Init /\ [][Next]_<<s, busy, hist>>

View == <<Canon(s), busy, hist = << >> >>

Inv ==
    /\ Informed(s)
    /\ s.must \subseteq DOMAIN s.pend
    /\ \A i \in s.must : s.pend[i].x <= s.now
    /\ Len(hist) = 2 =>
          LET b == hist[1]
              id == hist[2]
          IN  /\ id \in DOMAIN b.pend
              /\ b.pend[id].x <= b.now                    \* not early
              /\ \A j \in DOMAIN b.pend : b.pend[id].x <= b.pend[j].x
              /\ id \notin DOMAIN s.pend                  \* once
    /\ Len(hist) = 1 => s.must = {}
=============================================================================

-------------------------------- MODULE Timer --------------------------------
(***************************************************************************)
(* The timer manager: a set of pending timers, a round of processing which *)
(* fires those whose time has come, and an owner who is told about every   *)
(* change of the earliest expiration time.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Never == -1000000      \* no timer pending

Init0 == [now |-> 0,
          pend |-> << >>,      \* pending timers: id -> [x |-> expiration
                               \* time, h |-> handler]
          told |-> Never,      \* what the owner knows to be the earliest
          round |-> FALSE,     \* a round of processing goes on
          must |-> {}]         \* timers that have to be fired in it

Earliest(p) == IF DOMAIN p = {} THEN Never
               ELSE LET X == {p[i].x : i \in DOMAIN p}
                    IN  CHOOSE x \in X : \A y \in X : x <= y

Without(f, S) == [i \in DOMAIN f \ S |-> f[i]]

Added(s, id, x, h) == [s EXCEPT !.pend = (id :> [x |-> x, h |-> h]) @@ @]

Removed(s, id) == [s EXCEPT !.pend = Without(@, {id}), !.must = @ \ {id}]

Ticked(s, t) == [s EXCEPT !.now = t]

(* the owner is told that v is the earliest *)
CanTell(s, v) == v = Earliest(s.pend)
Told(s, v) == [s EXCEPT !.told = v]

Begun(s) == [s EXCEPT !.round = TRUE,
                      !.must = {i \in DOMAIN s.pend : s.pend[i].x <= s.now}]

(* the timers that may be fired now *)
Fireable(s) ==
    IF ~s.round THEN {}
    ELSE LET e == Earliest(s.pend)
         IN  IF e > s.now THEN {}
             ELSE {i \in DOMAIN s.pend : s.pend[i].x = e}

Fired(s, id) == Removed(s, id)

CanEnd(s) == s.must = {}
Ended(s) == [s EXCEPT !.round = FALSE]

(* whenever no round is going on, the owner knows *)
Informed(s) == s.round \/ s.told = Earliest(s.pend)
=============================================================================

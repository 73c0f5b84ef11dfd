------------------------------ MODULE EventLoop ------------------------------
(***************************************************************************)
(* The event loop: sources, each with possibly a file descriptor, a        *)
(* timeout and a mark as active, which may be changed at any time, also by *)
(* the handlers that the loop calls.  The loop waits in poll(), and calls. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFd == 0
NoTime == -1000000        \* no timeout
Forever == -1             \* poll() without a timeout

Source0 == [fd |-> NoFd, mask |-> 0, x |-> NoTime, act |-> FALSE,
            added |-> FALSE,
            ok |-> FALSE]          \* the file behind fd has been open since
                                   \* it was registered

Init0(S) == [now |-> 0,
             src |-> [i \in S |-> Source0],
             ready |-> {},         \* descriptors reported by the last poll
             must |-> {},          \* sources to be called for them
             wasdue |-> {},        \* sources whose timeout has been due
                                   \* since the last poll
             due |-> {},           \* sources found due at the last poll
             old |-> {},           \* ... and the one before that
             run |-> FALSE, stop |-> FALSE,
             sig |-> "none",       \* a termination signal was sent, and
                                   \* has been there during a poll
             unread |-> 0]         \* signals which may not have been read

Live(s) == {i \in DOMAIN s.src : s.src[i].added}
IsDue(s, i) == s.src[i].x # NoTime /\ s.src[i].x <= s.now
Due(s) == {i \in Live(s) : IsDue(s, i)}
Active(s) == {i \in Live(s) : s.src[i].act}
Timed(s) == {i \in Live(s) : s.src[i].x # NoTime}

Norm(s) == [s EXCEPT !.wasdue = @ \cup Due(s)]

(* the sources are no longer owed a call *)
Void(s, S) == [s EXCEPT !.must = @ \ S]
VoidTime(s, S) == [s EXCEPT !.due = @ \ S, !.old = @ \ S]

SetFd(s, i, fd, mask) ==
    IF s.src[i].fd = fd /\ s.src[i].mask = mask THEN s
    ELSE Void([s EXCEPT !.src[i].fd = fd, !.src[i].mask = mask,
                        !.src[i].ok = TRUE], {i})

ClearFd(s, i) ==
    Void([s EXCEPT !.src[i].fd = NoFd, !.src[i].mask = 0,
                   !.src[i].ok = FALSE], {i})

SetTimeout(s, i, x) ==
    Norm(VoidTime([s EXCEPT !.src[i].x = x],
                  IF s.src[i].x = x THEN {} ELSE {i}))

SetActive(s, i, b) == [s EXCEPT !.src[i].act = b]

Add(s, i) == Norm([s EXCEPT !.src[i].added = TRUE, !.src[i].ok = TRUE])

Remove(s, i) ==
    LET t == VoidTime(Void([s EXCEPT !.src[i].added = FALSE], {i}), {i})
    IN  [t EXCEPT !.wasdue = @ \ {i}]

(* the file behind a descriptor is closed *)
CloseFd(s, fd) ==
    LET S == {i \in DOMAIN s.src : s.src[i].fd = fd}
    IN  Void([s EXCEPT !.src = [i \in DOMAIN @ |->
                 IF i \in S THEN [@[i] EXCEPT !.ok = FALSE] ELSE @[i]]], S)

Tick(s, t) == Norm([s EXCEPT !.now = t])

Signal(s) == [s EXCEPT !.sig = IF @ = "none" THEN "sent" ELSE @,
                       !.unread = @ + 1]

Stop(s) == [s EXCEPT !.stop = TRUE, !.must = {}, !.due = {}, !.old = {}]

Run(s) == Norm([s EXCEPT !.run = TRUE, !.stop = FALSE, !.ready = {},
                         !.must = {}, !.wasdue = {}, !.due = {},
                         !.old = {}])

(* the descriptors epoll knows of: those of the live sources *)
Registered(s) == {<<s.src[i].fd, s.src[i].mask>> :
                    i \in {j \in Live(s) : s.src[j].fd # NoFd /\
                                           s.src[j].ok}}

NotSleeping(s, to) ==
    /\ Timed(s) # {} => to # Forever
    /\ \A i \in Timed(s) :
          to <= IF IsDue(s, i) THEN 0 ELSE s.src[i].x - s.now

(* why the loop must not wait now; "" if it may *)
PollError(s, to, regs) ==
    CASE ~s.run -> "polls although not running"
      [] s.stop -> "polls again after it was stopped"
      [] s.sig = "seen" -> "polls again after a termination signal"
      [] regs # Registered(s) -> "wrong descriptors registered"
      [] s.must # {} -> "source with a ready descriptor not called"
      [] s.old # {} -> "source with a due timeout not called"
      [] to # 0 /\ Active(s) # {} -> "sleeps while a source is active"
      [] ~NotSleeping(s, to) -> "sleeps past a timeout"
      [] OTHER -> ""

(* poll() returns with these descriptors, at the time of s; sg: with the  *)
(* one that wakes the loop up on signals, too                              *)
PollRetError(s, sg) == IF sg /\ s.unread = 0 THEN "signal left unread"
                       ELSE ""

PollRet(s, fds, sg) ==
    Norm([s EXCEPT !.ready = fds,
                   !.must = {i \in Live(s) : s.src[i].fd \in fds /\
                                             s.src[i].ok},
                   !.wasdue = {},
                   !.old = @ \cup s.due,
                   !.due = Due(s),
                   !.sig = IF @ = "sent" \/ sg THEN "seen" ELSE @])

(* why this source must not be called now; "" if it may *)
CallError(s, i) ==
    CASE i \notin DOMAIN s.src -> "unknown source"
      [] i \notin Live(s) -> "removed source called"
      [] ~s.run -> "called although not running"
      [] s.src[i].act \/ IsDue(s, i) \/ i \in s.wasdue \/
         s.src[i].fd \in s.ready -> ""
      [] OTHER -> "source called without reason"

Called(s, i) ==
    LET plain == ~s.src[i].act /\ ~IsDue(s, i)
    IN  [s EXCEPT !.must = @ \ {i}, !.due = @ \ {i}, !.old = @ \ {i},
                  !.wasdue = IF plain THEN @ \ {i} ELSE @,
                  !.ready = IF plain /\ i \notin s.wasdue
                            THEN @ \ {s.src[i].fd} ELSE @]

EndError(s) == CASE ~s.run -> "ends although not running"
                 [] ~s.stop /\ s.sig = "none" -> "ends without being told"
                 [] OTHER -> ""

End(s) == [s EXCEPT !.run = FALSE,
                    !.sig = IF s.stop /\ @ = "sent" THEN "sent" ELSE "none",
                    !.unread = IF s.sig = "seen" THEN @ - 1 ELSE @]
=============================================================================

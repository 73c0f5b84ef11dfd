------------------------------ MODULE ClientLib ------------------------------
(***************************************************************************)
(* The client library: requests are queued and sent in order, and what the *)
(* server sends is handed to the callback, or to the blocking call, of the *)
(* transaction it belongs to.                                              *)
(*                                                                         *)
(* Requests are numbered (n) in the order they are issued.  Values, except *)
(* for transaction ids, are opaque strings.                                *)
(***************************************************************************)
EXTENDS Wire, FiniteSets, TLC

(* the order of the arguments of a callback *)
ArgNames(ver, cmd, type) ==
    CASE cmd = "hello" /\ type = "complete" -> <<"protocol-version">>
      [] cmd = "track" /\ type = "notify" -> <<"track-type">>
      [] cmd = "subscribe" /\ type = "notify" -> <<"match-type", "service-id">>
      [] cmd = "subscriptions" /\ type = "notify" ->
            <<"subscription-id", "client-id">>
      [] cmd = "services" /\ type = "notify" ->
            <<"service-id", "generation", "service-props", "ttl",
              "client-id">>
      [] cmd = "clients" /\ type = "notify" ->
            <<"client-id", "client-address", "time">>
            \o (IF ver = 3 THEN <<"idle", "protocol-version">> ELSE << >>)
      [] OTHER -> << >>

ASSUME \A ver \in Versions, type \in ServerTypes :
          \A cmd \in Commands(ver) :
             LET a == ArgNames(ver, cmd, type)
             IN  {a[k] : k \in 1..Len(a)} = Required(ver, cmd, type)

NoTa == -1
NoExp == [t |-> "none"]
Pending == [t |-> "pending"]

(* c: [track, ready, cid, vmin, vmax] *)
Init0(c) ==
    [c |-> c,
     ver |-> 0,            \* the selected version; 0: no handshake yet
     now |-> 0,
     q |-> << >>,          \* messages that are not yet on the wire
     live |-> << >>,       \* transactions: id -> [cmd, st, n, who]
     used |-> {},          \* transaction ids that have been used
     tas |-> << >>,        \* n -> its transaction id, if it is known
     at |-> << >>,         \* n -> when it was issued
     exp |-> NoExp,        \* what has to happen because of the last message
     blk |-> << >>,        \* blocking calls, the innermost one last
     trk |-> [ta |-> NoTa, acc |-> FALSE, out |-> 0],
     prog |-> [snd |-> FALSE, rcv |-> FALSE],
                           \* something has to be sent or received
     dead |-> FALSE]

Msg(n, cmd, type, body, ta, who) ==
    [n |-> n, cmd |-> cmd, type |-> type, body |-> body, ta |-> ta,
     who |-> who]

Issued(s, n, cmd, body, who) ==
    [s EXCEPT !.q = Append(@, Msg(n, cmd, "request", body, NoTa, who)),
              !.at = (n :> s.now) @@ @]

Blocking(s, n, kind) ==
    [s EXCEPT !.blk = Append(@, [n |-> n, kind |-> kind, notes |-> << >>,
                                 res |-> Pending])]

TrackN == -1     \* the number of the library's own track request

Inform(s, tt) ==
    [s EXCEPT !.q = Append(@, Msg(TrackN, "track", "inform",
                                  ("track-type" :> tt), s.trk.ta, "track"))]

Queried(s) == [Inform(s, "squery") EXCEPT !.trk.out = @ + 1]

(* in a track transaction of the user's own *)
UserInform(s, ta, tt) ==
    [s EXCEPT !.q = Append(@, Msg(TrackN, "track", "inform",
                                  ("track-type" :> tt), ta, "user"))]

-----------------------------------------------------------------------------
(* Something is put on the wire *)

SendError(s, w) ==
    IF s.q = << >> THEN "sends a message that was not issued"
    ELSE LET m == Head(s.q)
             fs == DOMAIN w.f \ Common
         IN  CASE ~w.obj -> "sends something else than a message"
               [] ~(Common \subseteq DOMAIN w.f) \/
                  ~ValidMessage(IF s.ver = 0 THEN 2 ELSE s.ver, w) ->
                    "sends an invalid message"
               [] Cmd(w) # m.cmd \/ Type(w) # m.type -> "sent out of order"
               [] fs # DOMAIN m.body \/
                  \E f \in fs : Val(w, f) # m.body[f] -> "wrong content sent"
               [] m.type = "inform" /\ TaId(w) # m.ta -> "wrong transaction"
               [] m.type = "request" /\ m.ta # NoTa /\ TaId(w) # m.ta ->
                    "not the transaction id returned"
               [] m.type = "request" /\ m.ta = NoTa /\ TaId(w) \in s.used ->
                    "transaction id reused"
               [] OTHER -> ""

Sent(s, w) ==
    LET m == Head(s.q)
        ta == TaId(w)
        t == [s EXCEPT !.q = Tail(@), !.prog.snd = FALSE]
    IN  IF m.type = "inform" THEN t
        ELSE [t EXCEPT !.used = @ \cup {ta},
                       !.tas = (m.n :> ta) @@ @,
                       !.live = (ta :> [cmd |-> m.cmd, st |-> "req",
                                        n |-> m.n, who |-> m.who]) @@ @,
                       !.trk.ta = IF m.who = "track" THEN ta ELSE @]

(* The id that the library says the n-th request has *)
ReturnedError(s, n, ta) ==
    IF n \in DOMAIN s.tas
    THEN IF s.tas[n] = ta THEN "" ELSE "wrong transaction id returned"
    ELSE IF ta \in s.used THEN "transaction id reused" ELSE ""

Returned(s, n, ta) ==
    IF n \in DOMAIN s.tas THEN s
    ELSE [s EXCEPT !.used = @ \cup {ta}, !.tas = (n :> ta) @@ @,
                   !.q = [k \in DOMAIN @ |->
                            IF @[k].n = n /\ @[k].type = "request"
                            THEN [@[k] EXCEPT !.ta = ta] ELSE @[k]]]

-----------------------------------------------------------------------------
(* Something is received *)

Event(type) == CASE type = "accept" -> "ACCEPT" [] type = "notify" -> "NOTIFY"
                 [] type = "complete" -> "COMPLETE" [] OTHER -> "FAIL"

(* "ok", "bad": a protocol violation, "any": can be seen either way *)
Verdict(s, w) ==
    IF ~ValidMessage(IF s.ver = 0 THEN 2 ELSE s.ver, w) THEN "bad"
    ELSE IF TaId(w) \notin DOMAIN s.live THEN "bad"
    ELSE LET x == s.live[TaId(w)]
             ty == Type(w)
         IN  CASE Cmd(w) # x.cmd \/ ty \notin ServerTypes -> "bad"
               [] ty = "fail" -> IF x.st = "req" THEN "ok" ELSE "any"
               [] ty = "accept" ->
                    IF x.st = "req" /\ x.cmd \notin SingleResponse
                    THEN "ok" ELSE "bad"
               [] ty = "notify" ->
                    IF x.st # "acc" THEN "bad"
                    ELSE IF x.who # "track" THEN "ok"
                    ELSE IF Val(w, "track-type") = "squery" THEN "ok"
                    ELSE IF s.trk.out = 0 THEN "bad"
                    ELSE IF Val(w, "track-type") = "sreply" THEN "ok"
                    ELSE "any"
               [] ty = "complete" ->
                    IF x.cmd \in SingleResponse
                    THEN IF x.who = "init" /\
                            Val(w, "protocol-version") \notin {"i2", "i3"}
                         THEN "bad" ELSE "ok"
                    ELSE IF x.cmd \in MultiResponse /\ x.st = "acc"
                         THEN "ok" ELSE "bad"

Args(s, w) ==
    LET a == ArgNames(s.ver, Cmd(w), Type(w))
    IN  [k \in 1..Len(a) |-> Val(w, a[k])]

Opts(s, w) ==
    LET ver == IF s.ver = 0 THEN 2 ELSE s.ver
        O == Optional(ver, Cmd(w), Type(w)) \cap DOMAIN w.f
    IN  [f \in O |-> Val(w, f)]

(* a notification in the result of a blocking call *)
Note(s, w) ==
    LET a == Args(s, w)
        o == Opts(s, w)
    IN  [k \in 1..Len(a) |-> [t |-> "v", v |-> a[k]]] \o
        (IF DOMAIN o = {} THEN << >> ELSE << [t |-> "o", o |-> o] >>)

Reason(w) == IF Has(w, "fail-reason") THEN Val(w, "fail-reason") ELSE ""

ForBlock(s, w, x) ==
    LET k == CHOOSE j \in DOMAIN s.blk : s.blk[j].n = x.n
        b == s.blk[k]
        nb == CASE Type(w) = "notify" ->
                     [b EXCEPT !.notes = Append(@, Note(s, w))]
                [] Type(w) = "complete" ->
                     [b EXCEPT !.res = [t |-> "ok", args |-> Args(s, w),
                                        lat |-> s.now - s.at[x.n]]]
                [] Type(w) = "fail" ->
                     [b EXCEPT !.res = [t |-> "fail", why |-> Reason(w)]]
                [] OTHER -> b
    IN  [s EXCEPT !.blk[k] = nb]

ForInit(s, w) ==
    IF Type(w) = "fail"
    THEN [s EXCEPT !.exp = [t |-> "raise", why |-> Reason(w)]]
    ELSE LET ver == IF Val(w, "protocol-version") = "i2" THEN 2 ELSE 3
             t == [s EXCEPT !.ver = ver,
                            !.exp = IF s.c.ready THEN [t |-> "ready"]
                                    ELSE NoExp,
                            !.blk = IF s.c.ready THEN @
                                    ELSE [@ EXCEPT ![1].res =
                                            [t |-> "ok", args |-> << >>,
                                             lat |-> 0]]]
         IN  IF ver = 3 /\ s.c.track
             THEN Issued(t, TrackN, "track", << >>, "track")
             ELSE t

ForTrack(s, w) ==
    CASE Type(w) = "accept" -> [s EXCEPT !.trk.acc = TRUE]
      [] Type(w) = "notify" /\ Val(w, "track-type") = "squery" ->
           Inform(s, "sreply")
      [] Type(w) = "notify" -> [s EXCEPT !.trk.out = @ - 1]
      [] OTHER -> [s EXCEPT !.trk.acc = FALSE]

Passed(s, w) ==
    LET ta == TaId(w)
        x == s.live[ta]
        t == [s EXCEPT !.prog.rcv = FALSE,
                       !.live = CASE Type(w) = "accept" ->
                                       [@ EXCEPT ![ta].st = "acc"]
                                  [] Type(w) = "notify" -> @
                                  [] OTHER -> [y \in DOMAIN @ \ {ta} |->
                                                 @[y]]]
    IN  CASE x.who = "init" -> ForInit(t, w)
          [] x.who = "track" -> ForTrack(t, w)
          [] x.who = "block" -> ForBlock(t, w, x)
          [] OTHER -> [t EXCEPT !.exp =
                         [t |-> "cb", n |-> x.n, ta |-> ta,
                          ev |-> Event(Type(w)), args |-> Args(s, w),
                          opt |-> Opts(s, w)]]

Refused(s) == [s EXCEPT !.exp = [t |-> "raise", why |-> ""],
                        !.prog.rcv = FALSE]

(* The next message is taken only when everything is done about the last *)
ReadyForMore(s) == s.exp = NoExp /\ ~s.dead

CallbackError(s, e) ==
    CASE s.dead -> "callback after an error"
      [] s.exp.t = "raise" -> "invalid message passed on"
      [] s.exp.t # "cb" -> "callback without a message"
      [] s.exp.n # e.n -> "wrong callback called"
      [] s.exp.ta # e.ta -> "wrong transaction id passed"
      [] s.exp.ev # e.ev -> "wrong event passed"
      [] s.exp.args # e.args \/ s.exp.opt # e.opt -> "wrong arguments passed"
      [] OTHER -> ""

Done(s) == [s EXCEPT !.exp = NoExp]

RaiseError(s, e) ==
    CASE e.kind # "lib" -> "wrong kind of exception"
      [] s.exp.t # "raise" -> "error raised without a reason"
      [] s.exp.why # "" /\ s.exp.why \notin e.reasons -> "reason not given"
      [] OTHER -> ""

Raised(s) == [s EXCEPT !.dead = TRUE, !.exp = NoExp]

-----------------------------------------------------------------------------
(* Between the library's activities: target is what it waits for *)

RestError(s, recv, send) ==
    CASE s.exp # NoExp -> "message neither passed on nor refused"
      [] s.prog.rcv -> "nothing is received"
      [] s.prog.snd -> "nothing is sent"
      [] ~recv -> "does not wait for messages"
      [] s.q # << >> /\ ~send -> "does not wait to send"
      [] OTHER -> ""

Woken(s, inbox, credit) ==
    [s EXCEPT !.prog = [snd |-> s.q # << >> /\ credit, rcv |-> inbox]]

PollError(s, e) ==
    CASE s.dead -> "waits after an error"
      [] s.blk = << >> -> "blocks although not asked to"
      [] s.blk[Len(s.blk)].res.t # "pending" ->
           "waits although the call has been answered"
      [] ~e.reg -> "waits for something else"
      [] OTHER -> RestError(s, e.recv, e.send)

(* A blocking call returns *)
BlockError(s, e) ==
    IF s.blk = << >> THEN "not blocking"
    ELSE LET b == s.blk[Len(s.blk)]
         IN  CASE b.n # e.n -> "wrong call returns"
               [] s.exp # NoExp -> "message neither passed on nor refused"
               [] b.res.t = "pending" -> "returns too early"
               [] b.res.t = "fail" ->
                    IF e.k # "txerr" THEN "failure not reported"
                    ELSE IF b.res.why # "" /\ b.res.why \notin e.reasons
                    THEN "reason not given" ELSE ""
               [] b.res.t = "ok" ->
                    CASE e.k = "txerr" -> "success reported as failure"
                      [] b.kind = "none" ->
                           IF e.k = "none" THEN "" ELSE "wrong result"
                      [] b.kind = "lat" ->
                           IF e.k = "lat" /\ e.v = b.res.lat THEN ""
                           ELSE "wrong latency"
                      [] b.kind = "args" ->
                           IF e.k = "args" /\ e.v = b.res.args THEN ""
                           ELSE "wrong result"
                      [] b.kind = "list" ->
                           IF e.k = "list" /\ e.v = b.notes THEN ""
                           ELSE "wrong list"
                      [] OTHER -> ""

BlockDone(s) == [s EXCEPT !.blk = SubSeq(@, 1, Len(@) - 1)]
=============================================================================

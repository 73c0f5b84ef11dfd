------------------------------ MODULE ClientMC ------------------------------
(***************************************************************************)
(* A small world around the client library: a user that issues requests,   *)
(* blocking ones too, also from callbacks; a server that answers properly  *)
(* or not; a transport that blocks or breaks.  The library is a            *)
(* straightforward one that does what ClientLib demands; g remembers what  *)
(* the user gets to see.                                                   *)
(***************************************************************************)
EXTENDS ClientLib

CONSTANTS Ready, Track,
          Cmds,          \* the requests that are issued
          Blocks,        \* can they block?  can callbacks issue requests?
          Hows,          \* what the server says
          MaxOps, MaxSrv, MaxBlock,
          Emit

T == INSTANCE TLCExt

VARIABLES s, inbox, credit, arm, left, g
vars == <<s, inbox, credit, arm, left, g>>

MsgWire(cmd, type, ta, body) ==
    [obj |-> TRUE,
     f |-> ("ta-cmd" :> [t |-> "str", v |-> cmd]) @@
           ("msg-type" :> [t |-> "str", v |-> type]) @@
           ("ta-id" :> [t |-> "int", v |-> ta]) @@
           [n \in DOMAIN body |-> [t |-> CHOOSE x \in FieldType(n) :
                                            x # "num",
                                   v |-> body[n]]]]

Junk == [obj |-> FALSE, f |-> << >>]
Eof == [obj |-> FALSE, f |-> [n \in {"eof"} |-> 0]]
IsEof(w) == ~w.obj /\ DOMAIN w.f # {}

Body(cmd) == IF cmd \in {"subscribe", "unsubscribe"}
             THEN ("subscription-id" :> "i1") ELSE << >>

(* the n-th request; g.id: the ids of the requests *)
Issue(x, cmd, block) ==
    LET n == x.g.n
        id == Cardinality(DOMAIN x.g.id)
        kind == CASE cmd = "ping" -> "lat"
                  [] cmd \in {"services", "clients"} -> "list"
                  [] OTHER -> "none"
        t == Issued(IF block THEN Blocking(x.s, n, kind) ELSE x.s,
                    n, cmd, Body(cmd), IF block THEN "block" ELSE "user")
    IN  [x EXCEPT !.s = IF block THEN t ELSE Returned(t, n, id),
                  !.g.n = n + 1,
                  !.g.id = (n :> id) @@ @,
                  !.g.cmd = (n :> cmd) @@ @,
                  !.g.ok = @ /\ (block \/ ReturnedError(t, n, id) = "")]

NewTrack(x) ==
    IF TrackN \in DOMAIN x.g.id \/
       ~\E k \in DOMAIN x.s.q : x.s.q[k].n = TrackN THEN x
    ELSE [x EXCEPT !.g.id = (TrackN :> Cardinality(DOMAIN @)) @@ @,
                   !.g.cmd = (TrackN :> "track") @@ @]

RECURSIVE Send(_, _)
Send(x, cr) ==
    IF x.s.q = << >> \/ cr = 0 \/ x.s.dead THEN x
    ELSE LET m == Head(x.s.q)
             w == MsgWire(m.cmd, m.type,
                          IF m.type = "inform" THEN m.ta ELSE x.g.id[m.n],
                          m.body)
         IN  Send([x EXCEPT !.s = Sent(x.s, w),
                            !.g.ok = @ /\ SendError(x.s, w) = "",
                            !.g.sent = IF m.type = "request"
                                       THEN Append(@, m.n) ELSE @], cr)

Got(x, n, ev) ==
    [x EXCEPT !.g.got = (n :> Append(IF n \in DOMAIN @ THEN @[n] ELSE << >>,
                                     ev)) @@ @]

(* what the library does about what it has to *)
Act(x, cr) ==
    LET e == x.s.exp
    IN  CASE e.t = "cb" ->
               LET y == Got([x EXCEPT !.s = Done(@)], e.n, e.ev)
               IN  IF x.arm.cmd = "" THEN y
                   ELSE Send(Issue([y EXCEPT !.arm = [cmd |-> "",
                                                      block |-> FALSE]],
                                   x.arm.cmd, x.arm.block), cr)
          [] e.t = "ready" -> [x EXCEPT !.s = Done(@), !.g.ready = @ + 1]
          [] e.t = "raise" -> [x EXCEPT !.s = Raised(@)]
          [] OTHER -> x

RECURSIVE Receive(_, _)
Receive(x, cr) ==
    IF x.in = << >> \/ x.s.dead THEN x
    ELSE LET w == Head(x.in)
             v == IF IsEof(w) THEN "bad" ELSE Verdict(x.s, w)
             y == [x EXCEPT !.in = Tail(@),
                            !.s = IF v = "bad" THEN Refused(@)
                                  ELSE Passed(@, w),
                            !.g.bad = @ \/ v = "bad" \/
                                       (Type(w) = "fail" /\ TaId(w) = 0)]
         IN  Receive(Act(Send(NewTrack(y), cr), cr), cr)

RECURSIVE Return(_)
Return(x) ==
    IF x.s.blk = << >> \/ x.s.dead \/
       x.s.blk[Len(x.s.blk)].res.t = "pending" THEN x
    ELSE LET b == x.s.blk[Len(x.s.blk)]
             r == b.res
             e == [n |-> b.n,
                   k |-> CASE r.t = "fail" -> "txerr"
                           [] b.kind = "lat" -> "lat"
                           [] b.kind = "list" -> "list"
                           [] OTHER -> "none",
                   v |-> CASE r.t = "fail" -> ""
                           [] b.kind = "lat" -> r.lat
                           [] b.kind = "list" -> b.notes
                           [] OTHER -> "",
                   reasons |-> IF r.t = "fail" THEN {r.why} ELSE {}]
         IN  Return([x EXCEPT !.s = BlockDone(@),
                              !.g.ret = Append(@, b.n),
                              !.g.ok = @ /\ BlockError(x.s, e) = ""])

X == [s |-> s, in |-> inbox, arm |-> arm, g |-> g]

(* how the outstanding requests look to the server *)
Known == {s.tas[n] : n \in {m \in DOMAIN s.tas :
                              \E k \in DOMAIN g.sent : g.sent[k] = m}}
CmdOf(ta) == IF \E n \in DOMAIN s.tas : s.tas[n] = ta
             THEN g.cmd[CHOOSE n \in DOMAIN s.tas : s.tas[n] = ta]
             ELSE "ping"

Wire(ta, how) ==
    LET cmd == CmdOf(ta)
    IN  CASE how = "junk" -> Junk
          [] how = "cmd" ->
               MsgWire(IF cmd = "publish" THEN "ping" ELSE "publish",
                       "complete", ta, << >>)
          [] how \in {"v2", "v3"} ->
               MsgWire(cmd, "complete", ta,
                       ("protocol-version" :>
                          (IF how = "v2" THEN "i2" ELSE "i3")))
          [] how \in {"query", "reply"} ->
               MsgWire(cmd, "notify", ta, ("track-type" :> ("s" \o how)))
          [] how = "notify" /\ cmd \in {"subscribe", "services"} ->
               MsgWire(cmd, "notify", ta,
                       [f \in Required(3, cmd, "notify") |-> "x"])
          [] how = "fail" ->
               MsgWire(cmd, "fail", ta, ("fail-reason" :> "swhy"))
          [] OTHER -> MsgWire(cmd, how, ta, << >>)

Start ==
    LET c == [track |-> Track, ready |-> Ready]
        t == Init0(c)
    IN  Issued(IF Ready THEN t ELSE Blocking(t, 0, "init"), 0, "hello",
               [f \in Required(2, "hello", "request") |-> "i2"], "init")

G0 == [n |-> 1, id |-> (0 :> 0), cmd |-> (0 :> "hello"), sent |-> << >>,
       got |-> << >>, ret |-> << >>, ready |-> 0, bad |-> FALSE, ok |-> TRUE]

Many == 9

Init == /\ LET x == Send([s |-> Start, in |-> << >>,
                          arm |-> [cmd |-> "", block |-> FALSE], g |-> G0],
                         Many)
           IN s = x.s /\ g = x.g
        /\ inbox = << >> /\ credit = Many
        /\ arm = [cmd |-> "", block |-> FALSE]
        /\ left = [op |-> MaxOps, srv |-> MaxSrv, blk |-> MaxBlock]
        /\ Emit => PrintT(<<"I", T!TLCFP(<<s, inbox, credit, arm, left>>)>>)

Do(a, x, cr, l) ==
    /\ s' = x.s /\ inbox' = x.in /\ arm' = x.arm /\ g' = x.g
    /\ credit' = cr /\ left' = l
    /\ Emit => PrintT(<<"E", T!TLCFP(<<s, inbox, credit, arm, left>>), a,
                        T!TLCFP(<<s', inbox', credit', arm', left'>>)>>)

UserOps == [cmd : Cmds, block : IF Blocks THEN BOOLEAN ELSE {FALSE}]
Able(a) == (a.block => a.cmd # "subscribe")

Next ==
    /\ ~s.dead
    /\ \/ /\ s.blk = << >> /\ left.op > 0 /\ s.ver # 0
          /\ \E a \in UserOps :
                /\ Able(a)
                /\ Do([op |-> "req", cmd |-> a.cmd, block |-> a.block],
                      Send(Issue(X, a.cmd, a.block), credit), credit,
                      [left EXCEPT !.op = @ - 1])
       \/ /\ Blocks /\ arm.cmd = "" /\ left.op > 0 /\ s.ver # 0
          /\ s.blk = << >>
          /\ \E a \in UserOps :
                /\ Able(a)
                /\ Do([op |-> "arm", cmd |-> a.cmd, block |-> a.block],
                      [X EXCEPT !.arm = a], credit,
                      [left EXCEPT !.op = @ - 1])
       \/ /\ left.op > 0 /\ Track /\ s.trk.acc /\ s.blk = << >>
          /\ Do([op |-> "tquery"],
                Send([X EXCEPT !.s = Queried(@)], credit), credit,
                [left EXCEPT !.op = @ - 1])
       \/ /\ left.srv > 0 /\ Len(inbox) < 3
          /\ ~\E k \in DOMAIN inbox : IsEof(inbox[k])
          /\ \E ta \in Known \cup {99}, how \in Hows \ {"eof"} :
                /\ how \in {"v2", "v3"} => CmdOf(ta) = "hello"
                /\ how \in {"query", "reply"} => CmdOf(ta) = "track"
                /\ how \in {"complete", "notify"} /\ Known # {} =>
                     CmdOf(ta) \notin {"hello", "track"}
                /\ ta = 99 => how \in {"complete", "fail"}
                /\ how = "junk" => \A x \in Known : ta <= x
                /\ Do([op |-> "srv", ta |-> ta, how |-> how],
                      [X EXCEPT !.in = Append(@, Wire(ta, how))], credit,
                      [left EXCEPT !.srv = @ - 1])
       \/ /\ left.srv > 0 /\ "eof" \in Hows
          /\ ~\E k \in DOMAIN inbox : IsEof(inbox[k])
          /\ Do([op |-> "eof"], [X EXCEPT !.in = Append(@, Eof)], credit,
                [left EXCEPT !.srv = 0])
       \/ /\ credit = Many /\ left.blk > 0
          /\ Do([op |-> "block"], X, 0, [left EXCEPT !.blk = @ - 1])
       \/ /\ credit = 0 /\ Do([op |-> "unblock"], X, Many, left)
       \/ /\ inbox # << >> \/ (s.q # << >> /\ credit > 0)
          /\ Do([op |-> "proc"],
                Return(Receive(Send(X, credit), credit)), credit, left)

Spec == Init /\ [][Next]_vars

View == <<s, inbox, credit, arm, left, g.got, g.sent, g.ret>>

Terminal == {"COMPLETE", "FAIL"}

(* what the user sees of a request *)
Proper(cmd, q) ==
    \A k \in DOMAIN q :
       /\ q[k] \in Terminal => k = Len(q)
       /\ q[k] = "ACCEPT" => k = 1 /\ cmd \notin SingleResponse
       /\ q[k] = "NOTIFY" => k > 1 /\ cmd \notin SingleResponse
       /\ q[k] = "COMPLETE" /\ cmd \in MultiResponse => k > 1

Increasing(q) == \A j, k \in DOMAIN q : j < k => q[j] # q[k]

Inv ==
    /\ g.ok
    /\ s.exp = NoExp
    /\ \A n \in DOMAIN g.got : Proper(g.cmd[n], g.got[n])
    /\ \A n \in DOMAIN g.got :
          \E k \in DOMAIN g.sent : g.sent[k] = n
    \* sent in the order issued, each once
    /\ \A j, k \in DOMAIN g.sent : j < k => g.id[g.sent[j]] < g.id[g.sent[k]]
    /\ Increasing(g.ret)
    /\ \A j, k \in DOMAIN s.tas : j # k => s.tas[j] # s.tas[k]
    /\ s.dead <=> g.bad
    /\ g.ready <= (IF Ready THEN 1 ELSE 0)
    \* nothing is forgotten
    /\ ~s.dead => \A n \in DOMAIN g.id :
          \/ \E k \in DOMAIN s.q : s.q[k].n = n
          \/ \E ta \in DOMAIN s.live : s.live[ta].n = n
          \/ n \in DOMAIN g.got /\ g.got[n][Len(g.got[n])] \in Terminal
          \/ \E k \in DOMAIN g.ret : g.ret[k] = n
          \/ \E k \in DOMAIN s.blk : s.blk[k].n = n
          \/ g.cmd[n] \in {"hello", "track"}
    \* answers to the server's queries
    /\ RestError(s, TRUE, TRUE) \in {"", "nothing is sent",
                                     "nothing is received"}
=============================================================================

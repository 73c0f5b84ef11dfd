--------------------------------- MODULE Paf ---------------------------------
(***************************************************************************)
(* One service domain of a Pathfinder server: its registry of services,    *)
(* subscriptions and clients, its connections, the transactions on them,   *)
(* orphan and idle supervision, resource limits and access rules.          *)
(*                                                                         *)
(* The module defines the state of a domain (one record) and, as operators *)
(* from state to state, the effect of every event.  PafMC explores these   *)
(* exhaustively for small constants and checks the properties on them;     *)
(* PafTrace replays recordings of the real server against them.            *)
(*                                                                         *)
(* Output is modelled as a queue of groups for each connection.  A group   *)
(* is a set of messages which the server may send in any order (such as    *)
(* the lines of a listing); the groups themselves are ordered.             *)
(*                                                                         *)
(* Time is counted in ticks, SEC of them per second.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS SEC,             \* ticks per second
          SLK,             \* tolerance, in ticks
          Match(_, _),     \* does filter f match properties p?
          FilterOk(_)      \* does filter f follow the grammar?

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

SOFT_LIMIT == 128          \* backlog at which no more input is read
MAX_HANDSHAKE == 2         \* seconds
CLEAN_INTERVAL == 1        \* seconds

NoFilter == 0
None == -1

(* the idle supervision of a connection; see IDLE SUPERVISION below *)
NoIdle == [st |-> "off", m |-> 0, mlo |-> 0, mhi |-> 0, wlo |-> 0,
           whi |-> 0, dlo |-> 0, dhi |-> 0]

NewConn(user, addr, now) ==
    [user |-> user,        \* who is at the other end
     addr |-> addr,
     acc |-> now,          \* when the connection was accepted
     late |-> 0,           \* sum of the stalls since
     hs |-> FALSE,         \* handshake completed
     cid |-> None,         \* client id
     ver |-> 0,            \* protocol version, 0 while none is selected
     tas |-> << >>,        \* live transactions: ta id -> command
     q |-> << >>,          \* groups of messages to be sent
     n |-> 0,              \* number of messages in q
     track |-> None,       \* track transaction
     qt |-> None,          \* time of the unanswered query (at the latest)
     ql |-> None,          \* the same, at the earliest
     mq |-> None,          \* since when a query may be waiting to be sent
     sq |-> FALSE,         \* a query, already answered, is yet to be sent
     lat |-> None,         \* latency (at most)
     latl |-> None,        \* latency (at least)
     seen |-> now,         \* last sign of life
     idle |-> NoIdle]

Init0 == [now |-> 0,
          conn |-> << >>,     \* open connections
          svc |-> << >>,      \* services
          sub |-> << >>,      \* subscriptions
          must |-> << >>]     \* connections to be closed -> properties

Conns(s) == DOMAIN s.conn

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

-----------------------------------------------------------------------------
(* OUTPUT *)

Group(ids, ms) == [ids |-> ids, ms |-> ms]

PushC(k, g) ==
    IF g.ms = {} THEN k
    ELSE [k EXCEPT !.q = Append(@, g), !.n = @ + Cardinality(g.ms)]

Push(s, c, g) == [s EXCEPT !.conn[c] = PushC(@, g)]

RECURSIVE PushAll(_, _, _)
PushAll(s, c, gs) ==
    IF gs = << >> THEN s ELSE PushAll(Push(s, c, Head(gs)), c, Tail(gs))

Msg(cmd, type, ta) == [cmd |-> cmd, type |-> type, ta |-> ta]

Complete(cmd, ta) == Msg(cmd, "complete", ta)
Accept(cmd, ta) == Msg(cmd, "accept", ta)
Fail(cmd, ta, reason) == Msg(cmd, "fail", ta) @@ [reason |-> reason]

Reply(s, c, ids, m) == Push(s, c, Group(ids, {m}))

-----------------------------------------------------------------------------
(* DERIVED NOTIONS *)

Active(s) == {c \in Conns(s) : s.conn[c].hs}

ConnOf(s, cid) == {c \in Conns(s) : s.conn[c].hs /\ s.conn[c].cid = cid}

IsOrphan(v) == v.orphan # None

(* what connection c owns *)
OwnedBy(s, c) ==
    IF ~s.conn[c].hs THEN {}
    ELSE {i \in DOMAIN s.svc : ~IsOrphan(s.svc[i]) /\
                               s.svc[i].owner = s.conn[c].cid}

(* A client id belongs to a user as long as there are services *)
IdTakenBy(s, cid) == {s.svc[i].user : i \in {j \in DOMAIN s.svc :
                                                 s.svc[j].owner = cid}}

UsedClients(s, u) == Cardinality({c \in Active(s) : s.conn[c].user = u})
UsedServices(s, u) == Cardinality({i \in DOMAIN s.svc : s.svc[i].user = u})
UsedSubs(s, u) == Cardinality({b \in DOMAIN s.sub : s.sub[b].user = u})

Room(limit, used) == limit = None \/ used < limit

RoomForClient(cfg, s, u) ==
    /\ Room(cfg.total.clients, Cardinality(Active(s)))
    /\ Room(cfg.user.clients, UsedClients(s, u))
RoomForService(cfg, s, u) ==
    /\ Room(cfg.total.services, Cardinality(DOMAIN s.svc))
    /\ Room(cfg.user.services, UsedServices(s, u))
RoomForSub(cfg, s, u) ==
    /\ Room(cfg.total.subscriptions, Cardinality(DOMAIN s.sub))
    /\ Room(cfg.user.subscriptions, UsedSubs(s, u))

Deadline(v) == v.orphan + v.ttl * SEC

(* user identity, from the transport *)
UserOf(peer) ==
    CASE peer.kind = "tls" /\ peer.ski # "" -> "ski:" \o peer.ski
      [] peer.kind \in {"tls", "tcp"} -> "ip:" \o peer.ip
      [] OTHER -> "default"

-----------------------------------------------------------------------------
(* IDLE SUPERVISION                                                        *)
(*                                                                         *)
(* After half its maximum idle time m (45 to 55 %) without a sign of life, *)
(* a version 3 connection becomes suspect ("warn"), and is probed if it is *)
(* tracking.  After another half it is dropped.  The moment of the warning *)
(* is visible only if a probe is sent, so that the record holds intervals: *)
(* the warning is in wlo..whi, the drop in dlo..dhi; mlo and mhi are the   *)
(* bounds of m during the silence.                                         *)

MaxIdle(cfg, s, c) ==
    LET ttls == {s.svc[i].ttl : i \in OwnedBy(s, c)}
    IN  IF ttls = {} THEN cfg.imax
        ELSE Min(cfg.imax, Max(cfg.imin, MinOf(ttls)))

Armed(m, now) ==
    [st |-> "act", m |-> m, mlo |-> m, mhi |-> m,
     wlo |-> now + (45 * m * SEC) \div 100 - SLK,
     whi |-> now + (55 * m * SEC) \div 100 + 1 + SLK,
     dlo |-> now + (95 * m * SEC) \div 100 - 2 * SLK,
     dhi |-> now + (105 * m * SEC) \div 100 + 1 + 2 * SLK]

(* May a query be issued now? *)
QueryAllowed(s, c) ==
    LET k == s.conn[c]
    IN  k.track # None /\ k.qt = None /\ k.idle.st = "act" /\
        s.now >= k.idle.wlo

Arm(cfg, s, c) ==
    IF s.conn[c].hs
    THEN [s EXCEPT !.conn[c].seen = s.now,
                   (* a query may just have been issued, but not yet sent *)
                   !.conn[c].mq = IF @ = None /\ QueryAllowed(s, c)
                                  THEN s.conn[c].idle.wlo ELSE @,
                   !.conn[c].idle = IF s.conn[c].ver >= 3
                                    THEN Armed(MaxIdle(cfg, s, c), s.now)
                                    ELSE NoIdle]
    ELSE s

(* The maximum idle time changed, because a service did *)
UpdIdle(d, m) ==
    IF d.st = "off" \/ m = d.m THEN d
    ELSE [d EXCEPT !.m = m, !.mlo = Min(@, m), !.mhi = Max(@, m),
                   !.dlo = IF d.st = "act"
                           THEN Min(@, d.wlo + (m * SEC) \div 2 - SLK)
                           ELSE @,
                   !.dhi = IF d.st = "act"
                           THEN Max(@, d.whi + (m * SEC) \div 2 + SLK)
                           ELSE @]

UpdIdles(cfg, s) ==
    [s EXCEPT !.conn = [c \in Conns(s) |->
        IF s.conn[c].idle.st = "off" THEN s.conn[c]
        ELSE [s.conn[c] EXCEPT !.idle = UpdIdle(@, MaxIdle(cfg, s, c))]]]

(* The warning is issued, now *)
Warned(d, now) ==
    [d EXCEPT !.st = "warn",
              !.dlo = now + (d.m * SEC) \div 2 - SLK,
              !.dhi = now + (d.m * SEC) \div 2 + 1 + SLK]

QueryMsg(k) == Msg("track", "notify", k.track) @@ [ttype |-> "query"]

(* somebody else claims the client id of connection c *)
Probe(s, c) ==
    LET k == s.conn[c]
        d == k.idle
        (* certainly no warning yet *)
        fresh == d.st = "act" /\ s.now < d.wlo
        maybe == d.st = "act" /\ ~fresh /\ s.now <= d.whi
        query == k.track # None /\ k.qt = None
    IN  CASE k.ver < 3 -> s
          [] k.ver >= 3 /\ fresh ->
               LET s1 == [s EXCEPT !.conn[c].idle = Warned(d, s.now)]
               IN  IF query /\ k.mq = None
                   THEN [Push(s1, c, Group({"C08", "C14"}, {QueryMsg(k)}))
                            EXCEPT !.conn[c].qt = s.now,
                                   !.conn[c].ql = s.now]
                   ELSE s1
          [] k.ver >= 3 /\ maybe ->
               [s EXCEPT !.conn[c].idle.dlo =
                             Min(@, s.now + (d.mlo * SEC) \div 2 - SLK),
                         !.conn[c].idle.dhi =
                             Max(s.now, Min(@, s.now + (d.mhi * SEC) \div 2
                                                    + 1 + SLK)),
                         !.conn[c].idle.whi = s.now,
                         (* a query has been issued, now or before *)
                         !.conn[c].mq = IF query /\ @ = None THEN d.wlo
                                        ELSE @]
          [] OTHER -> s

-----------------------------------------------------------------------------
(* NOTIFICATIONS *)

SvcFields(sid, v) ==
    LET base == [sid |-> sid, gen |-> v.gen, props |-> v.props,
                 ttl |-> v.ttl, cid |-> v.owner]
    IN  IF IsOrphan(v) THEN base @@ [orphan |-> v.orphan] ELSE base

Sees(b, v) == b.filt = NoFilter \/ Match(b.filt, v.props)

NoteMsg(b, mtype) == Msg("subscribe", "notify", b.ta) @@ [mtype |-> mtype]

(* what subscription b is told about a change of service sid; before and   *)
(* after are sequences of at most one service                              *)
Note(b, sid, before, after) ==
    LET was == before # << >> /\ Sees(b, before[1])
        is == after # << >> /\ Sees(b, after[1])
    IN  CASE was /\ is ->
               {NoteMsg(b, "modified") @@ SvcFields(sid, after[1])}
          [] ~was /\ is ->
               {NoteMsg(b, "appeared") @@ SvcFields(sid, after[1])}
          [] was /\ ~is ->
               {NoteMsg(b, "disappeared") @@ [sid |-> sid]}
          [] OTHER -> {}

(* A set of simultaneous changes (records with sid, before and after) is   *)
(* made known.  xc is the connection which caused it (or 0), and xm the    *)
(* set of messages it gets as answers.                                     *)
Announce(s, ids, chs, xc, xm) ==
    IF DOMAIN s.sub = {} /\ xm = {} THEN s
    ELSE
    [s EXCEPT !.conn = [c \in Conns(s) |->
        LET mine == {b \in DOMAIN s.sub : s.sub[b].conn = c}
            ms == UNION {UNION {Note(s.sub[b], ch.sid, ch.before, ch.after) :
                                b \in mine} : ch \in chs}
                  \cup (IF c = xc THEN xm ELSE {})
        IN  PushC(s.conn[c], Group(ids, ms))]]

Change(sid, before, after) == [sid |-> sid, before |-> before,
                               after |-> after]

-----------------------------------------------------------------------------
(* REQUESTS.  Each operator gives the state after the request of           *)
(* connection c in transaction ta has been handled.                        *)

Hello(cfg, s, c, ta, cid, vmin, vmax) ==
    LET k == s.conn[c]
        hi == Min(vmax, cfg.vmax)
        lo == Max(vmin, cfg.vmin)
        s1 == [s EXCEPT !.conn[c].cid = cid,
                        !.conn[c].ver = IF lo <= hi THEN hi ELSE 0]
        old == ConnOf(s, cid)
        F(st, ids, reason) == Reply(st, c, ids, Fail("hello", ta, reason))
        Done(st, v) == Reply(st, c, {"C12"},
                             Complete("hello", ta) @@ [ver |-> v])
    IN  CASE k.cid # None /\ k.cid # cid ->
               F(s, {"C12"}, "permission-denied")
          [] k.cid # None /\ k.cid = cid /\ k.hs -> Done(s, k.ver)
          [] ~(k.cid # None /\ k.cid # cid) /\ ~k.hs /\ lo > hi ->
               F(s1, {"C12"}, "unsupported-protocol-version")
          [] ~(k.cid # None /\ k.cid # cid) /\ ~k.hs /\ lo <= hi ->
               CASE old # {} ->
                      LET o == CHOOSE x \in old : TRUE
                      IN  F(Probe(s1, o), {"C08", "C07"}, "client-id-exists")
                 [] old = {} /\ \E u \in IdTakenBy(s, cid) : u # k.user ->
                      F(s1, {"C07"}, "permission-denied")
                 [] OTHER ->
                      IF ~RoomForClient(cfg, s, k.user)
                      THEN F(s1, {"C09"}, "insufficient-resources")
                      ELSE Done(Arm(cfg,
                                    [s1 EXCEPT !.conn[c].hs = TRUE], c), hi)

Publish(cfg, s, c, ta, sid, gen, props, ttl) ==
    LET k == s.conn[c]
        new == [gen |-> gen, props |-> props, ttl |-> ttl, orphan |-> None,
                owner |-> k.cid, user |-> k.user]
        F(ids, reason) == Reply(s, c, ids, Fail("publish", ta, reason))
        done == Complete("publish", ta)
        Put(ids, before, after) ==
            LET s1 == [s EXCEPT !.svc = (sid :> after) @@ @]
            IN  Arm(cfg,
                    UpdIdles(cfg,
                             Announce(s1, ids,
                                      {Change(sid, before, <<after>>)},
                                      c, {done})), c)
    IN  IF sid \notin DOMAIN s.svc
        THEN IF RoomForService(cfg, s, k.user)
             THEN Put({"C01", "C03", "C09", "C11"}, << >>, new)
             ELSE F({"C09"}, "insufficient-resources")
        ELSE LET v == s.svc[sid]
             IN  CASE v.user # k.user -> F({"C07"}, "permission-denied")
                   [] v.user = k.user /\ gen < v.gen ->
                        F({"C03"}, "old-generation")
                   [] v.user = k.user /\ gen = v.gen /\
                      (props # v.props \/ ttl # v.ttl) ->
                        F({"C03"}, "same-generation-but-different")
                   [] v.user = k.user /\ gen = v.gen /\
                      props = v.props /\ ttl = v.ttl ->
                        IF v.owner = k.cid /\ ~IsOrphan(v)
                        THEN Reply(s, c, {"C03", "C11"}, done)
                        ELSE Put({"C01", "C03", "C06"}
                                 \cup (IF IsOrphan(v) THEN {"C04", "C05"}
                                       ELSE {}), <<v>>, new)
                   [] OTHER ->
                        Put({"C01", "C03", "C11"} \cup
                            (IF v.owner # k.cid THEN {"C06"} ELSE {}) \cup
                            (IF IsOrphan(v) THEN {"C04", "C05"} ELSE {}),
                            <<v>>, new)

Unpublish(cfg, s, c, ta, sid) ==
    LET k == s.conn[c]
        F(ids, reason) == Reply(s, c, ids, Fail("unpublish", ta, reason))
        done == Complete("unpublish", ta)
    IN  IF sid \notin DOMAIN s.svc
        THEN F({"C01", "C05", "C06"}, "non-existent-service-id")
        ELSE LET v == s.svc[sid]
                 w == [v EXCEPT !.owner = k.cid, !.orphan = None]
                 s1 == [s EXCEPT !.svc = Without(@, {sid})]
                 s2 == IF v = w THEN s1
                       ELSE Announce(s1, {"C01", "C06"},
                                     {Change(sid, <<v>>, <<w>>)}, 0, {})
             IN  IF v.user # k.user
                 THEN F({"C07"}, "permission-denied")
                 ELSE Arm(cfg,
                          UpdIdles(cfg,
                                   Announce(s2, {"C01", "C06", "C11"},
                                            {Change(sid, <<w>>, << >>)},
                                            c, {done})), c)

Subscribe(cfg, s, c, ta, b, filt) ==
    LET k == s.conn[c]
        F(ids, reason) == Reply(s, c, ids, Fail("subscribe", ta, reason))
        sub == [cid |-> k.cid, conn |-> c, ta |-> ta, filt |-> filt,
                user |-> k.user]
        s1 == [s EXCEPT !.sub = (b :> sub) @@ @,
                        !.conn[c].tas = (ta :> "subscribe") @@ @]
        present == {NoteMsg(sub, "appeared") @@ SvcFields(i, s.svc[i]) :
                    i \in {j \in DOMAIN s.svc : Sees(sub, s.svc[j])}}
    IN  CASE filt # NoFilter /\ ~FilterOk(filt) ->
               F({"C17"}, "invalid-filter-syntax")
          [] (filt = NoFilter \/ FilterOk(filt)) /\ b \in DOMAIN s.sub ->
               F({"C01"}, "subscription-id-exists")
          [] (filt = NoFilter \/ FilterOk(filt)) /\ b \notin DOMAIN s.sub ->
               IF ~RoomForSub(cfg, s, k.user)
               THEN F({"C09"}, "insufficient-resources")
               ELSE PushAll(s1, c,
                       <<Group({"C01", "C11", "C09"},
                               {Accept("subscribe", ta)}),
                         Group({"C01"}, present)>>)

Unsubscribe(cfg, s, c, ta, b) ==
    LET F(ids, reason) == Reply(s, c, ids, Fail("unsubscribe", ta, reason))
        o == s.sub[b]
    IN  CASE b \notin DOMAIN s.sub ->
               F({"C01"}, "non-existent-subscription-id")
          [] b \in DOMAIN s.sub /\ o.cid # s.conn[c].cid ->
               F({"C07"}, "permission-denied")
          [] OTHER ->
               Push([s EXCEPT !.sub = Without(@, {b}),
                              !.conn[c].tas = Without(@, {o.ta})],
                    c, Group({"C01", "C11"},
                             {Complete("subscribe", o.ta),
                              Complete("unsubscribe", ta)}))

Listing(s, c, ids, cmd, ta, ms) ==
    PushAll(s, c, <<Group(ids, {Accept(cmd, ta)}), Group(ids, ms),
                    Group(ids, {Complete(cmd, ta)})>>)

Subscriptions(cfg, s, c, ta) ==
    Listing(s, c, {"C02", "C11"}, "subscriptions", ta,
            {LET o == s.sub[b]
                 base == Msg("subscriptions", "notify", ta) @@
                         [sub |-> b, cid |-> o.cid]
             IN  IF o.filt = NoFilter THEN base
                 ELSE base @@ [filt |-> o.filt] : b \in DOMAIN s.sub})

Services(cfg, s, c, ta, filt) ==
    IF filt # NoFilter /\ ~FilterOk(filt)
    THEN Reply(s, c, {"C17"}, Fail("services", ta, "invalid-filter-syntax"))
    ELSE Listing(s, c, {"C02", "C11"} \cup (IF filt # NoFilter THEN {"C17"}
                                            ELSE {}), "services", ta,
                 {Msg("services", "notify", ta) @@ SvcFields(i, s.svc[i]) :
                  i \in {j \in DOMAIN s.svc :
                            filt = NoFilter \/
                            Match(filt, s.svc[j].props)}})

Clients(cfg, s, c, ta) ==
    Listing(s, c, {"C02", "C11"}, "clients", ta,
            {LET k == s.conn[o]
                 base == Msg("clients", "notify", ta) @@
                         [cid |-> k.cid, addr |-> k.addr,
                          time |-> k.acc \div SEC]
                 (* the idle time of others than version 3 clients is not *)
                 (* supervised; it may be given as anything up to this    *)
                 ext == base @@ [ver |-> k.ver,
                                 idle |-> s.now - k.seen,
                                 iexact |-> k.ver >= 3]
             IN  IF s.conn[c].ver < 3 THEN base
                 ELSE IF k.track # None /\ k.lat # None
                      THEN ext @@ [lat |-> k.lat, latl |-> k.latl]
                      ELSE ext : o \in Active(s)})

Track(cfg, s, c, ta) ==
    IF s.conn[c].track # None
    THEN Reply(s, c, {"C14"}, Fail("track", ta, "track-exists"))
    ELSE Reply([s EXCEPT !.conn[c].track = ta,
                         !.conn[c].tas = (ta :> "track") @@ @],
               c, {"C14", "C11"}, Accept("track", ta))

(* c broke the rules (of the properties in ids): to be closed, at once *)
MustClose(s, c, ids) == [s EXCEPT !.must = (c :> ids) @@ @]

TrackInform(cfg, s, c, ta, ttype) ==
    LET k == s.conn[c]
    IN  CASE ttype = "query" ->
               Reply(s, c, {"C14"},
                     Msg("track", "notify", ta) @@ [ttype |-> "reply"])
          [] ttype = "reply" /\ k.qt # None ->
               [s EXCEPT !.conn[c].lat = s.now - k.ql,
                         !.conn[c].latl = s.now - k.qt,
                         !.conn[c].qt = None]
          [] OTHER -> MustClose(s, c, {"C14", "C10"})

-----------------------------------------------------------------------------
(* A request or inform message r of connection c has been received.        *)

Handle(cfg, s0, c, r) ==
    LET k == s0.conn[c]
        s == Arm(cfg, s0, c)     \* a sign of life
    IN  CASE r.type = "inform" ->
               IF r.ta \in DOMAIN k.tas /\ k.tas[r.ta] = r.cmd /\
                  r.cmd = "track"
               THEN TrackInform(cfg, s, c, r.ta, r.ttype)
               ELSE MustClose(s0, c, {"C11", "C10"})
          [] r.type = "request" /\ r.ta \in DOMAIN k.tas ->
               MustClose(s0, c, {"C11", "C10"})
          [] r.type = "request" /\ r.ta \notin DOMAIN k.tas /\
             ~k.hs /\ r.cmd # "hello" ->
               Reply(s0, c, {"C12"}, Fail(r.cmd, r.ta, "no-hello"))
          [] r.type = "request" /\ r.ta \notin DOMAIN k.tas /\
             (k.hs \/ r.cmd = "hello") ->
               CASE r.cmd = "hello" ->
                      Hello(cfg, s, c, r.ta, r.cid, r.vmin, r.vmax)
                 [] r.cmd = "publish" ->
                      Publish(cfg, s, c, r.ta, r.sid, r.gen, r.props, r.ttl)
                 [] r.cmd = "unpublish" -> Unpublish(cfg, s, c, r.ta, r.sid)
                 [] r.cmd = "subscribe" ->
                      Subscribe(cfg, s, c, r.ta, r.sub, r.filt)
                 [] r.cmd = "unsubscribe" ->
                      Unsubscribe(cfg, s, c, r.ta, r.sub)
                 [] r.cmd = "subscriptions" -> Subscriptions(cfg, s, c, r.ta)
                 [] r.cmd = "services" -> Services(cfg, s, c, r.ta, r.filt)
                 [] r.cmd = "clients" -> Clients(cfg, s, c, r.ta)
                 [] r.cmd = "ping" ->
                      Reply(s, c, {"C11"}, Complete("ping", r.ta))
                 [] r.cmd = "track" -> Track(cfg, s, c, r.ta)

-----------------------------------------------------------------------------
(* OTHER EVENTS *)

Accepted(s, c, user, addr) ==
    [s EXCEPT !.conn = (c :> NewConn(user, addr, s.now)) @@ @]

(* Connection c is gone *)
Closed(cfg, s, c) ==
    LET own == OwnedBy(s, c)
        s1 == [s EXCEPT !.conn = Without(@, {c}),
                        !.must = Without(@, {c}),
                        !.sub = Without(@, {b \in DOMAIN s.sub :
                                               s.sub[b].conn = c}),
                        !.svc = [i \in DOMAIN s.svc |->
                                   IF i \in own
                                   THEN [s.svc[i] EXCEPT !.orphan = s.now]
                                   ELSE s.svc[i]]]
    IN  Announce(s1, {"C01", "C04"},
                 {Change(i, <<s.svc[i]>>, <<s1.svc[i]>>) : i \in own},
                 0, {})

(* The orphans whose time is up *)
Due(s) == {i \in DOMAIN s.svc : IsOrphan(s.svc[i]) /\
                                Deadline(s.svc[i]) <= s.now}

(* those with the earliest deadline *)
NextDue(s) == LET d == Due(s)
                  m == MinOf({Deadline(s.svc[i]) : i \in d})
              IN  {i \in d : Deadline(s.svc[i]) = m}

Expire(cfg, s, S) ==
    Announce([s EXCEPT !.svc = Without(@, S)], {"C01", "C05"},
             {Change(i, <<s.svc[i]>>, << >>) : i \in S}, 0, {})

RECURSIVE ExpireAll(_, _)
ExpireAll(cfg, s) ==
    IF Due(s) = {} THEN s ELSE ExpireAll(cfg, Expire(cfg, s, NextDue(s)))

(* Time passes.  stall: the server was kept from running meanwhile; blk:   *)
(* the connections which currently do not take messages.                   *)
Tick(s, t, stall, blk) ==
    LET d == IF stall THEN t - s.now ELSE 0
        Hidden(c) == (stall \/ c \in blk) /\ s.conn[c].mq = None /\
                     QueryAllowed(s, c)
    IN  IF d = 0 /\ \A c \in blk \cap Conns(s) : ~Hidden(c)
        THEN [s EXCEPT !.now = t]
        ELSE [s EXCEPT !.now = t,
                       !.conn = [c \in Conns(s) |->
                         [s.conn[c] EXCEPT !.late = @ + d,
                                           !.mq = IF Hidden(c)
                                                  THEN s.conn[c].idle.wlo
                                                  ELSE @,
                                           !.idle.whi = @ + d,
                                           !.idle.dhi = @ + d]]]

(* May the server close c by itself, now? *)
HandshakeOverdue(s, c) ==
    ~s.conn[c].hs /\ s.now >= s.conn[c].acc + MAX_HANDSHAKE * SEC - SLK

IdleOverdue(s, c) ==
    LET d == s.conn[c].idle
    IN  d.st # "off" /\ s.now >= d.dlo

(* Must it have done so by now? *)
HandshakeExpired(s, c) ==
    LET k == s.conn[c]
    IN  ~k.hs /\ s.now > k.acc + (MAX_HANDSHAKE + CLEAN_INTERVAL) * SEC
                         + k.late + SLK

IdleExpired(s, c) ==
    LET d == s.conn[c].idle
    IN  d.st # "off" /\ s.now > d.dhi

(* Is a track query due (or rather, overdue)? *)
QueryExpired(s, c) ==
    LET k == s.conn[c]
    IN  /\ k.idle.st = "act"
        /\ k.track # None /\ k.qt = None /\ k.mq = None
        /\ s.now > k.idle.whi

(* The server's own track query has been sent *)
Queried(s, c) ==
    IF s.conn[c].mq # None
    THEN [s EXCEPT !.conn[c].qt = s.now,
                   !.conn[c].ql = s.conn[c].mq,
                   !.conn[c].mq = None]
    ELSE [s EXCEPT !.conn[c].qt = s.now,
                   !.conn[c].ql = s.now,
                   !.conn[c].idle = Warned(@, s.now)]
=============================================================================

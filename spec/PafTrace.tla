------------------------------ MODULE PafTrace ------------------------------
(***************************************************************************)
(* Replays recordings of the real server against the specification (Paf).  *)
(*                                                                         *)
(* A batch of traces is read from a JSON file.  Every trace is followed    *)
(* event by event; where the specification leaves the server a choice that *)
(* the trace does not show at once, all choices are followed.  A trace is  *)
(* accepted if one of them leads to its end.  Where no rule allows an      *)
(* event, the reason and the concerned properties are printed.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils,
        Filter

Data == JsonDeserialize(IOEnv.PAF_TRACES)

Traces == Data.traces

Wi == INSTANCE Wire

(* The filters and their meanings are computed once, in Init, and kept in  *)
(* TLC's registers (TLC does not do so by itself for recursive operators). *)
PropSet == [i \in 1..Len(Data.props) |->
              {Data.props[i][j] : j \in 1..Len(Data.props[i])}]

FAst == TLCGet(1)
MatchTab == TLCGet(2)

Tables ==
    /\ TLCSet(1, TLCEval([i \in 1..Len(Data.filters) |->
                             TLCEval(Parse(Data.filters[i]))]))
    /\ TLCSet(2, TLCEval([f \in 1..Len(Data.filters) |->
                 LET a == FAst[f]
                 IN  TLCEval([p \in 1..Len(Data.props) |->
                                a.ok /\ Holds(a.ast, PropSet[p])])]))

TMatch(f, p) == MatchTab[f][p]
TFilterOk(f) == FAst[f].ok

P == INSTANCE Paf WITH SEC <- 1024, SLK <- 3, Match <- TMatch,
                       FilterOk <- TFilterOk

Range(q) == {q[i] : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* WHICH PROPERTIES A MESSAGE IS ABOUT, judged by itself *)

ReasonIds(r) ==
    CASE r = "no-hello" -> {"C12"}
      [] r = "track-exists" -> {"C14"}
      [] r = "client-id-exists" -> {"C08"}
      [] r = "invalid-filter-syntax" -> {"C17"}
      [] r \in {"subscription-id-exists", "non-existent-subscription-id"} ->
           {"C01", "C11"}
      [] r = "non-existent-service-id" -> {"C01", "C05", "C06"}
      [] r = "unsupported-protocol-version" -> {"C12"}
      [] r = "permission-denied" -> {"C07", "C12"}
      [] r \in {"old-generation", "same-generation-but-different"} -> {"C03"}
      [] r = "insufficient-resources" -> {"C09"}
      [] OTHER -> {"C11"}

MsgIds(m) ==
    IF "x" \in DOMAIN m THEN {"C11", "C01", "C02"}
    ELSE CASE m.type = "fail" ->
                IF "reason" \in DOMAIN m THEN ReasonIds(m.reason) ELSE {"C11"}
           [] m.cmd = "subscribe" /\ m.type = "notify" ->
                {"C01"} \cup
                (IF "orphan" \in DOMAIN m THEN {"C04"} ELSE {}) \cup
                (IF "mtype" \in DOMAIN m /\ m.mtype = "disappeared"
                 THEN {"C05"} ELSE {})
           [] m.cmd = "track" -> {"C14"}
           [] m.cmd = "hello" -> {"C12"}
           [] m.cmd \in {"services", "clients", "subscriptions"} ->
                {"C02", "C11"}
           [] OTHER -> {"C11"}

(* What differs between an expected message e and an actual one m, which   *)
(* agree in command, type and transaction                                  *)
FieldIds(n) ==
    CASE n = "orphan" -> {"C04", "C05", "C06"}
      [] n = "cid" -> {"C06", "C04"}
      [] n \in {"gen", "props"} -> {"C03"}
      [] n = "ttl" -> {"C03"}
      [] n = "lat" -> {"C14"}
      [] n = "ver" -> {"C12"}
      [] n = "mtype" -> {"C05"}
      [] OTHER -> {}

Same(a, b, n) ==
    CASE n \in DOMAIN a /\ n \in DOMAIN b -> a[n] = b[n]
      [] n \notin DOMAIN a /\ n \notin DOMAIN b -> TRUE
      [] OTHER -> FALSE

DiffIds(e, m) ==
    UNION {FieldIds(n) : n \in {k \in {"orphan", "cid", "gen", "props",
                                       "ttl", "lat", "ver", "mtype"} :
                                ~Same(e, m, k)}}

-----------------------------------------------------------------------------
(* Is actual message m the expected message e? *)

Fuzzy == {"idle", "iexact", "lat", "latl", "filt"}

Near(x, lo, hi) == x >= lo - 1 /\ x <= hi + 1

Fits(e, m) ==
    IF "x" \in DOMAIN m THEN FALSE
    ELSE
    IF "iexact" \in DOMAIN e \/ "filt" \in DOMAIN e
    THEN /\ DOMAIN m = DOMAIN e \ {"iexact", "latl"}
         /\ \A n \in DOMAIN m \ Fuzzy : m[n] = e[n]
         /\ "idle" \in DOMAIN m =>
              Near(m.idle, IF e.iexact THEN e.idle ELSE 0, e.idle)
         /\ "lat" \in DOMAIN m => Near(m.lat, e.latl, e.lat)
         /\ "filt" \in DOMAIN m =>
              \/ m.filt = e.filt
              \/ FAst[m.filt].ok /\ FAst[m.filt].ast = FAst[e.filt].ast
    ELSE e = m

IsQuery(m) ==
    "ttype" \in DOMAIN m /\ m.cmd = "track" /\ m.type = "notify" /\
    m.ttype = "query"

HeadIds(q) == IF q = << >> THEN {} ELSE q[1].ids

(* like-minded messages in the first group *)
AlikeIds(q, m) ==
    IF q = << >> \/ "x" \in DOMAIN m THEN {}
    ELSE UNION {DiffIds(e, m) : e \in {g \in q[1].ms : g.cmd = m.cmd /\
                                        g.type = m.type /\ g.ta = m.ta /\
                                        Same(g, m, "sid")}}

QueueIds(q) == UNION {q[i].ids : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* THE STATE: t the trace, i the next event, s the state of the domain,    *)
(* stop: 0 running, 1 told to stop, 2 shutting down, socks: closed server  *)
(* sockets, last: the properties concerned by the last message received,   *)
(* hist: what has happened to each service, subscription and client id, as *)
(* sets of properties; res: outcome                                        *)

VARIABLES t, i, s, stop, socks, last, hist, res

vars == <<t, i, s, stop, socks, last, hist, res>>

cfg == Traces[t].cfg
Ev == Traces[t].ev

Init ==
    /\ Tables
    /\ t \in 1..Len(Traces)
    /\ i = 1
    /\ s = P!Init0
    /\ stop = 0
    /\ socks = {}
    /\ last = {}
    /\ hist = << >>
    /\ res = "run"

(* orphans may be removed from the moment their time is up, and are        *)
(* removed before the server goes to sleep                                 *)
RECURSIVE Expired(_)
Expired(st) ==
    {st} \cup (IF P!Due(st) = {} THEN {}
               ELSE Expired(P!Expire(cfg, st, P!NextDue(st))))

Step(st) == /\ s' = st /\ i' = i + 1
            /\ UNCHANGED <<t, stop, socks, last, res>>

Reject(ids, why) ==
    /\ PrintT(<<"MISMATCH", t, i, why, ids>>)
    /\ res' = "bad"
    /\ UNCHANGED <<t, i, s, stop, socks, last>>

(* -- history -- *)
Hist(k) == IF k \in DOMAIN hist THEN hist[k] ELSE {}

SvcPast(a, b, sid) ==
    CASE sid \notin DOMAIN a -> {}
      [] sid \in DOMAIN a /\ sid \notin DOMAIN b ->
           IF P!IsOrphan(a[sid]) THEN {"C04", "C05"} ELSE {"C01"}
      [] OTHER ->
           LET v == a[sid]
               w == b[sid]
           IN  (IF v.owner # w.owner THEN {"C06"} ELSE {}) \cup
               (IF P!IsOrphan(w) /\ v.orphan # w.orphan THEN {"C04"}
                ELSE {}) \cup
               (IF P!IsOrphan(v) /\ ~P!IsOrphan(w) THEN {"C04", "C05"}
                ELSE {}) \cup
               (IF v.gen # w.gen \/ v.props # w.props \/ v.ttl # w.ttl
                THEN {"C03"} ELSE {})

SubPast(a, b, x) ==
    IF x \in DOMAIN a.sub /\ x \notin DOMAIN b.sub
    THEN IF a.sub[x].conn \in P!Conns(b) THEN {"C01", "C11"} ELSE {"C04"}
    ELSE {}

NewHist(a, b) ==
    IF a.svc = b.svc /\ a.sub = b.sub /\ P!Conns(a) = P!Conns(b) THEN hist
    ELSE LET ss == {x \in DOMAIN a.svc \cup DOMAIN b.svc :
                      ~(x \in DOMAIN a.svc /\ x \in DOMAIN b.svc /\
                        a.svc[x] = b.svc[x])}
             bs == {x \in DOMAIN a.sub : x \notin DOMAIN b.sub}
             cs == {a.conn[c].cid : c \in P!Active(a) \ P!Conns(b)}
             new == [k \in {<<"svc", x>> : x \in ss} \cup
                           {<<"sub", x>> : x \in bs} \cup
                           {<<"cid", x>> : x \in cs} |->
                     Hist(k) \cup
                     CASE k[1] = "svc" -> SvcPast(a.svc, b.svc, k[2])
                       [] k[1] = "sub" -> SubPast(a, b, k[2])
                       [] OTHER -> {"C04", "C08"}]
         IN  new @@ hist

(* what has happened to what message or request m is about *)
PastIds(m) ==
    (IF "sid" \in DOMAIN m THEN Hist(<<"svc", m.sid>>) ELSE {}) \cup
    (IF "sub" \in DOMAIN m THEN Hist(<<"sub", m.sub>>) ELSE {}) \cup
    (IF "cid" \in DOMAIN m /\ m.cmd \in {"hello", "clients"}
     THEN Hist(<<"cid", m.cid>>) ELSE {})

(* -- accept -- *)
AtAccept(e) ==
    IF stop = 2 THEN Reject({"C23"}, "accept during shutdown")
    ELSE IF e.c \in P!Conns(s) THEN Reject({"HARNESS"}, "connection number reused")
    ELSE IF cfg.total.clients # P!None /\
            Cardinality(P!Conns(s)) >= cfg.total.clients
    THEN Reject({"C16", "C09"}, "accept beyond the client limit")
    ELSE Step(P!Accepted(s, e.c, P!UserOf(e.peer), e.peer.addr))

(* -- receive -- *)
ReqArgs(w) ==
    LET cmd == Wi!Cmd(w)
        base == [cmd |-> cmd, type |-> Wi!Type(w), ta |-> Wi!TaId(w)]
        V(n) == Wi!Val(w, n)
    IN  IF Wi!Type(w) = "inform"
        THEN IF cmd = "track" THEN base @@ [ttype |-> V("track-type")]
             ELSE base
        ELSE CASE cmd = "hello" ->
                    base @@ [cid |-> V("client-id"),
                             vmin |-> V("protocol-minimum-version"),
                             vmax |-> V("protocol-maximum-version")]
               [] cmd = "publish" ->
                    base @@ [sid |-> V("service-id"),
                             gen |-> V("generation"),
                             props |-> V("service-props"),
                             ttl |-> V("ttl")]
               [] cmd = "unpublish" -> base @@ [sid |-> V("service-id")]
               [] cmd = "subscribe" ->
                    base @@ [sub |-> V("subscription-id"),
                             filt |-> IF Wi!Has(w, "filter")
                                      THEN w.f["filter"].f ELSE P!NoFilter]
               [] cmd = "unsubscribe" ->
                    base @@ [sub |-> V("subscription-id")]
               [] cmd = "services" ->
                    base @@ [filt |-> IF Wi!Has(w, "filter")
                                      THEN w.f["filter"].f ELSE P!NoFilter]
               [] OTHER -> base

SessionVer(c) == IF s.conn[c].ver = 0 THEN 2 ELSE s.conn[c].ver

CmdIds(cmd) ==
    CASE cmd = "hello" -> {"C12", "C08", "C07"}
      [] cmd = "track" -> {"C14"}
      [] cmd \in {"publish", "unpublish"} -> {"C03", "C06"}
      [] OTHER -> {"C11"}

AtRecv(e) ==
    LET w == e.w
        c == e.c
        pre == Expired(s)
    IN  IF stop = 2 THEN Reject({"C23"}, "receive during shutdown")
        ELSE IF c \notin P!Conns(s)
        THEN Reject({"HARNESS"}, "receive on a closed connection")
        ELSE IF c \in DOMAIN s.must
        THEN Reject(s.must[c], "served after a protocol violation")
        ELSE IF s.conn[c].n >= P!SOFT_LIMIT
        THEN Reject({"C15"}, "receive in spite of the backlog")
        ELSE IF ~Wi!ValidMessage(SessionVer(c), w)
        THEN /\ s' = P!MustClose(s, c, {"C10", "C12"})
             /\ last' = {"C10"}
             /\ i' = i + 1
             /\ UNCHANGED <<t, stop, socks, res>>
        ELSE IF Wi!Type(w) \notin Wi!ClientTypes
        THEN /\ s' = P!MustClose(s, c, {"C10", "C11"})
             /\ last' = {"C10", "C11"}
             /\ i' = i + 1
             /\ UNCHANGED <<t, stop, socks, res>>
        ELSE \E st \in pre :
             LET k == st.conn[c]
                 r == ReqArgs(w)
                 unsure == r.cmd = "track" /\ r.type = "inform" /\
                           r.ta = k.track /\ r.ttype = "reply" /\
                           k.qt = P!None /\
                           (k.mq # P!None \/ P!QueryAllowed(st, c))
                 st2 == [st EXCEPT !.conn[c].qt = st.now,
                                   !.conn[c].ql = IF k.mq # P!None THEN k.mq
                                                  ELSE k.idle.wlo,
                                   !.conn[c].sq = TRUE,
                                   !.conn[c].mq = P!None]
             IN  /\ \/ s' = P!Handle(cfg, st, c, r)
                    \/ unsure /\ s' = P!Handle(cfg, st2, c, r)
                 /\ last' = CmdIds(r.cmd) \cup PastIds(r) \cup
                                           (IF r.type = "inform"
                                                THEN {"C11"} ELSE {})
                 /\ i' = i + 1
                 /\ UNCHANGED <<t, stop, socks, res>>

(* -- the peer is gone -- *)
AtEof(e) ==
    IF e.c \notin P!Conns(s) THEN Reject({"HARNESS"}, "eof after close")
    ELSE IF e.c \in DOMAIN s.must THEN Step(s)
    ELSE Step(P!MustClose(s, e.c, {"C04", "C08", "C16"}))

(* -- send -- *)
AtSend(e) ==
    LET c == e.c
        m == e.m
    IN  IF c \notin P!Conns(s) THEN Reject({"HARNESS"}, "send after close")
        ELSE IF stop = 2 THEN Reject({"C23"}, "send during shutdown")
        ELSE LET k == s.conn[c]
                 q == k.q
                 fit == IF q = << >> THEN {}
                        ELSE {x \in q[1].ms : Fits(x, m)}
             IN  IF fit # {}
                 THEN LET x == CHOOSE x \in fit : TRUE
                          rest == q[1].ms \ {x}
                      IN  Step([s EXCEPT !.conn[c].q =
                                  IF rest = {} THEN Tail(q)
                                  ELSE [q EXCEPT ![1].ms = rest],
                                !.conn[c].n = @ - 1])
                 ELSE IF IsQuery(m) /\ m.ta = k.track
                 THEN IF k.sq THEN Step([s EXCEPT !.conn[c].sq = FALSE])
                      ELSE IF k.qt # P!None
                      THEN Reject({"C14", "C08"}, "query while one is unanswered")
                      ELSE IF k.mq # P!None \/ P!QueryAllowed(s, c)
                      THEN Step(P!Queried(s, c))
                      ELSE Reject({"C14", "C13", "C08"}, "untimely query")
                 ELSE Reject(HeadIds(q) \cup MsgIds(m) \cup AlikeIds(q, m)
                          \cup PastIds(m) \cup
                          (IF "x" \notin DOMAIN m /\
                              m.cmd \in {"publish", "unpublish",
                                         "subscribe", "unsubscribe",
                                         "hello"} /\ m.type # "notify"
                           THEN last ELSE {})
                          \cup (IF c \in DOMAIN s.must THEN s.must[c]
                                ELSE {})
                          \cup (IF Len(q) > 1 /\ \E j \in 2..Len(q) :
                                   \E x \in q[j].ms : Fits(x, m)
                                THEN {"C15", "C11"} ELSE {}),
                          <<"unexpected message", m,
                            IF q = << >> THEN << >> ELSE q[1].ms>>)

(* -- close -- *)
AtClose(e) ==
    LET c == e.c
    IN  IF c \notin P!Conns(s) THEN Reject({"HARNESS"}, "close after close")
        ELSE IF c \in DOMAIN s.must \/ P!HandshakeOverdue(s, c) \/
                P!IdleOverdue(s, c)
        THEN \E st \in Expired(s) : Step(P!Closed(cfg, st, c))
        ELSE IF stop >= 1
        THEN /\ stop' = 2
             /\ s' = P!Closed(cfg, s, c)
             /\ i' = i + 1
             /\ UNCHANGED <<t, socks, last, res>>
        ELSE Reject((IF s.conn[c].hs
                  THEN (IF s.conn[c].idle.st # "off" THEN {"C13", "C08"}
                        ELSE {"C13"})
                  ELSE {"C16"}) \cup last,
                 "connection closed without a reason")

(* -- time -- *)
AtTick(e) == Step(P!Tick(s, e.t, e.stall = 1, Range(e.blk)))

(* -- about to look for events: everything due must have been done -- *)
Obliged(st) ==
    LET must == UNION {st.must[c] : c \in DOMAIN st.must}
        hs == {c \in P!Conns(st) : P!HandshakeExpired(st, c)}
        id == {c \in P!Conns(st) : P!IdleExpired(st, c)}
    IN  must \cup (IF hs # {} THEN {"C16"} ELSE {})
             \cup (IF id # {} THEN {"C13", "C08"} ELSE {})

AtPoll(e) ==
    LET st == IF stop >= 1 THEN s ELSE P!ExpireAll(cfg, s)
        ids == Obliged(st)
    IN  IF stop = 0 /\ ids # {}
        THEN Reject(ids, <<"connection not closed", DOMAIN st.must>>)
        ELSE Step(st)

(* -- nothing is ready, and the server goes to sleep -- *)
AtQuiet(e) ==
    LET st == P!ExpireAll(cfg, s)
        ids == Obliged(st)
        blk == Range(e.blk)
        pend == Range(e.pend)
        free == P!Conns(st) \ (blk \cup pend)
        unsent == {c \in free : st.conn[c].q # << >>}
        unread == {c \in pend \cap P!Conns(st) :
                     st.conn[c].n +
                     (IF st.conn[c].mq = P!None /\ ~st.conn[c].sq /\
                         ~P!QueryAllowed(st, c) THEN 0 ELSE 1)
                     < P!SOFT_LIMIT}
        late == {c \in free : P!QueryExpired(st, c) \/ st.conn[c].sq}
    IN  CASE ids # {} -> Reject(ids, <<"connection not closed", DOMAIN st.must>>)
          [] ids = {} /\ unsent # {} ->
               LET c == CHOOSE c \in unsent : TRUE
               IN  Reject(QueueIds(st.conn[c].q) \cup {"C15", "C11"} \cup
                       UNION {MsgIds(x) \cup PastIds(x) :
                              x \in st.conn[c].q[1].ms},
                       <<"messages not sent", st.conn[c].q>>)
          [] ids = {} /\ unsent = {} /\ unread # {} ->
               Reject({"C15"}, "input not read")
          [] ids = {} /\ unsent = {} /\ unread = {} /\ late # {} ->
               Reject({"C14"}, "no query sent to a silent connection")
          [] ids = {} /\ unsent = {} /\ unread = {} /\ late = {} /\
             e.pacc = 1 /\
             ~(cfg.total.clients # P!None /\
               Cardinality(P!Conns(st)) >= cfg.total.clients) ->
               Reject({"C16"}, "waiting connection not accepted")
          [] OTHER ->
               (* whatever waited to be sent has been sent *)
               Step([st EXCEPT !.conn = [c \in P!Conns(st) |->
                       IF c \in free /\ st.conn[c].mq # P!None
                       THEN [st.conn[c] EXCEPT !.mq = P!None]
                       ELSE st.conn[c]]])

(* -- the end -- *)
AtStop(e) == /\ stop' = 1 /\ i' = i + 1
             /\ UNCHANGED <<t, s, socks, last, res>>

AtSclose(e) ==
    IF stop = 0 THEN Reject({"C23", "C16"}, "server socket closed")
    ELSE IF e.sock \in socks THEN Reject({"C23"}, "server socket closed again")
    ELSE /\ socks' = socks \cup {e.sock} /\ stop' = 2 /\ i' = i + 1
         /\ UNCHANGED <<t, s, last, res>>

AtStopped(e) ==
    IF P!Conns(s) # {} THEN Reject({"C23"}, "connections left open")
    ELSE IF Cardinality(socks) # Traces[t].nsocks
    THEN Reject({"C23"}, "server sockets left open")
    ELSE IF e.left # 0 THEN Reject({"C23"}, "descriptors left registered")
    ELSE Step(s)

AtCrash(e) == Reject({"ANY", "C10"} \cup last, <<"crash", e.what>>)

Next ==
    /\ res = "run"
    /\ IF i > Len(Ev)
       THEN /\ PrintT(<<"END", t>>)
            /\ res' = "end"
            /\ UNCHANGED <<t, i, s, stop, socks, last, hist>>
       ELSE LET e == Ev[i]
            IN  /\ CASE e.e = "accept" -> AtAccept(e)
                     [] e.e = "recv" -> AtRecv(e)
                     [] e.e = "eof" -> AtEof(e)
                     [] e.e = "send" -> AtSend(e)
                     [] e.e = "close" -> AtClose(e)
                     [] e.e = "tick" -> AtTick(e)
                     [] e.e = "poll" -> AtPoll(e)
                     [] e.e = "quiet" -> AtQuiet(e)
                     [] e.e = "stop" -> AtStop(e)
                     [] e.e = "sclose" -> AtSclose(e)
                     [] e.e = "stopped" -> AtStopped(e)
                     [] e.e = "crash" -> AtCrash(e)
                /\ hist' = IF s' = s THEN hist ELSE NewHist(s, s')

Spec == Init /\ [][Next]_vars
=============================================================================

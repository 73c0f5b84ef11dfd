-------------------------------- MODULE PafMC --------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification Paf for small worlds, one   *)
(* for each group of properties.  Clients choose freely from a menu of     *)
(* requests, come and go, and time passes in steps; the server handles     *)
(* what it receives at once.  The properties are stated here anew, without *)
(* reference to how Paf brings them about: as invariants (Inv) and as      *)
(* predicates on a step and the messages it sends (StepOk).                *)
(*                                                                         *)
(* If Emit is set, every transition is printed, so that paths through the  *)
(* graph can be driven through the real server (harness/tour.py).          *)
(***************************************************************************)
EXTENDS Paf

CONSTANTS Model,           \* name of the small world
          Emit             \* print the transitions

SelfMatch(f, p) == f = p   \* filter f selects the property set f
EveryFilterOk(f) == f < 90

T == INSTANCE TLCExt

VARIABLES s, view
vars == <<s, view>>

-----------------------------------------------------------------------------
(* THE SMALL WORLDS *)

NoLimit == [clients |-> None, services |-> None, subscriptions |-> None]

Default == [vmin |-> 2, vmax |-> 3, imin |-> 4, imax |-> 10000,
            user |-> NoLimit, total |-> NoLimit]

W ==
  CASE Model = "mirror" ->         \* C01, C02, C11
        [cfg |-> Default, slots |-> {1, 2},
         user |-> [c \in 1..2 |-> "u"], cids |-> [c \in 1..2 |-> {c}],
         vers |-> {<<2, 2>>}, raw |-> FALSE,
         sids |-> {1, 2}, gens |-> {1, 2}, props |-> {1, 2}, ttls |-> {1},
         pubs |-> {1}, subbers |-> {2}, subs |-> {1, 2},
         filts |-> {0, 1, 2}, cmds |-> {"services", "subscriptions"},
         ticks |-> {SEC}]
    [] Model = "owner" ->          \* C03 - C06
        [cfg |-> Default, slots |-> {1, 2, 3},
         user |-> [c \in 1..3 |-> "u"],
         cids |-> [c \in 1..3 |-> IF c = 3 THEN {1} ELSE {c}],
         vers |-> {<<2, 2>>}, raw |-> FALSE,
         sids |-> {1}, gens |-> {1, 2}, props |-> {1}, ttls |-> {1, 2},
         pubs |-> {1, 2, 3}, subbers |-> {2}, subs |-> {1}, filts |-> {0},
         cmds |-> {"services"}, ticks |-> {SEC - 1, SEC}]
    [] Model = "owner2" ->         \* C04 - C06, two services
        [cfg |-> Default, slots |-> {1, 2, 3},
         user |-> [c \in 1..3 |-> "u"],
         cids |-> [c \in 1..3 |-> IF c = 3 THEN {1} ELSE {c}],
         vers |-> {<<2, 2>>}, raw |-> FALSE,
         sids |-> {1, 2}, gens |-> {1}, props |-> {1}, ttls |-> {1, 2},
         pubs |-> {1, 2, 3}, subbers |-> {}, subs |-> {}, filts |-> {},
         cmds |-> {}, ticks |-> {SEC}]
    [] Model = "users" ->          \* C07, C08
        [cfg |-> Default, slots |-> {1, 2, 3},
         user |-> [c \in 1..3 |-> IF c = 3 THEN "v" ELSE "u"],
         cids |-> [c \in 1..3 |-> {1, 2}],
         vers |-> {<<2, 2>>}, raw |-> FALSE,
         sids |-> {1}, gens |-> {1, 2}, props |-> {1}, ttls |-> {1},
         pubs |-> {1, 2, 3}, subbers |-> {1, 2, 3}, subs |-> {1},
         filts |-> {0}, cmds |-> {}, ticks |-> {SEC}]
    [] Model = "limits" ->         \* C09
        [cfg |-> [Default EXCEPT !.user = [clients |-> 1, services |-> 1,
                                           subscriptions |-> 1],
                                 !.total = [clients |-> 2, services |-> 2,
                                            subscriptions |-> 1]],
         slots |-> {1, 2, 3},
         user |-> [c \in 1..3 |-> IF c = 3 THEN "v" ELSE "u"],
         cids |-> [c \in 1..3 |-> {c}],
         vers |-> {<<2, 2>>}, raw |-> FALSE,
         sids |-> {1, 2}, gens |-> {1}, props |-> {1}, ttls |-> {1},
         pubs |-> {1, 2, 3}, subbers |-> {1, 3}, subs |-> {1, 2},
         filts |-> {0}, cmds |-> {}, ticks |-> {SEC}]
    [] Model = "limits2" ->        \* C09, per user over two clients
        [cfg |-> [Default EXCEPT !.user = [clients |-> 2, services |-> 2,
                                           subscriptions |-> 1],
                                 !.total = [clients |-> 3, services |-> 2,
                                            subscriptions |-> 2]],
         slots |-> {1, 2},
         user |-> [c \in 1..2 |-> "u"],
         cids |-> [c \in 1..2 |-> {c}],
         vers |-> {<<2, 2>>}, raw |-> FALSE,
         sids |-> {1, 2, 3}, gens |-> {1}, props |-> {1}, ttls |-> {1},
         pubs |-> {1, 2}, subbers |-> {1, 2}, subs |-> {1, 2},
         filts |-> {0}, cmds |-> {}, ticks |-> {SEC}]
    [] Model = "admission" ->      \* C12, C16
        [cfg |-> [Default EXCEPT !.total = [NoLimit EXCEPT !.clients = 2]],
         slots |-> {1, 2, 3},
         user |-> [c \in 1..3 |-> IF c = 3 THEN "v" ELSE "u"],
         cids |-> [c \in 1..3 |-> {1, 2}],
         vers |-> {<<2, 3>>, <<3, 3>>, <<2, 2>>, <<4, 5>>}, raw |-> TRUE,
         sids |-> {1}, gens |-> {1}, props |-> {1}, ttls |-> {1},
         pubs |-> {1}, subbers |-> {}, subs |-> {}, filts |-> {},
         cmds |-> {"ping", "clients"},
         ticks |-> {SEC, MAX_HANDSHAKE * SEC - SEC \div 2,
                    (MAX_HANDSHAKE + CLEAN_INTERVAL) * SEC + SEC \div 2}]
    [] Model = "versions" ->       \* C12
        [cfg |-> [Default EXCEPT !.vmin = 3],
         slots |-> {1},
         user |-> [c \in 1..1 |-> "u"],
         cids |-> [c \in 1..1 |-> {1, 2}],
         vers |-> {<<a, b>> : a \in 0..4, b \in 0..4}, raw |-> TRUE,
         sids |-> {1}, gens |-> {1}, props |-> {1}, ttls |-> {1},
         pubs |-> {1}, subbers |-> {1}, subs |-> {1}, filts |-> {0},
         cmds |-> {"ping", "clients", "track", "services", "subscriptions"},
         ticks |-> {}]
    [] Model = "life" ->           \* C11, C14: transactions
        [cfg |-> Default, slots |-> {1, 2},
         user |-> [c \in 1..2 |-> "u"], cids |-> [c \in 1..2 |-> {c}],
         vers |-> {<<3, 3>>}, raw |-> FALSE,
         sids |-> {1}, gens |-> {1}, props |-> {1}, ttls |-> {1000},
         pubs |-> {2}, subbers |-> {1, 2}, subs |-> {1, 2},
         filts |-> {0, 99},
         cmds |-> {"services", "subscriptions", "clients", "ping", "track",
                   "tq", "tr", "tx", "px", "dup"}, ticks |-> {}]
    [] Model = "idle" ->           \* C08, C13, C14: supervision
        [cfg |-> [Default EXCEPT !.imin = 4, !.imax = 20],
         slots |-> {1, 2},
         user |-> [c \in 1..2 |-> "u"], cids |-> [c \in 1..2 |-> {1}],
         vers |-> {<<3, 3>>}, raw |-> TRUE,
         sids |-> {1}, gens |-> {1}, props |-> {1}, ttls |-> {2, 9},
         pubs |-> {1}, subbers |-> {}, subs |-> {}, filts |-> {},
         cmds |-> {"ping", "track", "tr"}, ticks |-> {}]

cfg == W.cfg

-----------------------------------------------------------------------------
(* ACTIONS, as records *)

Ta(cmd) == CASE cmd = "track" -> 1 [] cmd = "ping" -> 2
             [] cmd = "services" -> 3 [] cmd = "subscriptions" -> 4
             [] cmd = "clients" -> 5 [] cmd = "hello" -> 6
             [] cmd = "publish" -> 7 [] cmd = "unpublish" -> 8
             [] cmd = "unsubscribe" -> 9

Req(cmd) == [type |-> "request", cmd |-> cmd, ta |-> Ta(cmd)]
Inf(cmd, ta) == [type |-> "inform", cmd |-> cmd, ta |-> ta]
R(c, r) == [op |-> "req", c |-> c, r |-> r]

Hellos(c) == {Req("hello") @@ [cid |-> i, vmin |-> v[1], vmax |-> v[2]] :
              i \in W.cids[c], v \in W.vers}

Menu(c) ==
    LET k == s.conn[c]
        pub == IF c \notin W.pubs THEN {}
               ELSE {Req("publish") @@ [sid |-> i, gen |-> g, props |-> p,
                                        ttl |-> t] :
                     i \in W.sids, g \in W.gens, p \in W.props,
                     t \in W.ttls}
                    \cup {Req("unpublish") @@ [sid |-> i] : i \in W.sids}
        sub == IF c \notin W.subbers THEN {}
               ELSE {[type |-> "request", cmd |-> "subscribe",
                      ta |-> 10 + b, sub |-> b, filt |-> f] :
                     b \in {x \in W.subs : 10 + x \notin DOMAIN k.tas},
                     f \in W.filts}
                    \cup {Req("unsubscribe") @@ [sub |-> b] : b \in W.subs}
        info == {Req(m) : m \in W.cmds \cap {"subscriptions", "clients",
                                             "ping"}}
                \cup {Req(m) @@ [filt |-> f] :
                      m \in W.cmds \cap {"services"},
                      f \in {0} \cup W.filts}
        trk == (IF "track" \in W.cmds
                THEN {[type |-> "request", cmd |-> "track", ta |-> i] :
                      i \in {1, 20} \ DOMAIN k.tas} ELSE {})
               \cup (IF "tq" \in W.cmds
                     THEN {Inf("track", 1) @@ [ttype |-> "query"]} ELSE {})
               \cup (IF "tr" \in W.cmds
                     THEN {Inf("track", 1) @@ [ttype |-> "reply"]} ELSE {})
               \cup (IF "tx" \in W.cmds
                     THEN {Inf("track", 1) @@ [ttype |-> "odd"]} ELSE {})
               \cup (IF "px" \in W.cmds
                     THEN {Inf("ping", 2), Inf("subscribe", 11)} ELSE {})
        (* reusing the id of a live transaction *)
        dup == IF "dup" \in W.cmds
               THEN {[type |-> "request", cmd |-> "ping", ta |-> i] :
                     i \in DOMAIN k.tas} ELSE {}
    IN  pub \cup sub \cup info \cup trk \cup dup
        \cup (IF W.raw THEN Hellos(c) ELSE {})

AcceptsMore ==
    cfg.total.clients = None \/ Cardinality(Conns(s)) < cfg.total.clients

(* Moments next to the bounds of the supervision of the connections; with  *)
(* more than one, time stands still, lest there be too many.               *)
Interesting ==
    IF Cardinality(Conns(s)) > 1 THEN {} ELSE
    LET On == {c \in Conns(s) : s.conn[c].idle.st # "off"}
        M(c) == LET d == s.conn[c].idle
                IN  (IF d.st = "act" THEN {d.wlo - 1, d.whi + 1} ELSE {})
                    \cup {d.dlo - 1, d.dhi + 1}
        H == {s.conn[c].acc + MAX_HANDSHAKE * SEC - SLK - 1 :
              c \in {x \in Conns(s) : ~s.conn[x].hs}}
             \cup {s.conn[c].acc + (MAX_HANDSHAKE + CLEAN_INTERVAL) * SEC
                   + SLK + 1 : c \in {x \in Conns(s) : ~s.conn[x].hs}}
        Clear(t) ==
            /\ t > s.now
            /\ \A c \in On :
                 LET d == s.conn[c].idle
                 IN  /\ d.st = "act" => t < d.wlo \/ t > d.whi
                     /\ t < d.dlo \/ t > d.dhi
            /\ \A c \in {x \in Conns(s) : ~s.conn[x].hs} :
                 t \notin (s.conn[c].acc + MAX_HANDSHAKE * SEC - SLK)..
                          (s.conn[c].acc + (MAX_HANDSHAKE + CLEAN_INTERVAL)
                                           * SEC + SLK)
    IN  {t - s.now : t \in {x \in H \cup UNION {M(c) : c \in On} : Clear(x)}}

Acts ==
    (IF W.raw
     THEN (IF AcceptsMore
           THEN {[op |-> "conn", c |-> c, u |-> W.user[c]] :
                 c \in W.slots \ Conns(s)}
           ELSE {})
     ELSE (IF AcceptsMore
           THEN UNION {{[op |-> "join", c |-> c, u |-> W.user[c], r |-> r] :
                        r \in Hellos(c)} : c \in W.slots \ Conns(s)}
           ELSE {}))
    \cup {[op |-> "eof", c |-> c] : c \in Conns(s)}
    \cup UNION {{R(c, r) : r \in Menu(c)} : c \in Conns(s)}
    \cup {[op |-> "tick", d |-> d] :
          d \in W.ticks \cup (IF Model = "idle" THEN Interesting ELSE {})}

-----------------------------------------------------------------------------
(* EFFECTS *)

RECURSIVE CloseAll(_, _)
CloseAll(st, S) ==
    IF S = {} THEN st
    ELSE LET c == CHOOSE c \in S : TRUE
         IN  CloseAll(Closed(cfg, st, c), S \ {c})

(* The server's supervision, after time has passed.  In the worlds with a  *)
(* clock only moments outside of the tolerances are visited.               *)
Supervise(st) ==
    LET dead == {c \in Conns(st) : HandshakeExpired(st, c) \/
                                   IdleExpired(st, c)}
        late == {c \in Conns(st) \ dead : st.conn[c].idle.st = "act" /\
                                          st.now > st.conn[c].idle.whi}
        warned == [st EXCEPT !.conn = [c \in Conns(st) |->
            IF c \notin late THEN st.conn[c]
            ELSE LET k == st.conn[c]
                     w == [k EXCEPT !.idle.st = "warn"]
                 IN  IF k.track = None \/ k.qt # None THEN w
                     ELSE [PushC(w, Group({"C14"}, {QueryMsg(k)}))
                             EXCEPT !.qt = st.now, !.ql = st.now]]]
    IN  CloseAll(warned, dead)

Effect(a) ==
    CASE a.op = "conn" -> Accepted(s, a.c, a.u, a.u)
      [] a.op = "join" -> Handle(cfg, Accepted(s, a.c, a.u, a.u), a.c, a.r)
      [] a.op = "eof" -> Closed(cfg, s, a.c)
      [] a.op = "req" -> LET st == Handle(cfg, s, a.c, a.r)
                         IN  CloseAll(st, DOMAIN st.must)
      [] a.op = "tick" -> ExpireAll(cfg, Supervise(Tick(s, s.now + a.d,
                                                        FALSE, {})))

Outs(st) == [c \in Conns(st) |-> st.conn[c].q]
Flushed(st) == [st EXCEPT !.conn = [c \in Conns(st) |->
                   [st.conn[c] EXCEPT !.q = << >>, !.n = 0]]]

(* What a subscriber knows: it applies the notifications in their order *)
Apply(v, m) ==
    IF m.mtype = "disappeared" THEN Without(v, {m.sid})
    ELSE (m.sid :> [n \in DOMAIN m \ {"cmd", "type", "ta", "mtype", "sid"} |->
                    m[n]]) @@ v

RECURSIVE ApplySet(_, _)
ApplySet(v, S) ==
    IF S = {} THEN v
    ELSE LET m == CHOOSE m \in S : TRUE IN ApplySet(Apply(v, m), S \ {m})

Notes(g, ta) == {m \in g.ms : m.cmd = "subscribe" /\ m.type = "notify" /\
                              m.ta = ta}

RECURSIVE ApplyAll(_, _, _)
ApplyAll(v, q, ta) ==
    IF q = << >> THEN v
    ELSE ApplyAll(ApplySet(v, Notes(q[1], ta)), Tail(q), ta)

NextView(st) ==
    [b \in DOMAIN st.sub |->
        ApplyAll(IF b \in DOMAIN view /\ b \in DOMAIN s.sub THEN view[b]
                 ELSE << >>,
                 st.conn[st.sub[b].conn].q, st.sub[b].ta)]

-----------------------------------------------------------------------------
(* INVARIANTS *)

Data(v) ==
    LET base == [gen |-> v.gen, props |-> v.props, ttl |-> v.ttl,
                 cid |-> v.owner]
    IN  IF v.orphan = None THEN base ELSE base @@ [orphan |-> v.orphan]

Mirror ==                                                          \* C01
    \A b \in DOMAIN s.sub :
        view[b] = [i \in {j \in DOMAIN s.svc :
                             s.sub[b].filt \in {0, s.svc[j].props}} |->
                   Data(s.svc[i])]

SubsBelong ==                                                      \* C04
    \A b \in DOMAIN s.sub :
        /\ s.sub[b].conn \in Active(s)
        /\ s.conn[s.sub[b].conn].cid = s.sub[b].cid
        /\ s.conn[s.sub[b].conn].tas[s.sub[b].ta] = "subscribe"

OwnersPresent ==                                                   \* C04, C06
    \A i \in DOMAIN s.svc :
        s.svc[i].orphan = None =>
            \E c \in Active(s) : s.conn[c].cid = s.svc[i].owner /\
                                 s.conn[c].user = s.svc[i].user

OrphansFresh ==                                                    \* C05
    \A i \in DOMAIN s.svc :
        s.svc[i].orphan # None =>
            s.svc[i].orphan <= s.now /\
            (s.svc[i].ttl > 0 =>
                s.now < s.svc[i].orphan + s.svc[i].ttl * SEC)

OneConnPerId ==                                                    \* C08
    \A c, d \in Active(s) : s.conn[c].cid = s.conn[d].cid => c = d

IdsNotShared ==                                                    \* C07
    /\ \A c \in Active(s) : \A i \in DOMAIN s.svc :
          s.svc[i].owner = s.conn[c].cid => s.svc[i].user = s.conn[c].user
    /\ \A i, j \in DOMAIN s.svc :
          s.svc[i].owner = s.svc[j].owner => s.svc[i].user = s.svc[j].user

Within(limit, n) == limit = None \/ n <= limit

LimitsKept ==                                                      \* C09
    /\ Within(cfg.total.clients, Cardinality(Active(s)))
    /\ Within(cfg.total.services, Cardinality(DOMAIN s.svc))
    /\ Within(cfg.total.subscriptions, Cardinality(DOMAIN s.sub))
    /\ \A u \in {W.user[c] : c \in W.slots} :
         /\ Within(cfg.user.clients,
                   Cardinality({c \in Active(s) : s.conn[c].user = u}))
         /\ Within(cfg.user.services,
                   Cardinality({i \in DOMAIN s.svc : s.svc[i].user = u}))
         /\ Within(cfg.user.subscriptions,
                   Cardinality({b \in DOMAIN s.sub : s.sub[b].user = u}))

ConnectionsWithin ==                                               \* C16
    Within(cfg.total.clients, Cardinality(Conns(s)))

Introduced ==                                                      \* C16
    \A c \in Conns(s) : s.conn[c].hs \/
        s.now - s.conn[c].acc <=
            (MAX_HANDSHAKE + CLEAN_INTERVAL) * SEC + SLK

TracksLive ==                                                      \* C14
    \A c \in Conns(s) :
        LET k == s.conn[c]
            tr == {i \in DOMAIN k.tas : k.tas[i] = "track"}
        IN  /\ Cardinality(tr) <= 1
            /\ (k.track = None) = (tr = {})
            /\ tr # {} => tr = {k.track}
            /\ k.qt # None => tr # {}

(* A supervised connection is never left silent for longer than its        *)
(* longest maximum idle time, plus tolerance                               *)
SilenceBounded ==                                                  \* C13
    \A c \in Active(s) :
        LET d == s.conn[c].idle
        IN  /\ (d.st = "off") = (s.conn[c].ver < 3)
            /\ d.st # "off" =>
                 /\ d.m \in cfg.imin..cfg.imax
                 /\ s.now - s.conn[c].seen <=
                      (105 * d.mhi * SEC) \div 100 + 2 + 3 * SLK + d.mhi * SEC

Quiet == \A c \in Conns(s) : s.conn[c].q = << >> /\ s.must = << >>

Inv == /\ Mirror
       /\ SubsBelong
       /\ OwnersPresent
       /\ OrphansFresh
       /\ OneConnPerId
       /\ IdsNotShared
       /\ LimitsKept
       /\ ConnectionsWithin
       /\ Introduced
       /\ TracksLive
       /\ SilenceBounded
       /\ Quiet

-----------------------------------------------------------------------------
(* STEPS: what a step from s to st may do, given the messages o it sends *)

RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN {} ELSE q[1].ms \cup Flat(Tail(q))

AllMsgs(q) == Flat(q)
TaMsgs(q, ta) == {m \in Flat(q) : m.ta = ta}

(* the groups of transaction ta, in order *)
RECURSIVE TaTypes(_, _)
TaTypes(q, ta) ==
    IF q = << >> THEN << >>
    ELSE LET ts == {m.type : m \in {x \in q[1].ms : x.ta = ta}}
         IN  IF ts = {} THEN TaTypes(Tail(q), ta)
             ELSE <<ts>> \o TaTypes(Tail(q), ta)

Single == {"hello", "publish", "unpublish", "unsubscribe", "ping"}

IsReq(a) == a.op \in {"req", "join"} /\ a.r.type = "request"

Answered(a, st, o) ==                                              \* C11
    IsReq(a) /\ a.c \in Conns(st) =>
        LET tt == TaTypes(o[a.c], a.r.ta)
            ms == TaMsgs(o[a.c], a.r.ta)
        IN  /\ \A m \in ms : m.cmd = a.r.cmd
            /\ IF a.r.cmd \in Single
               THEN tt \in {<<{"complete"}>>, <<{"fail"}>>} /\
                    Cardinality(ms) = 1
               ELSE IF a.r.cmd \in {"subscribe", "track"}
               THEN tt \in {<<{"fail"}>>, <<{"accept"}>>,
                            <<{"accept"}, {"notify"}>>}
               ELSE tt \in {<<{"fail"}>>, <<{"accept"}, {"complete"}>>,
                            <<{"accept"}, {"notify"}, {"complete"}>>}
            /\ a.r.cmd \in {"subscribe", "track"} =>
                 ((a.r.ta \in DOMAIN st.conn[a.c].tas) =
                  (\E i \in 1..Len(tt) : tt[i] = {"accept"}))

(* all other messages belong to transactions which are, or were, live *)
Unasked(a, st, o) ==                                               \* C11
    \A c \in Conns(st) : \A m \in AllMsgs(o[c]) :
        \/ IsReq(a) /\ a.c = c /\ m.ta = a.r.ta
        \/ /\ c \in Conns(s) /\ m.ta \in DOMAIN s.conn[c].tas
           /\ s.conn[c].tas[m.ta] = m.cmd
           /\ m.type = "notify" \/
              (m.type = "complete" /\ m.ta \notin DOMAIN st.conn[c].tas)

(* notifications: at most one per service and subscription (two if a       *)
(* service is removed by a non-owner), none if nothing changed             *)
Economical(a, st, o) ==                                            \* C01
    \A b \in DOMAIN st.sub \cap DOMAIN s.sub : \A i \in W.sids :
        LET ms == {m \in AllMsgs(o[st.sub[b].conn]) :
                     m.cmd = "subscribe" /\ m.type = "notify" /\
                     m.ta = st.sub[b].ta /\ m.sid = i}
            Is(z) == IF i \in DOMAIN z.svc THEN <<z.svc[i]>> ELSE << >>
        IN  /\ Is(s) = Is(st) => ms = {}
            /\ Cardinality(ms) <=
                 IF a.op = "req" /\ a.r.cmd = "unpublish" THEN 2 ELSE 1
            /\ \A m \in ms : m.mtype = "modified" => Is(s) # << >>
            /\ \A m \in ms : m.mtype = "disappeared" => Is(s) # << >>

Listings(a, st, o) ==                                              \* C02
    IsReq(a) /\ a.c \in Conns(st) =>
      LET ns == {m \in TaMsgs(o[a.c], a.r.ta) : m.type = "notify"}
          ok == \E m \in TaMsgs(o[a.c], a.r.ta) : m.type = "complete"
      IN  ok =>
          CASE a.r.cmd = "services" ->
                 /\ {m.sid : m \in ns} =
                    {i \in DOMAIN s.svc : a.r.filt \in {0, s.svc[i].props}}
                 /\ Cardinality({m.sid : m \in ns}) = Cardinality(ns)
                 /\ \A m \in ns :
                      LET v == s.svc[m.sid]
                      IN  m.gen = v.gen /\ m.props = v.props /\
                          m.ttl = v.ttl /\ m.cid = v.owner /\
                          ("orphan" \in DOMAIN m) = (v.orphan # None)
            [] a.r.cmd = "subscriptions" ->
                 /\ {m.sub : m \in ns} = DOMAIN s.sub
                 /\ Cardinality({m.sub : m \in ns}) = Cardinality(ns)
                 /\ \A m \in ns : m.cid = s.sub[m.sub].cid
            [] a.r.cmd = "clients" ->
                 /\ {m.cid : m \in ns} = {s.conn[c].cid : c \in Active(s)}
                 /\ Cardinality(ns) = Cardinality(Active(s))
            [] OTHER -> ns = {}

Failed(a, o, c) == \E m \in TaMsgs(o[c], a.r.ta) : m.type = "fail"
ReasonOf(a, o, c) ==
    (CHOOSE m \in TaMsgs(o[c], a.r.ta) : m.type = "fail").reason

(* a refused request changes nothing *)
NoEffect(st) == st.svc = s.svc /\ st.sub = s.sub /\
                Active(st) = Active(s)

RefusalHarmless(a, st, o) ==                             \* C03, C07, C09
    IsReq(a) /\ a.c \in Conns(st) /\ Failed(a, o, a.c) => NoEffect(st)

Generations(a, st, o) ==                                           \* C03
    /\ \A i \in DOMAIN s.svc \cap DOMAIN st.svc :
         LET v == s.svc[i]
             w == st.svc[i]
         IN  /\ w.gen >= v.gen
             /\ w.gen = v.gen => w.props = v.props /\ w.ttl = v.ttl
    /\ IsReq(a) /\ a.r.cmd = "publish" /\ a.c \in Active(s) /\
       a.c \in Conns(st) /\ a.r.sid \in DOMAIN s.svc /\
       s.svc[a.r.sid].user = s.conn[a.c].user =>
         LET v == s.svc[a.r.sid]
             same == a.r.props = v.props /\ a.r.ttl = v.ttl
         IN  /\ (a.r.gen > v.gen \/ (a.r.gen = v.gen /\ same)) =
                ~Failed(a, o, a.c)
             /\ a.r.gen < v.gen => ReasonOf(a, o, a.c) = "old-generation"
             /\ a.r.gen = v.gen /\ ~same =>
                  ReasonOf(a, o, a.c) = "same-generation-but-different"

Ends(st) == Conns(s) \ Conns(st)

OrphanExactly(a, st, o) ==                                     \* C04, C10
    \A i \in DOMAIN s.svc :
      LET v == s.svc[i]
          lost == v.orphan = None /\
                  \E c \in Ends(st) : s.conn[c].hs /\
                                      s.conn[c].cid = v.owner
      IN  /\ lost => \/ i \in DOMAIN st.svc /\
                        st.svc[i] = [v EXCEPT !.orphan = st.now]
                     \/ i \notin DOMAIN st.svc /\ a.op = "tick" /\ v.ttl = 0
          /\ ~lost /\ a.op = "eof" => i \in DOMAIN st.svc /\ st.svc[i] = v

RemovedRightly(a, st, o) ==                                        \* C05
    \A i \in DOMAIN s.svc \ DOMAIN st.svc :
        \/ a.op = "req" /\ a.r.cmd = "unpublish" /\ a.r.sid = i
        \/ s.svc[i].orphan # None /\
           st.now >= s.svc[i].orphan + s.svc[i].ttl * SEC

Ownership(a, st, o) ==                                             \* C06
    IsReq(a) /\ a.r.cmd = "publish" /\ a.c \in Conns(st) /\
    ~Failed(a, o, a.c) =>
        /\ a.r.sid \in DOMAIN st.svc
        /\ st.svc[a.r.sid].owner = s.conn[a.c].cid
        /\ st.svc[a.r.sid].orphan = None

Isolation(a, st, o) ==                                             \* C07
    a.op \in {"req", "join"} =>
      LET u == W.user[a.c]
      IN  /\ \A i \in DOMAIN s.svc : s.svc[i].user # u =>
               i \in DOMAIN st.svc /\ st.svc[i] = s.svc[i]
          /\ \A b \in DOMAIN s.sub :
               s.sub[b].conn # a.c => b \in DOMAIN st.sub /\
                                      st.sub[b] = s.sub[b]

Exactness(a, st, o) ==                                             \* C09
    IsReq(a) /\ a.c \in Conns(st) =>
      LET u == W.user[a.c]
          short == Failed(a, o, a.c) /\
                   ReasonOf(a, o, a.c) = "insufficient-resources"
          Full(lu, lt, nu, nt) == ~Within(lu, nu + 1) \/ ~Within(lt, nt + 1)
      IN  CASE a.r.cmd = "publish" /\ a.c \in Active(s) ->
                 short = (/\ a.r.sid \notin DOMAIN s.svc
                          /\ Full(cfg.user.services, cfg.total.services,
                                  UsedServices(s, u),
                                  Cardinality(DOMAIN s.svc)))
            [] a.r.cmd = "subscribe" /\ a.c \in Active(s) ->
                 short = (/\ a.r.sub \notin DOMAIN s.sub
                          /\ a.r.filt < 90
                          /\ Full(cfg.user.subscriptions,
                                  cfg.total.subscriptions, UsedSubs(s, u),
                                  Cardinality(DOMAIN s.sub)))
            [] a.r.cmd = "hello" ->
                 /\ short => Full(cfg.user.clients, cfg.total.clients,
                                  UsedClients(s, u), Cardinality(Active(s)))
                 /\ ~Failed(a, o, a.c) /\ a.c \notin Active(s) =>
                      ~Full(cfg.user.clients, cfg.total.clients,
                            UsedClients(s, u), Cardinality(Active(s)))
            [] OTHER -> ~short

Handshake(a, st, o) ==                                             \* C12, C08
    IsReq(a) /\ a.c \in Conns(st) =>
      LET before == a.c \in Active(s)
      IN  /\ ~before /\ a.r.cmd # "hello" =>
               /\ Failed(a, o, a.c) /\ ReasonOf(a, o, a.c) = "no-hello"
               /\ a.c \notin Active(st)
          /\ a.r.cmd = "hello" =>
               LET common == {v \in cfg.vmin..cfg.vmax :
                                v >= a.r.vmin /\ v <= a.r.vmax}
               IN  /\ ~before /\ ~Failed(a, o, a.c) =>
                        /\ a.c \in Active(st)
                        /\ common # {}
                        /\ st.conn[a.c].ver \in common
                        /\ \A v \in common : v <= st.conn[a.c].ver
                   /\ ~before /\ common = {} => Failed(a, o, a.c)
                   /\ ~before /\ (\E d \in Active(s) :
                                     s.conn[d].cid = a.r.cid) =>
                        Failed(a, o, a.c)
                   /\ before => /\ st.conn[a.c].ver = s.conn[a.c].ver
                                /\ st.conn[a.c].cid = s.conn[a.c].cid
                                /\ Failed(a, o, a.c) =
                                     (a.r.cid # s.conn[a.c].cid)

(* connections end only for a reason *)
ClosedRightly(a, st, o) ==                               \* C10, C13, C16
    \A c \in Ends(st) :
      LET k == s.conn[c]
      IN  \/ a.op = "eof" /\ a.c = c
          \/ a.op = "req" /\ a.c = c /\
             \/ a.r.ta \in DOMAIN k.tas
             \/ a.r.type = "inform"
          \/ a.op = "tick" /\ ~k.hs /\
             st.now - k.acc >= MAX_HANDSHAKE * SEC - SLK
          \/ a.op = "tick" /\ k.hs /\ k.ver >= 3 /\
             st.now - k.seen >= 2 * ((45 * k.idle.mlo * SEC) \div 100) - 4 * SLK
          \/ (* probed, because somebody else came with the same id *)
             a.op = "tick" /\ k.hs /\ k.ver >= 3 /\ k.idle.st = "warn" /\
             st.now >= k.idle.dlo

OneQuery(a, st, o) ==                                              \* C14
    \A c \in Conns(st) :
      LET qs == {m \in AllMsgs(o[c]) : m.cmd = "track" /\
                   m.type = "notify" /\ m.ttype = "query"}
      IN  qs # {} => /\ c \in Conns(s) /\ s.conn[c].qt = None
                     /\ Cardinality(qs) = 1

StepOk(a, st, o) ==
    /\ Answered(a, st, o)
    /\ Unasked(a, st, o)
    /\ Economical(a, st, o)
    /\ Listings(a, st, o)
    /\ RefusalHarmless(a, st, o)
    /\ Generations(a, st, o)
    /\ OrphanExactly(a, st, o)
    /\ RemovedRightly(a, st, o)
    /\ Ownership(a, st, o)
    /\ Isolation(a, st, o)
    /\ Exactness(a, st, o)
    /\ Handshake(a, st, o)
    /\ ClosedRightly(a, st, o)
    /\ OneQuery(a, st, o)

-----------------------------------------------------------------------------
(* Only differences in time matter *)
Rel(t, now) == IF t = None THEN None ELSE t - now
Canon(st) ==
    [conn |-> [c \in Conns(st) |->
        LET k == st.conn[c]
            d == k.idle
        IN  [k EXCEPT !.acc = IF k.hs THEN 0 ELSE @ - st.now,
                      !.seen = 0,
                      !.qt = IF @ = None THEN None ELSE 0,
                      !.ql = IF @ = None THEN None ELSE 0,
                      !.lat = IF @ = None THEN None ELSE 0,
                      !.latl = IF @ = None THEN None ELSE 0,
                      !.idle = IF d.st = "off" \/ Model # "idle" THEN 0
                               ELSE [d EXCEPT
                                 !.wlo = IF d.st = "act" THEN @ - st.now
                                         ELSE 0,
                                 !.whi = IF d.st = "act" THEN @ - st.now
                                         ELSE 0,
                                 !.dlo = @ - st.now, !.dhi = @ - st.now]]],
     svc |-> [i \in DOMAIN st.svc |->
                [st.svc[i] EXCEPT !.orphan = Rel(@, st.now)]],
     sub |-> st.sub]

View == Canon(s)

Init == /\ s = Init0
        /\ view = << >>
        /\ Emit => PrintT(<<"I", T!TLCFP(Canon(Init0))>>)

Next ==
    \E a \in Acts :
        LET st == Effect(a)
            o == Outs(st)
        IN  /\ s' = TLCEval(Flushed(st))
            /\ view' = TLCEval(NextView(st))
            /\ Assert(StepOk(a, st, o), <<"step violates a property", a, o>>)
            /\ Emit => PrintT(<<"E", T!TLCFP(Canon(s)), a,
                                T!TLCFP(Canon(Flushed(st)))>>)

Spec == Init /\ [][Next]_vars
=============================================================================

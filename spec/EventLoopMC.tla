----------------------------- MODULE EventLoopMC -----------------------------
(***************************************************************************)
(* A small world around the event loop: handlers that change, add and      *)
(* remove sources and close and reopen files.  The loop does what it may.  *)
(* hist remembers, independently of EventLoop's own bookkeeping, what was  *)
(* ready or due at the last polls and has neither been called nor changed. *)
(***************************************************************************)
EXTENDS EventLoop

CONSTANTS NS, NF,     \* sources, descriptors
          Offs,       \* timeouts that are set, relative to now
          Ops,        \* the kinds of changes
          MaxOps,     \* of a handler
          InitOps,    \* before the loop runs
          Emit

T == INSTANCE TLCExt

VARIABLES s, files, left, in, hist

Srcs == 1..NS
Fds == 1..NF

Canon(st) == [st EXCEPT !.now = 0,
                !.src = [i \in DOMAIN @ |->
                           [@[i] EXCEPT !.x = IF @ = NoTime THEN NoTime
                                              ELSE IF @ < st.now THEN -1
                                              ELSE @ - st.now]]]

Users(fd) == {i \in Srcs : s.src[i].fd = fd}

OpActs ==
    UNION {
      [op : {"add"}, src : {i \in Srcs \ Live(s) :
                              s.src[i].fd = NoFd \/ s.src[i].fd \in files}],
      [op : {"remove"}, src : Live(s)],
      IF "fd" \in Ops
      THEN {a \in [op : {"setfd"}, src : Srcs, fd : files] :
              Users(a.fd) = {}} \cup
           [op : {"clearfd"}, src : {i \in Srcs : s.src[i].fd # NoFd}]
      ELSE {},
      IF "close" \in Ops
      THEN [op : {"close"}, fd : files] \cup
           [op : {"open"}, fd : Fds \ files]
      ELSE {},
      IF "time" \in Ops
      THEN {a \in [op : {"timeout"}, src : Srcs, off : Offs] :
              s.src[a.src].x # s.now + a.off} \cup
           [op : {"cleartimeout"}, src : {i \in Srcs :
                                            s.src[i].x # NoTime}] \cup
           {[op |-> "tick"]}
      ELSE {},
      IF "active" \in Ops
      THEN {[op |-> "active", src |-> i, b |-> ~s.src[i].act] : i \in Srcs}
      ELSE {},
      IF s.run /\ ~s.stop THEN {[op |-> "stop"]} ELSE {},
      IF s.sig = "none" THEN {[op |-> "signal"]} ELSE {} }

OpEffect(a) ==
    CASE a.op = "add" -> Add(s, a.src)
      [] a.op = "remove" -> Remove(s, a.src)
      [] a.op = "setfd" -> SetFd(s, a.src, a.fd, 1)
      [] a.op = "clearfd" -> ClearFd(s, a.src)
      [] a.op = "close" -> CloseFd(s, a.fd)
      [] a.op = "open" -> s
      [] a.op = "timeout" -> SetTimeout(s, a.src, s.now + a.off)
      [] a.op = "cleartimeout" -> SetTimeout(s, a.src, NoTime)
      [] a.op = "active" -> SetActive(s, a.src, a.b)
      [] a.op = "tick" -> Tick(s, s.now + 1)
      [] a.op = "stop" -> Stop(s)
      [] a.op = "signal" -> Signal(s)

Wait(st) == IF Timed(st) = {} THEN Forever
            ELSE LET X == {st.src[i].x - st.now : i \in Timed(st)} \cup {0}
                     P == {x \in X : x > 0}
                 IN  IF Due(st) # {} THEN 0
                     ELSE CHOOSE x \in P : \A y \in P : x <= y

Regs == {r[1] : r \in Registered(s)}

LoopActs ==
    IF ~s.run THEN {[op |-> "run"]}
    ELSE [op : {"call"}, src : {i \in Srcs : CallError(s, i) = "" /\
                                  (s.src[i].act \/ IsDue(s, i) \/
                                   i \in s.must)}]
         \cup (IF EndError(s) = "" /\ (s.stop \/ s.sig = "seen")
               THEN {[op |-> "end"]} ELSE {})
         \cup (IF PollError(s, Wait(s), Registered(s)) = ""
               THEN [op : {"poll"}, fds : SUBSET Regs] ELSE {})

(* what is still owed: a source loses it when called or changed *)
Touch(h, i) == [h EXCEPT !.rdy = @ \ {i}]

LoopEffect(a) ==
    CASE a.op = "run" -> Run(s)
      [] a.op = "call" -> Called(s, a.src)
      [] a.op = "end" -> End(s)
      [] a.op = "poll" ->
           IF a.fds = {} /\ Wait(s) > 0
           THEN PollRet(Tick(s, s.now + Wait(s)), {}, s.unread > 0)
           ELSE PollRet(s, a.fds, s.unread > 0)

Possible(a) == a.op = "poll" /\ a.fds = {} => Wait(s) # Forever \/
                                             s.sig = "sent"

Init == /\ s = Init0(Srcs) /\ files = Fds /\ left = InitOps /\ in = FALSE
        /\ hist = [rdy |-> {}, act |-> "", src |-> 0, live |-> TRUE]
        /\ Emit => PrintT(<<"I", T!TLCFP(<<Canon(Init0(Srcs)), Fds, InitOps,
                                           FALSE>>)>>)

Do(a, st, fs, l, n) ==
    /\ s' = TLCEval(st) /\ files' = fs /\ left' = l /\ in' = n
    /\ hist' = [act |-> a.op,
                src |-> IF a.op = "call" THEN a.src ELSE 0,
                live |-> IF a.op = "call" THEN a.src \in Live(s) ELSE TRUE,
                rdy |-> CASE a.op = "poll" ->
                               {i \in Live(s) : s.src[i].fd \in a.fds}
                          [] a.op = "call" -> hist.rdy \ {a.src}
                          [] a.op \in {"remove", "setfd", "clearfd"} ->
                               hist.rdy \ {a.src}
                          [] a.op = "close" -> hist.rdy \ Users(a.fd)
                          [] a.op \in {"stop", "run", "end"} -> {}
                          [] OTHER -> hist.rdy]
    /\ Emit => PrintT(<<"E", T!TLCFP(<<Canon(s), files, left, in>>), a,
                        T!TLCFP(<<Canon(s'), files', left', in'>>)>>)

Next ==
    \/ /\ left > 0
       /\ \E a \in OpActs :
             Do(a, OpEffect(a),
                CASE a.op = "close" -> files \ {a.fd}
                  [] a.op = "open" -> files \cup {a.fd}
                  [] OTHER -> files, left - 1, in)
    \/ \E a \in LoopActs :
             /\ Possible(a)
             /\ Do(a, LoopEffect(a), files,
                   IF a.op \in {"call", "end"} THEN MaxOps ELSE 0,
                   a.op = "call")

Spec == Init /\ [][Next]_<<s, files, left, in, hist>>

View == <<Canon(s), files, left, in, hist>>

Inv ==
    /\ hist.live
    /\ s.must \subseteq Live(s) /\ s.due \subseteq Live(s)
    /\ s.wasdue \subseteq Live(s)
    /\ \A i \in hist.rdy : hist.act = "poll" => i \in s.must \/ s.stop
    /\ hist.act = "poll" => ~s.stop /\ s.old \subseteq Due(s)

(* between polls, whatever was ready is called *)
PollOk == [][hist'.act = "poll" =>
                /\ hist.rdy = {} /\ s.old = {}
                /\ Active(s) = {} \/ Due(s) # {}]_hist
=============================================================================

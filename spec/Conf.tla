-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* What a configuration document and a command line mean to the daemon.    *)
(*                                                                         *)
(* A document is a tree of nodes, records with a type t: "map" (m: from    *)
(* keys to nodes), "list" (l), "str" (v; p is what precedes its first      *)
(* colon), "int" and "bool" (v), "null", and anything else.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Levels == [debug |-> 10, info |-> 20, warning |-> 30, error |-> 40,
           critical |-> 50]

Facilities ==
    LET names == <<"kern", "user", "mail", "daemon", "auth", "syslog", "lpr",
                   "news", "uucp", "cron", "authpriv", "ftp", "ntp",
                   "security", "console", "solaris-cron", "local0", "local1",
                   "local2", "local3", "local4", "local5", "local6",
                   "local7">>
    IN  [n \in {names[k] : k \in DOMAIN names} |->
           (CHOOSE k \in DOMAIN names : names[k] = n) - 1]

MinVersion == 2
MaxVersion == 3
MinIdle == 1
DefaultIdle == [min |-> 4, max |-> 30]
Limits == {"clients", "services", "subscriptions"}
TlsAttrs == {"cert", "key", "tc", "crl"}
NoLimit == -1

Absent == [t |-> "absent"]

(* a null is as good as nothing, or an error *)
Get(n, k) == IF k \in DOMAIN n.m /\ n.m[k].t # "null" THEN n.m[k] ELSE Absent
Given(n, k) == Get(n, k).t # "absent"
Default(n, k, d) == IF Given(n, k) THEN Get(n, k).v ELSE d

(* given, but with another type *)
Wrong(n, k, type) == Given(n, k) /\ Get(n, k).t # type

RECURSIVE HasNull(_)
HasNull(n) ==
    CASE n.t = "null" -> TRUE
      [] n.t = "map" -> \E k \in DOMAIN n.m : HasNull(n.m[k])
      [] n.t = "list" -> \E k \in DOMAIN n.l : HasNull(n.l[k])
      [] OTHER -> FALSE

EmptyMap == [t |-> "map", m |-> << >>]
Sub(n, k) == IF Given(n, k) THEN Get(n, k) ELSE EmptyMap

-----------------------------------------------------------------------------
(* Has to be refused *)

BadLog(log) ==
    \/ \E k \in {"console", "syslog"} : Wrong(log, k, "bool")
    \/ \E k \in {"log_file", "syslog_socket", "facility", "filter"} :
          Wrong(log, k, "str")
    \/ \E k \in {"log_file_backup", "log_file_max_size"} :
          Wrong(log, k, "int")
    \/ Given(log, "facility") /\ Get(log, "facility").v \notin
                                     DOMAIN Facilities
    \/ Given(log, "filter") /\ Get(log, "filter").v \notin DOMAIN Levels

BadSocket(n) ==
    CASE n.t = "str" -> FALSE
      [] n.t = "map" ->
           \/ ~Given(n, "addr") \/ Wrong(n, "addr", "str")
           \/ /\ Given(n, "tls")
              /\ \/ Get(n, "addr").p \notin {"tls", "utls"}
                 \/ Wrong(n, "tls", "map")
                 \/ ~(DOMAIN Get(n, "tls").m \subseteq TlsAttrs)
                 \/ \E k \in TlsAttrs : Wrong(Get(n, "tls"), k, "str")
      [] OTHER -> TRUE

VersionMin(d) == Default(Sub(d, "protocol_version"), "min", MinVersion)
VersionMax(d) == Default(Sub(d, "protocol_version"), "max", MaxVersion)

BadVersions(d) ==
    \/ Wrong(d, "protocol_version", "map")
    \/ \E k \in {"min", "max"} : Wrong(Sub(d, "protocol_version"), k, "int")
    \/ VersionMin(d) > VersionMax(d)
    \/ VersionMin(d) < MinVersion
    \/ VersionMax(d) > MaxVersion

(* 'max_idle_time' is another name of 'max' in 'idle' *)
IdleMin(d) == Default(Sub(d, "idle"), "min", DefaultIdle.min)
IdleMax(d) == Default(Sub(d, "idle"), "max",
                      Default(d, "max_idle_time", DefaultIdle.max))

BadIdle(d) ==
    \/ Wrong(d, "idle", "map")
    \/ \E k \in {"min", "max"} : Wrong(Sub(d, "idle"), k, "int")
    \/ Wrong(d, "max_idle_time", "int")
    \/ Given(d, "max_idle_time") /\ Given(Sub(d, "idle"), "max")
    \/ IdleMin(d) < MinIdle
    \/ IdleMin(d) > IdleMax(d)

(* 'addrs' is another name of 'sockets' *)
Sockets(d) == IF Given(d, "sockets") THEN Get(d, "sockets")
              ELSE Get(d, "addrs")

BadDomain(d) ==
    IF d.t # "map" THEN TRUE
    ELSE \/ Wrong(d, "name", "str")
         \/ BadVersions(d)
         \/ BadIdle(d)
         \/ ~Given(d, "sockets") /\ ~Given(d, "addrs")
         \/ Given(d, "sockets") /\ Given(d, "addrs")
         \/ Sockets(d).t # "list"
         \/ \E k \in DOMAIN Sockets(d).l : BadSocket(Sockets(d).l[k])

BadLimits(n) ==
    \E k \in DOMAIN n.m :
       \/ k \notin Limits
       \/ n.m[k].t \notin {"int", "null"}
       \/ n.m[k].t = "int" /\ n.m[k].v < 0

BadResources(n) ==
    \E k \in {"user", "total"} :
       Wrong(n, k, "map") \/ (Given(n, k) /\ BadLimits(Get(n, k)))

Bad(doc) ==
    IF doc.t # "map" THEN doc.t # "null"
    ELSE \/ Wrong(doc, "log", "map")
         \/ BadLog(Sub(doc, "log"))
         \/ Wrong(doc, "domains", "list")
         \/ /\ Given(doc, "domains")
            /\ \E k \in DOMAIN Get(doc, "domains").l :
                  BadDomain(Get(doc, "domains").l[k])
         \/ Wrong(doc, "resources", "map")
         \/ BadResources(Sub(doc, "resources"))

(* May be refused as well: what neither the documentation nor common sense *)
(* settles.  Unknown parameters have no effect, if they are not refused.   *)

Keys(n, known) == ~(DOMAIN n.m \subseteq known)

OddDomain(d) ==
    \/ Keys(d, {"name", "protocol_version", "idle", "max_idle_time",
                "sockets", "addrs"})
    \/ \E k \in {"protocol_version", "idle"} :
          Keys(Sub(d, k), {"min", "max"})
    \/ Sockets(d).l = << >>
    \/ \E k \in DOMAIN Sockets(d).l :
          LET x == Sockets(d).l[k]
          IN  x.t = "map" /\ Keys(x, {"addr", "tls"})

Odd(doc) ==
    \/ doc.t = "null"
    \/ HasNull(doc)
    \/ Keys(doc, {"log", "domains", "resources"})
    \/ Keys(Sub(doc, "log"), {"console", "log_file", "log_file_backup",
                              "log_file_max_size", "syslog", "syslog_socket",
                              "facility", "filter"})
    \/ \E k \in {"log_file_backup", "log_file_max_size"} :
          Default(Sub(doc, "log"), k, 0) < 0
    \/ Keys(Sub(doc, "resources"), {"user", "total"})
    \/ Given(doc, "domains") /\
       \E k \in DOMAIN Get(doc, "domains").l :
          OddDomain(Get(doc, "domains").l[k])

-----------------------------------------------------------------------------
(* The settings *)

LogSettings(log) ==
    [console |-> Default(log, "console", FALSE),
     log_file |-> Default(log, "log_file", ""),
     log_file_backup |-> Default(log, "log_file_backup", 0),
     log_file_max_size |-> Default(log, "log_file_max_size", 1000000),
     syslog |-> Default(log, "syslog", TRUE),
     syslog_socket |-> Default(log, "syslog_socket", "/dev/log"),
     facility |-> Facilities[Default(log, "facility", "daemon")],
     filter |-> Levels[Default(log, "filter", "info")]]

Plain(addr) == [addr |-> addr, tls |-> << >>]

Socket(n) ==
    IF n.t = "str" THEN Plain(n.v)
    ELSE [addr |-> Get(n, "addr").v,
          tls |-> LET x == Sub(n, "tls")
                  IN  [k \in {a \in DOMAIN x.m : Given(x, a)} |-> x.m[k].v]]

Domain(d) ==
    [name |-> Default(d, "name", ""),
     vmin |-> VersionMin(d), vmax |-> VersionMax(d),
     imin |-> IdleMin(d), imax |-> IdleMax(d),
     sockets |-> LET s == Sockets(d).l
                 IN  [k \in DOMAIN s |-> Socket(s[k])]]

(* a domain of the command line *)
BareDomain(addrs) ==
    [name |-> "", vmin |-> MinVersion, vmax |-> MaxVersion,
     imin |-> DefaultIdle.min, imax |-> DefaultIdle.max,
     sockets |-> [k \in DOMAIN addrs |-> Plain(addrs[k])]]

LimitSettings(n) == [k \in Limits |-> Default(n, k, NoLimit)]

Settings(doc) ==
    LET d == IF doc.t = "map" THEN doc ELSE EmptyMap
        r == Sub(d, "resources")
    IN  [log |-> LogSettings(Sub(d, "log")),
         domains |-> IF Given(d, "domains")
                     THEN LET l == Get(d, "domains").l
                          IN  [k \in DOMAIN l |-> Domain(l[k])]
                     ELSE << >>,
         user |-> LimitSettings(Sub(r, "user")),
         total |-> LimitSettings(Sub(r, "total"))]

-----------------------------------------------------------------------------
(* The command line: a sequence of options [o, v] and of addresses *)

BadOption(o) ==
    CASE o.o \in {"-b", "-x"} -> ~o.isint
      [] o.o = "-c" -> ~o.isint \/ o.i < 0
      [] o.o = "-l" -> o.v \notin DOMAIN Levels
      [] o.o = "-y" -> o.v \notin DOMAIN Facilities
      [] o.o \in {"-s", "-n", "-f", "-m", "-o", "-u"} -> FALSE
      [] OTHER -> TRUE

OddOption(o) == o.o \in {"-b", "-x"} /\ o.i < 0

Override(s, o) ==
    CASE o.o = "-s" -> [s EXCEPT !.log.console = TRUE]
      [] o.o = "-o" -> [s EXCEPT !.log.log_file = o.v]
      [] o.o = "-b" -> [s EXCEPT !.log.log_file_backup = o.i]
      [] o.o = "-x" -> [s EXCEPT !.log.log_file_max_size = o.i]
      [] o.o = "-n" -> [s EXCEPT !.log.syslog = FALSE]
      [] o.o = "-u" -> [s EXCEPT !.log.syslog_socket = o.v]
      [] o.o = "-l" -> [s EXCEPT !.log.filter = Levels[o.v]]
      [] o.o = "-y" -> [s EXCEPT !.log.facility = Facilities[o.v]]
      [] o.o = "-c" -> [s EXCEPT !.total["clients"] =
                           IF o.i = 0 THEN NoLimit ELSE o.i]
      [] OTHER -> s

RECURSIVE Overrides(_, _)
Overrides(s, opts) ==
    IF opts = << >> THEN s
    ELSE Overrides(Override(s, Head(opts)), Tail(opts))

CmdDomains(opts, args) ==
    LET ms == SelectSeq(opts, LAMBDA o : o.o = "-m")
    IN  [k \in DOMAIN args |-> BareDomain(<<args[k]>>)] \o
        [k \in DOMAIN ms |-> BareDomain(ms[k].l)]

NoDoc == [t |-> "none"]
Unreadable == [t |-> "unreadable"]

(* c: [doc, opts, args]; doc is the last file that was named, or NoDoc *)
MustRefuse(c) ==
    \/ c.doc = Unreadable
    \/ c.doc.t \notin {"none", "unreadable"} /\ Bad(c.doc)
    \/ \E k \in DOMAIN c.opts : BadOption(c.opts[k])

Result(c) ==
    LET s == Overrides(IF c.doc = NoDoc THEN Settings(EmptyMap)
                       ELSE Settings(c.doc), c.opts)
        ds == CmdDomains(c.opts, c.args)
    IN  IF ds = << >> THEN s ELSE [s EXCEPT !.domains = ds]

MayRefuse(c) ==
    \/ MustRefuse(c)
    \/ Result(c).domains = << >>
    \/ c.doc # NoDoc /\ Odd(c.doc)
    \/ \E k \in DOMAIN c.opts : OddOption(c.opts[k])

MustRun(c) == ~MayRefuse(c)

(* without a domain there is nothing to run *)
MayRun(c) == ~MustRefuse(c) /\ Result(c).domains # << >>

-----------------------------------------------------------------------------
(* What can be seen of the settings *)

Same(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A k \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[k]}) =
                           Cardinality({j \in DOMAIN b : b[j] = a[k]})

SameDomain(a, b) == Same(a.sockets, b.sockets) /\
                    [a EXCEPT !.sockets = << >>] =
                        [b EXCEPT !.sockets = << >>]

RECURSIVE SameDomains(_, _)
SameDomains(a, b) ==
    IF a = << >> THEN b = << >>
    ELSE \E k \in DOMAIN b :
            /\ SameDomain(a[1], b[k])
            /\ SameDomains(Tail(a), SubSeq(b, 1, k - 1) \o
                                    SubSeq(b, k + 1, Len(b)))

XcmAttrs(sock) ==
    LET name == [cert |-> "tls.cert_file", key |-> "tls.key_file",
                 tc |-> "tls.tc_file", crl |-> "tls.crl_file"]
        K == DOMAIN sock.tls
    IN  [a \in {name[k] : k \in K} |->
           sock.tls[CHOOSE k \in K : name[k] = a]]

(* e: [conf, lst: the server sockets, log: the log handlers] *)
Differs(s, e) ==
    CASE e.conf.log # s.log -> "wrong logging parameters"
      [] ~SameDomains(s.domains, e.conf.domains) -> "wrong domains"
      [] e.conf.user # s.user -> "wrong user limits"
      [] e.conf.total # s.total -> "wrong total limits"
      [] ~Same([k \in DOMAIN e.lst |-> e.lst[k].addr],
               LET RECURSIVE All(_)
                   All(ds) == IF ds = << >> THEN << >>
                              ELSE [k \in DOMAIN Head(ds).sockets |->
                                      Head(ds).sockets[k].addr] \o
                                   All(Tail(ds))
               IN  All(s.domains)) -> "wrong server sockets"
      [] \E k \in DOMAIN e.lst :
            ~\E d \in DOMAIN s.domains : \E j \in DOMAIN s.domains[d].sockets :
               LET x == s.domains[d].sockets[j]
               IN  /\ x.addr = e.lst[k].addr
                   /\ e.lst[k].attrs = XcmAttrs(x)
                   /\ e.lst[k].crl = ("crl" \in DOMAIN x.tls)
         -> "wrong attributes of server sockets"
      [] e.log.console # s.log.console -> "console logging"
      [] e.log.syslog # s.log.syslog \/
         (s.log.syslog /\ (e.log.syslog_socket # s.log.syslog_socket \/
                           e.log.facility # s.log.facility))
         -> "system logging"
      [] e.log.filter # s.log.filter -> "level of logging"
      [] e.log.log_file # s.log.log_file \/
         (s.log.log_file # "" /\
            (e.log.log_file_backup # s.log.log_file_backup \/
             e.log.log_file_max_size # s.log.log_file_max_size))
         -> "file logging"
      [] OTHER -> ""

(* why the outcome e of c is wrong *)
Error(c, e) ==
    CASE e.k = "refused" ->
           IF MustRun(c) THEN "valid configuration refused"
           ELSE IF ~e.text THEN "refused without a reason" ELSE ""
      [] e.k = "run" ->
           IF MustRefuse(c) THEN "invalid configuration accepted"
           ELSE IF ~MayRun(c) THEN "runs without domains"
           ELSE Differs(Result(c), e)
      [] OTHER -> "crash"
=============================================================================

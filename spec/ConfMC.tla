------------------------------- MODULE ConfMC -------------------------------
(***************************************************************************)
(* All configurations of small worlds, each of which goes through the      *)
(* combinations of a few parameters.  They are printed, for the real code. *)
(***************************************************************************)
EXTENDS Conf, TLC

CONSTANTS World, Emit

(* TLC cannot have integers and booleans in the same field of the elements *)
(* of a set                                                                *)
RECURSIVE Norm(_)
Norm(n) ==
    CASE n.t = "int" -> [t |-> "int", v |-> n.i]
      [] n.t = "bool" -> [t |-> "bool", v |-> n.b]
      [] n.t = "map" -> [t |-> "map",
                         m |-> [k \in DOMAIN n.m |-> Norm(n.m[k])]]
      [] n.t = "list" -> [t |-> "list",
                          l |-> [k \in DOMAIN n.l |-> Norm(n.l[k])]]
      [] OTHER -> n

Str(v, p) == [t |-> "str", v |-> v, p |-> p]
S(v) == Str(v, v)
I(v) == [t |-> "int", i |-> v]
B(v) == [t |-> "bool", b |-> v]
Null == [t |-> "null"]
Float == [t |-> "float"]
Map(m) == [t |-> "map", m |-> m]
List(l) == [t |-> "list", l |-> l]

(* all maps with some of the keys of choices, and one of their values *)
Maps(choices) ==
    LET K == DOMAIN choices
        All == UNION {choices[k] : k \in K} \cup {Absent}
        F == {f \in [K -> All] : \A k \in K : f[k] \in choices[k] \cup
                                                        {Absent}}
    IN  {Map([k \in {j \in K : f[j] # Absent} |-> f[k]]) : f \in F}

(* without going through all of the above *)
Two(a, A, b, C) ==
    {Map([k \in ({a, b} \ ((IF x = Absent THEN {a} ELSE {}) \cup
                           (IF y = Absent THEN {b} ELSE {}))) |->
            IF k = a THEN x ELSE y]) :
       x \in A \cup {Absent}, y \in C \cup {Absent}}

Addr == Str("ux:a", "ux")
Tls == Str("tls:1", "tls")
Utls == Str("utls:2", "utls")
Socks == List(<<Addr>>)

Doc(key, n) == Map((key :> n))
OneDomain(d) == Doc("domains", List(<<d>>))
With(m, key, n) == Map((key :> n) @@ m.m)

Docs ==
    CASE World = "versions" ->
           {OneDomain(With(m, "sockets", Socks)) :
              m \in Two("protocol_version",
                        Two("min", {I(x) : x \in 0..5} \cup
                                   {S("2"), B(TRUE), Null, Float},
                            "max", {I(x) : x \in 0..5} \cup
                                   {S("3"), B(FALSE), Null, Float}) \cup
                        {Null, I(2), List(<< >>), S("2-3")},
                        "name", {S("d"), I(3)})}
      [] World = "idle" ->
           {OneDomain(With(m, "sockets", Socks)) :
              m \in Two("idle",
                        Two("min", {I(x) : x \in {-1, 0, 1, 4, 5, 29, 30,
                                                  31}} \cup
                                   {S("2"), B(TRUE), Null},
                            "max", {I(x) : x \in {-1, 0, 1, 3, 4, 5, 30,
                                                  31}} \cup
                                   {S("2"), B(TRUE), Null}) \cup
                        {Null, I(2), List(<< >>)},
                        "max_idle_time",
                        {I(x) : x \in {0, 3, 4, 30, 31}} \cup
                        {S("20"), B(TRUE), Null, Float})}
      [] World = "sockets" ->
           {OneDomain(m) :
              m \in Two("sockets",
                        {List(<< >>), List(<<Addr, Tls>>), Null, Addr, I(0),
                         Map(<< >>)} \cup
                        {List(<<x>>) :
                           x \in {I(1), Null, B(TRUE), List(<<Addr>>)} \cup
                                 Two("addr", {Addr, Tls, Utls, I(1), Null},
                                     "tls",
                                     Two("cert", {S("c"), I(1), Null},
                                         "crl", {S("r"), B(TRUE)}) \cup
                                     Two("key", {S("k")}, "tc",
                                         {S("t"), Null}) \cup
                                     {Null, S("c"), Map("ca" :> S("x"))})},
                        "addrs", {List(<<Utls>>), Null, I(1),
                                  List(<<Map("addr" :> Utls)>>)})} \cup
           {Doc("domains", x) : x \in {Null, I(1), Map(<< >>), List(<< >>),
                                       List(<<Null>>), List(<<Addr>>)}} \cup
           {Doc("domains", List(<<Map("sockets" :> Socks),
                                  Map(("addrs" :> List(<<Tls>>)) @@
                                      ("name" :> S("x")) @@
                                      ("idle" :> Map("min" :> I(9)))),
                                  Map("sockets" :> List(<<Utls>>))>>)),
            Null, List(<< >>), S("domains"), Map(<< >>)}
      [] World = "log" ->
           {With(OneDomain(Map("sockets" :> Socks)), "log", n) :
              n \in {Null, B(TRUE), List(<< >>)} \cup
                    Maps([console |-> {B(TRUE), B(FALSE), I(1)},
                          syslog |-> {B(TRUE), B(FALSE), S("no")},
                          filter |-> {S("debug"), S("critical"),
                                      S("warn"), I(10)},
                          facility |-> {S("local5"), S("user"),
                                        S("local9")}]) \cup
                    Maps([log_file |-> {S("@a"), I(1), B(FALSE)},
                          log_file_backup |-> {I(0), I(3), I(-1), S("3"),
                                               B(TRUE)},
                          log_file_max_size |-> {I(0), I(99), Float},
                          syslog_socket |-> {S("/sock/a"), I(1)}])}
      [] World = "limits" ->
           {With(OneDomain(Map("sockets" :> Socks)), "resources", n) :
              n \in {Null, I(1), List(<< >>)} \cup
                    Two("user",
                        Maps([clients |-> {I(0), I(5), I(-1)},
                              services |-> {I(1), Float, Null},
                              subscriptions |-> {I(7), S("7"), B(TRUE)}])
                        \cup {Null, I(3), Map("foo" :> I(1))},
                        "total",
                        Maps([clients |-> {I(0), I(6), B(TRUE)},
                              services |-> {I(8)},
                              subscriptions |-> {I(0)}]) \cup
                        {Null, List(<< >>), Map("client" :> I(1))})}
      [] World = "cmd" ->
           {NoDoc, Map(<< >>),
            With(With(OneDomain(Map(("sockets" :> Socks) @@
                                    ("idle" :> Map("max" :> I(77))))),
                      "log", Map(("console" :> B(TRUE)) @@
                                 ("filter" :> S("error")) @@
                                 ("facility" :> S("user")) @@
                                 ("log_file" :> S("@f")) @@
                                 ("log_file_backup" :> I(2)) @@
                                 ("log_file_max_size" :> I(3)))),
                 "resources", Map(("total" :> Map("clients" :> I(4))) @@
                                  ("user" :> Map("clients" :> I(2)))))}

O(o, v) == [o |-> o, v |-> v, isint |-> FALSE, i |-> 0, l |-> << >>]
N(o, v, i) == [o |-> o, v |-> v, isint |-> TRUE, i |-> i, l |-> << >>]

Opts ==
    {O("-s", ""), O("-n", ""), O("-o", "@o"), O("-u", "/sock/u"),
     N("-b", "7", 7), O("-b", "x"), N("-x", "9", 9), O("-x", "1.0"),
     N("-c", "0", 0), N("-c", "3", 3), N("-c", "-2", -2), O("-c", "z"),
     O("-l", "debug"), O("-l", "nope"), O("-y", "local1"), O("-y", "xx"),
     [O("-m", "ux:m1+ux:m2") EXCEPT !.l = <<"ux:m1", "ux:m2">>],
     [O("-m", "ux:m3") EXCEPT !.l = <<"ux:m3">>], O("-q", "")}

OptSeqs == IF World = "cmd"
           THEN {<< >>} \cup {<<a>> : a \in Opts} \cup
                {<<a, b>> : a, b \in Opts}
           ELSE {<< >>}

Args == IF World = "cmd" THEN {<< >>, <<"ux:p1">>, <<"ux:p1", "ux:p2">>}
        ELSE {<< >>}

VARIABLE x

(* the same address cannot be used twice *)
Unique(o) == ~(Len(o) = 2 /\ o[1] = o[2] /\ o[1].o = "-m")

Init == /\ x \in [doc : Docs, opts : {o \in OptSeqs : Unique(o)},
                  args : Args]
        /\ Emit => PrintT(<<"C", x>>)

Next == FALSE /\ UNCHANGED x

Spec == Init /\ [][Next]_x

c == [x EXCEPT !.doc = Norm(x.doc)]
R == Result(c)
D(k) == Get(c.doc, "domains").l[k]
CmdLine == c.args # << >> \/ \E k \in DOMAIN c.opts : c.opts[k].o = "-m"
Last(o) == CHOOSE k \in DOMAIN c.opts :
              /\ c.opts[k].o = o
              /\ \A j \in DOMAIN c.opts : c.opts[j].o = o => j <= k
HasOpt(o) == \E k \in DOMAIN c.opts : c.opts[k].o = o

Inv ==
    /\ ~(MustRefuse(c) /\ MayRun(c))
    /\ MustRefuse(c) \/ MayRefuse(c) \/ MustRun(c)
    /\ MayRun(c) =>
        \* what is used is always sensible
        /\ \A k \in DOMAIN R.domains :
              LET d == R.domains[k]
              IN  /\ 2 <= d.vmin /\ d.vmin <= d.vmax /\ d.vmax <= 3
                  /\ 1 <= d.imin /\ d.imin <= d.imax
        /\ \A k \in Limits : R.user[k] >= -1 /\ R.total[k] >= -1
        \* what is given is used, what is not has its default
        /\ c.doc # NoDoc /\ c.doc.t = "map" /\ ~CmdLine =>
              /\ Len(R.domains) = Len(Get(c.doc, "domains").l)
              /\ \A k \in DOMAIN R.domains :
                    LET d == D(k)
                        y == R.domains[k]
                    IN  /\ Given(d, "name") => y.name = d.m["name"].v
                        /\ Given(d, "max_idle_time") =>
                             y.imax = d.m["max_idle_time"].v
                        /\ Given(d, "idle") =>
                             /\ Given(d.m["idle"], "max") =>
                                  y.imax = d.m["idle"].m["max"].v
                             /\ Given(d.m["idle"], "min") =>
                                  y.imin = d.m["idle"].m["min"].v
                        /\ ~Given(d, "idle") => y.imin = 4
                        /\ ~Given(d, "idle") /\ ~Given(d, "max_idle_time") =>
                             y.imax = 30
        /\ CmdLine => \A k \in DOMAIN R.domains :
              LET y == R.domains[k]
              IN  y.vmin = 2 /\ y.vmax = 3 /\ y.imin = 4 /\ y.imax = 30
        /\ HasOpt("-n") => ~R.log.syslog
        /\ HasOpt("-s") => R.log.console
        /\ HasOpt("-c") => R.total["clients"] =
              (IF c.opts[Last("-c")].i = 0 THEN -1 ELSE c.opts[Last("-c")].i)
        /\ HasOpt("-b") => R.log.log_file_backup = c.opts[Last("-b")].i
        /\ HasOpt("-o") => R.log.log_file = "@o"
=============================================================================

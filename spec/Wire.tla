-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The message syntax of the Pathfinder protocol, versions 2 and 3.        *)
(*                                                                         *)
(* A message on the wire is described as                                   *)
(*   [obj |-> BOOLEAN, f |-> [field name -> value descriptor]]             *)
(* where obj says whether the bytes are a UTF-8 encoded JSON object at     *)
(* all.  A value descriptor is a record with the JSON type t of the value: *)
(*   "int"   an integer, in the range of a signed 64-bit number and >= 0,  *)
(*           v is the value                                                *)
(*   "num"   another non-negative number                                   *)
(*   "str"   a string, v is the string                                     *)
(*   "props" an object which has lists of strings and integers as values,  *)
(*           v is the (canonical) set of key/value pairs                   *)
(*   "null", "bad"  anything else                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Versions == {2, 3}

MsgTypes == {"request", "accept", "notify", "inform", "complete", "fail"}
ClientTypes == {"request", "inform"}
ServerTypes == MsgTypes \ ClientTypes

Commands(ver) ==
    {"hello", "subscribe", "unsubscribe", "subscriptions", "services",
     "publish", "unpublish", "ping", "clients"}
    \cup (IF ver = 3 THEN {"track"} ELSE {})

SingleResponse == {"hello", "unsubscribe", "publish", "unpublish", "ping"}
MultiResponse == {"subscribe", "subscriptions", "services", "clients"}
TwoWay == {"track"}

FieldType(n) ==
    CASE n \in {"ta-id", "client-id", "service-id", "subscription-id",
                "generation", "ttl", "time", "protocol-version",
                "protocol-minimum-version", "protocol-maximum-version"}
            -> {"int"}
      [] n \in {"orphan-since", "latency", "idle"} -> {"int", "num"}
      [] n = "service-props" -> {"props"}
      [] OTHER -> {"str"}

Common == {"ta-cmd", "ta-id", "msg-type"}

(* required and optional fields, besides the common ones *)
Required(ver, cmd, type) ==
    CASE cmd = "hello" /\ type = "request" ->
            {"client-id", "protocol-minimum-version",
             "protocol-maximum-version"}
      [] cmd = "hello" /\ type = "complete" -> {"protocol-version"}
      [] cmd = "track" /\ type \in {"notify", "inform"} -> {"track-type"}
      [] cmd = "subscribe" /\ type = "request" -> {"subscription-id"}
      [] cmd = "subscribe" /\ type = "notify" -> {"match-type", "service-id"}
      [] cmd = "unsubscribe" /\ type = "request" -> {"subscription-id"}
      [] cmd = "subscriptions" /\ type = "notify" ->
            {"subscription-id", "client-id"}
      [] cmd = "services" /\ type = "notify" ->
            {"service-id", "generation", "service-props", "ttl", "client-id"}
      [] cmd = "publish" /\ type = "request" ->
            {"service-id", "generation", "service-props", "ttl"}
      [] cmd = "unpublish" /\ type = "request" -> {"service-id"}
      [] cmd = "clients" /\ type = "notify" ->
            {"client-id", "client-address", "time"}
            \cup (IF ver = 3 THEN {"idle", "protocol-version"} ELSE {})
      [] OTHER -> {}

Optional(ver, cmd, type) ==
    CASE type = "fail" -> {"fail-reason"}
      [] cmd = "subscribe" /\ type = "request" -> {"filter"}
      [] cmd = "subscribe" /\ type = "notify" ->
            {"generation", "service-props", "ttl", "client-id",
             "orphan-since"}
      [] cmd = "subscriptions" /\ type = "notify" -> {"filter"}
      [] cmd = "services" /\ type = "request" -> {"filter"}
      [] cmd = "services" /\ type = "notify" -> {"orphan-since"}
      [] cmd = "clients" /\ type = "notify" /\ ver = 3 -> {"latency"}
      [] OTHER -> {}

(* Is w a valid message in a session of protocol version ver? *)
ValidMessage(ver, w) ==
    /\ w.obj
    /\ Common \subseteq DOMAIN w.f
    /\ \A n \in DOMAIN w.f : w.f[n].t \in FieldType(n)
    /\ w.f["ta-cmd"].v \in Commands(ver)
    /\ w.f["msg-type"].v \in MsgTypes
    /\ LET cmd == w.f["ta-cmd"].v
           type == w.f["msg-type"].v
           rest == DOMAIN w.f \ Common
       IN  /\ Required(ver, cmd, type) \subseteq rest
           /\ rest \subseteq
                (Required(ver, cmd, type) \cup Optional(ver, cmd, type))

Cmd(w) == w.f["ta-cmd"].v
Type(w) == w.f["msg-type"].v
TaId(w) == w.f["ta-id"].v
Has(w, n) == n \in DOMAIN w.f
Val(w, n) == w.f[n].v
=============================================================================

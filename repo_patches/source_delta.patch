From 68d0fe15b971417eb86ff2d562dae7bb48bc95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 01/30] fix: move a reclaimed orphan to the owner's new
 connection

A client reconnecting and re-publishing its own orphan service left the
service registered at the old, inactive, connection. When the client
disconnected a second time, the service never again became an orphan,
and stayed in the registry forever. In addition, its TTL was not taken
into account for the new connection's max idle time.
---
 paf/sd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paf/sd.py b/paf/sd.py
index 160b393..df8a991 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -594,12 +594,15 @@ class Client:
                         change.orphan_since = None
                         change.client_id = self.client_id
                 elif service.is_orphan():
-                    # previous owner is back
+                    # previous owner is back, on a new connection
+                    self.capture_service(service)
+
                     with service.modify() as change:
                         change.orphan_since = None
 
             elif generation > service.generation():
-                if self.client_id != service.client_id():
+                if self.client_id != service.client_id() or \
+                   service.is_orphan():
                     self.capture_service(service)
 
                 with service.modify() as change:
-- 
2.43.0


From 066c644f0726bad2b6387d106a8460d7772aea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 02/30] fix: forget clients losing their last orphan service

When the last service of a disconnected client was taken over by
another client, the disconnected client was not removed from the
database. Besides being a leak, it made its client id forever reserved
for its user.
---
 paf/sd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paf/sd.py b/paf/sd.py
index df8a991..5808f48 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -691,6 +691,12 @@ class Client:
         victim_connection.remove_service(service)
         self.active_connection.add_service(service)
 
+        if victim_connection.is_stale():
+            victim_client.remove_connection(victim_connection)
+
+        if victim_client.is_stale():
+            self.db.remove_client(victim_client)
+
     def remove_service(self, service):
         connection = self.get_service_connection(service)
         connection.remove_service(service)
-- 
2.43.0


From 603ed33bd24872c02ec0e550edd251c55b9715e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 03/30] fix: reject non-string values in string fields

A non-string value in a field defined as a string (e.g., a filter which
is an integer, or a list as the command or message type) was passed on
unchecked, and terminated the server with a TypeError.
---
 paf/proto.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index eca5883..a412a49 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -56,7 +56,14 @@ class Field:
 
 
 class StringField(Field):
-    pass
+    def pull(self, in_msg, opt=False):
+        value = Field.pull(self, in_msg, opt=opt)
+        if value is None:
+            return None
+        if not isinstance(value, str):
+            raise ProtocolError("Message field %s is not a string" %
+                                self.name)
+        return value
 
 
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
-- 
2.43.0


From 6dffdc4368b975be7854993c529d30c0986f4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 04/30] fix: survive messages which are not JSON objects

A message being valid JSON, but not an object, or JSON nested too
deeply for the JSON decoder, terminated the server.
---
 paf/proto.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index a412a49..03218f3 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -374,6 +374,9 @@ class Message:
         try:
             in_msg = json.loads(in_wire_msg.decode('utf-8'))
 
+            if not isinstance(in_msg, dict):
+                raise ProtocolError("Message is not a JSON object")
+
             cmd = FIELD_TA_CMD.pull(in_msg)
             ta_id = FIELD_TA_ID.pull(in_msg)
             msg_type = FIELD_MSG_TYPE.pull(in_msg)
@@ -403,7 +406,7 @@ class Message:
 
             return Message(ta_type, ta_id, msg_type, args, optargs)
 
-        except ValueError:
+        except (ValueError, RecursionError):
             raise ProtocolError("Error JSON decoding incoming message")
 
     def __init__(self, ta_type, ta_id, msg_type, args, optargs):
-- 
2.43.0


From ba6b2186deb4b57619657191b67175c963a4d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 05/30] fix: do not accept JSON booleans as integers

JSON booleans were accepted in place of integers and numbers, including
integer service property values, and were sent to other clients as
booleans, in violation of the protocol.
---
 paf/proto.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index 03218f3..0a9e46f 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -69,12 +69,17 @@ class StringField(Field):
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
 
 
+# In Python, bool is a subclass of int, but JSON booleans are not numbers
+def is_int(value):
+    return isinstance(value, int) and not isinstance(value, bool)
+
+
 class NonNegativeIntField(Field):
     def pull(self, value, opt=False):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, int):
+        if not is_int(value):
             raise ProtocolError("Message field %s is not an integer" %
                                 self.name)
         if value < 0:
@@ -92,7 +97,7 @@ class NonNegativeNumberField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, (int, float)):
+        if not is_int(value) and not isinstance(value, float):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
         if value < 0:
@@ -119,7 +124,7 @@ class PropsField(Field):
             if not isinstance(values, list):
                 raise ProtocolError("Service property value is not a list")
             for value in values:
-                if not isinstance(value, (str, int)):
+                if not isinstance(value, str) and not is_int(value):
                     raise ProtocolError("Service property value is neither "
                                         "string nor integer")
                 props[key].add(value)
-- 
2.43.0


From d52df35fafb7981c5d44553ab763d3618903b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 06/30] fix: reject infinite and undefined numbers

A number field with the value -Infinity (or a negative number large
enough to be converted to it) terminated the server with an
OverflowError, and NaN was accepted as a non-negative number.
---
 paf/proto.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index 0a9e46f..889824e 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -100,9 +100,10 @@ class NonNegativeNumberField(Field):
         if not is_int(value) and not isinstance(value, float):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
-        if value < 0:
-            raise ProtocolError("Message field %s has a negative "
-                                "value %d" % (self.name, value))
+        # The negated form also catches NaN
+        if not value >= 0:
+            raise ProtocolError("Message field %s has a negative or "
+                                "undefined value %s" % (self.name, value))
         return value
 
 
-- 
2.43.0


From f047092ffb6c6f2c987c53a1a50665cbbbe67948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 07/30] fix: close the connection on unexpected track informs

An unsolicited track reply, or an unknown track type, was meant to
result in the connection being closed, but terminated the server.
---
 paf/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 0f85993..d26a6a1 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -421,16 +421,15 @@ class Connection:
         elif track_type == proto.TRACK_TYPE_REPLY:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
-                                    "track transaction %d", track_type,
-                                    ta.ta_id)
+                                    "track transaction %d" % ta.ta_id)
             self.track_latency = time.time() - self.track_query_ts
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
         else:
             raise ProtocolError("Received unknown track type \"%s\" in "
-                                "track transaction %d", track_type,
-                                ta.ta_id)
+                                "track transaction %d" %
+                                (track_type, ta.ta_id))
 
     def subscribe_request(self, ta, sub_id, filter=None):
         try:
-- 
2.43.0


From d26c6911af2b2e7c7314d5b835fa5681129a9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 08/30] fix: close the connection on misplaced inform messages

An inform message in a transaction which is not a two-way transaction,
or which belongs to another command, terminated the server.
---
 paf/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paf/server.py b/paf/server.py
index d26a6a1..c32e4eb 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -66,6 +66,11 @@ class Transaction:
             raise ProtocolError("Inform message precedes request in "
                                 "transaction %d" % self.ta_id)
 
+        if in_msg.cmd() != self.ta_type.cmd or not self.is_two_way():
+            raise ProtocolError("Received unexpected \"%s\" inform message "
+                                "in \"%s\" transaction %d" %
+                                (in_msg.cmd(), self.ta_type.cmd, self.ta_id))
+
         assert self.state == TransactionState.ACCEPTED
 
     def response(self, msg_type, fields, opt_fields, *args, **optargs):
-- 
2.43.0


From 3dba94fcd9a2b1e9afa4f156cb404d9d9ca64f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 09/30] fix: deny client id changes without terminating

A hello with a client id different from an earlier hello on the same
connection terminated the server, because of a misspelled constant.
---
 paf/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index c32e4eb..3985ba6 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -325,7 +325,7 @@ class Connection:
         elif self.client_id != client_id:
             self.warning("Attempt to change client id denied.",
                          LogCategory.SECURITY)
-            yield ta.fail(fail_reason=proto.FAIL_PERMISSION_DENIED)
+            yield ta.fail(fail_reason=proto.FAIL_REASON_PERMISSION_DENIED)
             return
         elif self.handshaked:
             self.debug("Received hello from client with handshake "
-- 
2.43.0


From 136c83f76a6ab1dab80214312d164b7f4841e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 10/30] fix: let substring filters skip integer values

Matching a substring filter against a service with an integer value for
the key in question terminated the server with a TypeError.
---
 paf/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/filter.py b/paf/filter.py
index 22ae626..ae2a91c 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -331,7 +331,8 @@ class Substring(Filter):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.search(value) is not None:
+                if isinstance(value, str) and \
+                   self.substring_re.search(value) is not None:
                     return True
         return False
 
-- 
2.43.0


From ebe8d10a8dfb0b0dea85f35ffb924a9ad990ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 11/30] fix: match substring filters against values with
 newlines

A newline in a service property value was not matched by '*', and a
trailing one was ignored.
---
 paf/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index ae2a91c..850a9e6 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -323,9 +323,9 @@ class Substring(Filter):
         if final is not None:
             pattern += re.escape(self.final)
 
-        pattern += "$"
+        pattern += "\\Z"
 
-        self.substring_re = re.compile(pattern)
+        self.substring_re = re.compile(pattern, re.DOTALL)
 
     def match(self, service):
         values = service.get(self.key)
-- 
2.43.0


From d3d92445f38859d9cd88414906179bb6452bd550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 12/30] fix: limit the nesting depth of filters

A deeply nested filter expression terminated the server with a
RecursionError, when parsed, matched or printed.
---
 paf/filter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/paf/filter.py b/paf/filter.py
index 850a9e6..7304d69 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -19,6 +19,8 @@ SPECIALS = {
     BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
 }
 
+MAX_DEPTH = 128
+
 
 class ParseError(Exception):
     def __init__(self, state, error_desc):
@@ -30,6 +32,7 @@ class ParseState:
     def __init__(self, data):
         self.data = data
         self.offset = 0
+        self.depth = 0
 
     def consume(self, c):
         self.expect(c)
@@ -202,6 +205,10 @@ def _parse_composite(state, op_class):
 
 
 def _parse(state):
+    state.depth += 1
+    if state.depth > MAX_DEPTH:
+        raise ParseError(state, "Too deeply nested expression")
+
     if state.is_current(AND):
         filter = _parse_composite(state, And)
     elif state.is_current(OR):
@@ -210,6 +217,9 @@ def _parse(state):
         filter = _parse_not(state)
     else:
         filter = _parse_simple(state)
+
+    state.depth -= 1
+
     return filter
 
 
-- 
2.43.0


From a5d1e7304d34279519d8c711253f176d0c4788f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 13/30] fix: match substring filters in linear time

A substring filter with a fair number of asterisks, matched against a
long property value, made the regular expression matching take
practically forever, blocking the server and thus all its clients.
---
 paf/filter.py | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 7304d69..6d66e0b 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,8 +1,6 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
-import re
-
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -321,31 +319,38 @@ class Substring(Filter):
         self.intermediate = intermediate
         self.final = final
 
-        pattern = "^"
-        if initial is not None:
-            pattern += "%s.*" % re.escape(initial)
-        else:
-            pattern += ".*"
-
-        for im in intermediate:
-            pattern += "%s.*" % re.escape(im)
-
-        if final is not None:
-            pattern += re.escape(self.final)
-
-        pattern += "\\Z"
-
-        self.substring_re = re.compile(pattern, re.DOTALL)
-
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if isinstance(value, str) and \
-                   self.substring_re.search(value) is not None:
+                if isinstance(value, str) and self.compare(value):
                     return True
         return False
 
+    # A regular expression is not used, since its backtracking makes the
+    # matching time grow out of hand with the number of substrings.
+    def compare(self, value):
+        start = 0
+        end = len(value)
+
+        if self.initial is not None:
+            if not value.startswith(self.initial):
+                return False
+            start = len(self.initial)
+
+        if self.final is not None:
+            if not value.endswith(self.final):
+                return False
+            end -= len(self.final)
+
+        for im in self.intermediate:
+            idx = value.find(im, start, end)
+            if idx < 0:
+                return False
+            start = idx + len(im)
+
+        return start <= end
+
     def __str__(self):
         s = "%s%s%s" % (BEGIN_EXPR, escape(self.key), EQUAL)
         if self.initial is not None:
-- 
2.43.0


From affe857cde1b73858814aedbe11c686b74093185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 14/30] fix: allow escaped exclamation marks in filters

The filter grammar of the protocol specification has '!' among the
special characters, to be escaped, but its escaped form was refused.
---
 paf/filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 6d66e0b..2e39481 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -17,6 +17,9 @@ SPECIALS = {
     BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
 }
 
+# The NOT operator only has a special meaning first in an expression
+ESCAPABLES = SPECIALS | {NOT}
+
 MAX_DEPTH = 128
 
 
@@ -70,7 +73,7 @@ def _parse_str(state):
         in_c = state.current()
         special = in_c in SPECIALS
         if escaped:
-            if not special:
+            if in_c not in ESCAPABLES:
                 raise ParseError(state, "Escaped character '%s' is not "
                                  "a special character" % in_c)
             out_str += in_c
@@ -238,7 +241,7 @@ def parse(filter_s):
 def escape(in_str):
     out_str = ""
     for in_c in in_str:
-        if in_c in SPECIALS:
+        if in_c in ESCAPABLES:
             out_str += ESCAPE
         out_str += in_c
     return out_str
-- 
2.43.0


From 7e28d946d6dcea5805c2ad0be6189c4e9c7dc998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 15/30] fix: drop connections using somebody else's client id

A connection which never finished the handshake was left open as long
as the client id of its failed hello was known to the server (e.g., as
another, connected, client). Such connections occupied connection slots
without any time limit.
---
 paf/server.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 3985ba6..c740339 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -774,11 +774,9 @@ class Server:
             now = time.time()
             failed = []
             for conn in self.clientless_connections:
-                if conn.client_id is None or \
-                   not self.sd.has_client(conn.client_id):
-                    handshake_time = now - conn.connect_time
-                    if handshake_time > MAX_HANDSHAKE_TIME:
-                        failed.append((conn, handshake_time))
+                handshake_time = now - conn.connect_time
+                if handshake_time > MAX_HANDSHAKE_TIME:
+                    failed.append((conn, handshake_time))
             for conn, handshake_time in failed:
                 self.clean_out_connection(conn, handshake_time)
 
-- 
2.43.0


From 1b49afcc677c57be8f974016bccf2406c887b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 16/30] fix: make it possible to clear a resource limit

'pafd -c 0', meant to remove the limit on the number of clients, failed
with a TypeError.
---
 paf/conf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index dcbc308..1475080 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -136,6 +136,12 @@ class ResourcesClassConf:
     def set_limit(self, name, value):
         if not isinstance(value, int) or value < 0:
             raise FormatError("resource limit", value)
+        self._set(name, value)
+
+    def clear_limit(self, name):
+        self._set(name, None)
+
+    def _set(self, name, value):
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
         elif name == "services":
@@ -145,9 +151,6 @@ class ResourcesClassConf:
         else:
             raise FormatError("resource type", name)
 
-    def clear_limit(self, name):
-        self.set_limit(self, name, None)
-
     def get_client_limit(self):
         return self.resources[sd.ResourceType.CLIENT]
 
-- 
2.43.0


From e01aa8def7071a6a7dc5769db9fb0c31d566cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 17/30] fix: respect max_idle_time in combination with idle.min

The legacy parameter 'max_idle_time' was silently ignored in case the
domain also had an 'idle' dictionary with only 'min' in it.
---
 paf/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 1475080..74a0e48 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -396,7 +396,7 @@ def domains_populate(conf, domains, path):
                 raise DuplicateFieldError(domain_path, "max_idle_time")
 
             idle_max = dict_lookup(idle, "max", int, idle_path,
-                                   default=DEFAULT_IDLE_MAX, required=False)
+                                   default=idle_max, required=False)
 
         idle_limit = sd.IdleLimit(idle_min, idle_max)
 
-- 
2.43.0


From a4477b3febd37c1bca7f6326de7422bb2efe1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 18/30] fix: report failed transactions lacking a fail reason

Formatting the message with an argument it has no place for raised a
TypeError, instead of the intended TransactionError.
---
 paf/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 5948011..3396a39 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -35,8 +35,7 @@ class TransactionError(Error):
         if reason is not None:
             message = "Protocol transaction failed: '%s'." % reason
         else:
-            message = "Protocol transaction failed for unknown reason." % \
-                reason
+            message = "Protocol transaction failed for unknown reason."
         Error.__init__(self, message)
 
 
-- 
2.43.0


From d7184af51c8f546e25afe5f9c14f00d07afdec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 19/30] fix: report why a synchronous ping or hello failed

A fail message carrying a fail reason caused a TypeError in the
callback, instead of a TransactionError.
---
 paf/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 3396a39..09a4557 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -154,10 +154,10 @@ class LatencyCall(Call):
         self.start = time.time()
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.latency = time.time() - self.start
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
@@ -186,10 +186,10 @@ class CompleteCall(Call):
     def __init__(self, conn):
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.complete = args
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
-- 
2.43.0


From be0dce6bc6f5f26be43f5f432e9a6dfcc335fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 20/30] fix: report out-of-range idle limits as configuration
 errors

The ValueError escaped, instead of the error the callers expect.
---
 paf/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 74a0e48..f19dbcd 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -398,7 +398,10 @@ def domains_populate(conf, domains, path):
             idle_max = dict_lookup(idle, "max", int, idle_path,
                                    default=idle_max, required=False)
 
-        idle_limit = sd.IdleLimit(idle_min, idle_max)
+        try:
+            idle_limit = sd.IdleLimit(idle_min, idle_max)
+        except ValueError as e:
+            raise Error("%s: %s" % (domain_path, e))
 
         # 'addrs' is a legacy name for 'sockets'
         sockets = dict_lookup(domain, ["sockets", "addrs"], list, domain_path,
-- 
2.43.0


From e4b87e9d79e5a4149eb4211082cf74ad5878f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 21/30] fix: check the types of all domain configuration
 parameters

Scalars in place of the protocol_version, idle and tls dictionaries, and
non-string socket addresses, caused a TypeError or AttributeError at
best, and went unnoticed at worst, rather than being refused as
configuration errors.
---
 paf/conf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index f19dbcd..643d616 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -366,7 +366,7 @@ def domains_populate(conf, domains, path):
         version_min = proto.MIN_VERSION
         version_max = proto.MAX_VERSION
 
-        version = domain.get("protocol_version")
+        version = dict_lookup(domain, "protocol_version", dict, domain_path)
         if version is not None:
             version_path = "%s.protocol_version" % domain_path
 
@@ -385,7 +385,7 @@ def domains_populate(conf, domains, path):
                                domain_path, default=DEFAULT_IDLE_MAX,
                                required=False)
 
-        idle = domain.get("idle")
+        idle = dict_lookup(domain, "idle", dict, domain_path)
         if idle is not None:
             idle_path = "%s.idle" % domain_path
 
@@ -418,10 +418,12 @@ def domains_populate(conf, domains, path):
                     raise MissingFieldError(socket_path, "addr")
 
                 addr = socket["addr"]
+                assure_type(addr, str, "%s.addr" % socket_path)
 
                 if "tls" in socket:
                     assure_tls_addr("%s.addr" % socket_path, addr)
                     tls_attrs = socket["tls"]
+                    assure_type(tls_attrs, dict, "%s.tls" % socket_path)
                 else:
                     tls_attrs = {}
 
-- 
2.43.0


From dd4d816d4ecbf64a20d95cc86d99c9522883d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 22/30] fix: report malformed configuration files as
 configuration errors

---
 paf/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 643d616..44c3dfd 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -465,6 +465,9 @@ def default():
 def load(conf_file):
     conf = Conf()
     import yaml
-    source = yaml.safe_load(open(conf_file).read())
+    try:
+        source = yaml.safe_load(open(conf_file).read())
+    except (yaml.YAMLError, ValueError) as e:
+        raise Error("malformed configuration file: %s" % e)
     populate(conf, source)
     return conf
-- 
2.43.0


From 18d01ecbd85c2032a0f5a14ad1dcf8a6d28a9d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 23/30] fix: refuse unknown TLS parameters and non-string
 filenames

An unknown parameter made the server terminate on a KeyError, only when
about to bind its sockets.
---
 paf/conf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 44c3dfd..b00d036 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -354,6 +354,17 @@ def assure_tls_addr(field_name, addr):
         raise FormatError(field_name, proto, ["tls", "utls"])
 
 
+TLS_ATTR_NAMES = ['cert', 'key', 'tc', 'crl']
+
+
+def assure_tls_attrs(tls_attrs, tls_path):
+    assure_type(tls_attrs, dict, tls_path)
+    for name, value in tls_attrs.items():
+        if name not in TLS_ATTR_NAMES:
+            raise FormatError("%s parameter" % tls_path, name, TLS_ATTR_NAMES)
+        assure_type(value, str, path(tls_path, name))
+
+
 def domains_populate(conf, domains, path):
     if domains is None:
         return
@@ -423,7 +434,7 @@ def domains_populate(conf, domains, path):
                 if "tls" in socket:
                     assure_tls_addr("%s.addr" % socket_path, addr)
                     tls_attrs = socket["tls"]
-                    assure_type(tls_attrs, dict, "%s.tls" % socket_path)
+                    assure_tls_attrs(tls_attrs, "%s.tls" % socket_path)
                 else:
                     tls_attrs = {}
 
-- 
2.43.0


From 84ad66c50edbd0a2fff69c52ae72a71c96d04e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 24/30] fix: report invalid option values, rather than raising
 an exception

---
 paf/daemon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paf/daemon.py b/paf/daemon.py
index b63376e..7f83308 100644
--- a/paf/daemon.py
+++ b/paf/daemon.py
@@ -158,9 +158,15 @@ def main(argv):
         elif opt == '-u':
             conf.log.set_syslog_socket(optval)
         elif opt == '-l':
-            conf.log.set_filter(optval)
+            try:
+                conf.log.set_filter(optval)
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-y':
-            conf.log.set_facility(optval)
+            try:
+                conf.log.set_facility(optval)
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-c':
             try:
                 clients = int(optval)
@@ -168,8 +174,8 @@ def main(argv):
                     conf.resources.total.clear_limit("clients")
                 else:
                     conf.resources.total.set_limit("clients", clients)
-            except ValueError:
-                early_error("Client limit must be an integer.")
+            except (ValueError, paf.conf.Error):
+                early_error("Client limit must be a non-negative integer.")
         elif opt == '-r':
             hook = optval
         elif opt == '-v':
-- 
2.43.0


From c954f8d338f7c1a73ce8986ca94419aef3a4eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 25/30] fix: do not accept booleans as integer configuration
 parameters

---
 paf/conf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index b00d036..405e880 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -134,7 +134,8 @@ class ResourcesClassConf:
         self.resources = sd.resources(clients=max_clients)
 
     def set_limit(self, name, value):
-        if not isinstance(value, int) or value < 0:
+        if not isinstance(value, int) or isinstance(value, bool) or \
+           value < 0:
             raise FormatError("resource limit", value)
         self._set(name, value)
 
@@ -297,7 +298,9 @@ class Conf:
 
 
 def assure_type(value, value_type, path):
-    if not isinstance(value, value_type):
+    # In Python, bool is a subclass of int
+    if not isinstance(value, value_type) or \
+       (value_type is int and isinstance(value, bool)):
         raise Error("parameter '%s' has invalid value type: '%s' (expected "
                     "'%s')" % (path, type(value), value_type))
 
-- 
2.43.0


From 364b79a1ad98f4ccc5bad30586d2580ae5d67f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 26/30] fix: announce a changed timeout when one of several
 equal timers is removed

Timers with the same handler and expiration time are equal, and
deque.remove() may pick another one than the one given. The remaining
object might then be first without being identical to its handle, in
which case its removal went by without any notification.
---
 paf/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/timer.py b/paf/timer.py
index bbb4696..d8e0e88 100644
--- a/paf/timer.py
+++ b/paf/timer.py
@@ -29,7 +29,7 @@ class TimerManager:
         return new_timer
 
     def remove(self, timer):
-        if timer is self.deque[0]:
+        if timer == self.deque[0]:
             self.deque.popleft()
             self.next_timeout_changed()
         else:
-- 
2.43.0


From b1f1ce2c9c5b07b377870c15a3cbac46ed91b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 27/30] fix: let sources with an already closed descriptor be
 removed from the event loop

epoll.unregister() fails with EBADF for a closed file descriptor (since
Python 3.9), rather than with ENOENT, which is what a descriptor number
already reused results in.
---
 paf/eventloop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 2bcd5d4..707d14a 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
+import errno
 import select
 import time
 import signal
@@ -138,8 +139,11 @@ class EventLoop:
             del self.source_fd[source]
             try:
                 self.epoll.unregister(fd)
-            except FileNotFoundError:
-                pass  # fd is closed, and thus removed from epoll
+            except OSError as e:
+                # fd is closed (and possibly reused), and thus removed
+                # from epoll
+                if e.errno not in (errno.EBADF, errno.ENOENT):
+                    raise
             del self.fd_source[fd]
 
     def changed_timeout(self, source):
-- 
2.43.0


From 191de22e4ceca5bf3ea34b4781179813a9ebab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 28/30] fix: call no timeout handler of a source removed in the
 same round

---
 paf/eventloop.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 707d14a..5f15640 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -185,13 +185,17 @@ class EventLoop:
     def fire_timeouts(self):
         if len(self.source_timeout) > 0:
             now = time.time()
-            active_handlers = []
+            due_sources = []
             for source, timeout in self.source_timeout.items():
                 if now >= timeout:
+                    due_sources.append(source)
+            for source in due_sources:
+                # The source may have been removed, or its timeout
+                # cleared or postponed, by an earlier handler.
+                timeout = self.source_timeout.get(source)
+                if timeout is not None and now >= timeout:
                     handler = self.source_handler[source]
-                    active_handlers.append(handler)
-            for handler in active_handlers:
-                handler()
+                    handler()
 
     def fire_actives(self):
         while len(self.source_active) > 0:
-- 
2.43.0


From 1a4672d9acc4e4ae12d8575b854cc345490d87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 29/30] fix: allow blocking calls from the callback of an open
 transaction

---
 paf/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 09a4557..1b14191 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -471,8 +471,10 @@ class Client:
                 raise ProtocolError("Received message related to unknown "
                                     "transaction %d" % in_msg.ta_id)
             transaction.consume_message(in_msg)
+            # The transaction may already have been terminated and removed
+            # by a blocking call made from its callback
             if transaction.state == TransactionState.TERMINATED:
-                del self.transactions[in_msg.ta_id]
+                self.transactions.pop(in_msg.ta_id, None)
             return True
         except xcm.error as e:
             if e.errno == errno.EAGAIN:
-- 
2.43.0


From 41d21b588ea95a8927fca9c7a406c0f433e1a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 30/30] fix: refuse a fail message in a terminated client
 transaction

---
 paf/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 1b14191..f3e2aea 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -109,7 +109,8 @@ class Transaction:
                 proto.InteractionType.MULTI_RESPONSE))):
             event = EventType.COMPLETE
             self.state = TransactionState.TERMINATED
-        elif msg_type == proto.MSG_TYPE_FAIL:
+        elif (msg_type == proto.MSG_TYPE_FAIL and
+              self.state != TransactionState.TERMINATED):
             event = EventType.FAIL
             self.state = TransactionState.TERMINATED
         else:
-- 
2.43.0


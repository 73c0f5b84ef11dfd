import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=m,where=b) for a,m,b in state]
    if observe: d["anchors"]["observe_at"]=[observe]
    P.append(d)
W="messages crossing the transport socket between server and clients"
p("C01","Subscribers see a complete and ordered mirror of the matching services",
 "From its acceptance until it ends, a subscription receives exactly one notification for every change that concerns it: appeared when a service starts to match the filter, modified when a service that keeps matching changes generation, properties, TTL, owner or orphan status, disappeared when a service stops matching or is removed. Right after the acceptance there is one appeared for every service that already matches; each notification carries the service's data after the change, and they arrive in the order the changes happened. Nothing is lost, repeated, sent to anybody else, or sent after the subscription ended.",
 ["histories","schedules"],"every history of publishes, re-publishes, unpublishes, disconnects, reclaims and expiries by any set of clients, with any subscriptions (with and without filter) made before, between and after",
 "The acceptance tests check a few single-change sequences; a missing or doubled notification shows only for particular combinations of filter transitions, owner changes, orphan events and subscription times.",
 ["paf/sd.py","paf/server.py"],[("Subscription.notify","paf/sd.py"),("ServiceDiscovery.service_changed","paf/sd.py"),("Client.activate_subscription","paf/sd.py"),("Connection.subscription_triggered","paf/server.py")],
 [("DB.services / DB.subscriptions","the registry and who observes it","paf/sd.py")],W)
p("C02","Listings are exact snapshots of the registry",
 "A services, subscriptions or clients listing returns exactly what the server holds at the moment it handles the request, each item once and nothing else. That is: every service matching the given filter (generation, properties, TTL, owner and, only if orphaned, the time it became an orphan), every subscription (id, owner, filter), and every client that has completed its handshake (id, address, connect time and, in protocol version 3, idle time, version, and latency once measured by tracking).",
 ["histories"],"every registry content reachable by any history, listed at any point of it by any client",
 "Tests list small fixed populations; stale, missing or wrong entries depend on the history that led to the listing (takeovers, orphans, reconnects, several connections of one client).",
 ["paf/server.py","paf/sd.py"],[("services_request, subscriptions_request, clients_request","paf/server.py"),("DB","paf/sd.py")],(),W)
p("C03","Generations decide which publish wins",
 "A publish of an already existing service takes effect only if its generation is higher than the current one, or if the generation, properties and TTL are all the same and it makes another client the owner or ends the service's orphan state. A lower generation is refused as old-generation and an equal generation with other properties or TTL as same-generation-but-different; a refused publish, or a mere repetition by the owner, changes nothing and is not seen by any subscriber.",
 ["histories","inputs"],"every sequence of publishes of the same service id by one or several clients, any generations, properties and TTLs, with orphaning and removal in between",
 "The generation rule interacts with ownership, orphan state and concurrent publishers; sampled generation pairs do not cover the product.",
 ["paf/sd.py","paf/server.py"],[("Client.publish","paf/sd.py"),("publish_request","paf/server.py")],[("Service.generation","current generation of a service","paf/sd.py")],W)
p("C04","Losing contact with a client orphans exactly the services it owns",
 "Whenever a client's connection ends, whatever the reason (closed, broken, timed out or a protocol violation), every service that client owned at that time becomes an orphan marked with the disconnect time, and no other service is affected. Orphans stay available to everybody until reclaimed, unpublished or expired, and the client's subscriptions end. This holds however often the client has reconnected and services have changed hands before.",
 ["histories","fault_sequences"],"every history of publishes, takeovers, reclaims, disconnects and reconnects, with connections ending in any way",
 "Bugs hide in second and third disconnects, in services reclaimed by a returning owner, and in takeovers before the disconnect; tests mostly do one disconnect.",
 ["paf/sd.py","paf/server.py"],[("Client.disconnect","paf/sd.py"),("Client.publish, capture_service","paf/sd.py"),("Connection.terminate","paf/server.py")],[("Connection.services","services published over one connection","paf/sd.py"),("Generation.orphan_since","time of disconnect","paf/sd.py")],W)
p("C05","An orphan is removed when its TTL has run out, not before and not much later",
 "An orphan that is neither reclaimed nor unpublished is removed once its TTL has passed since it became an orphan, not before that and no later than when the server next goes idle after it. Reclaiming (also with a higher generation or by another client) or unpublishing it cancels the removal for good, and if the service is orphaned again a new full TTL starts.",
 ["schedules","histories"],"every TTL (including 0 and very large ones), every number of simultaneous orphans and every interleaving of disconnects, reclaims and removals with the passing of time",
 "Timing tests use a few TTLs and real sleeping; wrong timer bookkeeping shows only when several timers are added and cancelled in particular orders.",
 ["paf/sd.py","paf/timer.py","paf/server.py"],[("maintain_orphans, add_orphan_timer, update_orphan_timer","paf/sd.py"),("TimerManager.process","paf/timer.py"),("timer_changed","paf/server.py")],[("orphan_timers","pending removals","paf/sd.py")],W)
p("C06","A service has one owner, and ownership moves completely",
 "When a client successfully publishes a service that another client of the same user owns (live or orphaned), it becomes the sole owner; later disconnects, timeouts or reconnects of the former owner no longer touch the service, and those of the new owner do. When a non-owner of the same user unpublishes a service, it is removed for everybody after the change of owner has been made known; a returning former owner can take the service back by the same rules.",
 ["histories"],"every sequence of publishes, re-publishes and unpublishes of shared service ids by several clients of one user with connections ending at any point",
 "Needs several clients and several connection generations per client; tests cover one hand-over.",
 ["paf/sd.py"],[("Client.capture_service, Client.publish, Client.unpublish, remove_service","paf/sd.py")],[("Connection.services, inactive_connections","which connection holds a service","paf/sd.py")],W)
p("C07","Users are isolated from each other",
 "A client can neither change, take over nor unpublish a service published by another user, nor cancel a subscription of another client, nor connect with a client id that belongs to another user because services published under it still exist. Each such attempt is refused with permission-denied (with client-id-exists, if that client is currently connected) and changes nothing; once a client id has no connection and no services left, any user may use it.",
 ["histories","configurations"],"every mix of users (certificate key ids, IP addresses, local), clients and operations, in every registry state including orphans left behind by former owners",
 "The test-suite needs TLS and several users to get here and tries few states; stale client records left by takeovers are never visited.",
 ["paf/sd.py","paf/server.py"],[("Service.check_access, Subscription.check_access, Client.connect","paf/sd.py"),("determine_user_id","paf/server.py")],[("Client.user_id","user a client id is locked to","paf/sd.py")],W)
p("C08","At most one live connection per client id, and a dead one is found out",
 "While a client id has a live connection, every further handshake with that id is refused with client-id-exists and leaves the existing session intact. Such an attempt also makes the server probe a version 3 session that had not been warned yet: at once, with a track query if the client tracks, and if it stays silent its connection is dropped after half the maximum idle time. As soon as the old connection has ended, for any reason, the id can connect again.",
 ["schedules","fault_sequences"],"every interleaving of handshakes for the same client id over several connections with closes, timeouts and other traffic",
 "A race between client and server noticing a broken connection; tests cannot order those events.",
 ["paf/sd.py","paf/server.py"],[("Client.connect, Connection.check_idle","paf/sd.py"),("hello_request","paf/server.py")],[("DB.clients","connected and stale clients","paf/sd.py")],W)
p("C09","Resource limits are exact and never leak",
 "The number of connected clients, of services and of subscriptions, per user and in total, never exceeds the configured limits, and a request is refused with insufficient-resources, without any other effect, exactly when it would exceed one. What a user holds is released exactly when the object goes away (disconnect, unpublish, expiry, unsubscribe), whichever client removes it, so capacity is neither lost nor gained over any history.",
 ["histories","configurations"],"every combination of limits (none, 0, small) and every history of allocating and releasing operations, including failed ones, takeovers and orphans",
 "A leak or double release is visible only after enough repetitions to hit a limit, along the one path that leaks.",
 ["paf/sd.py","paf/server.py"],[("ResourceManager, Consumer","paf/sd.py"),("Client.connect/disconnect/publish/remove_service/create_subscription/remove_subscription","paf/sd.py")],[("Consumer.used_resources","allocated resources per user","paf/sd.py")],W)
p("C10","Malformed or hostile input hurts only the one who sent it",
 "Whatever bytes a client sends, at any point of a session, the server neither terminates nor hangs. A message that is not a valid protocol message for the connection's version (bad encoding or JSON, wrong structure, unknown command or field, wrong value type or range, unexpected message type) leads to that connection, and no other, being closed, without the message having had any other effect.",
 ["inputs"],"all byte strings, in particular all structural and type variations of every message of both protocol versions, sent in any session state",
 "The space of malformed messages is unbounded, and a single unexpected exception takes down the whole daemon and all domains.",
 ["paf/proto.py","paf/server.py","paf/filter.py"],[("Message.parse and the Field classes","paf/proto.py"),("Connection.activate, process, invoke_handler","paf/server.py")],(),W)
p("C11","Every transaction follows its protocol life cycle",
 "Each request is answered in its own transaction: single-response commands with exactly one complete or fail, multi-response commands with a fail or with accept, then notifications, then complete (for a subscription only once it is unsubscribed), every message carrying the request's transaction id and command. A transaction id may be reused once its transaction ended; a request reusing a live id, or an inform without an accepted transaction of a command that has informs, is a protocol violation that closes the connection.",
 ["histories","inputs"],"every sequence of requests and informs on a connection with any assignment of transaction ids, including reuse, in both protocol versions",
 "Id reuse and overlapping long-lived transactions are left out by the client library, which the tests use.",
 ["paf/server.py","paf/proto.py"],[("Transaction","paf/server.py"),("Connection.process","paf/server.py"),("TransactionType tables","paf/proto.py")],[("Connection.tas","live transactions","paf/server.py")],W)
p("C12","Nothing is served before a handshake, and the best common version is chosen",
 "Until its handshake has succeeded, every request on a connection other than hello is refused with no-hello and has no effect. A handshake selects the highest protocol version that both the client's and the domain's configured range allow and fails with unsupported-protocol-version if there is none; the selected version decides which commands and fields the connection may use (before any selection, those of version 2). Repeating a hello after success is harmless and confirms the version, and a hello that names another client id on the same connection is refused with permission-denied.",
 ["inputs","configurations","histories"],"every pair of client and server version ranges and every sequence of messages before, during and after the handshake",
 "Tests handshake through the client library with its default range; failed and repeated handshakes on one connection are not reached.",
 ["paf/server.py","paf/conf.py","paf/proto.py"],[("hello_request, process","paf/server.py"),("get_highest_allowed","paf/conf.py"),("lookup_type","paf/proto.py")],[("Connection.proto_version, handshaked","session state","paf/server.py")],W)
p("C13","Silent version 3 clients are dropped in time, active ones never",
 "A version 3 client's maximum idle time is the lowest TTL among the services published on its connection, kept within the domain's configured lower and upper bound, or that upper bound if it has none. If nothing is received from it for that long (give or take 5 %, one query round trip excluded) its connection is dropped; it is never dropped earlier, anything received in between starts the time anew, and version 2 clients are never dropped for being idle.",
 ["schedules","configurations"],"every timing of messages, publishes and unpublishes (TTL changes), every pair of bounds, tracked or not, version 2 or 3",
 "Needs control over time; tests sleep in real time for two or three settings.",
 ["paf/sd.py","paf/server.py","paf/timer.py"],[("Connection.active, max_idle_time, install_idle_warning_timer, idle_timer_fired","paf/sd.py"),("IdleLimit","paf/sd.py"),("check_idle, time-out handling","paf/server.py")],[("idle_state, idle_timer","idle supervision","paf/sd.py")],W)
p("C14","Tracking: queries are answered, probes are sent when due, never piling up",
 "A connection has at most one track transaction (another is refused with track-exists), and every query informed by the client is answered by exactly one reply notification. The server sends its own query when a tracking client has been silent for about half (45 to 55 %) of its maximum idle time or its client id is claimed by another connection, and never while an earlier query is unanswered; the client's reply ends that query and provides the latency shown in client listings. An unsolicited reply or an unknown track type closes the connection.",
 ["schedules","histories"],"every sequence of track requests, queries, replies and other traffic with any timing",
 "Needs precise timing and misbehaving clients.",
 ["paf/server.py","paf/sd.py"],[("track_request, track_inform, track_query, check_idle","paf/server.py"),("issue_idle_warning","paf/sd.py")],[("track_ta_id, track_query_ts, track_latency","tracking state","paf/server.py")],W)
p("C15","Delivery survives backpressure: in order, nothing lost, nobody else delayed",
 "Messages to a client are delivered exactly once and in the order they were produced, whatever the pattern in which its transport refuses to accept more. While 128 or more messages wait for a client, the server reads no further request from it and resumes reading when the backlog has shrunk; a client that does not drain its messages delays no other client.",
 ["schedules","fault_sequences"],"every pattern of would-block results on any connection, with backlogs below, at and far above the limits",
 "Real sockets almost never block in tests, and not at chosen messages.",
 ["paf/server.py"],[("try_send, try_receive, receivable, update_source","paf/server.py")],[("out_wire_msgs","messages waiting for a client","paf/server.py")],W)
p("C16","Connections are admitted up to the limit, and must introduce themselves",
 "With a total client limit configured, the server never has more open connections than that, stops accepting when it is reached, and accepts waiting connections again as soon as one ends, on every socket of the domain; failed accepts do no harm. A connection that has not completed a handshake is closed between 2 and about 3 seconds after it was accepted, also if its handshake attempts failed, and no connection that completed it is closed for that reason.",
 ["schedules","fault_sequences"],"every order of connects, accept failures, handshakes and closes relative to time, with any limit",
 "Needs many simultaneous connections and exact timing, accept errors, and several sockets.",
 ["paf/server.py"],[("sock_activate, update_source, conn_terminated","paf/server.py"),("schedule_clean_out, clean_out_connections","paf/server.py")],[("clientless_connections, client_connections","open connections","paf/server.py")],W)
p("C17","Filters mean what their grammar says",
 "A filter string is accepted exactly if it follows the documented grammar (parenthesised comparison, presence, substring, not, and, or; with escapes of special characters and integer operands for greater/less than), up to a nesting depth limit of at least 100. An accepted filter matches a service exactly if the documented meaning holds for its properties, where keys may have several values, each a string or an integer, and any one of them suffices; its printed form is accepted again and means the same.",
 ["inputs"],"all filter strings and all property sets",
 "Unbounded grammar; the unit tests hold a few dozen strings.",
 ["paf/filter.py"],[("parse and the filter classes","paf/filter.py"),("escape","paf/filter.py")],(),"parse() results, match() results and str() of a filter")
p("C18","Timers fire exactly once, in order, on time",
 "The timer manager calls each timer's handler exactly once, when processed at or after its expiration time, never before, never after the timer was removed, and due timers in order of expiration time, also if handlers add or remove other timers. The next expiration time it reports is always the earliest pending one, and every change of it is announced to the owner.",
 ["histories","schedules"],"every sequence of add (absolute or relative, any times including equal ones), remove and process, also from within handlers",
 "Insertion position and cancellation errors need particular sets of pending timers.",
 ["paf/timer.py"],[("TimerManager.add, remove, process, _allocate_idx, next_timeout","paf/timer.py")],[("deque","pending timers in order","paf/timer.py")],"handler calls, next_timeout() and the change callback")
p("C19","The client library pairs every response with its request",
 "Requests leave the client library in the order they were issued, each with a fresh transaction id, also if the transport would block; each response is handed to the callback of its own transaction, in order and once, until the terminal one, and a blocking call returns exactly its result or raises an error carrying the server's fail reason. A message that violates the protocol (unknown transaction, wrong command, wrong type for the transaction's state, malformed) or a lost connection raises the library's error and is never passed on as a response; a tracking client answers every server query.",
 ["histories","inputs","schedules"],"every interleaving of requests, valid and invalid server messages, would-blocks and connection losses",
 "Tests use a correct server over a local socket; misbehaving servers and blocking transports are not reached.",
 ["paf/client.py","paf/proto.py"],[("Client.async_request, process, try_send, try_receive","paf/client.py"),("Transaction.consume_message","paf/client.py"),("Call classes, Tracker","paf/client.py")],[("transactions, out_wire_msgs","open requests and unsent messages","paf/client.py")],"messages on the client's socket, callback invocations, return values and raised errors")
p("C20","Domains are isolated; the sockets of one domain are one",
 "Service domains served by one daemon share nothing visible: services, subscriptions, client ids, users' resources and limits, and connection limits of one domain are unaffected by anything that happens in another. All sockets of one domain lead to the same registry.",
 ["histories","configurations"],"every interleaving of client activity in several domains, each with one or several sockets",
 "Tests rarely run two domains with the same ids and contending limits.",
 ["paf/server.py","paf/daemon.py","paf/sd.py"],[("Server","paf/server.py"),("run","paf/daemon.py"),("ServiceDiscovery","paf/sd.py")],(),W)
p("C21","The event loop dispatches every event to its live source, and only to it",
 "Each ready file descriptor, due timeout and activated source leads to a call of the handler of the source that is registered for it at that time; a removed source is never called for its old descriptor, and descriptors replaced or closed during a dispatch round do no harm. The loop never sleeps past the earliest timeout nor while a source is active, and it stops when told to or on a termination signal.",
 ["schedules","histories"],"every sequence of adding, removing and changing sources (also from within handlers) and every set of simultaneously ready events",
 "Requires descriptor reuse and removal in the middle of a dispatch round.",
 ["paf/eventloop.py"],[("EventLoop.run, handle_fds, fire_timeouts, fire_actives","paf/eventloop.py"),("Source","paf/eventloop.py")],[("fd_source, source_timeout, source_active","registered sources","paf/eventloop.py")],"handler calls and the timeout given to the poll call")
p("C22","Configuration is applied as written or refused",
 "A configuration document yields exactly the settings it describes: every given parameter (domains with their name, sockets, TLS attributes, protocol version and idle bounds under current or legacy names, per-user and total resource limits, logging) takes effect, and every omitted one has its documented default. A document with a missing required, wrongly typed or out-of-range parameter, or with one given under both its current and its legacy name, is refused with a configuration error; command line arguments override the file's settings.",
 ["configurations","inputs"],"every combination of present, absent, legacy-named, wrongly typed and out-of-range parameters",
 "The combinations of optional and legacy parameters are too many for the sampled configuration files.",
 ["paf/conf.py","paf/daemon.py"],[("populate, domains_populate, log_populate, resources_populate, dict_lookup","paf/conf.py"),("main","paf/daemon.py")],(),"the configuration object the daemon is started with, or the error")
p("C23","Shutdown leaves nothing behind",
 "Stopping the server in any state closes every connection, whether handshaked or not, and every server socket exactly once, without error and without sending anything further, and none of their descriptors remains registered in the event loop.",
 ["histories","crash_points"],"a stop after every prefix of every history, with idle, blocked, half-handshaked and many connections",
 "Tests stop the server in one or two states.",
 ["paf/server.py","paf/daemon.py"],[("Server.terminate, close_server_socks","paf/server.py"),("run","paf/daemon.py")],(),"socket close calls and event loop registrations")
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")

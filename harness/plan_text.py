"""Texts for MANIFEST.json"""
KIND = {p: "server" for p in (
    "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C20 "
    "C23").split()}
KIND.update({"C17": "filter", "C18": "timer", "C19": "client", "C21": "loop",
             "C22": "conf"})
TECH = {
    "conf": "TLA+ specification (spec/Conf.tla) of what configurations and "
            "command lines mean, checked with TLC for small worlds (ConfMC) "
            "all of whose configurations the real daemon is started with; "
            "TLC judges (ConfTrace) the settings that resulted, for these "
            "and for random configurations",
    "client": "TLA+ specification (spec/ClientLib.tla) checked with TLC for "
              "small worlds (ClientMC) whose behaviours are replayed into "
              "the real client library; recorded executions of it validated "
              "by TLC against the specification (ClientTrace)",
    "loop": "TLA+ specification (spec/EventLoop.tla) checked with TLC for "
            "small worlds (EventLoopMC) whose behaviours are replayed into "
            "the real event loop; recorded executions of it validated by "
            "TLC against the specification (EventLoopTrace)",
    "filter": "TLA+ specification of the filter language (spec/Filter.tla): "
              "TLC judges what the real parser, matcher and printer did "
              "(FilterTrace), for TLC-generated (FilterMC), exhaustively "
              "enumerated short, random and directed strings",
    "timer": "TLA+ specification (spec/Timer.tla) checked with TLC for a "
             "small world (TimerMC) whose behaviours are replayed into the "
             "real timer manager; recorded executions of it validated by "
             "TLC against the specification (TimerTrace)",
}
NOTE = {
    "conf": "The specification is executable and decides every "
            "configuration tried: all of those of the small worlds, and "
            "random ones. Assumes the stand-ins for XCM and syslog; the YAML "
            "parser is trusted. Conformance is checked on executions, not "
            "proved.",
    "client": "The property holds for all behaviours of the small worlds; "
              "the real client library agrees with the specification on "
              "every history driven through it, with proper, improper and "
              "malformed messages, would-blocks, lost connections and "
              "nested blocking calls. Assumes the stand-in for XCM. "
              "Conformance is checked on executions, not proved.",
    "loop": "The property holds for all behaviours of the small worlds; the "
            "real event loop agrees with the specification on every history "
            "driven through it. Assumes the stand-in for epoll. Conformance "
            "is checked on executions, not proved.",
    "filter": "The specification is executable, and decides every string "
              "and property set tried; all strings up to a length over the "
              "special alphabet are tried, others are sampled. Conformance "
              "is checked on executions, not proved.",
    "timer": "The property holds for all behaviours of the small world; the "
             "real timer manager agrees with the specification on every "
             "history driven through it. Conformance is checked on "
             "executions, not proved.",
}
REASON = {}

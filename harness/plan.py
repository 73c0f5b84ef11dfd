"""What each check does."""

import clientcheck
import confcheck
import core
import filtercheck
import loopcheck
import timercheck

ASSUMPTIONS = {
    "": ["libxcm is not available here: its Python binding paf.xcm is "
         "replaced by a stand-in with the documented semantics, as are epoll "
         "and the clock; everything else of the code runs unmodified",
         "the specification's tolerances: 3/1024 s on time limits, plus "
         "recorded stalls"],
}

# property -> (profiles with their shares, small worlds)
SERVER = {
    "C01": (["C01", "C01", "C04", "C06", "C20"], ["mirror", "owner"]),
    "C02": (["C02", "C02", "C06", "C07"], ["mirror", "life"]),
    "C03": (["C03", "C03", "C06"], ["owner", "mirror"]),
    "C04": (["C04", "C04", "C06", "C10", "C13"], ["owner", "owner2"]),
    "C05": (["C05", "C05", "C04"], ["owner", "owner2"]),
    "C06": (["C06", "C06", "C04", "C07"], ["owner", "owner2"]),
    "C07": (["C07", "C07", "C06", "C08"], ["users", "owner2"]),
    "C08": (["C08", "C08", "C07", "C14"], ["users", "idle"]),
    "C09": (["C09", "C09", "C20"], ["limits", "limits2"]),
    "C10": (["C10", "C10", "C11", "C12"], ["life", "versions"]),
    "C11": (["C11", "C11", "C14", "C15"], ["life", "mirror"]),
    "C12": (["C12", "C12", "C16"], ["admission", "versions"]),
    "C13": (["C13", "C13", "C14", "C08"], ["idle"]),
    "C14": (["C14", "C14", "C13", "C08"], ["idle", "life"]),
    "C15": (["C15"], ["life"]),
    "C16": (["C16", "C16", "C12"], ["admission", "limits"]),
    "C20": (["C20"], ["users"]),
    "C23": (["C23"], ["admission"]),
}

# the share of the systematically changed messages tried
WIRE = {"C10": 1.0, "C12": 0.3}


def server(prop):
    profiles, models = SERVER[prop]

    def run(ctx):
        jobs = []
        for m in models:
            jobs.append((core.job_model, (m, ctx.seed,
                                          ctx.pick(4000, 10 ** 9),
                                          60, ctx.thorough)))
        jobs += core.corpus_jobs({prop} if not ctx.thorough else None)
        if prop in WIRE:
            share = 1.0 if ctx.thorough else WIRE[prop]
            jobs += [(core.job_wire, (ctx.seed, share, k, 8))
                     for k in range(8)]
        total = ctx.pick(1500 if prop != "C15" else 400,
                         40000 if prop != "C15" else 6000)
        for k, p in enumerate(profiles):
            jobs += core.random_jobs(
                p, ctx.seed * 100 + k, total // len(profiles),
                size=ctx.pick(150, 300) if prop != "C15" else 40,
                length=ctx.pick(40, 80 if prop != "C15" else 40))
        core.run_jobs(ctx, jobs, procs=4)
    return run


PLAN = {p: server(p) for p in SERVER}
PLAN["C17"] = filtercheck.check
PLAN["C18"] = timercheck.check
PLAN["C19"] = clientcheck.check
PLAN["C21"] = loopcheck.check
PLAN["C22"] = confcheck.check

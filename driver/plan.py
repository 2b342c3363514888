"""What each property's check runs. `secs` is the search time of the quick tier."""

THOROUGH_FACTOR = 20


def session(secs_t, secs_a, focus=None):
    out = [{"build": "tokio", "scenario": "session", "secs": secs_t}, {"build": "agnostic", "scenario": "session", "secs": secs_a}]
    if focus:
        for p in out:
            p["focus"] = focus
    return out


def direct(*parts):
    return [{"build": b, "scenario": "service", "secs": t} for b, t in zip(("tokio", "agnostic"), parts)]


def generic(*parts):
    return [{"build": b, "scenario": "generic", "secs": t} for b, t in zip(("tokio", "agnostic"), parts)]


def scale(*parts):
    return [{"build": b, "scenario": "scale", "secs": t} for b, t in zip(("tokio", "agnostic"), parts)]


def threads(secs, focus=None):
    p = {"build": "threads", "scenario": "threads", "secs": secs}
    return [dict(p, focus=focus) if focus else p]


PLAN = {
    "C01": session(8, 6) + generic(3, 2) + scale(4, 3),
    "C02": session(8, 6) + generic(3, 2) + scale(4, 3),
    "C03": session(9, 4) + direct(5) + generic(3) + scale(4, 2),
    "C04": session(9, 4) + direct(5) + generic(3) + scale(4),
    "C05": session(9, 4) + generic(3) + scale(4, 2),
    "C06": session(9, 4) + generic(3) + scale(4),
    "C07": session(10, 4) + direct(5) + threads(4) + scale(4),
    "C08": session(9, 4) + direct(5) + scale(2),
    "C09": session(9, 4) + direct(5) + scale(2),
    "C10": session(9, 4) + direct(5) + scale(2),
    "C11": session(9, 4) + direct(5) + threads(4) + scale(3),
    "C12": session(9, 5) + generic(3, 2) + scale(3, 2),
    "C13": session(8, 6) + generic(3, 2),
    "C14": session(9, 4) + direct(5) + threads(4) + generic(2) + scale(5),
    "C15": session(9, 4) + direct(5) + scale(3),
    "C16": session(9, 4) + direct(5) + threads(4),
    "C17": session(9, 4) + direct(5) + threads(4) + generic(2) + scale(4, 2),
    "C18": session(8, 6) + generic(3) + scale(4, 3),
    "C19": threads(20, "C19"),
    "C20": session(9, 5) + generic(3) + scale(4, 2) + [{"build": "tokio", "history": h} for h in ("backlog20", "backlog90", "backlog150")],
    "C21": direct(12, 3) + threads(4),
    "C22": session(10, 4) + direct(5) + threads(4) + scale(4),
    "C24": generic(12, 8),
    "C25": scale(16, 6),
    "C26": session(9, 4) + direct(5, 2) + threads(4),
}

RULE = (
    "One run is one complete seeded session: the seed draws the configuration (workload mix, handler behaviour, "
    "concurrency level, fault kinds), then every message, delivery, poll, handler step and fault. A run counts as "
    "non-trivial when at least two handlers ran and at least two responses arrived; runs are distinct when the "
    "fingerprints of their complete event sequences differ."
)

RULE_GENERIC = (
    "Generic scenario: one run is one complete session of Server with a simulated service and loopback; non-trivial: at "
    "least two calls and two frames written; distinct: different fingerprints of the complete event sequence."
)

RULE_SCALE = (
    "Scale scenario: one run is one complete session in which one dimension is large (message size, session length, handlers "
    "in progress, requests or messages to the client, garbage, ids, refused messages, exchanges over whose course the memory held is measured); non-trivial: at least two handlers "
    "ran and two responses arrived; distinct: different fingerprints of the sequence of bytes moved, handlers started and "
    "frames received."
)

RULE_THREADS = (
    "Thread scenario: one run is one complete execution of 3 to 8 real threads, of which exactly one runs at any time; "
    "the seed draws what each does and, at every atomic operation, futex operation and yield, whether another one runs next. "
    "Non-trivial: at least three messages to the client or resolved calls, and at least two thread switches; distinct: "
    "different sequences of scheduling decisions and events."
)

ASSUME_THREADS = [
    "thread scenario: threads are switched at atomic operations, futexes and yields only (safe code shares memory through nothing else), and memory is sequentially consistent",
    "thread scenario: tokio is not part of it (tower-lsp is built with runtime-agnostic there)",
]

COMPONENTS_GENERIC = {
    "real": ["generic scenario: tower-lsp's Server (transport), codec and JSON-RPC types"],
    "simulated": ["generic scenario: the tower service and the loopback (request stream and response sink)"],
    "stubbed": [],
}

COMPONENTS_THREADS = {
    "real": ["tower-lsp's service, router, layers, client and client socket as built from /repo's working tree; std's locks and channels, futures, dashmap and parking_lot, on real threads"],
    "simulated": ["the operating system's scheduler, futexes (which waiter wakes, spurious wake-ups) and sched_yield", "the language client", "the language server's handlers"],
    "stubbed": ["clock_gettime (constant)", "getrandom (constant)", "sched_getaffinity (one CPU; decides dashmap's number of shards)"],
}

ASSUME = [
    "the simulated client parses and judges what it reads with its own code; serde_json and lsp-types are trusted for building and comparing values",
    "the executor polls a task only when it was woken, or spuriously; real executors do nothing else",
    "handlers follow the documented contract: they do not panic and do not block a thread",
    "seeded search samples executions; a quiet batch is evidence for the explored executions only",
]

COMPONENTS = {
    "real": ["all of tower-lsp as built from /repo's working tree: transport, codec, service, router, layers, client, generated method table",
             "futures, tower, tokio-util, dashmap, serde_json, lsp-types"],
    "simulated": ["task executor and wake-ups", "input and output byte streams", "the language client", "the language server's handlers and background tasks"],
    "stubbed": [],
}

T = "TLA+ specification of %s (TLC: exhaustive design check) + TLC trace validation of recorded executions of the real code"
N = ("The design is exhaustive in small constants; the real code is bound to it by executions of generated scripts (virtual time, exact quiescence) "
     "that TLC decides against the specification. Trusts the harness's recording and TLC.")
D = ("TLA+ specification of distributed nodes (TLC: exhaustive design check) + TLC trace validation of recorded executions of real nodes, "
     "each a process of its own, connected through a proxy that delays, splits, stalls, cuts and refuses")
DN = ("Real processes, sockets and time; a state is compared once all threads of all nodes sleep and no bytes are on their way. What is due may be off by 400 ms. "
      "A rejected execution is repeated four times and must be rejected again. Trusts the harness's recording and TLC.")
CLAIM = {
    "C11": (T % "GenServers on top of the process runtime", N),
    "C12": (T % "GenServers on top of the process runtime", N),
    "C13": (T % "supervisors on top of GenServers and the process runtime", N),
    "C14": (T % "supervisors on top of GenServers and the process runtime", N),
    "C15": (T % "supervisors on top of GenServers and the process runtime", N),
    "C16": (T % "supervisors on top of GenServers and the process runtime", N),
    "C17": (T % "supervisors on top of GenServers and the process runtime", N),
    "C18": (T % "process registries on top of GenServers and the process runtime", N),
    "C19": (T % "process registries on top of GenServers and the process runtime", N),
    **{c: (D, DN) for c in ("C20", "C21", "C22", "C23", "C24")},
    "C25": ("TLA+ specification of the hash ring (TLC: exhaustive design check) + TLC validation of sequential histories and of races on controlled schedules of the real code",
            "The circular order of the keys of a ring is learnt from the first lookups of a trace and must then explain all others. The races are explored at the yield points that the keys and values of the ring offer (reading the keys, cloning the values), "
            "between which an operation runs unobserved. Trusts the harness's recording and TLC."),
    "C26": ("TLA+ specification of an application's run (TLC: exhaustive design check) + TLC trace validation of recorded runs of real processes receiving real signals",
            "Real time: what is due may be late by up to the slack of the specification (8 s), never early. A rejected run is repeated and must be rejected again. Trusts the harness's recording and TLC."),
    "C27": ("TLA+ specification of a websocket connection (TLC: exhaustive design check) + TLC trace validation of recorded executions of real servers over loopback sockets",
            "Real time and the loopback network: a rejection at an event that says that something did not happen in time is repeated and must be seen again. Trusts the harness's recording and TLC."),
    "C28": (T % "the semaphore and tasks", N),
}

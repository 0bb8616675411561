CONC = (" Concurrency: every operation of a thread is split into its critical sections and observable steps; runs of the "
        "real code under a deterministic scheduler (switches at locks, atomics and any instrumented access) must be "
        "linearizable to the specification; TLC searches for the order of the critical sections.")
BASE = ("TLA+ specification checked by TLC; traces recorded from the real code (sanitized builds, virtual clock, scripted "
        "transports) must be behaviours of it, step by step. Trusted: the driver, its scheduler and its projection of "
        "messages, TLC. Bounds: the constants of the models, the scenarios and schedules generated from the seed.")
NOTES = {p: BASE + CONC for p in ("C19", "C22", "C23")}
NA = {}

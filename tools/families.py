"""Which scenarios, models and observations decide each property."""

# Profiles of random scenarios of the client (see gen.DEFAULT).
CHECK = dict(kinds=dict(check=1), n=[1, 2, 3, 5, 10], keys=[2, 3, 4, 6], badsvc=.02, noop=.02, own=.05,
             steps=(15, 50))
REPORT = dict(kinds=dict(report=1), n=[1, 2, 3, 10], keys=[2, 3, 5], badsvc=.02, own=.05, steps=(15, 45), imp=.04)
QUOTA = dict(kinds=dict(quota=1), n=[1, 2, 3, 10], keys=[1, 2, 3, 4], badsvc=.02, noop=.02, own=.05,
             steps=(15, 50))
ALL = dict()


def P(base, **kw):
    d = dict(base)
    d.update(kw)
    return d


def scale(base, **kw):
    """Bigger caches, more identities, longer runs."""
    return P(base, n=[5, 12, 25], keys=[8, 15, 25], steps=(80, 160), adv=.2, tick=.06, **kw)


def hot(base, **kw):
    """Many calls for a single identity."""
    return P(base, n=[1, 2, 10], keys=[1], steps=(60, 120), imp=0, badsvc=0, noop=0, adv=.25, tick=.05, n0=0, **kw)


def many(base, **kw):
    """Big caches and very many identities, expiring at once."""
    return P(base, burst=1, n=[40, 130, 200], keys=[60, 150], steps=(8, 40), adv=.1, tick=.05, n0=0, big=0, timer=1, **kw)


def long(base, **kw):
    """Hundreds of calls of one client."""
    return P(base, steps=(600, 1000), n=[3, 10, 20], keys=[1, 3, 6], adv=.2, tick=.05, n0=0, big=0, **kw)


class Fam:
    """quick/thorough: numbers of scenarios. records: the records that count
    (None: all); an aspect is compared with the property's pattern."""

    def __init__(self, comp, prof=None, quick=200, thorough=3000, records=None, aspects=None):
        self.comp, self.prof, self.quick, self.thorough = comp, prof or {}, quick, thorough
        self.records, self.aspects = records, aspects


MODULE = dict(client="TraceClient", clients="TraceClient", lru="TraceLru", money="TraceValues", dist="TraceValues")

FLOW = r"(missing|extra)\.(send|flush)\.%s"      # what is sent, and when
DONE = r"done\.(calls|status|response)"
DRAIN = r"(missing|extra)\.drain\.%s|drain\.%s"


def flow(k):
    return FLOW % k


def drain(k):
    return DRAIN % (k, k)


def rx(*a):
    return "^(" + "|".join(a) + "|unexplained)$"


AFTER_DESTROY = ("destroy+",)

PROPS = {
    "C01": dict(aspects=rx(flow("check"), DONE, r"request\.check"),
                fams=[Fam("client", CHECK, 500, 6000), Fam("client", scale(CHECK), 60, 800),
                      Fam("client", P(CHECK, errs=.7, ok=.95), 150, 2000),
                      Fam("client", ALL, 100, 1500)]),
    "C02": dict(aspects=rx(flow("check"), DONE, drain("check")),
                fams=[Fam("client", P(CHECK, adv=.7, imp=.02), 400, 6000), Fam("client", scale(CHECK), 60, 800),
                      Fam("client", hot(CHECK), 60, 800),
                      Fam("client", P(CHECK, big=1, adv=.6), 120, 1500)]),
    "C03": dict(aspects=rx(flow("check"), drain("check"), r"(metrics|time|logs|ident|service|via|sendid|request)\.check",
                           r"done\.calls"),
                fams=[Fam("client", CHECK, 400, 6000), Fam("client", P(CHECK, ok=.95, errs=.15, adv=.3), 200, 3000),
                      Fam("client", hot(CHECK, ok=1, errs=.1), 60, 800), Fam("client", scale(CHECK, errs=.15), 60, 800),
                      Fam("client", P(CHECK, inplace=.4), 80, 1000)]),
    "C04": dict(aspects=rx(flow("check"), drain("check"), DONE, r"(request|via|metrics)\.check", r"outstanding\.check"),
                fams=[Fam("client", P(CHECK, imp=.4, badsvc=.12, noop=.1, n0=.35), 600, 8000),
                      Fam("client", P(ALL, imp=.3, badsvc=.1, noop=.1, n0=.3), 150, 2000)]),
    "C05": dict(aspects=rx(flow("check"), DONE, r"request\.check", drain("check")),
                fams=[Fam("client", P(CHECK, ok=.4), 500, 6000), Fam("client", P(CHECK, ok=.3, inplace=.5), 200, 3000),
                      Fam("client", scale(CHECK, ok=.5), 40, 500)]),
    "C06": dict(aspects=rx(flow("report"), drain("report"), r"(metrics|time|logs|ident|service|packing|via|request)\.report"),
                fams=[Fam("client", REPORT, 400, 5000), Fam("client", P(REPORT, ops=[2, 3, 5, 12]), 120, 1500),
                      Fam("client", scale(REPORT), 40, 500), Fam("client", P(REPORT, inplace=.4), 80, 1000),
                      Fam("client", ALL, 80, 1000)]),
    "C07": dict(aspects=rx(flow("report"), drain("report"), DONE, r"(request|via|metrics|packing|logs|ident)\.report"),
                fams=[Fam("client", P(REPORT, imp=.25, n0=.3, badsvc=.12, own=.2, ok=.5), 600, 8000),
                      Fam("client", P(ALL, imp=.3, n0=.3, badsvc=.1), 100, 1500)]),
    "C08": dict(aspects=rx(flow("report"), drain("report"), r"(packing|logs)\.report"),
                fams=[Fam("client", P(REPORT, adv=.6), 250, 4000),
                      Fam("client", P(REPORT, n=[30], keys=[25], ops=[3, 6, 9, 12], steps=(10, 40)), 100, 1500),
                      Fam("client", P(REPORT, logs=[0, 30, 50, 99, 100, 101], ops=[1, 1, 2], keys=[1, 2, 3],
                                      steps=(8, 20)), 80, 1000),
                      Fam("client", P(REPORT, logs=[1, 3, 7], ops=[1, 2, 5], keys=[1, 2], n=[2, 10],
                                      steps=(40, 90), adv=.1, tick=.02), 40, 600),
                      Fam("client", P(REPORT, big=1, adv=.6), 80, 1000)]),
    "C09": dict(aspects=rx(flow("report"), drain("report"), r"(metrics|ident|packing|logs)\.report"),
                fams=[Fam("client", P(REPORT, keys=[3, 5, 8], n=[10, 20], adv=.2, ops=[1, 2, 3]), 500, 6000),
                      Fam("client", hot(REPORT), 40, 600), Fam("client", scale(REPORT), 40, 500)]),
    "C10": dict(aspects=rx(r"(metrics|time|logs)\.(report|check)", drain("report"), drain("check")),
                fams=[Fam("client", P(REPORT, keys=[1, 2], n=[10], adv=.2, ops=[1, 2, 3], kindmap=.15), 500, 6000),
                      Fam("client", P(CHECK, keys=[2, 3], n=[10], ok=1, errs=.1, kindmap=.15), 150, 2000),
                      Fam("client", P(REPORT, logs=[0, 3, 30, 50, 97, 99, 100, 101], ops=[1, 1, 2], keys=[1, 2], steps=(8, 20)), 60, 800),
                      Fam("client", P(CHECK, logs=[0, 3, 30, 97, 100, 101], keys=[1, 2], n=[10], ok=1, errs=.1, steps=(8, 20)), 40, 500),
                      Fam("client", hot(REPORT, kindmap=.2), 40, 600)]),
    "C11": dict(aspects=rx(r"metrics\.(report|check)", drain("report"), drain("check")),
                fams=[Fam("client", P(REPORT, keys=[1, 2], n=[10], adv=.2, ops=[1, 2, 3], kindmap=1), 500, 6000),
                      Fam("client", P(CHECK, keys=[2, 3], n=[10], ok=1, errs=.1, kindmap=1), 200, 2500)]),
    "C12": dict(aspects=rx(flow("quota"), DONE, r"outstanding\.quota", r"request\.quota"),
                fams=[Fam("client", QUOTA, 500, 6000), Fam("client", hot(QUOTA), 60, 800),
                      Fam("client", P(QUOTA, inplace=.5), 150, 2000), Fam("client", P(QUOTA, big=1, adv=.6), 80, 1000),
                      Fam("client", scale(QUOTA), 40, 500)]),
    "C13": dict(aspects=rx(flow("quota"), r"(metrics|ident|service|sendid|request)\.quota"),
                fams=[Fam("client", P(QUOTA, errs=.15), 500, 6000), Fam("client", hot(QUOTA, errs=.15), 80, 1000),
                      Fam("client", P(QUOTA, errs=.15, inplace=.5), 150, 2000), Fam("client", scale(QUOTA), 40, 500)]),
    "C14": dict(aspects=rx(flow("quota"), DONE, r"(mode|metrics|ident)\.quota"),
                fams=[Fam("client", P(QUOTA, errs=.75, ok=.9), 600, 8000), Fam("client", hot(QUOTA, errs=.6), 60, 800)]),
    "C15": dict(aspects=rx(flow("quota"), DONE, r"(mode|metrics|outstanding)\.quota"),
                fams=[Fam("client", P(QUOTA, ok=.35), 450, 6000), Fam("client", P(QUOTA, ok=.4, inplace=.5), 150, 2000),
                      Fam("client", P(QUOTA, n=[1, 2], keys=[4, 5], ok=.6), 150, 2000),
                      Fam("client", P(QUOTA, gt=.5, own=.4), 60, 800)]),
    "C16": dict(aspects=rx(flow("quota"), DONE, r"(mode|metrics|ident|request|outstanding)\.quota"),
                fams=[Fam("client", P(QUOTA, n=[1, 2, 3], keys=[3, 5, 6], adv=.35), 350, 5000),
                      Fam("client", P(QUOTA, adv=.7, keys=[1, 2]), 200, 2500),
                      Fam("client", P(QUOTA, n0=.35, badsvc=.15, noop=.12), 150, 2000),
                      Fam("client", scale(QUOTA), 50, 600)]),
    "C17": dict(aspects=rx(DONE, r"(via|request|outstanding|sendid)\.\w+", r"(missing|extra)\.send\.\w+"),
                fams=[Fam("client", P(ALL, own=.4, sync=.15, then=.3, ok=.6), 500, 6000),
                      Fam("client", P(ALL, own=.3, then=.4, inplace=.6, ok=.6), 250, 3000)]),
    "C18": dict(aspects=rx(r"\w+\.stat"),
                fams=[Fam("client", ALL, 400, 5000), Fam("client", P(ALL, gt=.5, own=.3, n0=.2), 150, 2000),
                      Fam("client", P(ALL, inplace=.5, then=.3, sync=.1), 150, 2000),
                      Fam("client", scale(ALL), 40, 500)]),
    "C19": dict(aspects=rx(r".*"),
                fams=[Fam("client", P(ALL, late=1, fin=.25, adv=.25, tick=.08), 500, 6000, records=AFTER_DESTROY),
                      Fam("client", P(ALL, late=1, then=.4, fin=.2, adv=.2, tick=.05, inplace=.3), 150, 2000,
                          records=AFTER_DESTROY),
                      Fam("client", scale(ALL, late=1, fin=.25), 40, 400, records=AFTER_DESTROY)]),
    "C20": dict(aspects=rx(r"timer", r"stop", r"extra\.start", r"(missing|extra)\.\w+\.\w+", r"\w+\.stat",
                           r"(metrics|packing|logs|ident|service|mode)\.\w+"),
                fams=[Fam("client", P(ALL, tick=.35, adv=.6, timer=1), 400, 5000, records=("new", "tick", "notimer", "destroy")),
                      Fam("client", P(ALL, n0=.4, timer=.85, steps=(3, 10)), 250, 3000,
                          records=("new", "tick", "notimer", "destroy")),
                      Fam("client", P(ALL, tick=.35, adv=.6, timer=1, big=1), 80, 1000,
                          records=("new", "tick", "notimer", "destroy"))]),
    "C21": dict(aspects=rx(DONE, r"(missing|extra)\.\w+\.\w+", r"\w+\.stat", r"drain\.\w+", r"via\.\w+"),
                fams=[Fam("client", P(ALL, gt=.35, own=.35, sync=.1), 500, 6000),
                      Fam("client", P(ALL, gt=.3, own=.85, tick=.25, n=[1, 2], keys=[3, 4]), 250, 3000)]),
    "C23": dict(aspects=rx(DONE),
                fams=[Fam("client", P(ALL, inplace=.6, then=.4, tick=.25, n=[1, 2], delay=.1), 500, 6000),
                      Fam("client", P(QUOTA, inplace=.6, then=.4, tick=.25, n=[1, 2]), 100, 1500)]),
    "C24": dict(aspects=rx(r"result\.(lookup|touch)", r"size", r"entries", r"max", r"content(\.twice)?", r"destroyed"),
                fams=[Fam("lru", dict(noupd=.15), 500, 6000), Fam("lru", dict(keys=12, max=[3, 6, 10], steps=(60, 150), pin=.2), 80, 1000),
                      Fam("lru", dict(pin=0, noupd=0), 150, 2000)]),
    "C25": dict(aspects=rx(r"destroyed", r"pinned", r"deferred\.(size|entries)", r"size", r"entries", r"content(\.twice)?",
                           r"result\.inuse"),
                fams=[Fam("lru", dict(pin=.7), 600, 8000), Fam("lru", dict(pin=.8, keys=2), 150, 2000)]),
    "C26": dict(aspects=rx(r"destroyed", r"result\.(usetime|age|lookup|touch)", r"entries", r"content(\.twice)?"),
                fams=[Fam("lru", dict(modes=["lru", "age", "lru", "age", "inf-lru", "inf-age"], noupd=.4), 600, 8000),
                      Fam("lru", dict(modes=["lru", "age"], keys=10, max=[5, 10, 20], steps=(50, 120)), 80, 1000)]),
    "C27": dict(aspects=rx(r"init\..*", r"add\..*"), fams=[Fam("dist", {}, 900, 12000)]),
    "C28": dict(aspects=rx(r"merge\..*"), fams=[Fam("dist", dict(merge=.45), 900, 12000)]),
    "C29": dict(aspects=rx(r".*"), fams=[Fam("money", {}, 1500, 20000)]),
    "C30": dict(aspects=rx(r"(missing|extra)\.\w+\.\w+", DONE, r"drain\.\w+", r"(packing|ident|metrics)\.\w+"),
                fams=[Fam("client", P(CHECK, keys=[4, 6, 10], n=[20], adv=.1, imp=0), 300, 4000),
                      Fam("client", P(REPORT, keys=[4, 8], n=[20], adv=.1, imp=0), 200, 2500),
                      Fam("client", P(QUOTA, keys=[4, 8], n=[20], adv=.1, imp=0), 200, 2500)]),
}

for _p, _base in dict(C01=CHECK, C02=CHECK, C03=CHECK, C06=REPORT, C08=REPORT, C09=REPORT, C10=REPORT, C12=QUOTA, C13=QUOTA, C14=QUOTA,
                      C16=QUOTA, C18=ALL, C19=P(ALL, late=1)).items():
    PROPS[_p]["fams"].append(Fam("client", many(_base), 12, 200, records=AFTER_DESTROY if _p == "C19" else None))
for _p in ("C24", "C25", "C26"):
    PROPS[_p]["fams"].append(Fam("lru", dict(keys=60, max=[20, 40, 60], steps=(200, 300), pin=.3), 16, 200))
PROPS["C30"]["fams"] += [Fam("client", many(_b), 12, 200) for _b in (CHECK, REPORT, QUOTA)]
for _p, _base in dict(C01=CHECK, C02=CHECK, C03=CHECK, C05=P(CHECK, ok=.5), C06=REPORT, C07=REPORT, C08=REPORT, C09=REPORT,
                      C10=REPORT, C12=QUOTA, C13=QUOTA, C14=P(QUOTA, errs=.6), C15=P(QUOTA, ok=.4), C16=QUOTA, C17=ALL,
                      C18=ALL, C21=P(ALL, own=.3)).items():
    PROPS[_p]["fams"].append(Fam("client", long(_base), 8, 100))

# Several clients at the same time: none may disturb another.
for _p, _base in dict(C01=CHECK, C02=CHECK, C03=P(CHECK, ok=1, errs=.2), C05=P(CHECK, ok=.5), C06=REPORT, C07=P(REPORT, imp=.25),
                      C08=P(REPORT, adv=.6), C09=REPORT, C10=P(REPORT, kindmap=1), C12=QUOTA, C13=P(QUOTA, errs=.15),
                      C14=P(QUOTA, errs=.7), C15=P(QUOTA, ok=.4), C16=P(QUOTA, n=[1, 2, 3], keys=[3, 5]), C17=ALL, C18=ALL,
                      C21=P(ALL, gt=.35, own=.35), C23=P(ALL, inplace=.6, then=.4), C30=P(ALL, imp=0, keys=[4, 6])).items():
    PROPS[_p]["fams"].append(Fam("clients", _base, 40, 500))
PROPS["C19"]["fams"].append(Fam("clients", P(ALL, fin=.25), 60, 700, records=AFTER_DESTROY))

"""Seeded random scenarios for the drivers."""
import fractions
import math
import random

STATUSES = ["UNAVAILABLE", "INTERNAL", "PERMISSION_DENIED", "NOT_FOUND", "CANCELLED",
            "DEADLINE_EXCEEDED", "RESOURCE_EXHAUSTED", "UNKNOWN", "INVALID", "OUT_OF_RANGE", "ABORTED",
            "ALREADY_EXISTS", "FAILED_PRECONDITION", "UNIMPLEMENTED", "DATA_LOSS", "UNAUTHENTICATED",
            "UNAVAILABLE~", "NOT_FOUND~", "INTERNAL~"]


# Names of other services.
OTHERS = ["other", "", "svc2", "sv", "SVC", "svc "]
# Importances other than LOW; numbers are values unknown to this version.
IMPORTANT = ["HIGH", "HIGH", "2", "77"]


def q(s):
    out = '"'
    for ch in s.encode():
        c = chr(ch)
        if c in '"\\' or ch < 32 or ch > 126:
            out += "\\%03o" % ch
        else:
            out += c
    return out + '"'


def num(x8):
    """x8/8 as text."""
    return repr(x8 / 8.0)


class Msg:
    """Random pieces of messages, in text format."""

    def __init__(self, rng):
        self.r = rng
        r = rng
        # Label keys and values are never metric names, so that identities
        # cannot be confused by flattening (see DESIGN.md, known findings).
        self.lkeys = ["a", "b", "key"]
        self.lvals = ["1", "2", "x"]
        self.most = 2
        style = r.random()
        if style < .2:    # empty and odd texts
            self.lkeys = ["a", "b", "key", "k\tz", ""]
            self.lvals = ["1", "2", "", " ", "\u00e9\u4e2d"]
        elif style < .4:  # texts that run into each other
            self.lkeys = ["a", "ab", "b", "ba", "aba"]
            self.lvals = ["a", "b", "ab", ""]
            self.most = 4
        elif style < .5:
            self.lkeys = ["k%d" % i for i in range(6)] + ["a" * 200]
            self.lvals = ["x" * 300, "x" * 301, "v"]
            self.most = 6
        self.metrics = ["m1", "m2", "met/ric.three"] + (["m", "m11"] if r.random() < .3 else [])
        self.kinds = {}
        self.amounts = [0, 1] if r.random() < .2 else [0, 1, 2, 3, 5, 7, 100, -4, 2 ** 31, 2 ** 40 + 1, -2 ** 45, 10 ** 17 + 3]
        self.opids = ["id%d" % i for i in range(r.choice([1000, 1000, 3, 1]))] + [""] * (r.random() < .2)

        # Of these few, so that they meet: also those that 32 bits do not hold.
        self.seconds = [0, 1, 5, 9, 10, 11, 1000, 999999999, -3] + (r.random() < .4) * r.choice([
            [2 ** 31 - 1, 2 ** 31, 3 * 10 ** 9, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 5],
            [253402300799, -62135596800, 10 ** 10, 0, -1, 4 * 10 ** 9]] * 1) * 2
        self.base = None
        if r.random() < .1:  # many labels that mostly agree
            self.base = {"k%02d" % i: r.choice(["v", "1", "x" * 20]) for i in range(r.choice([5, 9, 12, 17, 33, 70]))}
        if r.random() < .1:
            self.metrics = ["mm/%02d" % i for i in range(r.choice([5, 6, 9, 17, 33]))]

    def metric_names(self, ns):
        """Mostly a number of them out of ns, or of very many almost all."""
        r = self.r
        n = r.choice(ns)
        if len(self.metrics) > 5 and r.random() < .4:
            n = len(self.metrics) - r.choice([0, 1, 1, 2])
            return r.sample(self.metrics[:n - 1] + [r.choice(self.metrics[n - 1:])], n)
        return r.sample(self.metrics, n)

    def labels(self, m, field="labels"):
        items = list(m.items())
        self.r.shuffle(items)
        return " ".join("%s { key: %s value: %s }" % (field, q(k), q(v)) for k, v in items)

    def label_map(self):
        r = self.r
        if self.base and r.random() < .6:
            m, k = dict(self.base), r.choice([min, max, r.choice])
            k = k(sorted(m))
            w = r.random()
            if w < .3:
                m[k] = r.choice(["v", "w", "1", ""])
            elif w < .5:
                del m[k]
            elif w < .6:
                m[k + "0"] = m.pop(k)
            return m
        n = self.r.choice([0, 0, 1, 1] + list(range(2, self.most + 1)))
        return {k: self.r.choice(self.lvals) for k in self.r.sample(self.lkeys, min(n, len(self.lkeys)))}

    def ts(self, field):
        r = self.r
        return "%s { seconds: %d nanos: %d }" % (
            field, r.choice(self.seconds), r.choice([0, 0, 1, 2, 500, 999999999]))

    def times(self):
        r, o = self.r, ""
        if r.random() < .6:
            o += " " + self.ts("start_time")
        if r.random() < .6:
            o += " " + self.ts("end_time")
        return o

    def dist(self, opt=None):
        r = self.r
        opt = opt or r.choice(["lin", "lin", "exp", "expl", "lin2"])
        if opt == "lin":
            bounds, txt = [8 * (1 + 2 * i) for i in range(4)], "linear_buckets { num_finite_buckets: 3 width: 2 offset: 1 }"
        elif opt == "lin2":
            bounds, txt = [8 * (1 + 2 * i) for i in range(3)], "linear_buckets { num_finite_buckets: 2 width: 2 offset: 1 }"
        elif opt == "exp":
            bounds, txt = [8 * 2 ** i for i in range(4)], "exponential_buckets { num_finite_buckets: 3 growth_factor: 2 scale: 1 }"
        else:
            bounds, txt = [0, 8, 40], "explicit_buckets { bounds: 0 bounds: 1 bounds: 5 }"
        n = r.choice([0, 1, 1, 2, 3])
        xs = [r.randrange(-40, 140) for _ in range(n)]
        counts = [0] * (len(bounds) + 1)
        for x in xs:
            counts[sum(1 for b in bounds if x >= b)] += 1
        if n == 0 and r.random() < .5:
            counts = counts if r.random() < .5 else []
        vs = [x / 8.0 for x in xs]
        mean = sum(vs) / n if n else 0.0
        ssd = sum((v - mean) ** 2 for v in vs)
        o = "count: %d mean: %r sum_of_squared_deviation: %r " % (n, mean, ssd)
        if n:
            o += "minimum: %r maximum: %r " % (min(vs), max(vs))
        o += " ".join("bucket_counts: %d" % c for c in counts) + " " + txt
        return "distribution_value { %s }" % o

    def value(self, kind):
        r = self.r
        if kind == "int64":
            x = r.choice(self.amounts)
            return "int64_value: %d" % x
        if kind == "double":
            return "double_value: %s" % num(r.choice([0, 1, 4, 8, 11, -20, 8 * 10 ** 6 + 1]))
        if kind == "string":
            return "string_value: %s" % q(r.choice(["s", "t", ""]))
        if kind == "bool":
            return "bool_value: " + r.choice(["true", "false"])
        if kind == "dist":
            return self.dist()
        return ""

    def mv(self, kind, labels):
        return "metric_values { %s %s%s }" % (self.labels(labels), self.value(kind), self.times())

    def mvset(self, name, values, field="metric_value_sets"):
        return "%s { metric_name: %s %s }" % (field, q(name), " ".join(values))

    def kind_of(self, name, mixed=.1):
        """Mostly one value type per metric."""
        if name not in self.kinds:
            self.kinds[name] = self.r.choice(["int64", "int64", "double", "dist", "string", "bool", "none"])
        if self.r.random() < mixed:
            return self.r.choice(["int64", "double", "dist", "string", "none"])
        return self.kinds[name]

    def logs(self, n=None):
        n = self.r.choice([0, 0, 1, 2]) if n is None else n
        return " ".join('log_entries { name: "l%d" severity: INFO text_payload: "p%d" }'
                        % (self.r.randrange(5), self.r.randrange(1000)) for _ in range(n))

    def op(self, name, consumer, labels, sets, imp="LOW", opid=None, logs=None, extra=""):
        r = self.r
        return "operation_id: %s operation_name: %s consumer_id: %s%s%s %s %s %s %s" % (
            q(opid or r.choice(self.opids)), q(name), q(consumer), self.times(),
            "" if imp == "LOW" else " importance: " + imp, self.labels(labels), " ".join(sets),
            self.logs(logs), extra)


# ---------------------------------------------------------------------------
def redistribute(r, texts, labels):
    """Other texts and labels that read the same when put one after the other:
    some of the same words in other places, or cut at other places."""
    words = list(texts)
    for k in sorted(labels):
        words += [k, labels[k]]
    some = [w for w in words if w]
    for _ in range(20):
        if r.random() < .5 and some:     # the words stay, empty ones go elsewhere
            n = len(texts) + 2 * r.choice([len(labels), len(labels), max(0, len(labels) - 1), len(labels) + 1])
            if n < len(some) or n > len(some) + 4:
                continue
            at = sorted(r.sample(range(n), len(some)))
            new = [""] * n
            for i, w in zip(at, some):
                new[i] = w
        else:                            # cut the whole text elsewhere
            s = "".join(words)
            if not 0 < len(s) < 200:
                return None
            cuts = sorted(r.randrange(len(s) + 1) for _ in range(len(words) - 1))
            new = [s[i:j] for i, j in zip([0] + cuts, cuts + [len(s)])]
        ks = new[len(texts)::2]
        if new != words and len(set(ks)) == len(ks) and ks == sorted(ks) and not set(ks) & set(METRICS):
            return new[:len(texts)], dict(zip(ks, new[len(texts) + 1::2]))
    return None


METRICS = ["m1", "m2", "met/ric.three", "m", "m11"]


# ---------------------------------------------------------------------------
class CheckPool:
    """Check identities and requests of them."""

    def __init__(self, m, n):
        self.m = m
        r = m.r
        base = dict(name="op", cons="c", labels={}, sets=[])
        self.ids = [base]
        multi = self.multi = r.random() < .4
        tries = 0
        while len(self.ids) < n and tries < 200:
            tries += 1
            x = dict(self.ids[r.randrange(len(self.ids))])
            what = r.randrange(6)
            if r.random() < .3:
                self.confuse(x)
                what = 7
            if what == 0:
                x["name"] = r.choice(["op", "op2", "", "opc", "o"])
            elif what == 1:
                x["cons"] = r.choice(["c", "c2", "", "pc", "project:1"])
            elif what == 2:
                x["labels"] = m.label_map()
            elif what < 7:
                sets = []
                for name in m.metric_names([0, 1, 1, 2]):
                    if multi:
                        ls = sorted(({r.choice(m.lkeys[:2]): r.choice(m.lvals[:2])} for _ in range(r.choice([1, 2]))),
                                    key=lambda d: sorted(d.items()))
                    else:
                        ls = [m.label_map()]
                        if r.random() < .3:
                            ls.append({})
                    sets.append((name, ls))
                if multi and sets and r.random() < .3:
                    sets.append((sets[0][0], [{"a": r.choice(m.lvals[:2])}]))
                x["sets"] = sets
            if x not in self.ids:
                self.ids.append(x)

    def confuse(self, x):
        """Makes an identity that differs in where its texts are."""
        r = self.m.r
        sets = [(n, [dict(l) for l in ls]) for n, ls in x["sets"]]
        w = r.random()
        if sets and w < .4:
            n, ls = r.choice(sets)
            j = r.randrange(len(ls)) if ls else -1
            # (Values of a metric may not exchange labels among themselves: the
            # signature does not tell where one ends; see known-findings.txt.)
            one = len(ls) == 1 and not self.multi
            if w < .15 and j >= 0:    # labels of the operation and of a value
                if one or len(ls[j]) == len(x["labels"]):
                    ls[j], x["labels"] = x["labels"], ls[j]
            elif j >= 0:
                new = redistribute(r, [], ls[j])
                if new and (one or len(new[1]) == len(ls[j])):
                    ls[j] = new[1]
            x["sets"] = sets
        else:
            new = redistribute(r, [x["name"], x["cons"]], x["labels"]) if w < .8 else \
                redistribute(r, [], x["labels"])
            if new and len(new[0]) == 2:
                (x["name"], x["cons"]), x["labels"] = new
            elif new:
                x["labels"] = new[1]

    def request(self, i, svc="svc", imp="LOW", hasop=True, logs=None):
        x, m, r = self.ids[i], self.m, self.m.r
        if not hasop:
            return "service_name: %s" % q(svc)
        sets = [m.mvset(n, [m.mv(m.kind_of(n), l) for l in ls]) for n, ls in x["sets"]]
        # Sets of different metrics in any order; of the same metric in order.
        if len({n for n, _ in x["sets"]}) == len(sets):
            r.shuffle(sets)
        extra = ' service_config_id: "zz"' if r.random() < .2 else ""
        return "service_name: %s operation { %s }%s" % (
            q(svc), m.op(x["name"], x["cons"], x["labels"], sets, imp, logs=logs), extra)


def check_resp(rng, errs=None):
    errs = rng.random() < .4 if errs is None else errs
    o = 'operation_id: "r%d"' % rng.randrange(100)
    if rng.random() < .3:
        o += " check_info { consumer_info { project_number: %d } }" % rng.randrange(1, 100)
    if rng.random() < .2:
        o += ' service_config_id: "2016-09-19r0"'
    if errs and rng.random() < .1:
        return rng.choice([o, ""]) + " check_errors { }"
    if errs:
        for _ in range(rng.choice([1, 1, 2])):
            o += ' check_errors { code: %s detail: "d%d" }' % (
                rng.choice(["ABUSER_DETECTED", "SERVICE_NOT_ACTIVATED", "BILLING_DISABLED", "NOT_FOUND", "4242"]), rng.randrange(10))
    return o


class ReportPool:
    def __init__(self, m, n):
        self.m = m
        r = m.r
        self.ids = [("op", "c", {})]
        tries = 0
        while len(self.ids) < n and tries < 300:
            tries += 1
            x = list(self.ids[r.randrange(len(self.ids))])
            w = r.randrange(4)
            if r.random() < .3:
                new = redistribute(r, x[:2], x[2]) if r.random() < .6 else redistribute(r, [], x[2])
                if new:
                    x = (new[0] or x[:2]) + [new[1]]
            elif w == 0:
                x[0] = r.choice(["op", "op2", "", "o", "opc"] + ["n%d" % r.randrange(40)] * 2)
            elif w == 1:
                x[1] = r.choice(["c", "c2", "", "pc", "project:9"] + ["u%d" % r.randrange(40)] * 2)
            else:
                x[2] = m.label_map()
            if tuple(x) not in self.ids:
                self.ids.append(tuple(x))

    def op(self, i, imp="LOW", logs=None):
        m, r = self.m, self.m.r
        name, cons, labels = self.ids[i]
        sets = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            n = r.choice(m.metrics)
            sets.append(m.mvset(n, [m.mv(m.kind_of(n), m.label_map()) for _ in range(r.choice([0, 1, 1, 2]))]))
        return m.op(name, cons, labels, sets, imp, logs=logs)

    def request(self, idx, svc="svc", imps=None, logs=None):
        ops = ["operations { %s }" % self.op(i, (imps or {}).get(j, "LOW"), logs)
               for j, i in enumerate(idx)]
        extra = ' service_config_id: "zz"' if self.m.r.random() < .2 else ""
        return "service_name: %s %s%s" % (q(svc), " ".join(ops), extra)


class QuotaPool:
    def __init__(self, m, n):
        self.m = m
        r = m.r
        self.ids = [("meth", "c", ("m1",))]
        tries = 0
        while len(self.ids) < n and tries < 300:
            tries += 1
            x = list(self.ids[r.randrange(len(self.ids))])
            w = r.randrange(3)
            if r.random() < .2:
                new = redistribute(r, x[:2], {})
                if new:
                    x[:2] = new[0]
            elif w == 0:
                x[0] = r.choice(["meth", "meth2", "", "m", "methc"] + ["h%d" % r.randrange(30)] * 2)
            elif w == 1:
                x[1] = r.choice(["c", "c2", "", "ethc"] + ["u%d" % r.randrange(30)] * 2)
            else:
                x[2] = tuple(sorted(m.metric_names([0, 1, 1, 2, 3])))
            if tuple(x) not in self.ids:
                self.ids.append(tuple(x))

    def request(self, i, svc="svc", hasop=True, mode=None):
        m, r = self.m, self.m.r
        if not hasop:
            return "service_name: %s" % q(svc)
        meth, cons, names = self.ids[i]
        names = list(names)
        if names and r.random() < .15:
            names.append(r.choice(names))  # one metric in two sets
        r.shuffle(names)
        kind = "int64" if r.random() < .9 else r.choice(["double", "none", "string"])
        sets = [m.mvset(n, [m.mv(kind, m.label_map())], "quota_metrics") for n in names]
        mode = mode or r.choice(["NORMAL", "BEST_EFFORT", "BEST_EFFORT", "CHECK_ONLY", "UNSPECIFIED", "66"])
        extra = ' service_config_id: "zz"' if r.random() < .2 else ""
        return "service_name: %s allocate_operation { operation_id: %s method_name: %s consumer_id: %s quota_mode: %s %s %s }%s" % (
            q(svc), q(r.choice(m.opids)), q(meth), q(cons), mode, m.labels(m.label_map()), " ".join(sets), extra)


def quota_resp(rng, errs=None):
    errs = rng.random() < .4 if errs is None else errs
    o = 'operation_id: "r%d"' % rng.randrange(100)
    if rng.random() < .3:
        o += ' service_config_id: "2016-09-19r0"'
    if errs and rng.random() < .1:
        return rng.choice([o, ""]) + " allocate_errors { }"
    if not errs and rng.random() < .1:
        return ""
    if errs:
        for _ in range(rng.choice([1, 1, 2])):
            o += ' allocate_errors { code: %s subject: "s%d" }' % (
                rng.choice(["RESOURCE_EXHAUSTED", "BILLING_NOT_ACTIVE", "PROJECT_DELETED", "UNSPECIFIED", "4242"]), rng.randrange(10))
    return o


# ---------------------------------------------------------------------------
def exact(ms):
    """The implementation's time outs are computed through a double number of
    seconds; for these the result is exact to the microsecond."""
    return int(ms / 1000.0 * 1e6) == ms * 1000


def pick(r, values):
    return r.choice([v for v in values if exact(v)])


DEFAULT = dict(
    kinds=dict(check=1, quota=1, report=1),  # weights of the calls
    n=[1, 2, 3, 10], n0=.04,                 # cache sizes, chance of a disabled cache
    keys=[2, 3, 4],
    steps=(12, 40),
    imp=.06, badsvc=.03, noop=.03, own=.1, sync=.05, then=.1,
    fin=.5, ok=.8, errs=.35,                 # completions
    inplace=.15, delay=.3,
    adv=.45, tick=.15,
    gt=.93, timer=.9,                        # chance of each default transport, of a timer
    late=.5,                                 # chance of a tail after the destruction
    logs=None, ops=[0, 1, 1, 2, 3],
    kindmap=.5,
    big=.06,                                 # chance of intervals of hours
)

TIME_LIMIT = 2000000000  # what TLC's integers can hold, in units


def client(rng, prof=None):
    """A random scenario of the whole client."""
    p = dict(DEFAULT)
    p.update(prof or {})
    r = rng
    m = Msg(r)
    L = []
    flush = r.choice([0, 1, 100, 999, 2000, 2000, 5000])
    exp = pick(r, [0, 1, flush, flush + 1, 2 * flush + 5, 10 * flush + 7, 3000])
    qref = r.choice([1, 100, 1000, 1000, 0 if r.random() < .2 else 2000])
    qexp = r.choice([0, qref // 2, qref, qref + 1, 3 * qref + 2, 60000])
    rfl = r.choice([0 if r.random() < .2 else 1, 100, 1000, 3000])
    unit = 1
    if r.random() < p["big"]:
        unit = 1000
        L.append("unit 1000")
        hours = [2200000, 3600000, 7200000, 4300000, 90000000]
        flush = pick(r, hours + [0])
        exp = pick(r, [flush, flush + 1000, 2 * flush, 3 * flush, 4400000])
        qref, rfl = pick(r, hours), pick(r, hours)
        qexp = pick(r, [qref // 2, qref, 2 * qref, 3 * qref])

    def size():
        return r.choice([0, -1]) if r.random() < p["n0"] else r.choice(p["n"])
    nc, nq, nr = size(), size(), size()
    if r.random() < .15:
        L.append("svc svc")
    L.append("chk %d %d %d" % (nc, flush, exp))
    L.append("quo %d %d %d" % (nq, qref, qexp))
    L.append("rep %d %d" % (nr, rfl))
    if r.random() < p["kindmap"]:
        for n in m.metrics:
            if r.random() < .6:
                L.append("kind %s %s" % (n, r.choice(["GAUGE", "CUMULATIVE", "DELTA"])))
    gt = [k for k in ("check", "quota", "report") if r.random() < p["gt"]]
    L.append(" ".join(["gt"] + gt))
    L.append("timer %d" % (r.random() < p["timer"]))
    # requests
    cp = CheckPool(m, r.choice(p["keys"]))
    qp = QuotaPool(m, r.choice(p["keys"]))
    rp = ReportPool(m, r.choice(p["keys"]))
    nresp = 4
    for i in range(nresp):
        L.append("def cresp c%d | %s" % (i, check_resp(r, i % 2 == 1)))
        L.append("def qresp q%d | %s" % (i, quota_resp(r, i % 2 == 1)))
        L.append("def rresp r%d | %s" % (i, '' if i else 'report_errors { operation_id: "x" }'))
    kinds = list(p["kinds"])
    weights = [p["kinds"][k] for k in kinds]
    steps = r.randrange(*p["steps"])
    ncalls = [0]
    decls = []

    def new_request(kind, i=None):
        svc = r.choice(OTHERS) if r.random() < p["badsvc"] else "svc"
        name = "%s%d" % (kind[0], len(decls))
        if i is not None:
            t = (cp if kind == "check" else qp).request(i) if kind != "report" else rp.request([i])
        elif kind == "check":
            t = cp.request(r.randrange(len(cp.ids)), svc, r.choice(IMPORTANT) if r.random() < p["imp"] else "LOW",
                           r.random() >= p["noop"], r.choice(p["logs"]) if p["logs"] else None)
        elif kind == "quota":
            t = qp.request(r.randrange(len(qp.ids)), svc, r.random() >= p["noop"])
        else:
            n = r.choice(p["ops"])
            idx = [r.randrange(len(rp.ids)) for _ in range(n)]
            imps = {j: r.choice(IMPORTANT) for j in range(n) if r.random() < p["imp"]}
            t = rp.request(idx, svc, imps, r.choice(p["logs"]) if p["logs"] else None)
        L2.append("def %s %s | %s" % (kind, name, t))
        return name

    def new_call(depth=0, kind=None):
        kind = kind or r.choices(kinds, weights)[0]
        own = r.random() < p["own"]
        then = new_call(depth + 1) if r.random() < p["then"] and depth < 3 else 0
        name = new_request(kind)
        ncalls[0] += 1
        n = ncalls[0]
        decls.append(n)
        L2.append("decl %d %s %s %d 0 %d" % (n, kind, name, own, then))
        return n

    def resp(kind):
        if r.random() < .2:
            return "-"
        pre = dict(check="c", quota="q", report="r")[kind]
        if r.random() < p["errs"]:
            return pre + r.choice("13")
        return pre + r.choice("02")

    def status():
        return "OK" if r.random() < p["ok"] else r.choice(STATUSES)

    def plan(kind, nodelay=False):
        mode = r.random()
        if mode > p["inplace"] * 2:
            return "plan %s" % kind
        items = []
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < .3:
                items.append("store:0:OK:-")
            else:
                d = r.choice([unit, 1000, 500000, 2000000]) if r.random() < p["delay"] and not nodelay else 0
                items.append("inplace:%d:%s:%s" % (d, status(), resp(kind)))
        if r.random() < .3:
            items[-1] = "*" + items[-1]
        return "plan %s %s" % (kind, " ".join(items))

    def burst(k):
        """Every identity twice, then a pause and a tick."""
        L2.append("plan %s%s" % (k, "" if k == "report" else " *inplace:0:OK:" + r.choice([k[0] + "0", "-"])))
        for _ in range(2):
            ids = list(range(len(dict(check=cp, quota=qp, report=rp)[k].ids)))
            r.shuffle(ids)
            for i in ids:
                name = new_request(k, i)
                ncalls[0] += 1
                decls.append(ncalls[0])
                L2.append("decl %d %s %s 0 0 0" % (ncalls[0], k, name))
                L2.append("call %d" % ncalls[0])
            if r.random() < .5:
                L2.append("adv %d" % r.choice(ms))
        L2.append("plan %s" % k)
        if r.random() < .8:
            L2.append("adv %d" % (r.choice([max(ms), 2 * max(ms), qref * 1000, flush * 1000, rfl * 1000]) + unit))
            L2.append("tick")

    def nodelays():
        for k in kinds:
            if delays.get(k):
                L2.append(plan(k, True))
                delays[k] = False

    ms = [flush * 1000, (exp if exp > flush else flush + 1) * 1000, qref * 1000, qexp * 1000, rfl * 1000]
    delays = {}
    total = [0]
    L2 = ["new"]
    for step in range(steps):
        if p.get("burst") and step == steps // 2:
            burst(r.choice(kinds))
        x = r.random()
        if r.random() < p["adv"]:
            b = r.choice(ms)
            d = max(0, r.choice([b, b - unit, b + unit, b // 2 // unit * unit, unit, b - 1000, b + 1000, 2 * b + unit]))
            total[0] += d
            if total[0] < TIME_LIMIT * unit:
                L2.append("adv %d" % d)
        if r.random() < p["inplace"]:
            k = r.choice(kinds)
            s = plan(k)
            delays[k] = any(y.split(":")[1] != "0" for y in s.split()[2:])
            L2.append(s)
        if x < p["tick"]:
            nodelays()
            L2.append("tick")
        elif x < p["tick"] + (1 - p["tick"]) * p["fin"] * .6:
            k = r.choices(kinds, weights)[0]
            L2.append("fin %s %d %s %s" % (k, r.choice([0, 0, 0, 1, 2]), status(), resp(k)))
        elif r.random() < p["sync"]:
            # a blocking call: its transport must complete
            k = r.choices(kinds, weights)[0]
            name = new_request(k)
            ncalls[0] += 1
            then = 0
            L2.append("decl %d %s %s 0 1 %d" % (ncalls[0], k, name, then))
            L2.append("plan %s *inplace:0:%s:%s" % (k, status(), resp(k)))
            L2.append("call %d" % ncalls[0])
            L2.append("plan %s" % k)
            delays[k] = False
        elif decls and r.random() < .15:
            L2.append("call %d" % r.choice(decls))
        else:
            L2.append("call %d" % new_call())
    nodelays()
    L2.append("destroy")
    if r.random() < p["late"]:
        for _ in range(r.randrange(1, 6)):
            if r.random() < .3:
                L2.append("adv %d" % r.choice([unit, 1000000, 5000000]))
            if r.random() < .3:
                L2.append("tick")
            k = r.choice(kinds)
            L2.append("fin %s %d %s %s" % (k, r.choice([0, 1]), status(), resp(k)))
    return L + L2


def clients(rng, prof=None):
    """Two clients at the same time, with the commands of each as in client()."""
    p = dict(prof or {}, big=0, late=1)
    parts = [client(rng, p) for _ in range(rng.choice([2, 2, 2, 3]))]
    if rng.random() < .7:
        for i, part in enumerate(parts[1:]):
            part.insert(0, "svc svc cid%d" % (i + 2))
    L = []
    while any(parts):
        i = rng.choice([i for i, part in enumerate(parts) if part])
        for _ in range(min(len(parts[i]), rng.choice([1, 1, 2, 5]))):
            x = parts[i].pop(0)
            L.append(x if x.startswith("adv ") else "@%d %s" % (i, x))
    return L


# ---------------------------------------------------------------------------
def lru(rng, prof=None):
    """A random scenario of the LRU cache."""
    p = dict(modes=["none", "lru", "lru", "age", "age", "inf-lru", "inf-age"], steps=(15, 60), noupd=.25,
             keys=5, pin=.35, bigunits=.3)
    p.update(prof or {})
    r = rng
    mode = r.choice(p["modes"])
    idle = r.choice([-1, -2]) if mode.startswith("inf") else r.choice([0, 1, 2, 1000, 500000, 3000000])
    unit = 1
    L = []
    if idle >= 0 and r.random() < .1:
        unit, idle = 1000000, r.choice([3600, 7200, 100000]) * 1000000
        L.append("unit %d" % unit)
    if r.random() < .2:  # sizes beyond 32 bits
        L.append("scale %d" % r.choice([2 ** 31, 2 ** 32, 2 ** 32 + 1, 1000, 10 ** 10]))
    L += ["mode %s %d %d" % (mode, idle, r.choice(p.get("max", [0, 1, 2, 3, 4, 5, 8]))), "new"]
    keys = ["k%d" % i for i in range(r.randrange(1, p["keys"] + 1))]
    noupd = r.random() < p["noupd"]

    def units():
        return r.choice([0, 1, 1, 2, 3, 7]) if r.random() < p["bigunits"] else 1

    def upd():
        return 0 if noupd and r.random() < .5 else 1
    for _ in range(r.randrange(*p["steps"])):
        if r.random() < .35:
            b = max(idle, unit)
            L.append("adv %d" % r.choice([b, b + unit, max(b - unit, 0), unit, b // 2 // unit * unit, 2 * b + unit]))
        x, k = r.random(), r.choice(keys)
        if x < .2:
            L.append("insert %s %d" % (k, units()))
        elif x < .2 + .12 * (p["pin"] > 0):
            L.append("insertp %s %d" % (k, units()) if r.random() < p["pin"] * 2 else "insert %s %d" % (k, units()))
        elif x < .5:
            L.append("%s %s %d" % ("lookup" if r.random() < p["pin"] else "touch", k, upd()))
        elif x < .72:
            L.append("release %d" % r.randrange(5))
        elif x < .77:
            L.append("remove " + k)
        elif x < .81:
            L.append("setmax %d" % r.choice([0, 1, 2, 3, 5, 9]))
        elif x < .86:
            L.append("resize %s %s %d" % (k, r.choice(["-", "cur", "def", "bogus"]), units()))
        elif x < .90:
            L.append("expire")
        elif x < .915:
            L.append("removeall")
        elif x < .93:
            L.append("removeunpinned")
        elif x < .94:
            L.append("clear")
        elif x < .96:
            L.append("inuse %s %s" % (k, r.choice(["-", "cur", "def", "def", "bogus"])))
        elif x < .97:
            i = r.choice([-1, -2, -3, idle, idle, 0, 2 * max(idle, unit), max(idle, unit) // 2 // unit * unit, unit])
            L.append("idle %d" % i)
        elif x < .985:
            L.append("usetime " + k)
        else:
            L.append("age")
    L += ["release 0"] * 12 + ["destroy"]
    return L


# ---------------------------------------------------------------------------
I64 = 2 ** 63
UNITS = [0, 0, 0, 1, -1, 2, -2, 5, -5, 7, 10 ** 9, -10 ** 9, 10 ** 9 - 1, 10 ** 18, -10 ** 18,
         I64 - 1, I64 - 2, -I64, -I64 + 1, -I64 + 2, I64 // 2, I64 // 2 - 1, -(I64 // 2), -(I64 // 2) - 1, -(I64 // 2) + 1]
NANOS = [0, 0, 1, 2, 3, 400000000, 500000000, 499999999, 999999998, 999999999]


def money(rng, prof=None):
    """Random additions and validations of amounts of money."""
    r = rng
    L = []

    def amount():
        u = r.choice(UNITS) if r.random() < .8 else r.randrange(-I64, I64)
        n = r.choice(NANOS) if r.random() < .8 else r.randrange(10 ** 9)
        if u < 0 or (u == 0 and r.random() < .5):
            n = -n
        return u, n
    for _ in range(40):
        x = r.random()
        if x < .2:
            cur = r.choice(["USD", "EUR", "usd", "US", "USDD", "-", "U"])
            u = r.choice(UNITS)
            n = r.choice(NANOS + [10 ** 9, 10 ** 9 + 1, 2 ** 31 - 1]) * r.choice([1, -1])
            L.append("check %s %d %d" % (cur, u, n))
        else:
            ca = r.choice(["USD", "EUR", "USD"])
            cb = ca if r.random() < .93 else r.choice(["EUR", "usd", "JPY", "USD"])
            a, b = amount(), amount()
            if r.random() < .25:  # around cancellation and the limits
                b = (min(I64 - 1, max(-I64, -a[0] + r.choice([0, 1, -1]))), r.choice(NANOS))
                if b[0] < 0:
                    b = (b[0], -b[1])
            if r.random() < .2 and a[0] > -I64:
                t = r.choice([I64 - 1, -I64, -I64 + 1])
                v = t - a[0]
                if -I64 <= v < I64:
                    b = (v, r.choice(NANOS) * (1 if v > 0 else -1 if v < 0 else 1))
            c = r.choice(["add", "add", "alias", "sat"]) if ca == cb else r.choice(["add", "alias"])
            L.append("%s %s %d %d %s %d %d" % ((c, ca) + a + (cb,) + b))
    return L


def bound(kind, p, i):
    """The i-th bucket bound (from 0) exactly, or None if no double is equal to it."""
    F = fractions.Fraction
    b = F(p[2], 8) * F(p[1], 8) ** i if kind == "exp" else F(p[2] + i * p[1], 8) if kind == "lin" else F(p[i], 8)
    return float(b) if F(float(b)) == b else None


def dist(rng, prof=None):
    """Random distributions: samples and merges."""
    r = rng
    L, opts = [], {}
    names = ["d%d" % i for i in range(4)]
    base = []
    for _ in range(2):
        kind = r.choice(["exp", "lin", "expl"])
        if kind == "exp":
            p = [r.choice([1, 2, 3, 5, 5]), r.choice([16, 16, 32, 12, 80, 24, 88, 28, 20, 60, 120, 76]), r.choice([1, 4, 8, 8, 16, 800])]
        elif kind == "lin":
            p = [r.choice([1, 2, 3, 8, 30 if r.random() < .3 else 5]), r.choice([1, 4, 8, 16, 80]), r.choice([0, 0, 8, -8, -40, 12])]
        else:
            p = sorted(r.sample(range(-80, 200), r.choice([0, 1, 2, 3, 5, 40 if r.random() < .3 else 4])))
        base.append((kind, p))

    def init(n, kind, p):
        if kind == "expl":
            return "init %s expl %s" % (n, " ".join(num(x) for x in p))
        return "init %s %s %d %s %s" % (n, kind, p[0], num(p[1]), num(p[2]))
    for n in names:
        kind, p = base[0] if r.random() < .75 else base[1]
        if r.random() < .2:  # rejected options first
            bad = r.choice([("exp", [0, 16, 8]), ("exp", [3, 8, 8]), ("exp", [3, 4, 8]), ("exp", [3, 16, 0]),
                            ("exp", [-1, 16, 8]), ("exp", [2, 16, -8]), ("lin", [0, 8, 0]), ("lin", [2, 0, 0]),
                            ("lin", [2, -8, 0]), ("lin", [-3, 8, 0]), ("expl", [8, 8]), ("expl", [16, 8]),
                            ("expl", [0, 8, 4]), ("expl", [0, 8, 16, 16]), ("expl", [8, 0, 8])])
            L.append(init(n, *bad))
        if r.random() < .9:
            L.append(init(n, kind, p))
            opts[n] = (kind, p)
        else:
            opts[n] = ("none", [])
    if r.random() < .04:  # more samples than 32 bits count, all alike so that the sums stay exact
        a, b = "e0", "e1"
        kind, p = base[0]
        x = num(r.choice([8, -16, 24]))
        for n in (a, b):
            L += [init(n, kind, p), "add %s %s" % (n, x)]
        for _ in range(r.randrange(20, 26)):
            L += ["merge %s %s" % (a, b), "merge %s %s" % (b, a)]
        return L + ["add %s %s" % (a, x), "merge %s %s" % (a, b)]

    def sample(n):
        kind, p = opts[n]
        edges = [0]
        if kind == "exp":
            edges = [p[2] * p[1] ** i // 8 ** i for i in range(p[0] + 1)]
        elif kind == "lin":
            edges = [p[2] + i * p[1] for i in range(p[0] + 1)]
        elif kind == "expl":
            edges = list(p) or [0]
        x = r.choice(edges) + r.choice([0, 0, 0, 1, -1, 3, -5])
        if r.random() < .2:
            x = r.choice([0, -1, 1, r.randrange(-800000, 800000)])
        return max(-800000, min(800000, x))
    for _ in range(r.randrange(8, 40)):
        n = r.choice(names)
        x = r.random()
        pm = (prof or {}).get("merge", .2)
        if x < .9 - pm:
            L.append("add %s %s" % (n, num(sample(n))))
        elif x < 1 - pm:
            kind, p = opts[n]
            i = r.randrange(p[0] + 1 if kind in ("exp", "lin") else max(1, len(p)))
            b = bound(kind, p, i) if kind != "none" and p else None
            if b is None or r.random() < .4:
                L.append("special %s %s" % (n, r.choice(["inf", "-inf", "nan", "1e300", "-1e300", "1e18"])))
            else:
                side = r.choice(["below", "above"])
                y = math.nextafter(b, -math.inf if side == "below" else math.inf)
                L.append("near %s %r %s %d" % (n, y, side, i + 1))
        else:
            f = r.choice([m for m in names if m != n])
            L.append("merge %s %s" % (f, n))
    return L


# ---------------------------------------------------------------------------
def conc(rng, prof=None):
    """A random scenario of the client used by several threads: commands one
    after the other, then threads, then what shows the state they left."""
    p = dict(DEFAULT, n=[1, 2, 2, 3, 10], keys=[1, 2, 2, 3], threads=[2, 2, 2, 3], ops=[1, 1, 2], per=[1, 1, 2, 2, 3],
             prefix=(2, 10), sync=.08, then=.06, inplace=.12, destroy=.1, imp=.05, badsvc=.01, noop=.01, own=.08, n0=.03,
             logs=None, big=0)
    p.update(prof or {})
    r, m, L, D = rng, Msg(rng), [], []
    flush = r.choice([100, 1000, 2000])
    exp = pick(r, [flush + 1, 2 * flush + 5, 3 * flush, 3000])
    qref = r.choice([100, 1000])
    qexp = pick(r, [qref + 1, 3 * qref + 2, 60000])
    rfl = r.choice([100, 1000])

    def size():
        return 0 if r.random() < p["n0"] else r.choice(p["n"])
    L.append("chk %d %d %d" % (size(), flush, exp))
    L.append("quo %d %d %d" % (size(), qref, qexp))
    L.append("rep %d %d" % (size(), rfl))
    gt = [k for k in ("check", "quota", "report") if r.random() < .97]
    L.append(" ".join(["gt"] + gt))
    for n in m.metrics:
        if r.random() < .3:
            L.append("kind %s %s" % (n, r.choice(["GAUGE", "CUMULATIVE", "DELTA"])))
    cp, qp, rp = CheckPool(m, r.choice(p["keys"])), QuotaPool(m, r.choice(p["keys"])), ReportPool(m, r.choice(p["keys"]))
    for i in range(4):
        L.append("def cresp c%d | %s" % (i, check_resp(r, i % 2 == 1)))
        L.append("def qresp q%d | %s" % (i, quota_resp(r, i % 2 == 1)))
        L.append("def rresp r%d | %s" % (i, ''))
    # Few kinds at a time, so that threads meet.
    kinds = r.choice([["check"], ["quota"], ["report"], ["check", "quota"], ["report", "check"],
                      ["check", "quota", "report"]]) if not p.get("only") else p["only"]
    L.append("new")
    num = [0]
    destroy = r.random() < p["destroy"]
    if destroy and r.random() < .5:
        L.insert(-1, "timer 2")  # Stop() waits for a running tick

    def call(kind=None, sync=False, depth=0):
        kind = kind or r.choice(kinds)
        then = 0
        if r.random() < p["then"] and depth < 2 and not destroy:
            then = call(depth=depth + 1)
        svc = r.choice(OTHERS) if r.random() < p["badsvc"] else "svc"
        if kind == "check":
            t = cp.request(r.randrange(len(cp.ids)), svc, r.choice(IMPORTANT) if r.random() < p["imp"] else "LOW", r.random() >= p["noop"])
        elif kind == "quota":
            t = qp.request(r.randrange(len(qp.ids)), svc, r.random() >= p["noop"], r.choice(["NORMAL", "BEST_EFFORT"]))
        else:
            t = rp.request([r.randrange(len(rp.ids)) for _ in range(r.choice(p["ops"]))], svc,
                           {0: r.choice(IMPORTANT)} if r.random() < p["imp"] else {}, r.choice(p["logs"]) if p["logs"] else None)
        num[0] += 1
        n = num[0]
        D.append("def %s x%d | %s" % (kind, n, t))
        D.append("decl %d %s x%d %d %d %d" % (n, kind, n, not sync and r.random() < p["own"], sync, then))
        return n

    def resp(kind):
        if r.random() < .2:
            return "-"
        return dict(check="c", quota="q", report="r")[kind] + (r.choice("13") if r.random() < p["errs"] else r.choice("02"))

    def fin(kind=None):
        k = kind or r.choice(kinds)
        return "fin %s %d %s %s" % (k, r.choice([0, 0, 1, 2]), "OK" if r.random() < .85 else r.choice(STATUSES), resp(k))

    ms = [flush * 1000, exp * 1000, qref * 1000, qexp * 1000, rfl * 1000]

    def adv():
        b = r.choice(ms)
        return "adv %d" % r.choice([b, b, b + 1, b - 1, 2 * b + 1])

    def plan():
        k = r.choice(kinds)
        return "plan %s %s" % (k, " ".join(
            "inplace:0:%s:%s" % ("OK" if r.random() < .8 else r.choice(STATUSES), resp(k))
            for _ in range(r.choice([1, 1, 2, 3]))))
    body = []
    for _ in range(r.randrange(*p["prefix"])):
        x = r.random()
        if x < .5:
            body.append("call %d" % call())
            if r.random() < .6:
                body.append(fin())
        elif x < .7:
            body.append(fin())
        elif x < .75:
            body.append("tick")
        else:
            body.append(adv())
    if r.random() < .5:
        body.append(adv())
    for _ in range(r.choice([1, 1, 1, 2]) if not destroy else 1):
        if r.random() < p["inplace"]:
            body.append(plan())
        nt = r.choice(p["threads"])
        for t in range(1, nt + 1):
            if destroy and t == 1:
                body.append("th 1 destroy")
                continue
            for _ in range(r.choice(p["per"])):
                x = r.random()
                if destroy:
                    c = fin() if x < .7 else "tick"
                elif x < .6:
                    c = "call %d" % call(sync=r.random() < p["sync"])
                elif x < .85:
                    c = fin()
                else:
                    c = "tick"
                body.append("th %d %s" % (t, c))
        body.append("par")
        if r.random() < .5 and not destroy:
            body += [fin() for _ in range(r.choice([0, 1, 2]))]
            body.append(adv())
    if not destroy:
        for _ in range(r.randrange(0, 5)):
            body.append(r.choice([fin, fin, adv, lambda: "call %d" % call()])())
        if r.random() < .5:
            body += ["adv 100000000", "tick"]
        body.append("destroy")
    else:
        body += [fin() for _ in range(r.choice([0, 1, 2]))]
    return L[:-1] + D + ["new"] + body


def pair(rng, prof=None):
    """A short history of one kind of call with one or two identities, then two
    operations at the same time, then what shows the state they left."""
    r, m = rng, Msg(rng)
    p = dict(kinds=["check", "quota", "report"], each=12, destroy=0, sent=0)  # sent: nothing is cached
    p.update(prof or {})
    kind = r.choice(p["kinds"])
    n = 0 if p["sent"] else r.choice([1, 1, 2, 10])
    L = ["chk %d 100 %d" % (n if kind == "check" else 0, r.choice([101, 205])),
         "quo %d 100 %d" % (n if kind == "quota" else 0, r.choice([101, 301])),
         "rep %d 100" % (n if kind == "report" else 0), "gt check quota report", "new"]
    D, num, nresp = [], [0], [0]

    def call():
        num[0] += 1
        k = num[0]
        key = r.choice([1, 1, 1, 2])
        if kind == "quota":
            t = ('service_name: "svc" allocate_operation { operation_id: "%d" method_name: "op%d" consumer_id: "c" '
                 'quota_mode: %s quota_metrics { metric_name: "m" metric_values { int64_value: %d } } }' %
                 (k, key, r.choice(["NORMAL", "BEST_EFFORT"]), k))
        else:
            t = ('service_name: "svc" operation%s { operation_id: "%d" operation_name: "op%d" consumer_id: "c"%s '
                 'metric_value_sets { metric_name: "m" metric_values { int64_value: %d } } log_entries { name: "%d" } }' %
                 ("s" if kind == "report" else "", k, key, " importance: HIGH" if r.random() < .04 else "", k, k))
        D.append("def %s x%d | %s" % (kind, k, t))
        D.append("decl %d %s x%d %d 0 0" % (k, kind, k, r.random() < .05))
        return "call %d" % k

    def resp():
        if kind == "report" or r.random() < .4:
            return "-"
        nresp[0] += 1
        k = nresp[0]
        if kind == "check":
            D.append('def cresp a%d | operation_id: "r%d"%s' % (
                k, k, " check_errors { code: ABUSER_DETECTED }" if r.random() < .5 else ""))
        else:
            D.append('def qresp a%d | operation_id: "r%d"%s' % (
                k, k, " allocate_errors { code: RESOURCE_EXHAUSTED }" if r.random() < .5 else ""))
        return "a%d" % k

    def fin():
        return "fin %s %d %s %s" % (kind, r.choice([0, 0, 0, 1]), "OK" if r.random() < .85 else "UNAVAILABLE", resp())

    def adv():
        return "adv %d" % r.choice([100000, 101000, 101000, 206000, 302000])
    body = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3])):
        body.append(call())
        if r.random() < .75:
            body.append(fin())
        if r.random() < .6:
            body.append(adv())
        if r.random() < .1:
            body.append("tick")
    if r.random() < .4:
        body.append(call())
        if r.random() < .6:
            body.append(adv())
    ops = dict(call=call, fin=fin, tick=lambda: "tick")
    if p["destroy"]:
        two = r.choice([("destroy", "fin"), ("destroy", "tick"), ("destroy", "fin")])
        if two[1] == "tick" and r.random() < .6:
            L.insert(-1, "timer 2")  # Stop() waits for a running tick
    elif p["sent"]:
        two = r.choice([("call", "call"), ("call", "call"), ("call", "fin"), ("fin", "fin")])
    elif kind == "report":
        two = r.choice([("call", "call"), ("call", "tick"), ("call", "tick"), ("tick", "tick"), ("call", "fin")])
    else:
        two = r.choice([("call", "call"), ("call", "fin"), ("call", "fin"), ("call", "tick"), ("fin", "tick"), ("fin", "fin"),
                        ("tick", "tick")])
    for t, what in enumerate(two):
        body.append("th %d %s" % (t + 1, ops[what]() if what != "destroy" else what))
        if r.random() < .12 and what != "destroy":
            body.append("th %d %s" % (t + 1, ops[r.choice(["call", "fin"] if not p["destroy"] else ["fin"])]()))
    body.append("par")
    if p["destroy"]:
        body += [fin(), fin()]
        return L[:-1] + D + ["each %d" % p["each"], "new"] + body
    for _ in range(r.choice([1, 2, 3])):
        body.append(r.choice([call, call, fin, adv])())
    body += ["adv 400000", "tick", "destroy"] if r.random() < .5 else ["destroy"]
    return L[:-1] + D + ["each %d" % p["each"], "new"] + body


def apart(rng, prof=None):
    """Two clients, used by threads of their own or by both."""
    r = rng
    p = dict(mixed=.3)
    p.update(prof or {})
    one = [(pair if r.random() < .5 else conc)(random.Random(r.random()), p) for _ in range(2)]
    mixed = r.random() < p["mixed"]
    # The second client has another name, and its threads run beside those of the first.
    out = ["@2 svc svc cid2"]
    parts = []
    for k, lines in enumerate(one):
        lines = [x for x in lines if not x.startswith("each ")]
        stages, cur = [], []
        for x in lines:
            if x == "par":
                stages.append(cur)
                cur = []
            else:
                cur.append(x)
        parts.append((stages, cur))
    n = min(len(s) for s, _ in parts)

    def put(k, x):
        w = x.split(" ")
        if w[0] == "th":
            t = int(w[1]) if mixed else min(2, int(w[1])) + 2 * k
            out.append("th %d @%d %s" % (t, k + 1, " ".join(w[2:])))
        elif k and w[0] not in ("adv", "unit"):
            out.append("@2 " + x)
        elif not k:
            out.append(x)
        elif w[0] == "adv":
            out.append("@2 " + x)
    for i in range(n):
        for k in (0, 1):
            for x in parts[k][0][i]:
                put(k, x)
        out.append("par")
    for k in (0, 1):
        rest = [x for s in parts[k][0][n:] for x in s if not x.startswith("th ")] + parts[k][1]
        for x in rest:
            put(k, x)
    return out

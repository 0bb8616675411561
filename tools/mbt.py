"""Running scenarios on the implementation and TLC on specifications."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 8))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_signal_unsafe=0")


class MachineryError(Exception):
    """The check itself could not work; says nothing about the property."""


sys.path.insert(0, os.path.join(ROOT, "driver"))
import build as _build  # noqa: E402


def build(*targets):
    rc, out = _build.build(targets)
    if rc:
        raise MachineryError("the build failed:\n" + out[-4000:])


class Work:
    """A scratch directory of this run."""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % name, dir=BUILD)
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------------------
# The driver. A scenario is (id, component, [lines]).
def scenario_text(sc):
    return "scenario %s %s\n%s\nend\n" % (sc[0], sc[1], "\n".join(sc[2]))


MAX_CRASHES = 6


def _drive(work, scs, limit_ms, binary="driver", args=()):
    traces, crashes = [], []
    todo = list(scs)
    while todo:
        fin, fout, fprog = work.path("scen"), work.path("trace"), work.path("prog")
        with open(fin, "w") as f:
            for sc in todo:
                f.write(scenario_text(sc))
        open(fout, "w").close()
        open(fprog, "w").close()
        t0 = time.time()
        try:
            p = subprocess.run([os.path.join(BUILD, binary), fin, fout, fprog, str(limit_ms), *args],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV,
                               timeout=limit_ms / 1000 * 4 + 600)
            rc, out = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, out = 97, "TIMEOUT " + str(e.stdout)[-2000:]
        done = {}
        for line in open(fout):
            if line.endswith("\n"):
                d = json.loads(line)
                done[d["id"]] = line
        traces += list(done.values())
        rest = [s for s in todo if s[0] not in done]
        os.unlink(fin), os.unlink(fout)
        if rc == 0:
            if rest:
                raise MachineryError("the driver skipped scenarios: %s" % rest[0][0])
            break
        if rc == 96:
            raise MachineryError("driver: " + out[-2000:])
        cur = open(fprog).read().strip()
        hit = [s for s in rest if s[0] == cur]
        if not hit:
            raise MachineryError("driver ended with %d outside a scenario: %s" % (rc, out[-3000:]))
        kind = "hang" if rc == 97 else "crash"
        crashes.append((hit[0], kind, "exit %d after %.1f s\n%s" % (rc, time.time() - t0, out[-6000:])))
        todo = [s for s in rest if s[0] != cur]
        if len(crashes) >= MAX_CRASHES:
            break
    return traces, crashes


def drive(work, scs, limit_ms=20000, jobs=CORES, binary="driver", args=()):
    """Runs the scenarios; returns {id: trace line}, [(scenario, kind, text)]."""
    jobs = max(1, min(jobs, len(scs)))
    parts = [scs[i::jobs] for i in range(jobs)]
    traces, crashes = {}, []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for tr, cr in ex.map(lambda p: _drive(work, p, limit_ms, binary, args), parts):
            for t in tr:
                d = json.loads(t)
                if "ev" in d:    # of several clients every one has a trace, ID#N
                    traces[d["id"]] = t
            crashes += cr
    return traces, crashes


# ---------------------------------------------------------------------------
# TLC.
SHORT = ("-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1")  # many short runs in parallel
LONG = ("-XX:+UseParallelGC", "-XX:ParallelGCThreads=4")


def tlc(module, cfg=None, env=None, args=(), workers=1, mem="3g", timeout=800, spec=SPEC, java=LONG):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    try:
        cmd = ["java", *java, "-Xmx" + mem, "-Xss256m", "-Djava.io.tmpdir=" + meta,
               "-Dtlc2.tool.queue.IStateQueue=StateDeque" if "-dfs" in args else "-Dx=y",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg or module + ".cfg", *[a for a in args if a != "-dfs"], module + ".tla"]
        p = subprocess.run(cmd, cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, **(env or {})), timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def counts(out):
    m = STATES.findall(out.replace(",", "") if False else re.sub(r"(?<=\d),(?=\d)", "", out))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def _unquote(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


EVALUATION_FAILED = (75, 76, 77, 255, 1, 12)


class EvaluationError(Exception):
    def __init__(self, id, out):
        super().__init__(out[-3000:])
        self.id = id


def _check_shard(work, module, lines, mem, timeout, retry=True):
    f = work.path("traces.ndjson")
    with open(f, "w") as g:
        g.writelines(lines)
    rc, out = tlc(module, env={"TRACE_FILE": f}, mem=mem, timeout=timeout, java=SHORT)
    ids = [json.loads(x)["id"] for x in lines]
    done = set(re.findall(r'<<"DONE", "([^"]*)">>', out))
    mism = {}
    for m in re.finditer(r'<<"MISMATCH", "((?:[^"\\]|\\.)*)">>', out):
        d = json.loads(_unquote(m.group(1)))
        mism.setdefault(d["id"], []).append(d)
    if rc != 0 or set(ids) != done:
        miss = [x for x in ids if x not in done]
        if retry and rc in EVALUATION_FAILED and miss:
            # A record that the specification cannot even evaluate is not one
            # of its behaviours; tell which trace it is, and check the others.
            for m in [x for x in miss if x in mism]:
                del mism[m]
            n = counts(out)
            for x in lines:
                if json.loads(x)["id"] in miss:
                    try:
                        m1, n1 = _check_shard(work, module, [x], mem, timeout, False)
                    except EvaluationError as e:
                        m1, n1 = {e.id: [{"id": e.id, "i": 0, "bad": ["unexplained"], "exp": str(e)[-1500:]}]}, (0, 0)
                    mism.update(m1)
                    n = (n[0] + n1[0], n[1] + n1[1])
                    if len(mism) >= 3:
                        break
            os.unlink(f)
            return mism, n
        if rc in EVALUATION_FAILED and len(ids) == 1:
            raise EvaluationError(ids[0], out)
        os.makedirs(os.path.join(BUILD, "failed"), exist_ok=True)
        shutil.copy(f, os.path.join(BUILD, "failed", "traces.ndjson"))
        open(os.path.join(BUILD, "failed", "tlc.out"), "w").write(out)
        raise MachineryError("TLC (%s) ended with %d, %d of %d traces without a verdict (%s):\n%s" %
                             (module, rc, len(miss), len(ids), miss[:3], out[-3000:]))
    os.unlink(f)
    return mism, counts(out)


def check_traces(work, module, traces, shards=CORES, mem="3g", timeout=800):
    """Validates recorded traces; returns {id: [mismatch]}, (generated, distinct)."""
    lines = [traces[k] for k in traces]
    if not lines:
        return {}, (0, 0)
    shards = max(1, min(shards, (len(lines) + 19) // 20))
    parts = [lines[i::shards] for i in range(shards)]
    mism, gen, dis = {}, 0, 0
    with cf.ThreadPoolExecutor(shards) as ex:
        for m, (g, d) in ex.map(lambda p: _check_shard(work, module, p, mem, timeout), parts):
            mism.update(m)
            gen += g
            dis += d
    return mism, (gen, dis)

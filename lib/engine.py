"""Property-based testing engine.

One *shard* process (Hypothesis + the instrumented library, AddressSanitizer preloaded) generates
cases as JSON values.  Every case is executed in a forked child ("worker"), so that a sanitizer
report, a segfault, an abort() from GSL or a hang is just another way for the case to fail, and
Hypothesis can go on to shrink it.  A worker serves a bounded number of cases, then is replaced.
A failing case is always re-run in a fresh worker; what fails only with its predecessors is kept
as a sequence.  The replay file holds the shrunk case and is executed without Hypothesis.
"""
import os, sys, json, time, hashlib, importlib, tempfile, shutil, signal, struct, select, traceback, resource

WORKER_CASES = 150
SHRINK_EXECS = 250
CPU_S = 25          # CPU seconds for one case (cases take milliseconds); not wall clock
WALL_S = 300        # backstop for a case blocked without using CPU: inconclusive


class Bad(Exception):
    """The property does not hold for this case."""


class Facet:
    def __init__(self, name, strategy, run, quick=400, thorough=None, threads=1, share=True):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.threads = quick, thorough or quick * 12, threads
        self.share = share


def canon(x):
    return json.dumps(x, sort_keys=True)


def _write(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _readn(fd, n, timeout):
    out = b""
    end = time.monotonic() + timeout
    while len(out) < n:
        r, _, _ = select.select([fd], [], [], max(0, end - time.monotonic()))
        if not r:
            raise TimeoutError
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _read(fd, timeout):
    n = struct.unpack("<I", _readn(fd, 4, timeout))[0]
    return json.loads(_readn(fd, n, timeout))


class Worker:
    def __init__(self, facets, scratch):
        self.facets, self.scratch = facets, scratch
        self.pid = None
        self.served = []

    def start(self):
        self.stop()
        self.rundir = tempfile.mkdtemp(prefix="w", dir=self.scratch)
        self.errfile = os.path.join(self.rundir, ".stderr")
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr), os.close(pw)
                self._child(cr, cw)
            finally:
                os._exit(99)
        os.close(cr), os.close(cw)
        self.pid, self.r, self.w, self.served = pid, pr, pw, []

    def _child(self, r, w):
        os.setsid()
        os.chdir(self.rundir)
        fd = os.open(self.errfile, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.dup2(fd, 2)
        nul = os.open("/dev/null", os.O_RDWR)
        os.dup2(nul, 1)
        os.dup2(nul, 0)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)      # a file without end ends the case
        import ap
        ap.worker_init()
        while True:
            try:
                name, case = _read(r, 1e6)
            except EOFError:
                os._exit(0)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_S)
            try:
                ap.case_init()
                labels = self.facets[name].run(case) or []
                ap.case_end()
                res = ["ok", [str(x) for x in labels]]
            except Bad as e:
                res = ["bad", str(e)[:4000]]
            except Exception as e:
                res = ["bad", "exception in the check: " + traceback.format_exc()[-3000:]]
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            _write(w, res)

    def stop(self):
        if self.pid:
            for fd in (self.r, self.w):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            shutil.rmtree(self.rundir, ignore_errors=True)
            self.pid = None

    def run(self, name, case, fresh=False):
        """('ok', labels) | ('bad', message) | ('inconclusive', message)"""
        if fresh or not self.pid or len(self.served) >= WORKER_CASES:
            self.start()
        self.served.append([name, case])
        try:
            try:
                _write(self.w, [name, case])
                return _read(self.r, WALL_S)
            except (EOFError, BrokenPipeError, ConnectionError):
                pid, self.pid = self.pid, None
                _, st = os.waitpid(pid, 0)
                os.close(self.r), os.close(self.w)
                try:
                    err = open(self.errfile, errors="replace").read()
                except OSError:
                    err = ""
                shutil.rmtree(self.rundir, ignore_errors=True)
                if os.WIFSIGNALED(st):
                    sig = os.WTERMSIG(st)
                    what = "hang: more than %d CPU seconds" % CPU_S if sig == signal.SIGVTALRM else "killed by signal %d" % sig
                    if sig == signal.SIGKILL:
                        return ["inconclusive", "worker was killed (memory?)"]
                else:
                    what = "process ended with status %d" % os.WEXITSTATUS(st)
                i = max(err.rfind("ERROR: AddressSanitizer"), err.rfind("runtime error:"), 0)
                return ["bad", "%s\n%s" % (what, err[i:i + 2500] if i else err[-1500:])]
        except TimeoutError:
            self.stop()
            return ["inconclusive", "wall clock backstop"]


def derive(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:6], "big")


def load(prop):
    m = importlib.import_module("props." + prop)
    return m, {f.name: f for f in m.FACETS}


def known_for(prop):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]


def run_shard(prop, tier, seed, shard, nshards, scale=1.0, only=None):
    """generate and run this shard's cases; returns a JSON-able result"""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    mod, facets = load(prop)
    scratch = tempfile.mkdtemp(prefix="apverif-")
    w = Worker(facets, scratch)
    res = {"facets": {}, "failure": None, "unreproduced": [], "inconclusive": 0}
    known = {canon([k["facet"], k["case"]]) for k in known_for(prop)}
    try:
        for f in mod.FACETS:
            if only and f.name not in only:
                continue
            total = f.quick if tier == "quick" else f.thorough
            n = max(1, int(total * scale / nshards + 0.999))
            st_ = {"evaluations": 0, "nt": set(), "labels": {}, "samples": [], "excluded_known": 0, "execs": 0}
            fail = {}
            t0 = time.monotonic()

            def body(case):
                if fail.get("execs", 0) > SHRINK_EXECS:
                    return
                key = canon(case)
                if canon([f.name, case]) in known:
                    st_["excluded_known"] += 1
                    return
                if fail:
                    fail["execs"] += 1
                    if key in fail["seen"]:
                        r = fail["seen"][key]
                    else:
                        r = fail["seen"][key] = w.run(f.name, case, fresh=True)
                else:
                    r = w.run(f.name, case)
                    st_["evaluations"] += 1
                if r[0] == "inconclusive":
                    res["inconclusive"] += 1
                    return
                if r[0] == "ok":
                    if not fail:
                        for l in set(r[1]):
                            st_["labels"][l] = st_["labels"].get(l, 0) + 1
                        if "nt" in r[1]:
                            hk = hashlib.sha256(key.encode()).digest()[:8]
                            if hk not in st_["nt"]:
                                st_["nt"].add(hk)
                                if len(st_["samples"]) < 2 and len(key) < 3000 and len(st_["nt"]) % 7 == 3:
                                    st_["samples"].append(case)
                    return
                if not fail:
                    seq = list(w.served)
                    r2 = w.run(f.name, case, fresh=True)
                    if r2[0] != "bad":
                        # only together with the cases before it?
                        w.start()
                        last = None
                        for nm, c in seq:
                            last = w.run(nm, c)
                            if last[0] == "bad":
                                break
                        if last[0] == "bad":
                            res["failure"] = {"facet": f.name, "sequence": seq, "message": last[1]}
                            raise KeyboardInterrupt
                        res["unreproduced"].append({"facet": f.name, "case": case, "message": r[1][:600]})
                        return
                    fail.update(execs=0, case=case, key=key, message=r2[1], seen={key: r2})
                elif len(key) <= len(fail["key"]):
                    fail.update(case=case, key=key, message=r[1])
                raise AssertionError("property violated")

            test = given(f.strategy(tier))(body)
            test = hypothesis.seed(derive(seed, prop, f.name, shard))(test)
            test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                            report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate, Phase.shrink])(test)
            try:
                test()
            except KeyboardInterrupt:
                if not res["failure"]:
                    raise
            except AssertionError:
                if not fail:
                    raise
            except BaseException as e:
                if not fail:
                    raise
            if fail and not res["failure"]:
                res["failure"] = {"facet": f.name, "case": fail["case"], "message": fail["message"]}
            res["facets"][f.name] = {"evaluations": st_["evaluations"], "nt": [x.hex() for x in st_["nt"]],
                                     "labels": st_["labels"], "samples": st_["samples"],
                                     "excluded_known": st_["excluded_known"], "wall_s": time.monotonic() - t0}
            if res["failure"]:
                break
    finally:
        w.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    return res


def run_replay(prop, rec):
    mod, facets = load(prop)
    scratch = tempfile.mkdtemp(prefix="apverif-")
    w = Worker(facets, scratch)
    try:
        seq = rec.get("sequence") or [[rec["facet"], rec["case"]]]
        w.start()
        for nm, c in seq:
            r = w.run(nm, c)
            if r[0] != "ok":
                return r
        return r
    finally:
        w.stop()
        shutil.rmtree(scratch, ignore_errors=True)

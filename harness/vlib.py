"""Shared machinery of the checks: TLC runner, behaviour extraction, tours,
known findings, evidence and verdict reporting.

A check is a Python program that
  * runs TLC on a specification in /verif/spec (TLC checks the invariants and
    action properties of the specification and prints every transition/case
    as JSON: that is the set of behaviours to be compared with the code);
  * replays these behaviours into the real code of /repo;
  * calls Check.violation(...) for every disagreement and Check.finish().
"""
import atexit, collections, concurrent.futures, hashlib, json, os, random
import re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
NCPU = os.cpu_count() or 4
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")


class HarnessError(Exception):
    """The machinery itself failed (never the code under test)."""


class TLCResult:
    def __init__(self):
        self.lines = []
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.output = ""
        self.ok = False
        self.rc = None
        self.coverage = {}


def py_env(extra=None, hashseed="0"):
    env = dict(os.environ)
    for k in ("CC", "CXX", "FC", "FFLAGS", "MAKEFLAGS", "CCPP_TYPEDEFS",
              "CCPP_SCHEMES", "CCPP_CAPS", "CCPP_API"):
        env.pop(k, None)
    env["PYTHONPATH"] = f"{REPO}/scripts:{REPO}/scripts/parse_tools"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = hashseed
    env["LANG"] = "C.UTF-8"
    env["PYTHONWARNINGS"] = "ignore"
    if extra:
        env.update(extra)
    return env


class Check:
    def __init__(self, pid, level="model_checking", assumptions=None):
        self.pid = pid
        self.pid0 = os.getpid()
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 7919 + 13)
        self.t0 = time.time()
        self.assumptions = assumptions or []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.cov = {}
        self.viol = []
        self.known_hit = {}
        self.tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        atexit.register(self._cleanup)
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            with open(kf) as f:
                self.known = [k for k in json.load(f).get("findings", [])
                              if k["property"] == pid]
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        self.notes = []

    def _cleanup(self):
        if os.getpid() == self.pid0:
            shutil.rmtree(self.tmp, True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=1, simulate=None, depth=None,
            timeout=600, extra=(), xmx="6g", modules=None, expect_ok=True,
            seed=None, coverage=False):
        """Run TLC on spec/<module>.tla with the configuration text `cfg`.
        `modules` maps additional module names to TLA+ text (generated data).
        Every line printed by the spec that starts with "@@" is decoded as
        JSON and returned in .lines."""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (modules or {}).items():
            with open(os.path.join(d, name + ".tla"), "w") as f:
                f.write(text)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", f"-Xmx{xmx}", "-Xss64m", "-XX:+UseParallelGC", "-cp", TLA_CP,
               f"-Djava.io.tmpdir={d}", "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
               "-config", "M.cfg"]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}", "-seed",
                    str(seed if seed is not None else self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        else:
            cmd += ["-fp", "1"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [module + ".tla"]
        try:
            pr = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, timeout=timeout,
                                text=True)
        except subprocess.TimeoutExpired:
            raise HarnessError(f"TLC timed out on {module}")
        r = TLCResult()
        r.rc = pr.returncode
        other = []
        for line in pr.stdout.splitlines():
            if line.startswith('"@@'):
                r.lines.append(json.loads(json.loads(line)[2:]))
            else:
                other.append(line)
        r.output = "\n".join(other)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", r.output)
        if m:
            r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"([\d,]+) states checked", r.output)
        if m and not r.distinct:
            r.states = r.distinct = int(m[-1].replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", r.output)
        if m and not r.states:
            r.states = r.distinct = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)",
                      r.output)
        if m:
            r.depth = int(m.group(1))
        r.ok = (pr.returncode == 0)
        shutil.rmtree(d, True)
        if expect_ok and not r.ok:
            raise HarnessError(f"TLC failed on {module} rc={pr.returncode}:\n"
                               + r.output[-6000:])
        self.states += r.distinct
        self.transitions += r.states
        self.log(f"TLC {module}: {r.states} states generated, {r.distinct} "
                 f"distinct, {len(r.lines)} behaviours/cases printed")
        return r

    # -------------------------------------------------------------- verdict
    def violation(self, key, msg, detail=None):
        """Report a disagreement. `key` identifies the failing input/history
        (used to match known findings)."""
        for k in self.known:
            if k["key"] == key:
                self.known_hit[key] = k["what"]
                return False
        self.viol.append((key, msg, detail))
        if len(self.viol) <= 5 and os.getpid() == self.pid0:
            self.log("DISAGREEMENT", key, "--", str(msg)[:1500])
        return True

    def finish(self):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "impl_steps_compared": self.steps,
            "samples": self.samples[:3] or ["(none)"],
        }
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for key, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        self.log(f"compared {self.steps} steps in {self.traces} behaviours; "
                 f"{len(self.viol)} violations")
        if self.viol:
            os.makedirs(self.replay_dir, exist_ok=True)
            path = os.path.join(self.replay_dir, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump([dict(key=k, message=m, detail=d)
                           for k, m, d in self.viol[:50]], f, indent=1,
                          default=str)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            sys.exit(1)
        sys.exit(0)


def main(fn, pid, **kw):
    """Run check function `fn(check)`; report harness failures distinctly."""
    c = Check(pid, **kw)
    try:
        fn(c)
    except HarnessError as e:
        print(f"HARNESS-ERROR {pid}: {e}", flush=True)
        if c.viol:
            c.finish()
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if c.viol:
            c.finish()
        sys.exit(3)
    c.finish()


# ------------------------------------------------------------------ tours
def canon(x):
    return json.dumps(x, sort_keys=True)


def tours(edges, init, max_len=400, limit=None, rng=None):
    """edges: list of dicts f, a, t (any JSON). Returns a list of paths (each a
    list of edge indices starting in a state of `init`) that together cover
    every edge (transition tour), each at most about max_len long."""
    out = collections.defaultdict(list)
    for i, e in enumerate(edges):
        out[canon(e["f"])].append(i)
    to = [canon(e["t"]) for e in edges]
    inits = [canon(s) for s in init]
    todo = {s: list(ix) for s, ix in out.items()}
    if rng:
        for s in todo:
            rng.shuffle(todo[s])
    remaining = len(edges)
    paths = []

    def bfs(src):
        # shortest path from src to a state with untaken edges
        if todo.get(src):
            return []
        prev = {src: None}
        q = collections.deque([src])
        while q:
            s = q.popleft()
            for i in out.get(s, ()):
                t = to[i]
                if t not in prev:
                    prev[t] = (s, i)
                    if todo.get(t):
                        p = []
                        while prev[t] is not None:
                            s0, e0 = prev[t]
                            p.append(e0)
                            t = s0
                        return p[::-1]
                    q.append(t)
        return None

    while remaining:
        started = False
        for s0 in inits:
            p = bfs(s0)
            if p is not None:
                started = True
                break
        if not started:
            break
        path, cur = [], s0
        while remaining and len(path) < max_len:
            p = bfs(cur)
            if p is None:
                break
            for i in p:
                path.append(i)
                cur = to[i]
            i = todo[cur].pop()
            remaining -= 1
            path.append(i)
            cur = to[i]
        paths.append(path)
        if limit and len(paths) >= limit:
            break
    return paths


def pmap(fn, items, workers=None):
    """Ordered parallel map over threads (for functions running subprocesses)."""
    with concurrent.futures.ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


def run(cmd, cwd=None, input=None, timeout=120, env=None):
    """Run a command; returns (rc, output). A timeout gives rc=-999."""
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=env, start_new_session=True)
    except OSError as e:
        return -998, str(e)
    try:
        o, _ = p.communicate(input.encode() if input is not None else None,
                             timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, _ = p.communicate()
        return -999, (o or b"").decode("utf-8", "replace") + "\n<TIMEOUT>"


GF = ["gfortran", "-cpp", "-O0", "-ffree-line-length-none"]


def gfortran(args, cwd, timeout=300):
    return run(GF + list(args), cwd=cwd, timeout=timeout)


# ---------------------------------------------------- parallel processes
_FM = {}


def _fm_call(i):
    c, fn, items = _FM["c"], _FM["fn"], _FM["items"]
    c.viol, c.steps, c.traces, c.samples, c.cov = [], 0, 0, [], {}
    c.known_hit = {}
    err = None
    val = None
    try:
        val = fn(items[i])
    except HarnessError as e:
        err = str(e)
    except BaseException:
        err = traceback.format_exc()
    return val, err, c.viol, c.steps, c.traces, c.samples, c.cov, c.known_hit


def merge_cov(a, b):
    for k, v in b.items():
        if k not in a:
            a[k] = v
        elif isinstance(v, dict) and isinstance(a[k], dict):
            merge_cov(a[k], v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] += v
        elif isinstance(v, list):
            a[k] = a[k] + v
        else:
            a[k] = v


def fork_map(c, fn, items, workers=None):
    """Run fn(item) for every item in forked worker processes; merges what the
    workers recorded in the check object. Ordered results."""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    _FM.update(c=c, fn=fn, items=items)
    with mp.get_context("fork").Pool(min(workers or NCPU, len(items))) as pool:
        res = pool.map(_fm_call, range(len(items)), chunksize=1)
    vals = []
    for val, err, viol, steps, traces, samples, cov, kh in res:
        if err:
            raise HarnessError(err)
        for v in viol:
            c.viol.append(v)
            if len(c.viol) <= 5:
                c.log("DISAGREEMENT", v[0], "--", str(v[1])[:1500])
        c.steps += steps
        c.traces += traces
        if len(c.samples) < 3:
            c.samples += samples[:1]
        merge_cov(c.cov, cov)
        c.known_hit.update(kh)
        vals.append(val)
    return vals


class ForkSrv:
    """Client of forksrv.py (one server process per client)."""
    MODS = ["ccpp_suite", "host_cap", "host_model", "metadata_table", "fortran_tools", "ccpp_datafile",
            "unit_conversion", "mkcap", "mkstatic", "metadata_parser", "common", "code_block"]

    def __init__(self, c, mods=None):
        self.tmp = tempfile.mkdtemp(prefix="fs_", dir=c.tmp)
        self.pr = subprocess.Popen([PY, os.path.join(VERIF, "harness", "forksrv.py")] + (mods or self.MODS),
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                   env=py_env(), stderr=subprocess.DEVNULL)

    def ask(self, **req):
        req["tmp"] = self.tmp
        self.pr.stdin.write(json.dumps(req) + "\n")
        self.pr.stdin.flush()
        line = self.pr.stdout.readline()
        if not line:
            raise HarnessError("the fork server died")
        return json.loads(line)

    def tool(self, script, argv, cwd, timeout=60):
        r = self.ask(script=os.path.join(REPO, "scripts", script), argv=argv, cwd=cwd, timeout=timeout)
        return r["rc"], r["out"]

    def op(self, fn, arg, ops="ops.py", timeout=60):
        return self.ask(ops=os.path.join(VERIF, "harness", ops), fn=fn, arg=arg, timeout=timeout)

    def close(self):
        self.pr.stdin.close()
        self.pr.wait()

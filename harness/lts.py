"""On-the-fly conformance of a running implementation against the labelled
transition system TLC explored.  Every TLC-printed edge is a record
  f: abstract state before, a: input (operation and arguments),
  r: response the specification allows, t: abstract state after.
The walker chooses inputs so that every (state, input) pair is exercised and
checks that every response of the implementation is one the specification
allows in a state the implementation may be in."""
import collections, subprocess, select, os, time
from vlib import canon


class Lts:
    def __init__(self, edges, init):
        self.init = [canon(s) for s in init]
        self.out = collections.defaultdict(lambda: collections.defaultdict(list))
        self.act = {}
        self.n = 0
        seen = set()
        for e in edges:
            f, a, r, t = canon(e["f"]), canon(e["a"]), canon(e["r"]), canon(e["t"])
            if (f, a, r, t) in seen:
                continue
            seen.add((f, a, r, t))
            self.act[a] = e["a"]
            self.out[f][a].append((r, t))
            self.n += 1

    def walk(self, sut, chk, name, max_steps=20000, restart_every=2000,
             rng=None, extra_random=0, timeout=None, match=None, targets=None):
        """Drive `sut` (methods start(), do(action)->response, stop())."""
        todo = {s: [a for a in acts] for s, acts in self.out.items()}
        if targets is not None:
            todo = {s: [a for a in v if targets(self.act[a])] for s, v in todo.items()}
        for s in todo:
            todo[s].sort()
            if rng:
                rng.shuffle(todo[s])
        npairs = sum(len(v) for v in todo.values())
        done = 0
        steps = 0
        seen = collections.defaultdict(set)   # (state, input) -> observed successors
        tries = collections.Counter()
        self._seen, self._tries = seen, tries
        runs = 0
        t_end = time.time() + timeout if timeout else None
        while steps < max_steps:
            if t_end and time.time() > t_end:
                break
            cur = set(self.init)
            plan = self._plan(cur, todo)
            if plan is None and steps >= extra_random:
                break
            sut.start()
            runs += 1
            hist = []
            n = 0
            while n < restart_every and steps < max_steps:
                if not plan:
                    plan = self._plan(cur, todo)
                if not plan:
                    if steps < extra_random and rng:
                        s = sorted(cur)[0]
                        acts = sorted(self.out[s])
                        if not acts:
                            break
                        a = rng.choice(acts)
                    else:
                        break
                else:
                    a = plan.pop(0)
                for s in cur:
                    if a in todo.get(s, ()):
                        todo[s].remove(a)
                        done += 1
                act = self.act[a]
                try:
                    resp = sut.do(act)
                except SutDied as e:
                    resp = {"crash": str(e)}
                rr = canon(resp)
                nxt = set()
                allowed = []
                for s in cur:
                    for r, t in self.out[s].get(a, ()):
                        allowed.append(r)
                        if (match(r, resp) if match else r == rr):
                            nxt.add(t)
                for s in cur:
                    tries[s, a] += 1
                    seen[s, a] |= nxt
                hist.append({"op": act, "response": resp})
                n += 1
                steps += 1
                if not nxt:
                    key = f"{name}:{a}"
                    chk.violation(key, f"{name}: after {len(hist)-1} steps, "
                                  f"{a} answered {rr}; specification allows "
                                  f"{sorted(set(allowed))[:4]}; last steps "
                                  f"{[ (h['op'], h['response']) for h in hist[-6:]]}",
                                  {"history": hist[-400:], "spec_states": sorted(cur)[:5]})
                    sut.stop()
                    chk.steps += steps
                    chk.traces += runs
                    return False
                if len(plan or ()) and nxt != cur:
                    # keep the plan only if its next action is possible
                    if not all(plan[0] in self.out[s] for s in nxt):
                        plan = None
                cur = nxt
            sut.stop()
            if len(chk.samples) < 3 and hist:
                chk.samples.append({"run": name, "trace": hist[:12]})
            if plan is None and n == 0:
                break
        chk.steps += steps
        chk.traces += runs
        c = chk.cov.setdefault("state_input_pairs", {})
        c[name] = f"{done}/{npairs}"
        return True

    def _plan(self, cur, todo):
        """Shortest optimistic action sequence to an untaken pair."""
        prev = {}
        q = collections.deque()
        for s in sorted(cur):
            prev[s] = None
            q.append(s)
        while q:
            s = q.popleft()
            if todo.get(s):
                a = todo[s][-1]
                p = [a]
                while prev[s] is not None:
                    s, a = prev[s]
                    p.append(a)
                return p[::-1]
            for a, outs in self.out[s].items():
                known = self._seen[s, a] if self._tries[s, a] >= 2 else None
                for r, t in outs:
                    if known is not None and t not in known:
                        continue
                    if t not in prev:
                        prev[t] = (s, a)
                        q.append(t)
        return None


class SutDied(Exception):
    pass


class PipeSut:
    """A process reading one command line and answering one line."""
    def __init__(self, cmd, encode, decode, cwd=None, timeout=20, env=None):
        self.cmd, self.encode, self.decode = cmd, encode, decode
        self.cwd, self.timeout, self.env = cwd, timeout, env
        self.p = None

    def start(self):
        self.stop()
        self.p = subprocess.Popen(self.cmd, cwd=self.cwd, env=self.env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait()
            self.p = None

    def _line(self):
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise SutDied("no answer (hang)")
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                raise SutDied("no answer (hang)")
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                raise SutDied(f"exited: {self.buf.decode('utf-8','replace')[-400:]}")
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode("utf-8", "replace")

    def do(self, act):
        msg = self.encode(act) + "\n"
        try:
            self.p.stdin.write(msg.encode())
        except OSError as e:
            raise SutDied(str(e))
        junk = []
        while True:
            line = self._line()
            if line.startswith("=>"):
                return self.decode(act, line[2:].strip())
            junk.append(line)
            if len(junk) > 200:
                raise SutDied("unexpected output: " + " | ".join(junk[:5]))
            if any(x in line for x in ("Fortran runtime error", "Error termination", "ERROR STOP", "SIGSEGV")):
                raise SutDied(" | ".join(junk[-3:]))

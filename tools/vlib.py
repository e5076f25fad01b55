"""Common machinery of the checks: TLC runs, conversion of behaviours, harness builds, replays, evidence."""
import concurrent.futures as cf, hashlib, json, math, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", VERIF)      # build products, scratch files and evidence
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
CXX = "g++"
CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"]
CPUS = 8


class ToolError(Exception):
    """The machinery itself failed: no verdict."""


class Violation(Exception):
    def __init__(self, summary, replay=None):
        super().__init__(summary)
        self.summary, self.replay = summary, replay


# ---------------------------------------------------------------- ring values
R2 = math.sqrt(0.5)


def num(t):
    """<<a,b,c,d,k>> of spec/Cyclo.tla or <<k,a,e>> of spec/NodeRequests.tla -> complex"""
    if len(t) == 3:
        return 0j if t[2] == -9999 else [1, 1j, -1, -1j][t[0]] * 3.0 ** t[1] * 2.0 ** t[2]
    a, b, c, d, k = t
    s = 2.0 ** -k
    re_, im_ = (a + (b - d) * R2) * s, (c + (b + d) * R2) * s
    return complex(re_, im_)


def fmt(z):
    return "%.17g %.17g" % (z.real, z.imag)


INTS, CPLX = ("p", "c", "q"), ("g", "r", "e", "s", "s2", "m2", "v", "m")
CONFIGS = {"default": ("dd::DDPackageConfig", 0), "dens": ("DensConfig", 0), "tiny": ("TinyConfig", 1), "scan": ("ScanConfig", 1)}
SCALARS = ("d", "a", "b", "n", "z", "t", "gi")


def op_line(o):
    if "w" in o:    # terms of spec/Wide.tla: the distinct factors, and which of them belongs to each term and qubit
        table, idx = {}, []
        for term in o["w"]:
            for f in term:
                idx.append(table.setdefault(tuple(tuple(x) for x in f), len(table)))
        o = dict(o, q=idx, r=[x for f in table for x in f])
    out = [o["k"]] + [str(o.get(f, 0)) for f in SCALARS]
    for f in INTS:
        v = o.get(f, [])
        out += [str(len(v))] + [str(x) for x in v]
    for f in CPLX:
        v = o.get(f, [])
        if f in ("s", "s2") and f in o:
            v = [v]
        out += [str(len(v))] + [fmt(num(x)) for x in v]
    return " ".join(out)


def is_trivial(o):
    return o["k"] in ("nop", "begin")


# ---------------------------------------------------------------- processes
RUNNING = set()


def leave(code):
    """ends the run at once, with everything it started"""
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    sys.stdout.flush()
    os._exit(code)


def cpu_seconds(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return 0.


def run(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    RUNNING.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        RUNNING.discard(p)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        RUNNING.discard(p)
        return None, o.decode(errors="replace")


def tree_hash(dirs, extra=""):
    h = hashlib.sha256(extra.encode())
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".py", ".tla")):
                    h.update(os.path.join(root, f).encode())
                    with open(os.path.join(root, f), "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:24]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.out = os.path.join(WORK, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        os.makedirs(os.path.join(WORK, "build"), exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(CPUS)
        self.states = self.transitions = 0
        self.behaviours = 0
        self.ops = {}
        self.samples = []
        self.info = {}
        self.notes = []
        self.exhaustive_parts = []
        self.builds = {}

    # ------------------------------------------------------------ building
    def build(self, src, name, flags=(), key=None):
        """starts a build of harness/<src>; returns a future of the executable's path"""
        k = (src, name)
        if k not in self.builds:
            self.builds[k] = self.pool.submit(self._build, src, name, list(flags))
        return self.builds[k]

    def _build(self, src, name, flags):
        cmd = [CXX] + CXXFLAGS + flags
        h = tree_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "harness")], " ".join(cmd) + src)
        exe = os.path.join(WORK, "build", f"{name}-{h}")
        if not os.path.exists(exe):
            for f in os.listdir(os.path.dirname(exe)):    # older versions of the same build
                if f.startswith(name + "-") and len(f) == len(name) + 25:
                    try:
                        os.unlink(os.path.join(os.path.dirname(exe), f))
                    except OSError:
                        pass
            tmp = exe + ".%d" % os.getpid()
            rc, o = run(cmd + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness"),
                               os.path.join(VERIF, "harness", src), "-o", tmp], 600)
            if rc != 0:
                raise ToolError("build of %s failed:\n%s" % (src, o[-4000:]))
            os.replace(tmp, exe)
        return exe

    # ------------------------------------------------------------ TLC
    def tlc(self, module, seed=None, simulate=None, depth=None, timeout=300, workers=1, outfile=None, mem="1500m",
            env=None, cfg=None, dump=None):
        """runs TLC on spec/mc/<module>.tla; counts its states; ToolError on any error of the specification"""
        meta = os.path.join(self.out, "tlc-%s-%s" % (module, seed))
        os.makedirs(meta, exist_ok=True)
        lib = os.path.join(VERIF, "spec") + os.pathsep + os.path.join(VERIF, "spec", "mc")
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseSerialGC", "-Xmx" + mem, "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + lib, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 1000)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += ["-config", os.path.join(VERIF, "spec", "mc", (cfg or module) + ".cfg"), os.path.join(VERIF, "spec", "mc", module + ".tla")]
        e = dict(env or {})
        if outfile:
            e["OUTFILE"] = outfile
        rc, o = run(cmd, timeout * (12 if THOROUGH else 1), env=e, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        with open(os.path.join(self.out, "tlc-%s-%s.log" % (module, seed)), "w") as f:
            f.write(o)
        if rc is None:
            raise ToolError("TLC on %s ran out of time" % module)
        if rc == 12 or "is violated" in o:
            return "violated", o
        if rc != 0:
            raise ToolError("TLC on %s failed (%s):\n%s" % (module, rc, o[-3000:]))
        m = re.search(r"number of states generated: ([\d,]+)", o) or re.search(r"([\d,]+) states generated", o)
        d = re.search(r"([\d,]+) distinct states found", o)
        gen = int(m.group(1).replace(",", "")) if m else 0
        self.transitions += gen
        self.states += int(d.group(1).replace(",", "")) if d else gen
        return "ok", o

    def behaviours_of(self, module, num, depth, runs, base=0, timeout=300):
        """futures of lists of behaviours (each a list of operation records), from `runs` independent simulations"""
        return [self.pool.submit(self._sim, module, num, depth, base + i, timeout) for i in range(runs)]

    def _sim(self, module, num, depth, i, timeout):
        seed = (SEED * 7919 + i * 104729 + int(hashlib.sha256((self.pid + module).encode()).hexdigest()[:6], 16)) % (2 ** 31)
        f = os.path.join(self.out, "%s-%d.json" % (module, i))
        r, o = self.tlc(module, seed=seed, simulate=num, depth=depth + 10, outfile=f, timeout=timeout)
        if r != "ok":
            raise ToolError("an invariant of the specification %s is violated:\n%s" % (module, o[-3000:]))
        return self._read(f)

    def enumerate(self, module, timeout=300, workers=2):
        """exhaustive exploration of a specification that writes each behaviour it completes"""
        f = os.path.join(self.out, "%s-all.json" % module)
        r, o = self.tlc(module, outfile=f, timeout=timeout, workers=workers)
        if r != "ok":
            raise ToolError("an invariant of the specification %s is violated:\n%s" % (module, o[-3000:]))
        return self._read(f)

    @staticmethod
    def _read(f):
        if not os.path.exists(f):
            raise ToolError("the specification wrote no behaviours (%s)" % f)
        res = []
        with open(f) as fh:
            for line in fh:
                line = line.strip()
                if not line:
                    continue
                b = json.loads(line)
                res.append(json.loads(b) if isinstance(b, str) else b)
        os.unlink(f)
        return res

    # ------------------------------------------------------------ replay
    def program(self, behs, name):
        path = os.path.join(self.out, name + ".prog")
        with open(path, "w") as f:
            for b in behs:
                for o in b:
                    f.write(op_line(o) + "\n")
        return path

    def watch(self, cmd, progress, limit, stall):
        """runs a harness; returns (kind, text): ok / fail / crash / stall"""
        e = dict(os.environ)
        limit *= 12 if THOROUGH else 1
        outp = progress + ".out"
        with open(outp, "wb") as fh:
            p = subprocess.Popen(cmd, stdout=fh, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=self.out)
            RUNNING.add(p)
            t0 = last = time.time()
            prev, used = None, 0.
            while True:
                try:
                    p.wait(0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now, cpu = time.time(), cpu_seconds(p.pid)
                try:
                    with open(progress, "rb") as g:
                        cur = g.read(200)
                except OSError:
                    cur = None
                if cur != prev:
                    prev, last, used = cur, now, cpu
                stalled = cpu - used > stall or now - last > 4 * stall     # an operation that ends takes far less than a second
                if stalled or now - t0 > limit:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    RUNNING.discard(p)
                    return ("stall" if stalled else "limit"), ""
            RUNNING.discard(p)
        with open(outp, errors="replace") as fh:
            text = fh.read()
        os.unlink(outp)
        if p.returncode == 0:
            return "ok", text
        if p.returncode == 3:
            return "fail", text
        if p.returncode == 9:
            raise ToolError("the harness reports an error: " + text[-2000:])
        return "crash", "signal or exit status %d\n%s" % (p.returncode, text[-1500:])

    @staticmethod
    def where(progress):
        try:
            with open(progress, "rb") as g:
                s = g.read(300).split(b"\n")[0].decode()
            m = re.match(r"behaviour (-?\d+) step (\d+) op (\S+)", s)
            return int(m.group(1)), int(m.group(2)), m.group(3)
        except Exception:
            return 0, 0, "?"

    def replay(self, exe, behs, label, args, fresh=1, limit=400, stall=45):
        """replays behaviours on the real package; raises Violation"""
        prog = self.program(behs, label)
        pr = os.path.join(self.out, label + ".progress")
        cmd = [exe, "--progress", pr, "--fresh", str(fresh)] + args
        kind, text = self.watch(cmd + [prog], pr, limit, stall)
        if kind == "ok":
            m = re.search(r"^OK (.*)$", text, re.M)
            if not m:
                raise ToolError("no verdict from the harness: " + text[-500:])
            self.info["replays"] = self.info.get("replays", 0) + len(behs)
            for kv in m.group(1).split():
                k, v = kv.split("=")
                self.info[k] = self.info.get(k, 0) + int(v)
            os.unlink(prog)
            try:
                os.unlink(pr)
            except OSError:
                pass
            return
        if kind == "limit":
            raise ToolError("replay %s ran out of time" % label)
        m = re.search(r"^FAIL (-?\d+) (\d+) (\S+) (.*)$", text, re.M)
        if m:
            bi, st, what = int(m.group(1)), int(m.group(2)), m.group(3) + ": " + m.group(4)
        else:
            bi, st, op = self.where(pr)
            what = "%s: %s" % (op, "does not terminate" if kind == "stall" else "crash (%s)" % text.strip().replace("\n", " | ")[:600])
        # minimise to the behaviour itself if that is enough to fail
        path = prog
        if 0 <= bi < len(behs):
            one = self.program([behs[bi][:st + 1]], label + "-min")
            k2, t2 = self.watch([exe, "--progress", pr + "2", "--fresh", str(fresh)] + args + [one], pr + "2", limit, min(stall, 40))
            if k2 in ("fail", "crash", "stall"):
                path = one
            else:
                os.unlink(one)
        # confirm: the same program must fail again
        for _ in range(5):      # what is wrong may depend on where memory happens to lie
            k3, t3 = self.watch(cmd[:2] + [pr + "3"] + cmd[3:] + [path], pr + "3", limit, stall)
            if k3 != "ok":
                break
            path = prog
        if k3 == "ok":
            raise ToolError("failure not reproducible: %s" % what)
        with open(path + ".txt", "w") as f:
            f.write("property %s\n%s\nbehaviour %d, operation %d\nrun: %s\n" % (self.pid, what, bi, st, " ".join(cmd + [path])))
            if 0 <= bi < len(behs):
                for o in behs[bi][:st + 1]:
                    f.write(json.dumps(o) + "\n")
        raise Violation("%s [behaviour %d, operation %d, %s]" % (what, bi, st, label), path)

    def simple(self, exe, label, args, limit=400, stall=120):
        """runs another harness with the same protocol; returns its OK line as a dict"""
        pr = os.path.join(self.out, label + ".progress")
        cmd = [exe, "--progress", pr] + args
        kind, text = self.watch(cmd, pr, limit, stall)
        if kind == "ok":
            m = re.search(r"^OK ?(.*)$", text, re.M)
            if not m:
                raise ToolError("no verdict from the harness: " + text[-500:])
            d = {}
            for kv in m.group(1).split():
                k, v = kv.split("=")
                d[k] = int(v)
                self.info[k] = self.info.get(k, 0) + int(v)
            return d
        if kind == "limit":
            raise ToolError("%s ran out of time" % label)
        m = re.search(r"^FAIL (.*)$", text, re.M)
        what = m.group(1) if m else "does not terminate" if kind == "stall" else "crash (%s) at %s" % (text.strip().replace("\n", " | ")[:600], self.where(pr))
        k3, t3 = self.watch(cmd[:2] + [pr + "3"] + cmd[3:], pr + "3", limit, stall)
        if k3 == "ok":
            raise ToolError("failure not reproducible: %s" % what)
        path = os.path.join(self.out, label + ".replay.txt")
        with open(path, "w") as f:
            f.write("property %s\n%s\nrun: %s\n" % (self.pid, what, " ".join(cmd)))
        raise Violation("%s [%s]" % (what, label), path)

    # ------------------------------------------------------------ verdict
    def evidence(self, violations=0):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.behaviours,
               "samples": self.samples[:4] or ["(none)"]}
        if self.ops:
            cov["operations_replayed"] = dict(sorted(self.ops.items()))
        cov.update(self.info and {"counts": self.info} or {})
        if self.exhaustive_parts:
            cov["exhaustive_parts"] = self.exhaustive_parts
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": ["the exact ring arithmetic of the specification is evaluated in double precision for comparison (tolerance 1e-9)",
                              "TLC, g++ and the C++ library are trusted"],
              "wall_s": round(wall, 2), "violations": violations}
        os.makedirs(os.path.join(WORK, "evidence"), exist_ok=True)
        with open(os.path.join(WORK, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def count(self, behs):
        self.behaviours += len(behs)
        for b in behs:
            for o in b:
                if not is_trivial(o):
                    self.ops[o["k"]] = self.ops.get(o["k"], 0) + 1

    def campaign(self, module, num, depth, runs, envs, base=0, timeout=300, src="replay"):
        """generates behaviours with TLC and replays them in every environment (name, configuration, arguments, fresh)"""
        exes = {e[1]: self.replayer(e[1], src) for e in envs}
        sims = self.behaviours_of(module, num, depth, runs, base, timeout)
        parts = [f.result() for f in sims]
        for p in parts:
            self.count(p)
        self.sample(parts[0], 1)
        jobs = []
        for name, config, args, fresh in envs:
            exe = exes[config].result()
            for i, p in enumerate(parts):
                jobs.append(self.pool.submit(self.replay, exe, p, "%s-%s-%d" % (module, name, base + i), args, fresh))
        return self.settle(jobs)

    @staticmethod
    def settle(jobs):
        """waits for all jobs; a violation takes precedence over a tool error"""
        errs = []
        for j in jobs:
            try:
                j.result()
            except Violation as v:
                raise v
            except ToolError as t:
                errs.append(t)
        if errs:
            raise errs[0]

    def replayer(self, config, src="replay"):
        return self.build(src + ".cpp", src + "-" + config, ["-DCFG=" + CONFIGS[config][0], "-DCFG_SCAN=%d" % CONFIGS[config][1]])

    def sample(self, behs, k=1, ops=6):
        for b in behs[:k]:
            self.samples.append([{x: y for x, y in o.items()} for o in b[:ops]])


def main(pid, fn):
    if TIER not in ("quick", "thorough"):
        print("unknown tier", TIER)
        sys.exit(2)
    c = Check(pid)
    try:
        fn(c)
    except Violation as v:
        c.evidence(1)
        rel = v.replay or os.path.join(c.out, "violation.txt")
        if not v.replay:
            with open(rel, "w") as f:
                f.write(v.summary + "\n")
        print("property %s is violated: %s" % (pid, v.summary))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rel, VERIF)))
        leave(1)
    except ToolError as t:
        print("NO VERDICT for %s: %s" % (pid, t))
        leave(2)
    except BaseException:
        import traceback
        traceback.print_exc()
        print("NO VERDICT for %s: the machinery failed" % pid)
        leave(2)
    c.evidence(0)
    print("%s holds on everything explored: %d states, %d transitions, %d behaviours replayed, %s, %.1f s"
          % (pid, c.states, c.transitions, c.behaviours, c.info, time.time() - c.t0))
    sys.stdout.flush()
    os._exit(0)

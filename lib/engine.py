"""Running the tools: cargo for the conformance driver, TLC for models and trace validation."""
import concurrent.futures, fcntl, itertools, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NMEA_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
OUTROOT = os.path.join(VERIF, "out")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check could not be carried out (exit 2)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(profile="dev"):
    """Build the conformance driver against /repo's working tree; returns the binary."""
    target = os.path.join(HARNESS, "target")
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    with open(os.path.join(target, ".check.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # File times of a copied tree prove nothing: always rebuild the crate under test.
        for sub in ("debug", "release"):
            fp = os.path.join(target, sub, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("nmea-parser-", "nmea-conformance-")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path",
               os.path.join(HARNESS, "Cargo.toml")]
        if profile == "release":
            cmd.append("--release")
        r = sh(cmd, env=env, cwd=HARNESS)
        if r.returncode != 0:
            raise CheckError("cannot build the conformance driver:\n" + r.stdout[-3000:])
        built = os.path.join(target, "release" if profile == "release" else "debug", "nmea-conformance")
        # A private copy, so that a later build cannot swap the binary under a running check.
        mine = os.path.join(work(), "driver-" + profile)
        shutil.copy2(built, mine)
    return mine


_work = None
_making = threading.Lock()


def work():
    global _work
    with _making:
        return _made()


def _made():
    global _work
    if _work is None:
        _work = os.path.join(OUTROOT, "run-%d" % os.getpid())
        shutil.rmtree(_work, ignore_errors=True)
        os.makedirs(_work)
    return _work


def cleanup():
    if _work:
        shutil.rmtree(_work, ignore_errors=True)


_numbers = itertools.count(1)         # drawing from it is atomic: several threads do


def fresh(name):
    return os.path.join(work(), "%s-%d" % (name, next(_numbers)))


def java(module, env, workers=1, cfg=None, heap="3g", timeout=800, extra=()):
    meta = fresh("md")
    os.makedirs(meta)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-fp", "7", "-workers", str(workers), "-metadir", meta,
           "-config", cfg or (module + ".cfg"), *extra, module + ".tla"]
    out = fresh("tlc-" + module)
    with open(out, "w") as f:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT,
                           timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left")


class Model:
    """One run of TLC on a design model or case generator."""

    def __init__(self, name, module, conf=None, env=None, cfg=None, workers=4, heap="4g", timeout=800):
        self.name, self.module, self.workers = name, module, workers
        e = dict(env or {})
        if conf is not None:
            path = fresh("conf")
            json.dump(conf, open(path, "w"))
            e["CONF"] = path
        t = time.time()
        rc, self.out = java(module, e, workers, cfg, heap, timeout)
        self.wall = time.time() - t
        self.states = self.transitions = 0
        ok = False
        tail = []
        with open(self.out, errors="replace") as f:
            for line in f:
                if line.startswith("Model checking completed. No error has been found"):
                    ok = True
                m = STATS.match(line)
                if m:
                    self.transitions, self.states = int(m.group(1)), int(m.group(2))
                if not line.startswith('"'):
                    tail.append(line)
                    tail = tail[-60:]
        if rc != 0 or not ok:
            raise CheckError("TLC did not pass %s (%s):\n%s" % (module, name, "".join(tail)))

    def lines(self, tag):
        """The text printed by the model with PrintT, without its tag, in an order that is the same
        in every run."""
        start = '"' + tag + " "
        with open(self.out, errors="replace") as f:
            out = [line.rstrip()[len(start):-1].replace('\\"', '"') for line in f if line.startswith(start)]
        return out if self.workers == 1 else sorted(out)


class Proof:
    """The proofs of one module, checked by the TLA+ proof system."""

    def __init__(self, module, timeout=900):
        home = fresh("proof")
        os.makedirs(home)
        # spec/proofs has, for ParserProofs, the decoders as unknown operators: tlapm knows no recursion
        standins = os.path.join(SPEC, "proofs")
        for place in (SPEC, standins) if os.path.exists(os.path.join(standins, module + ".tla")) else (SPEC,):
            for f in os.listdir(place):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(place, f), home)
        self.module, t = module, time.time()
        try:
            r = sh(["tlapm", "--stretch", "5", module + ".tla"], cwd=home, timeout=timeout)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise CheckError("tlapm %s: %s" % (module, e))
        m = re.search(r"All (\d+) obligations proved", r.stdout)
        if not m:
            raise CheckError("tlapm did not prove %s:\n%s" % (module, r.stdout[-2000:]))
        self.obligations, self.wall = int(m.group(1)), time.time() - t


# ---- running the real code ----------------------------------------------------------------------

def op_line(op):
    k = op[0]
    if k in "TU":
        return k + " " + " ".join(map(str, op[1]))
    if k == "N":
        return "N %d" % op[1]
    if k in "PX":
        return "%s %d %s" % (k, op[1], op[2].hex())
    if k == "Y":
        return "Y %d %d %s" % (op[1], op[2], " ".join(b.hex() for b in op[3]))
    if k == "W":
        return "W %d %s" % (op[1], " ".join(b.hex() for b in op[2]))
    if k == "Q":
        return "Q " + " ".join(",".join(b.hex() for b in side) for side in op[1:])
    if k == "M":
        return "M"
    if k == "E":
        return "E %s %d" % (op[1], op[2])
    if k == "F":
        return "F " + op[1].hex()
    if k == "C":
        return "C %d" % op[1]
    if k == "D":
        return "D " + op[1]
    raise ValueError(op)


class Shard:
    def __init__(self, episodes):
        self.episodes = episodes
        self.crashes = []

    def run(self, binary, limit_ms=20000):
        """Record the run of the real code.  An operation that kills or hangs the process is recorded
        with the result "Crash"/"Hang" and its episode ends there."""
        self.trace = fresh("trace")
        self.map = []                     # line -> (episode, op index)
        todo = list(range(len(self.episodes)))
        with open(self.trace, "w") as whole:
            tries = 0
            while todo:
                script = "".join(op_line(o) + "\n" for e in todo for o in self.episodes[e])
                part = fresh("part")
                p = subprocess.run([binary, part], input=script, text=True, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, env=dict(os.environ, TZ="VPT-13:45", OP_LIMIT_MS=str(limit_ms),
                                                                    RUST_BACKTRACE="0"))
                if p.returncode in (4, 5):
                    raise CheckError("driver: " + p.stderr)
                text = open(part).read()
                os.unlink(part)
                whole_lines, _, partial = text.rpartition("\n")
                lines = whole_lines.split("\n") if whole_lines else []
                order = [(e, k) for e in todo for k in range(len(self.episodes[e]))]
                for line, where in zip(lines, order):
                    whole.write(line + "\n")
                    self.map.append(where)
                if p.returncode == 0:
                    if len(lines) != len(order):
                        raise CheckError("driver recorded %d of %d operations" % (len(lines), len(order)))
                    break
                # The process died in the middle of operation number len(lines).
                kind = "Hang" if p.returncode == 3 else "Crash"
                where = order[len(lines)]
                if partial.endswith('"r":'):
                    whole.write(partial + '{"k":"%s"}}\n' % kind)
                    self.map.append(where)
                self.crashes.append((where, kind))
                tries += 1
                if tries >= 4:
                    break
                todo = todo[todo.index(where[0]) + 1:]
        return self

    def validate(self, prop, known, slack=4096, timeout=800):
        conf = fresh("tconf")
        json.dump(dict(prop=prop, known=sorted(known), slack=slack), open(conf, "w"))
        out = fresh("verdict")
        rc, log = java("Trace", dict(TRACE=self.trace, CONF=conf, OUT=out), 1, timeout=timeout)
        if rc != 0 or not os.path.exists(out):
            text = [l for l in open(log, errors="replace") if not l.startswith(("Parsing", "Semantic", "Linting"))]
            raise CheckError("trace validation failed:\n" + "".join(text[-40:])[-4000:])
        v = json.load(open(out))[0]
        if v["events"] != len(self.map):
            raise CheckError("trace validation stopped after %d of %d events" % (v["events"], len(self.map)))
        self.verdict = v
        return self


def spread(episodes, n):
    """Distribute episodes over n shards of about equal length, deterministically."""
    shards = [[] for _ in range(n)]
    size = [0] * n
    weight = {id(e): sum(1 + o[2] * len(o[3]) // 25 if o[0] == "Y" else 1 + len(o[2]) // 25 if o[0] == "W" else 1 for o in e) for e in episodes}
    for e in sorted(episodes, key=lambda e: weight[id(e)], reverse=True):
        i = size.index(min(size))
        shards[i].append(e)
        size[i] += weight[id(e)]
    return [Shard(s) for s in shards if s]


def parallel(fs, n=CORES):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        futures = [ex.submit(f) for f in fs]
        return [f.result() for f in futures]

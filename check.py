#!/usr/bin/env python3
"""check.py <property>            decide one property against /repo's working tree
   check.py --setup               build the driver and check that the specification's laws hold
   check.py --replay <file>       run a recorded violation again

Exit 0: held on everything explored.  1: VIOLATION.  2: the check could not be carried out."""
import concurrent.futures, json, os, random, re, subprocess, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import codec, engine
from lib.engine import CheckError, Model, Shard, CORES
from lib.plans import Plans

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SCALE = float(os.environ.get("VERIF_SCALE", "12" if TIER == "thorough" else "3"))
KNOWN = os.path.join(engine.VERIF, "known_findings.json")


class Models:
    """Runs TLC on the models a plan asks for, and keeps count."""

    def __init__(self):
        self.done, self.background, self.proofs = [], [], []
        self.pool = concurrent.futures.ThreadPoolExecutor(3)

    def keep(self, m):
        self.done.append(m)
        return m

    def run(self, module, conf=None, name=None, alphabet=None):
        if alphabet is not None:
            path = engine.fresh("alphabet")
            json.dump([[ord(c) for c in s.decode("utf-8")] for s in alphabet], open(path, "w"))
            return self.keep(Model(name or module, module, env=dict(ALPHABET=path, PRINT="1"), workers=1, heap="6g"))
        return self.keep(Model(name or module, module, conf=conf, workers=CORES, heap="8g"))

    def start(self, module):
        cfg = module + ("_deep.cfg" if TIER == "thorough" else ".cfg")
        if all(f.module != module for f in self.background):
            f = self.pool.submit(lambda: Model(module, module, cfg=cfg, workers=4 if TIER == "thorough" else 2,
                                               heap="8g", timeout=3000))
            f.module = module
            self.background.append(f)
            self.prove(module[2:] + "Proofs")

    def prove(self, module):
        if TIER == "thorough":
            self.proofs.append(self.pool.submit(engine.Proof, module))

    def finish(self):
        self.proofs = [f.result() for f in self.proofs]
        for f in self.background:
            self.keep(f.result())
        self.background = []


def laws(models):
    out = engine.fresh("tables")
    models.keep(Model("laws", "MCLaws", env=dict(OUT=out), workers=1))
    codec.load(json.load(open(out))[0])


def listed():
    return json.load(open(KNOWN))["known"] if os.path.exists(KNOWN) else []


def show(op):
    k = op[0]
    text = lambda b: b.decode("utf-8", "replace") if len(b) < 200 else b[:200].decode("utf-8", "replace") + "...(%d bytes)" % len(b)
    if k in "PX":
        return "%s parser %s: %s" % ("parse" if k == "P" else "control parse", op[1] if k == "P" else "-", text(op[2]))
    if k in "TU":
        return "clock %04d-%02d-%02d %02d:%02d:%02d" % tuple(op[1][:6]) + (".%09d" % op[1][6] if len(op[1]) > 6 else "")
    if k == "N":
        return "new parser %d" % op[1]
    if k == "Y":
        return "repeat %d times on parser %d: %s" % (op[2], op[1], " | ".join(text(b) for b in op[3][:6]))
    if k == "W":
        return "a crowd of %d on parser %d: %s ... %s" % (len(op[2]), op[1], text(op[2][0]), text(op[2][-1]))
    if k == "Q":
        return "compare the answer to %s with the answer to %s" % tuple(" | ".join(text(b) for b in side) for side in op[1:])
    return " ".join(map(str, op))


def judge(episodes, binary, prop, known, timeout=800):
    s = Shard(episodes).run(binary)
    return s.validate(prop, known, timeout=timeout)


def shrink(episode, binary, prop, known, want, deadline):
    """Leave out operations while a deviation of the same kind remains."""
    ops = list(episode)
    fails = lambda c: any(b["want"].get("k") == want for b in judge([c], binary, prop, known).verdict["bad"])
    size = max(1, len(ops) // 2)
    while size >= 1 and time.time() < deadline:
        i, cands = 0, []
        while i < len(ops):
            c = [o for j, o in enumerate(ops) if not (i <= j < i + size) or o[0] in "TN" or j == len(ops) - 1]
            if len(c) < len(ops):
                cands.append(c)
            i += size
        hit = None
        for g in range(0, len(cands), CORES):
            if time.time() > deadline:
                break
            try:
                rs = engine.parallel([lambda c=c: fails(c) for c in cands[g:g + CORES]])
            except CheckError:
                rs = []
            hit = next((c for c, r in zip(cands[g:g + CORES], rs) if r), None)
            if hit:
                break
        if hit:
            ops = hit
            size = max(1, min(size, len(ops) // 2))
        elif size == 1:
            break
        else:
            size = max(1, size // 2)
    return ops


def report(prop, n, ops, binary, known, confirmed, profile):
    s = judge([ops], binary, prop, known)
    bad = s.verdict["bad"][0] if s.verdict["bad"] else None
    d = os.path.join(engine.OUTROOT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    lines = open(s.trace).read().splitlines()
    rec = dict(property=prop, profile=profile, confirmed_alone=confirmed,
               ops=[engine.op_line(o) for o in ops], steps=[show(o) for o in ops])
    if bad:
        rec["step"] = bad["line"]
        rec["specification"] = bad["want"]
        rec["observed"] = json.loads(lines[bad["line"] - 1]).get("r", json.loads(lines[bad["line"] - 1]))
    json.dump(rec, open(path, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    if bad:
        for o in rec["steps"][-8:]:
            print("    " + o)
        print("    at step %d: specification: %s" % (bad["line"], json.dumps(bad["want"])[:700]))
        print("    at step %d: observed:      %s" % (bad["line"], json.dumps(rec["observed"])[:700]))
        if bad["want"].get("k") == rec["observed"].get("k") if isinstance(rec["observed"], dict) else False:
            print("    differs in: " + ", ".join(k for k in bad["want"] if rec["observed"].get(k) != bad["want"][k]))


def parse_op(line):
    w = line.split(" ")
    k = w[0]
    if k in "TU":
        return (k, tuple(map(int, w[1:])))
    if k == "N":
        return ("N", int(w[1]))
    if k in "PX":
        return (k, int(w[1]), bytes.fromhex(w[2]))
    if k == "Y":
        return ("Y", int(w[1]), int(w[2]), [bytes.fromhex(x) for x in w[3:]])
    if k == "W":
        return ("W", int(w[1]), [bytes.fromhex(x) for x in w[2:]])
    if k == "Q":
        return ("Q",) + tuple([bytes.fromhex(x) for x in side.split(",")] for side in w[1:])
    if k == "E":
        return ("E", w[1], int(w[2]))
    if k == "F":
        return ("F", bytes.fromhex(w[1] if len(w) > 1 else ""))
    if k == "D":
        return ("D", w[1])
    return (k, int(w[1])) if k == "C" else (k,)


def check(prop):
    t0 = time.time()
    models = Models()
    known = listed()
    ids = {k["id"] for k in known}
    builder = concurrent.futures.ThreadPoolExecutor(1)
    profiles = ["dev", "release"] if prop == "C01" else ["dev"]
    built = builder.submit(lambda: [engine.build(p) for p in profiles])
    laws(models)
    plan = Plans(prop, SEED, SCALE, models)
    getattr(plan, prop)()
    binaries = built.result()
    t1 = time.time()
    bad, tally, seen, events = [], {}, {}, 0
    jobs = []
    for profile, binary in zip(profiles, binaries):
        shards = engine.spread(plan.episodes, CORES)
        # keep shards small enough for TLC to load
        jobs += [(profile, binary, s) for big in shards for s in pieces(big)]
    engine.parallel([lambda b=b, s=s: s.run(b) for _, b, s in jobs])
    t2 = time.time()
    engine.parallel([lambda s=s: s.validate(prop, ids, timeout=3000) for _, _, s in jobs])
    models.finish()
    t3 = time.time()
    for profile, binary, s in jobs:
        events += s.verdict["events"]
        for k, n in s.verdict["tally"]:
            tally[k] = tally.get(k, 0) + n
        for k in s.verdict["known"]:
            seen.setdefault(k["id"], s.episodes[s.map[k["line"] - 1][0]][s.map[k["line"] - 1][1]])
        for b in s.verdict["bad"]:
            bad.append((profile, binary, s, b))
    for k in known:
        if k["property"] == prop and k["id"] in seen:
            print("KNOWN-FINDING: property=%s %s (%s), e.g. %s" % (prop, k["what"], k["id"], show(seen[k["id"]])))
    stateless = sum(1 for e in plan.episodes if len(e) > 2)
    evidence = dict(
        property=prop, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=sum(m.states for m in models.done), transitions=sum(m.transitions for m in models.done),
            traces_validated_against_impl=len(plan.episodes) * len(profiles),
            events_validated=events,
            models=[dict(name=m.name, module=m.module, states=m.states, transitions=m.transitions, wall_s=round(m.wall, 1))
                    for m in models.done],
            proofs=[dict(module=p.module, obligations_proved=p.obligations, wall_s=round(p.wall, 1)) for p in models.proofs],
            operations_by_source=plan.sources, results_called_for=tally,
            longest_trace=max(map(len, plan.episodes)),
            samples=[[show(o)[:300] for o in e[:6]] for e in random.Random(SEED).sample(plan.episodes, min(3, len(plan.episodes)))],
            seconds=dict(models_and_generation=round(t1 - t0, 1), recording=round(t2 - t1, 1), validation=round(t3 - t2, 1))),
        assumptions=["the specification in /verif/spec states the intended behaviour",
                     "the driver's projection of results onto the specification's records is faithful",
                     "results are judged on the recorded traces; inputs outside them are covered only by the models"],
        violations=len(bad), wall_s=round(time.time() - t0, 1))
    if bad:
        done = set()
        n = 0
        for profile, binary, s, b in sorted(bad, key=lambda x: x[3]["line"]):
            e, i = s.map[b["line"] - 1]
            kind = (b["want"].get("k"), s.episodes[e][i][0])
            if kind in done or n >= 3:
                continue
            done.add(kind)
            ops = s.episodes[e][:i + 1]
            confirmed = False
            try:
                confirmed = bool(judge([ops], binary, prop, ids).verdict["bad"])
                if confirmed:
                    ops = shrink(ops, binary, prop, ids, b["want"].get("k"), time.time() + 45)
                else:   # it takes the operations before this episode, too
                    ops = [o for x in s.episodes[:e] for o in x] + ops
            except CheckError as x:
                print(x, file=sys.stderr)
            n += 1
            report(prop, n, ops, binary, ids, confirmed, profile)
    evidence["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(engine.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d models, %d states, %d traces, %d events, %d deviations, %.1f s"
          % (prop, TIER, len(models.done), evidence["coverage"]["states"], evidence["coverage"]["traces_validated_against_impl"],
             events, len(bad), evidence["wall_s"]))
    return 1 if bad else 0


def pieces(shard, limit=40000):
    out, cur, n = [], [], 0
    for e in shard.episodes:
        if cur and n + len(e) > limit:
            out.append(Shard(cur))
            cur, n = [], 0
        cur.append(e)
        n += len(e)
    return out + [Shard(cur)] if cur else out


def main():
    if len(sys.argv) < 2:
        print(__doc__, file=sys.stderr)
        return 2
    try:
        if sys.argv[1] == "--setup":
            engine.build("dev")
            engine.build("release")
            laws(Models())
            print("ready")
            return 0
        if sys.argv[1] == "--replay":
            rec = json.load(open(sys.argv[2]))
            m = Models()
            s = judge([[parse_op(l) for l in rec["ops"]]], engine.build(rec["profile"]), rec["property"], {k["id"] for k in listed()})
            for b in s.verdict["bad"]:
                print("VIOLATION property=%s replay=%s" % (rec["property"], sys.argv[2]))
                print("    step %d: specification: %s" % (b["line"], json.dumps(b["want"])))
                print("    observed: " + open(s.trace).read().splitlines()[b["line"] - 1][:2000])
            return 1 if s.verdict["bad"] else 0
        return check(sys.argv[1])
    except (CheckError, subprocess.TimeoutExpired) as e:
        print("the check could not be carried out: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        engine.cleanup()


if __name__ == "__main__":
    sys.exit(main())

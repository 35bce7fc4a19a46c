#!/usr/bin/env python3
"""Does trace validation notice?  Records runs of the real code, then corrupts the recording in one
place at a time (one field of one result, a lost, repeated or swapped event, another kind of result)
and requires the trace specification to object - and to accept the recording as it was."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from lib import engine
from lib.plans import Plans

SEED = int(os.environ.get("VERIF_SEED", "1"))
N = int(os.environ.get("BINDING_MUTATIONS", "24"))


def other(v, r):
    """A different value of the same shape."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1, 7])
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, list):
        if not v:
            return [1]
        if r.random() < 0.3:
            return []
        i = r.randrange(len(v))
        return v[:i] + [other(v[i], r)] + v[i + 1:]
    return {k: (other(x, r) if i == 0 else x) for i, (k, x) in enumerate(v.items())}


def mutate(events, r):
    """One corrupted copy, and what was done."""
    es = json.loads(json.dumps(events))
    ps = [i for i, e in enumerate(es) if e["op"] == "P"]
    how = r.choice(["field", "field", "field", "kind", "lose", "swap"])
    if how == "field":
        i = r.choice([i for i in ps if len(es[i]["r"]) > 1])
        f = r.choice([k for k in es[i]["r"] if k != "k"])
        before = es[i]["r"][f]
        es[i]["r"][f] = other(before, r)
        return es, "event %d: %s.%s %s -> %s" % (i, es[i]["r"]["k"], f, before, es[i]["r"][f])
    if how == "kind":
        i = r.choice(ps)
        was = es[i]["r"]["k"]
        es[i]["r"] = {"k": "Incomplete"} if was != "Incomplete" else {"k": "Err", "e": "Invalid"}
        return es, "event %d: %s -> %s" % (i, was, es[i]["r"]["k"])
    def key(i):            # of half a message: kind, id, channel; number
        f = "".join(map(chr, es[i]["s"])).split(",")
        return (f[0][3:], f[3], f[4], f[2]) if len(f) > 5 and f[0][:1] == "!" and f[1] == "2" and f[2] in "12" else None
    c = [i for i in ps if i + 1 in ps and es[i]["r"]["k"] == "Incomplete" and es[i + 1]["r"]["k"] not in ("Incomplete", "Err")
         and key(i) and key(i + 1) and key(i)[:3] == key(i + 1)[:3] and key(i)[3] != key(i + 1)[3]
         and not any(es[j].get("s", [])[14:-5] == es[i]["s"][14:-5] for j in range(i))]   # a repeated half may well go missing
    i = r.choice(c)
    if how == "lose":      # a half that the next sentence completes
        return es[:i] + es[i + 1:], "event %d lost" % i
    es[i], es[i + 1] = es[i + 1], es[i]
    return es, "events %d and %d swapped" % (i, i + 1)


def main():
    models = check.Models()
    check.laws(models)
    binary = engine.build()
    g = Plans("binding", SEED, 1, models)
    for _ in range(6):
        g.episode(g.history(200, w=dict(frag=6, gsv=2, t24=3, plain=3, clock=0.1)), "random histories")
    g.random_messages(["t1", "t4", "t6", "t9", "t10", "t18", "t21", "t5"], 150)
    g.gnss_messages(["GGA", "RMC", "GSA", "VTG", "GLL"], 150)
    r = random.Random(SEED)
    base = engine.Shard(g.episodes).run(binary)
    known = {k["id"] for k in check.listed()}
    base.validate("C09", known)
    assert not base.verdict["bad"], base.verdict["bad"]
    events = [json.loads(l) for l in open(base.trace)]
    print("unchanged: %d events accepted" % len(events))

    def one(k):
        es, what = mutate(events, random.Random("%d/%d" % (SEED, k)))
        s = engine.Shard([])
        s.trace = engine.fresh("mutant")
        with open(s.trace, "w") as f:
            for e in es:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        s.map = [None] * len(es)
        s.validate("C09", known)
        return what, bool(s.verdict["bad"]), bool(s.verdict["known"])
    missed = 0
    for what, noticed, _ in engine.parallel([lambda k=k: one(k) for k in range(N)], 4):
        print(("noticed  " if noticed else "MISSED   ") + what)
        missed += not noticed
    print("%d of %d corruptions noticed" % (N - missed, N))
    return 1 if missed else 0


try:
    sys.exit(main())
finally:
    engine.cleanup()

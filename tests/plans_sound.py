"""Every plan, for several seeds and both tiers' scales: it can be made, always in the same way, and
its operations are ones the driver takes."""
import hashlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from lib import engine
from lib.plans import Plans


class Cached:
    def __init__(self):
        self.real, self.memo = check.Models(), {}

    def run(self, module, conf=None, name=None, alphabet=None):
        key = json.dumps([module, conf, name, [a.hex() for a in alphabet] if alphabet else None])
        if key not in self.memo:
            self.memo[key] = self.real.run(module, conf, name, alphabet)
        return self.memo[key]

    def start(self, module):
        pass


def main(seeds, scale, props):
    m = Cached()
    check.laws(m.real)
    for prop in props:
        seen = {}
        for seed in list(seeds) + [seeds[0]]:
            p = Plans(prop, seed, scale, m)
            getattr(p, prop)()
            h = hashlib.sha256()
            for e in p.episodes:
                for o in e:
                    h.update(engine.op_line(o).encode())
                    if o[0] in "PX":
                        o[2].decode("utf-8")
                    elif o[0] == "Y":
                        [b.decode("utf-8") for b in o[3]]
            if seed in seen:
                assert seen[seed] == h.hexdigest(), "%s is not made the same way twice" % prop
            seen[seed] = h.hexdigest()
        print(prop, len(p.episodes), sum(map(len, p.episodes)), seen[seeds[0]][:12], flush=True)


if __name__ == "__main__":
    try:
        n = int(sys.argv[1]) if len(sys.argv) > 1 else 5
        props = sys.argv[3:] or ["C%02d" % i for i in range(1, 31)]
        main(range(1, n + 1), float(sys.argv[2]) if len(sys.argv) > 2 else 2, props)
    finally:
        engine.cleanup()

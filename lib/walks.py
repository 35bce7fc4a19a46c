"""Walks over a state graph printed by TLC that take every transition."""
import collections, json
from . import engine


def graph(model):
    """MCParser prints: EDGE <from> <symbol> <to> <kind>"""
    edges = collections.defaultdict(dict)
    kinds = collections.Counter()
    for line in model.lines("EDGE"):
        a, i, b, k = line.split()
        edges[int(a)][int(i) - 1] = int(b)
        kinds[k] += 1
    return edges, kinds


def cover(edges, start, rng, limit):
    """Symbol sequences from start that together take every edge, each at most `limit` long."""
    left = {s: sorted(e) for s, e in edges.items()}
    for l in left.values():
        rng.shuffle(l)
    open_ = {s for s, l in left.items() if l}
    walks = []
    while open_:
        here, walk = start, []
        progress = False
        while len(walk) < limit:
            if left.get(here):
                s = left[here].pop()
                if not left[here]:
                    open_.discard(here)
                walk.append(s)
                here = edges[here][s]
                progress = True
                continue
            path = nearest(edges, here, open_)
            if path is None or len(walk) + len(path) >= limit and progress:
                break
            for s in path:
                walk.append(s)
                here = edges[here][s]
        if not progress:
            break
        walks.append(walk)
    return walks


def nearest(edges, here, goals):
    if not goals:
        return None
    seen = {here: None}
    q = collections.deque([here])
    while q:
        x = q.popleft()
        if x in goals:
            path = []
            while seen[x] is not None:
                x, s = seen[x]
                path.append(s)
            return path[::-1]
        for s, y in edges.get(x, {}).items():
            if y not in seen:
                seen[y] = (x, s)
                q.append(y)
    return None

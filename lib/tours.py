"""Turns the labelled state graph TLC prints into executable tours."""
import json
from collections import deque


class Graph:
    """States are canonical JSON strings; edges keep their operation."""

    def __init__(self):
        self.out = {}
        self.init = set()
        self.n = 0

    @staticmethod
    def key(x):
        if isinstance(x, list):
            return json.dumps(x, sort_keys=True)
        return json.dumps(x, sort_keys=True)

    def add(self, s, op, t):
        k = json.dumps(op, sort_keys=True)
        d = self.out.setdefault(s, {})
        self.out.setdefault(t, {})
        if (k, t) not in d:
            d[(k, t)] = op
            self.n += 1


def tours(graph, start, rng, maxlen, skip=lambda op: False):
    """Paths from `start` that together take every edge not skipped at least
    once: greedy walk, nearest untried edge next.  Yields lists of
    (op, target)."""
    todo = {s: [(op, t) for (k, t), op in e.items() if not skip(op)] for s, e in graph.out.items()}
    for s in todo:
        rng.shuffle(todo[s])
    succ = {}
    for s, e in graph.out.items():
        one = {}
        for (k, t), op in e.items():
            if t != s and not skip(op):
                one.setdefault(t, op)
        succ[s] = [(op, t) for t, op in one.items()]

    def nearest(s):
        """shortest path from s to a state with an untried edge"""
        seen = {s: None}
        q = deque([s])
        while q:
            u = q.popleft()
            if todo.get(u):
                path = []
                while seen[u] is not None:
                    p, op = seen[u]
                    path.append((op, u))
                    u = p
                return path[::-1]
            for op, t in succ.get(u, ()):
                if t not in seen:
                    seen[t] = (u, op)
                    q.append(t)
        return None

    while True:
        cur, tour = start, []
        while len(tour) < maxlen:
            if todo.get(cur):
                op, t = todo[cur].pop()
                tour.append((op, t))
                cur = t
                continue
            p = nearest(cur)
            if p is None:
                break
            if tour and len(tour) + len(p) > maxlen:
                break
            tour += p
            cur = tour[-1][1]
        if not tour:
            return
        if not any(True for _ in tour):
            return
        yield tour
        if nearest(start) is None:
            return


def paths_to_all(graph, start):
    """Shortest path (list of (op, state)) to every reachable state."""
    res = {start: []}
    q = deque([start])
    while q:
        u = q.popleft()
        for (k, t), op in graph.out.get(u, {}).items():
            if t not in res and not op.get("terminal"):
                res[t] = res[u] + [(op, t)]
                q.append(t)
    return res

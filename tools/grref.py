"""Reference for grounded persistent path homology over the integers mod 2 (independent of the library).

Vectors are Python integers (bit i = i-th edge in (value, edge) order).
"""
import heapq, itertools, math

INF = float("inf")


def shortest(n, edges):
    """Entry times of ordered pairs: shortest path lengths over edges of finite weight."""
    w = {}
    for i, j, x in edges:
        if x < INF:
            w[(i, j)] = min(x, w.get((i, j), INF))
    out = [[] for _ in range(n)]
    for (i, j), x in w.items():
        out[i].append((j, x))
    time = {}
    for s in range(n):
        if not out[s]:
            continue
        dist = {s: 0.0}
        heap = [(0.0, s)]
        done = set()
        while heap:
            d, u = heapq.heappop(heap)
            if u in done:
                continue
            done.add(u)
            for v, x in out[u]:
                c = d + x
                if c < dist.get(v, INF):
                    dist[v] = c
                    heapq.heappush(heap, (c, v))
        for t, d in dist.items():
            if t != s:
                time[(s, t)] = d
    return time


class Echelon:
    """Span of vectors, reduced so that all have distinct top bits."""

    def __init__(self):
        self.rows = {}

    def reduce(self, v):
        rows = self.rows
        while v:
            p = v.bit_length() - 1
            r = rows.get(p)
            if r is None:
                return v
            v ^= r
        return 0

    def insert(self, v):
        """Top bit of the new direction, or None if v was in the span already."""
        v = self.reduce(v)
        if v:
            p = v.bit_length() - 1
            self.rows[p] = v
            return p
        return None


class Ref:
    def __init__(self, n, edges):
        self.n = n
        self.ground = sorted(set((i, j) for i, j, _ in edges))
        self.time = shortest(n, edges)
        g = set(self.ground)
        vals = {e: 0.0 for e in g}
        for e, t in self.time.items():
            vals.setdefault(e, t)
        self.value = vals
        self.order = sorted(vals, key=lambda e: (vals[e], e))
        self.bit = {e: k for k, e in enumerate(self.order)}
        self.times = sorted(set(self.time.values()))

    def vec(self, es):
        v = 0
        for e in es:
            v ^= 1 << self.bit[e]
        return v

    def d2(self, p):
        a, b, c = p
        es = [(a, b), (b, c)]
        if a != c:
            es.append((a, c))
        return es

    def spans(self):
        """For every critical time: (time, vectors spanning, together with the earlier ones, the boundaries
        of the two-paths at that time whose boundary consists of edges present then)."""
        tm = self.time
        succ = {}
        for (a, b) in tm:
            succ.setdefault(a, []).append(b)
        groups = {}
        for (a, b) in tm:
            for c in succ.get(b, ()):
                groups.setdefault((a, c), []).append((max(tm[(a, b)], tm[(b, c)]), b))
        events = {t: [] for t in self.times}
        for (a, c), bs in groups.items():
            bs.sort()
            cut = -INF if a == c else tm.get((a, c), INF)
            first = None
            pending = []
            for t, b in bs:
                if t >= cut:
                    events[t].append(self.vec(self.d2((a, b, c))))
                else:
                    # the shortcut is missing: only differences are invariant
                    half = ((a, b), (b, c))
                    if first is None:
                        first = half
                        pending.append(b)
                    else:
                        events[t].append(self.vec(first) ^ self.vec(half))
            if pending and cut < INF:
                for b in pending:
                    events[cut].append(self.vec(self.d2((a, b, c))))
        for t in self.times:
            yield t, events[t]

    def spans_naive(self, t):
        """Boundaries of a basis of the invariant two-paths at time t, by Gaussian elimination."""
        tm = self.time
        e = [x for x in tm if tm[x] <= t]
        paths = [(a, b, d) for (a, b) in e for (c, d) in e if b == c]
        out = {}
        rows = []
        for k, p in enumerate(paths):
            con = 0
            q = (p[0], p[2])
            if q[0] != q[1] and not (q in tm and tm[q] <= t):
                con = 1 << out.setdefault(q, len(out))
            rows.append((con, 1 << k))
        piv, ker = {}, []
        for con, comb in rows:
            while con:
                h = con.bit_length() - 1
                if h not in piv:
                    piv[h] = (con, comb)
                    break
                con ^= piv[h][0]
                comb ^= piv[h][1]
            if not con:
                ker.append(comb)
        res = []
        for comb in ker:
            acc = {}
            for k, p in enumerate(paths):
                if comb >> k & 1:
                    for x in self.d2(p):
                        acc[x] = acc.get(x, 0) ^ 1
            res.append(self.vec([x for x, y in acc.items() if y]))
        return res

    def births(self):
        """Edges that close a cycle when added in order (as bits), and components at every step."""
        parent = list(range(self.n))

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x

        cyc, joins = [], []
        for k, (a, b) in enumerate(self.order):
            x, y = find(a), find(b)
            if x == y:
                cyc.append(k)
            else:
                parent[x] = y
                joins.append(k)
        comps = sum(1 for v in range(self.n) if find(v) == v)
        return cyc, joins, comps

    def val(self, k):
        return self.value[self.order[k]]

    def barcode(self):
        """(essential[0..1], finite[0..1]) sorted; finite bars of positive length only."""
        cyc, joins, comps = self.births()
        fin0 = [(0.0, self.val(k)) for k in joins if self.val(k) > 0.0]
        ech = Echelon()
        fin1 = []
        for t, vs in self.spans():
            for v in vs:
                p = ech.insert(v)
                if p is not None and self.val(p) != t:
                    fin1.append((self.val(p), t))
        ess1 = [self.val(k) for k in cyc if k not in ech.rows]
        return [[0.0] * comps, sorted(ess1)], [sorted(fin0), sorted(fin1)]

    def components(self):
        parent = list(range(self.n))

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x

        for a, b in self.ground:
            parent[find(a)] = find(b)
        return sum(1 for v in range(self.n) if find(v) == v)


def rank(vs):
    e = Echelon()
    for v in vs:
        e.insert(v)
    return len(e.rows)


def cycle_space(ref, t):
    """Basis of the cycles on the edges of value at most t."""
    es = [k for k in range(len(ref.order)) if ref.val(k) <= t]
    piv, ker = {}, []
    for k in es:
        a, b = ref.order[k]
        con, comb = (1 << a) ^ (1 << b), 1 << k
        while con:
            h = con.bit_length() - 1
            if h not in piv:
                piv[h] = (con, comb)
                break
            con ^= piv[h][0]
            comb ^= piv[h][1]
        if not con:
            ker.append(comb)
    return ker


def self_check(rng, gen):
    """The reference against the definition: ranks of inclusion maps in homology at all pairs of times."""
    for _ in range(60):
        n, edges = gen(rng, rng.randint(1, 5))
        ref = Ref(n, edges)
        (e0, e1), (f0, f1) = ref.barcode()
        grid = sorted(set([0.0] + ref.times))
        ech = Echelon()
        spans = dict(ref.spans())
        bases = {}
        for t in grid:
            for v in spans.get(t, []):
                ech.insert(v)
            bases[t] = list(ech.rows.values())
            nv = ref.spans_naive(t)
            assert rank(nv) == len(bases[t]) == rank(nv + bases[t]), (n, edges, t)
        for s in grid:
            z = cycle_space(ref, s)
            for t in grid:
                if t < s:
                    continue
                # rank of H1(s) -> H1(t) = dim (Z(s) + B(t)) - dim B(t)
                r = rank(z + bases[t]) - len(bases[t])
                bars = sum(1 for b in e1 if b <= s) + sum(1 for b, d in f1 if b <= s and d > t)
                assert r == bars, ("reference barcode", n, edges, s, t, r, bars)
        assert len(e0) == ref.components()

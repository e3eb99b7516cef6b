#!/usr/bin/env python3
"""Monitors of the Python module phlite_grpph (C23, C24, C25). Same command line and report as the Rust drivers.

usage: grpy.py PROP MODULE_DIR --seed S --cases N --deadline D --threads T --out F --slots F [--thorough] [--only K]
"""
import hashlib, json, os, random, signal, struct, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from grref import INF, Echelon, Ref, rank, self_check  # noqa: E402


class Viol(Exception):
    pass


class Skip(Exception):
    pass


def ensure(c, msg):
    if not c:
        raise Viol(msg)


# ------------------------------------------------------------------ workloads
def weights(rng):
    k = rng.randrange(9)
    if k == 0:
        return lambda: 1.0
    if k == 1:
        return lambda: float(rng.randint(1, 3))
    if k == 2:
        return lambda: rng.choice([1.0, 1.0, 2.0, INF])
    if k == 3:
        return lambda: rng.choice([0.0, -0.0, 1.0, 2.0])
    if k == 4:
        return lambda: rng.choice([0.1, 0.2, 0.3, 0.30000000000000004, 0.7])
    if k == 5:
        return lambda: rng.choice([5e-324, 1e-300, 1.0, 1e15, 1e300])
    if k == 6:
        return lambda: float(rng.randint(1, 20))
    return lambda: rng.random() * 10 + 1e-9


def digraph(rng, n):
    w = weights(rng)
    kind = rng.randrange(13)
    es = set()
    V = range(n)
    if kind <= 3:
        p = rng.choice([0.1, 0.25, 0.5, 0.8, 1.0]) if n <= 14 else rng.choice([1.0, 2.0, 4.0]) / n
        es = {(i, j) for i in V for j in V if i != j and rng.random() < p}
    elif kind == 4:  # cycle with chords
        es = {(i, (i + 1) % n) for i in V if n > 1}
        for _ in range(rng.randrange(3)):
            i, j = rng.randrange(n), rng.randrange(n)
            if i != j:
                es.add((i, j))
    elif kind == 5:  # acyclic
        es = {(i, j) for i in V for j in V if i < j and rng.random() < (0.5 if n <= 14 else 4.0 / n)}
    elif kind == 6:  # layers: long squares
        k = rng.randint(2, 4)
        es = {(i, j) for i in V for j in V if i % k + 1 == j % k and rng.random() < (0.8 if n <= 14 else 6.0 / n)}
    elif kind == 7:  # undirected cycle, random orientations
        for i in V:
            j = (i + 1) % n
            if i != j:
                es.add((i, j) if rng.random() < 0.5 else (j, i))
    elif kind == 8:  # double edges
        for i in V:
            for j in range(i):
                if rng.random() < (0.4 if n <= 14 else 2.0 / n):
                    es |= {(i, j), (j, i)}
    elif kind == 9:  # tournament
        if n <= 14:
            for i in V:
                for j in range(i):
                    es.add((i, j) if rng.random() < 0.5 else (j, i))
    elif kind == 10:  # shortcut over bridges
        for b in range(2, n):
            if rng.random() < 0.9:
                es |= {(0, b), (b, 1)} if rng.random() < 0.9 else {(b, 0), (b, 1)}
        if n > 1 and rng.random() < 0.7:
            es.add((0, 1))
    elif kind == 11:  # several components
        k = rng.randint(1, max(1, n // 2))
        es = {(i, j) for i in V for j in V if i != j and i % k == j % k and rng.random() < (0.5 if n <= 14 else 6.0 / n)}
    else:  # grid
        m = max(1, int(n ** 0.5))
        for i in V:
            if i % m + 1 < m and i + 1 < n:
                es.add((i, i + 1))
            if i + m < n:
                es.add((i, i + m))
    es = sorted(es)
    edges = [(i, j, w()) for i, j in es]
    if kind == 10:
        edges = [(i, j, x if (i, j) != (0, 1) else x * rng.choice([0.5, 1.0, 4.0])) for i, j, x in edges]
    rng.shuffle(edges)
    return n, edges


def size(rng, thorough):
    k = rng.randrange(1000)
    if k < 700:
        return rng.randint(1, 7)
    if k < 950:
        return rng.randint(6, 11)
    if k < 995:
        return rng.randint(10, 18)
    return rng.choice([24, 30, 40] + ([100, 300] if thorough else []))


def build(shape):
    """("cycle", n, w): a directed cycle of n edges of weight w. ("parallel", xs, ys): two directed paths from
    vertex 0 to vertex 1 with these weights."""
    if shape[0] == "cycle":
        n = shape[1]
        return n, [(i, (i + 1) % n, shape[2]) for i in range(n)]
    edges, nxt = [], 2
    for ws in shape[1:]:
        u = 0
        for w in ws[:-1]:
            edges.append((u, nxt, w))
            u, nxt = nxt, nxt + 1
        edges.append((u, 1, ws[-1]))
    return nxt, edges


def death(shape):
    """Death of the only degree 1 bar of a shape: the best halving of the cycle, or of both paths (a
    path that is a single edge waits for its own length). All weights are such that sums are exact. The self check compares this with the reference on small shapes."""
    if shape[0] == "cycle":
        return (shape[1] + 1) // 2 * shape[2]

    def halve(ws):
        return min([max(sum(ws[:k]), sum(ws[k:])) for k in range(1, len(ws))], default=0.0)

    d = max(halve(shape[1]), halve(shape[2]))
    if 1 in (len(shape[1]), len(shape[2])):
        # the two-path over the halves needs its shortcut, which is there from the distance on
        d = max(d, min(sum(shape[1]), sum(shape[2])))
    return d


def hops(shape):
    """Edges on the longest shortest path (a lower bound) that decides the death."""
    if shape[0] == "cycle":
        return (shape[1] + 1) // 2
    best = 0
    for ws in shape[1:]:
        for k in range(1, len(ws)):
            for part in (ws[:k], ws[k:]):
                if sum(part) == death(shape):
                    best = max(best, len(part))
    return best


def long_shape(rng, most):
    kind = rng.randrange(4)
    a = rng.randint(3, most)
    w = rng.choice([1.0, 1.0, 2.0, 7.0, 0.25])
    if kind == 0:
        return ("cycle", a, w)
    xs = [w] * a
    if kind == 1:  # one edge as long as all others: half of the path has nearly all edges
        xs = [w] * (a - 1)
        xs.insert(rng.choice([0, a - 1, rng.randrange(a)]), w * (a - 1))
    elif kind == 2:
        xs = [float(rng.randint(1, 5)) for _ in range(a)]
    b = rng.choice([1, 2, rng.randint(1, a)])
    return ("parallel", xs, [float(rng.choice([w, w, 3.0, sum(xs)])) for _ in range(b)])


def wide_shape(rng, most):
    """Shapes with many edges and two-cells whose barcode is known: every circuit dies at the weight w.
    ("complete", n, w): all n(n-1) edges. ("layers", a, b, c, w): all edges from a first to a second and from there
    to a third layer."""
    w = rng.choice([1.0, 1.0, 2.0, 7.0, 0.25, 0.1])
    if rng.random() < 0.5:
        return ("complete", rng.randint(2, most), w)
    return ("layers", rng.randint(1, most), rng.randint(2, most), rng.randint(1, most), w)


def wide(shape):
    """(n, edges), number of bars, death."""
    if shape[0] == "complete":
        n, w = shape[1:]
        return (n, [(i, j, w) for i in range(n) for j in range(n) if i != j]), (n - 1) ** 2, w
    a, b, c, w = shape[1:]
    es = [(i, a + j, w) for i in range(a) for j in range(b)] + [(a + j, a + b + k, w) for j in range(b) for k in range(c)]
    return (a + b + c, es), (b - 1) * (a + c - 1), w


def scattered(rng, most):
    """Many small digraphs among many isolated vertices: (n, edges), barcode."""
    parts, ess, fin = [], [[], []], [[], []]
    total = rng.randint(20, most)
    while sum(n for n, _ in parts) < total * rng.choice([0.05, 0.2, 1.0]):
        p = digraph(rng, rng.randint(1, 6))
        parts.append(p)
        r = Ref(*p).barcode()
        for d in (0, 1):
            ess[d] += r[0][d]
            fin[d] += r[1][d]
    iso = max(0, total - sum(n for n, _ in parts))
    ess[0] += [0.0] * iso
    return place(rng, parts + [(iso, [])]), ([sorted(x) for x in ess], [sorted(x) for x in fin])


def shapes_check():
    rng = random.Random(5)
    for shape in [("complete", n, 0.1) for n in range(2, 6)] + [wide_shape(rng, 4) for _ in range(40)]:
        (n, es), k, w = wide(shape)
        got = Ref(n, es).barcode()
        assert got == ([[0.0], []], [[], [(0.0, w)] * k]), (shape, got)
    for _ in range(20):
        (n, es), want = scattered(rng, 25)
        assert n > 200 or Ref(n, es).barcode() == want, (n, es)
    for shape in [("cycle", n, 1.0) for n in range(2, 14)] + [long_shape(rng, rng.randint(3, 11)) for _ in range(150)]:
        n, es = build(shape)
        got = Ref(n, es).barcode()
        want = death(shape)
        assert got == ([[0.0], []], [[], [(0.0, want)]]), (shape, got)


def place(rng, parts):
    """Disjoint union of (n, weighted edges), vertices shuffled."""
    m = sum(n for n, _ in parts)
    q = rng.sample(range(m), m)
    out, off = [], 0
    for n, es in parts:
        out += [(q[off + i], q[off + j], x) for i, j, x in es]
        off += n
    rng.shuffle(out)
    return m, out


def draw(rng, thorough):
    if rng.random() < 1 / 300:
        # long shortest paths: dozens of edges
        n, edges = build(long_shape(rng, 44))
        w = rng.choice([1.0, 0.1, 3.0])
        if rng.random() < 0.5:
            i, j = rng.sample(range(n), 2)
            edges = [e for e in edges if e[:2] != (i, j)] + [(i, j, rng.choice([w, 5 * w, n * w / 2]))]
        return place(rng, [(n, edges)])
    n, edges = digraph(rng, size(rng, thorough))
    if rng.random() < 0.05:
        # isolated vertices before, between and after; large vertex numbers
        m = n + rng.choice([1, 2, 5, 260])
        to = sorted(rng.sample(range(m), n))
        n, edges = m, [(to[i], to[j], x) for i, j, x in edges]
    return n, edges


# ------------------------------------------------------------------ the module
def norm(r):
    ess, fin = r[0], r[1]
    ensure(len(ess) == 2 and len(fin) == 2, "result does not have degrees 0 and 1: %r" % (r,))
    return [sorted(x) for x in ess], [sorted(tuple(p) for p in x) for x in fin]


def show(b):
    s = repr(b)
    return s if len(s) < 600 else s[:600] + "..."


class Mod:
    def __init__(self, m, ctx):
        self.m = m
        self.ctx = ctx

    def call(self, name, n, edges):
        self.ctx["calls"] = self.ctx.get("calls", 0) + 1
        try:
            return getattr(self.m, name)(n, edges)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # PanicException derives from BaseException
            raise Viol("%s raised %s: %s" % (name, type(e).__name__, e))


def expect(got, want, what):
    for k, name in enumerate(["infinite", "finite"]):
        for d in (0, 1):
            ensure(got[k][d] == want[k][d], "%s: %s bars of degree %d are %s, expected %s" %
                   (what, name, d, show(got[k][d]), show(want[k][d])))


def c23_long(mod, rng, ctx, thorough):
    """Shortest paths of up to a hundred edges (more when thorough), where the answer is known in closed form."""
    shapes = [long_shape(rng, 170 if thorough else 100) for _ in range(rng.choice([1, 1, 2]))]
    parts = [build(s) for s in shapes]
    bars = [(0.0, death(s)) for s in shapes]
    n, edges = place(rng, parts)
    ctx["sample"] = (n, edges)
    want = ([[0.0] * len(parts), []], [[], sorted(bars)])
    expect(norm(mod.call("grpph", n, edges)), want, "grpph, long shapes %r" % (shapes,))
    expect(norm(mod.call("grpph_with_involution", n, edges)), want, "grpph_with_involution, long shapes %r" % (shapes,))
    ctx["long_shapes"] = len(parts)
    ctx["max_longest_deciding_path"] = max(hops(s) for s in shapes)
    ctx["bars_compared"] = 2 * len(bars)
    ctx["max_most_vertices"] = n
    ctx["nontrivial"] = True


def c23_wide(mod, rng, ctx, thorough):
    """Thousands of edges and two-cells, or more than a thousand vertices, where the answer is known."""
    if rng.random() < 0.5:
        shapes = [wide_shape(rng, 40 if thorough else 22) for _ in range(rng.choice([1, 1, 2]))]
        ws = [wide(s) for s in shapes]
        n, edges = place(rng, [x[0] for x in ws])
        want = ([[0.0] * len(ws), []], [[], sorted((0.0, w) for _, k, w in ws for _ in range(k))])
        what = repr(shapes)
    else:
        (n, edges), want = scattered(rng, 3000 if thorough else 1200)
        what = "scattered digraphs"
    ctx["sample"] = (n, edges)
    expect(norm(mod.call("grpph", n, edges)), want, "grpph, " + what)
    expect(norm(mod.call("grpph_with_involution", n, edges)), want, "grpph_with_involution, " + what)
    ctx["wide_shapes"] = 1
    ctx["bars_compared"] = 2 * sum(len(x) for k in want for x in k)
    ctx["max_most_vertices"] = n
    ctx["max_most_edges"] = len(edges)
    ctx["nontrivial"] = True


def c23(mod, rng, ctx, thorough):
    if rng.random() < 1 / 400:
        return c23_wide(mod, rng, ctx, thorough)
    if rng.random() < 1 / 200:
        return c23_long(mod, rng, ctx, thorough)
    n, edges = draw(rng, thorough)
    ctx["sample"] = (n, edges)
    ref = Ref(n, edges)
    want = ref.barcode()
    a = norm(mod.call("grpph", n, edges))
    expect(a, want, "grpph")
    b = norm(mod.call("grpph_with_involution", n, edges))
    expect(b, want, "grpph_with_involution")
    for r in (a, b):
        ess, fin = r
        ensure(ess[0] == [0.0] * ref.components(), "degree 0: %s infinite bars for %d components" % (ess[0], ref.components()))
        ensure(fin[0] == [], "finite bars in degree 0: %s" % show(fin[0]))
        ensure(all(x == 0.0 for x in ess[1]) and all(x == 0.0 for x, _ in fin[1]), "a degree 1 bar is not born at 0: %s" % show(r))
        if all(x > 0.0 for _, _, x in edges):
            rankc = len(ref.ground) - n + ref.components()
            ensure(len(ess[1]) + len(fin[1]) == rankc, "%d degree 1 bars, circuit rank %d" % (len(ess[1]) + len(fin[1]), rankc))
            ctx["circuit_ranks"] = 1
    ctx["bars_compared"] = 2 * sum(len(x) for k in want for x in k)
    ctx["finite_degree_one_bars"] = len(want[1][1])
    ctx["infinite_degree_one_bars"] = len(want[0][1])
    ctx["isolated_vertices"] = n - len({v for e in ref.ground for v in e})
    ctx["infinite_weights"] = sum(1 for e in edges if e[2] == INF)
    ctx["zero_weights"] = sum(1 for e in edges if e[2] == 0.0)
    ctx["max_most_vertices"] = n
    ctx["max_most_edges"] = len(edges)
    ctx["nontrivial"] = len(want[1][1]) > 0


def c24_wide(mod, rng, ctx, thorough):
    """Thousands of edges, where every circuit dies at one and the same time."""
    shape = wide_shape(rng, 30 if thorough else 14)
    part, k, w = wide(shape)
    n, edges = place(rng, [part])
    ctx["sample"] = (n, edges)
    ess, fin, reps = mod.call("grpph_with_involution", n, edges)
    ensure([tuple(x) for x in fin[1]] == [(0.0, w)] * k, "%r: finite degree 1 bars %s" % (shape, show(fin[1])))
    ensure(len(reps) == k, "%r: %d representatives for %d finite degree 1 bars" % (shape, len(reps), k))
    number = {(i, j): m for m, (i, j, _) in enumerate(edges)}
    ech = Echelon()
    for r in reps:
        r = [tuple(e) for e in r]
        ensure(len(r) > 0 and len(set(r)) == len(r), "%r: representative %s is empty or repeats an edge" % (shape, show(r)))
        deg, v = {}, 0
        for e in r:
            ensure(e in number, "%r: representative contains %r, which is no edge" % (shape, e))
            v ^= 1 << number[e]
            for a in e:
                deg[a] = deg.get(a, 0) ^ 1
        ensure(not any(deg.values()), "%r: representative %s is no cycle modulo 2" % (shape, show(r)))
        ensure(ech.insert(v) is not None, "%r: the representatives are dependent (at %s)" % (shape, show(r)))
    ctx["wide_shapes"] = 1
    ctx["representatives"] = len(reps)
    ctx["max_most_representatives"] = len(reps)
    ctx["max_most_vertices"] = n
    ctx["nontrivial"] = True


def c24(mod, rng, ctx, thorough):
    if rng.random() < 1 / 400:
        return c24_wide(mod, rng, ctx, thorough)
    n, edges = draw(rng, thorough)
    ctx["sample"] = (n, edges)
    ref = Ref(n, edges)
    want = ref.barcode()
    ess, fin, reps = mod.call("grpph_with_involution", n, edges)
    ensure(len(reps) == len(fin[1]), "%d representatives for %d finite degree 1 bars" % (len(reps), len(fin[1])))
    ensure(len(reps) == len(want[1][1]), "%d representatives, but %d finite degree 1 bars by ranks" % (len(reps), len(want[1][1])))
    ground = set(ref.ground)
    vecs = []
    for r in reps:
        r = [tuple(e) for e in r]
        ensure(len(r) > 0, "empty representative")
        ensure(len(set(r)) == len(r), "representative %s repeats an edge" % show(r))
        deg = {}
        for (a, b) in r:
            ensure((a, b) in ground or ref.time.get((a, b)) == 0.0,
                   "representative %s contains (%d, %d), which is no edge present at time 0" % (show(r), a, b))
            deg[a] = deg.get(a, 0) ^ 1
            deg[b] = deg.get(b, 0) ^ 1
        ensure(not any(deg.values()), "representative %s is no cycle modulo 2" % show(r))
        vecs.append(ref.vec(r))
    # deaths: first time the class is a boundary; alive classes independent at every time
    deaths = [None] * len(vecs)
    ech = Echelon()
    left = [(v, k) for k, v in enumerate(vecs)]

    def alive(when):
        e2 = Echelon()
        e2.rows = dict(ech.rows)
        for v, k in left:
            ensure(e2.insert(v) is not None, "%s: the representatives still alive are dependent (at %s)" % (when, show(reps[k])))
        ctx["independence_checks"] = ctx.get("independence_checks", 0) + len(left)

    alive("before the first two-cell")
    for t, vs in ref.spans():
        for v in vs:
            ech.insert(v)
        keep = []
        for v, k in left:
            v = ech.reduce(v)
            if v == 0:
                deaths[k] = t
            else:
                keep.append((v, k))
        left = keep
        if left and (len(left) < 200 or rng.random() < 0.1):
            alive("at time %r" % t)
        if not left:
            break
    ensure(not left, "the class of %s never becomes trivial" % (show(reps[left[0][1]]) if left else ""))
    ensure(sorted(deaths) == sorted(d for _, d in fin[1]), "representatives die at %s, bars at %s" %
           (show(sorted(deaths)), show(sorted(d for _, d in fin[1]))))
    ensure(sorted(deaths) == sorted(d for _, d in want[1][1]), "representatives die at %s, bars by ranks at %s" %
           (show(sorted(deaths)), show(sorted(d for _, d in want[1][1]))))
    ctx["representatives"] = len(reps)
    ctx["edges_in_representatives"] = sum(len(r) for r in reps)
    ctx["max_longest_representative"] = max([len(r) for r in reps], default=0)
    ctx["max_most_representatives"] = len(reps)
    ctx["max_most_vertices"] = n
    ctx["nontrivial"] = len(reps) > 0


def c25(mod, rng, ctx, thorough):
    if rng.random() < 1 / 400:
        (n, edges), _ = scattered(rng, 1200)
    else:
        n, edges = draw(rng, thorough)
    if len(edges) > 400 and n < 60:
        n, edges = digraph(rng, 12)
    ctx["sample"] = (n, edges)
    base = norm(mod.call("grpph", n, edges))

    def both(n2, e2, want, what):
        if n > 150:
            # one function and some of the relations: a call takes about a second here
            if rng.random() < 0.4:
                f = rng.choice(["grpph", "grpph_with_involution"])
                expect(norm(mod.call(f, n2, e2)), want, f + ", " + what)
                ctx["relations_of_large_digraphs"] = ctx.get("relations_of_large_digraphs", 0) + 1
            return
        expect(norm(mod.call("grpph", n2, e2)), want, "grpph, " + what)
        expect(norm(mod.call("grpph_with_involution", n2, e2)), want, "grpph_with_involution, " + what)
        ctx[what.replace(" ", "_")] = 1

    both(n, edges, base, "repeated call")
    # labels; order of edges. Path lengths are summed along the path, so they do not change.
    p = list(range(n))
    rng.shuffle(p)
    e2 = [(p[i], p[j], x) for i, j, x in edges]
    both(n, e2, base, "relabelled vertices")
    e2 = list(edges)
    rng.shuffle(e2)
    both(n, e2, base, "other edge order")
    # repeated heavier (or equal) copies
    e2 = list(edges)
    for i, j, x in edges:
        if rng.random() < 0.5:
            e2.append((i, j, rng.choice([x, x + 1.0, x * 2 + 0.5, INF])))
    rng.shuffle(e2)
    both(n, e2, base, "heavier copies")
    # reversal and rescaling change rounding: only where all path sums are exact
    exact = all(x == INF or (x == int(x) and x < 2 ** 20) for _, _, x in edges)
    if not exact:
        e0 = [(i, j, x if x == INF else float(rng.randint(0, 6)) / 4 + 0.25) for i, j, x in edges]
        base = norm(mod.call("grpph", n, e0))
    else:
        e0 = edges
    both(n, [(j, i, x) for i, j, x in e0], base, "reversed edges")
    c = rng.choice([0.5, 2.0, 3.0, 0.25, 7.0])
    scaled = ([[x * c for x in y] for y in base[0]], [[(b * c, d * c) for b, d in y] for y in base[1]])
    both(n, [(i, j, x * c) for i, j, x in e0], scaled, "rescaled weights")
    # disjoint union with another digraph and isolated vertices
    n2, e2 = digraph(rng, rng.randint(1, 6))
    other = norm(mod.call("grpph", n2, e2))
    iso = rng.randrange(3)
    m = n + n2 + iso
    q = rng.sample(range(m), m)
    u = [(q[i], q[j], x) for i, j, x in e0] + [(q[n + i], q[n + j], x) for i, j, x in e2]
    rng.shuffle(u)
    want = ([sorted(base[0][0] + other[0][0] + [0.0] * iso), sorted(base[0][1] + other[0][1])],
            [sorted(base[1][k] + other[1][k]) for k in (0, 1)])
    both(m, u, want, "disjoint union")
    ctx["bars"] = sum(len(x) for k in base for x in k)
    ctx["max_most_vertices"] = m
    ctx["nontrivial"] = len(base[1][1]) > 0


PROPS = {"C23": c23, "C24": c24, "C25": c25}


# ------------------------------------------------------------------ driver
def case(prop, mod_raw, seed, idx, thorough):
    rng = random.Random("%d/%s/%d" % (seed, prop, idx))
    ctx = {}
    try:
        PROPS[prop](Mod(mod_raw, ctx), rng, ctx, thorough)
        return "held", "", ctx
    except Viol as e:
        return "violated", str(e), ctx
    except Skip as e:
        return "skipped", str(e), ctx
    except (OSError, MemoryError):
        return "error", traceback.format_exc(), ctx
    except Exception:
        # on a correct module the monitor never trips over a result (see vcore/src/driver.rs)
        return "violated", "the module handed the monitor something it cannot interpret: " + traceback.format_exc(), ctx


def worker(prop, mod, a, w, conn_path):
    os.setpgid(0, 0) if False else None
    start = a["start"]
    counters, maxima, skipped, viols, errors = {}, {}, {}, [], []
    sigs, samples = set(), []
    n_eval, slowest = 0, (0.0, 0)
    slots = os.open(a["slots"], os.O_WRONLY) if a["slots"] else None
    idx = w
    while idx < a["cases"] and time.time() - start < a["deadline"]:
        if slots is not None:
            os.pwrite(slots, struct.pack("<QQ", idx, int((time.time() - start) * 1000)), 16 * w)
        t0 = time.time()
        kind, msg, ctx = case(prop, mod, a["seed"], idx, a["thorough"])
        dt = time.time() - t0
        slowest = max(slowest, (dt, idx))
        sample = ctx.pop("sample", None)
        if kind == "held":
            n_eval += 1
            nt = ctx.pop("nontrivial", False)
            for k, v in ctx.items():
                if k.startswith("max_"):
                    maxima[k[4:]] = max(maxima.get(k[4:], 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
            if nt:
                n, edges = sample
                sigs.add(hashlib.md5(repr((n, sorted(edges))).encode()).hexdigest()[:16])
                if len(samples) < 2 and len(edges) < 12:
                    samples.append("case %d: n=%d edges=%r" % (idx, n, edges))
        elif kind == "skipped":
            skipped[msg] = skipped.get(msg, 0) + 1
        elif kind == "violated":
            viols.append({"case": idx, "msg": msg, "input": repr(sample)[:4000]})
            if len(viols) >= 2:
                break
        else:
            errors.append("case %d: %s" % (idx, msg))
            break
        idx += a["threads"]
    if slots is not None:
        os.pwrite(slots, b"\xff" * 8, 16 * w)
    with open(conn_path, "w") as f:
        json.dump({"counters": counters, "maxima": maxima, "skipped": skipped, "violations": viols, "errors": errors,
                   "sigs": sorted(sigs), "samples": samples, "evaluations": n_eval, "slowest": slowest}, f)


def main():
    prop, moddir = sys.argv[1], sys.argv[2]
    a = {"seed": 1, "cases": 100, "deadline": 60.0, "threads": 8, "out": None, "slots": None, "only": None, "thorough": False}
    av = sys.argv[3:]
    while av:
        k = av.pop(0)[2:]
        if k == "thorough":
            a[k] = True
        elif k in ("out", "slots"):
            a[k] = av.pop(0)
        elif k == "deadline":
            a[k] = float(av.pop(0))
        else:
            a[k] = int(av.pop(0))
    sys.path.insert(0, moddir)
    import phlite_grpph as mod
    ensure(os.path.realpath(mod.__file__).startswith(os.path.realpath(moddir)), "wrong module")
    if a["only"] is not None:
        kind, msg, ctx = case(prop, mod, a["seed"], a["only"], a["thorough"])
        print("case %d: %s" % (a["only"], ctx.get("sample")))
        print("case %d: %s %s" % (a["only"], kind.upper(), msg))
        sys.stdout.flush()
        os._exit({"held": 0, "skipped": 0, "violated": 1, "error": 3}[kind])
    self_check(random.Random(a["seed"]), digraph)
    shapes_check()
    a["start"] = time.time()
    if a["slots"]:
        with open(a["slots"], "wb") as f:
            f.write(b"\xff" * (16 * a["threads"]))
    pids = []
    base = (a["out"] or "/tmp/grpy") + ".part"
    for w in range(a["threads"]):
        p = "%s%d" % (base, w)
        if os.path.exists(p):
            os.remove(p)
        pid = os.fork()
        if pid == 0:
            try:
                worker(prop, mod, a, w, p)
                code = 0
            except BaseException:
                traceback.print_exc()
                code = 9
            sys.stdout.flush()
            os._exit(code)
        pids.append(pid)
    bad = None
    for _ in list(pids):
        pid, st = os.wait()
        pids.remove(pid)
        if st != 0:
            bad = st
            for q in pids:
                os.kill(q, signal.SIGKILL)
            for q in pids:
                os.waitpid(q, 0)
            break
    if bad is not None:
        print("worker ended with status %d" % bad)
        sys.exit(3 if os.WIFEXITED(bad) else 70)
    r = {"evaluations": 0, "observed": {}, "maxima": {}, "skipped": {}, "violations": [], "errors": [], "samples": []}
    sigs, slow = set(), (0.0, 0)
    for w in range(a["threads"]):
        p = "%s%d" % (base, w)
        x = json.load(open(p))
        os.remove(p)
        r["evaluations"] += x["evaluations"]
        sigs |= set(x["sigs"])
        for k, v in x["counters"].items():
            r["observed"][k] = r["observed"].get(k, 0) + v
        for k, v in x["maxima"].items():
            r["maxima"][k] = max(r["maxima"].get(k, 0), v)
        for k, v in x["skipped"].items():
            r["skipped"][k] = r["skipped"].get(k, 0) + v
        for k in ("violations", "errors"):
            r[k] += x[k]
        if len(r["samples"]) < 4:
            r["samples"] += x["samples"][:1]
        slow = max(slow, tuple(x["slowest"]))
    r["violations"].sort(key=lambda v: v["case"])
    r.update({"distinct_nontrivial": len(sigs), "planned": a["cases"], "slowest_s": round(slow[0], 3), "slowest_case": slow[1],
              "wall_s": round(time.time() - a["start"], 3)})
    s = json.dumps(r, indent=1)
    if a["out"]:
        open(a["out"], "w").write(s)
    else:
        print(s)
    sys.exit(1 if r["violations"] else 3 if r["errors"] else 0)


main()

#!/usr/bin/env python3
"""C26, Python part: repeated calls neither grow the heap nor change reference counts of their arguments.

usage: pyleak.py MODULE_DIR SEED ROUNDS
"""
import ctypes, os, random, sys

sys.path.insert(0, sys.argv[1])
import phlite_grpph as mod  # noqa: E402


class Mallinfo2(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL("libc.so.6")
libc.mallinfo2.restype = Mallinfo2


def in_use():
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def digraph(rng, n):
    e = {(i, (i + 1) % n) for i in range(n)}
    for _ in range(rng.randint(0, 3 * n)):
        i, j = rng.randrange(n), rng.randrange(n)
        if i != j:
            e.add((i, j))
    return [(i, j, rng.choice([0.0, 1.0, 2.5, 3.0, float("inf")])) for i, j in sorted(e)]


def main():
    rng = random.Random("pyleak/" + sys.argv[2])
    rounds = int(sys.argv[3])
    inputs = [(n, digraph(rng, n)) for n in [2, 3, 5, 8, 11] for _ in range(4)] + [(1, []), (4, [])]
    calls = 0

    def sweep(k):
        nonlocal calls
        for _ in range(k):
            for n, e in inputs:
                mod.grpph(n, e)
                mod.grpph_with_involution(n, e)
                calls += 2
            for bad in ((3, "x"), (-1, []), (2, [(0, 1)]), (2, [(0, 1, "w")])):
                try:
                    mod.grpph(*bad)
                except (TypeError, OverflowError, ValueError):
                    pass

    sweep(max(4, rounds // 8))
    refs = [sys.getrefcount(e) for _, e in inputs]
    # a leak grows in every window; one-off growth (caches, arenas) does not
    grown, objs, c0 = [], [], calls
    for _ in range(4):
        b, o = in_use(), sys.getallocatedblocks()
        sweep(max(1, rounds // 4))
        grown.append(in_use() - b)
        objs.append(sys.getallocatedblocks() - o)
    refs2 = [sys.getrefcount(e) for _, e in inputs]
    window = (calls - c0) // 4
    print("python_calls %d heap_growth_per_window %r object_growth_per_window %r" % (calls - c0, grown, objs))
    if min(grown) >= 8 * window:
        print("LEAK: the heap grew by %r bytes in four windows of %d calls" % (grown, window))
        sys.exit(1)
    if min(objs) >= max(10, window // 100):
        print("LEAK: %r Python objects more after four windows of %d calls" % (objs, window))
        sys.exit(1)
    if refs != refs2:
        print("LEAK: reference counts of the arguments changed: %r, %r" % (refs, refs2))
        sys.exit(1)
    sys.stdout.flush()
    os._exit(0)


main()

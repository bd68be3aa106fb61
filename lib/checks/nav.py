"""Walks of the Cursor machine driven through the real views, validated by TraceNav."""
import itertools, os, random, json
import vlib
from vlib import Unit, HARNESS, build, run_harness, write_json


def units():
    h = lambda f, p: Unit(os.path.join(HARNESS, f), ["-DPART=%d" % p])
    return [h("nav_main.cpp", 0), h("nav_box.cpp", 1), h("nav_box.cpp", 2),
            h("nav_span.cpp", 1), h("nav_span.cpp", 2), h("nav_misc.cpp", 0)]


def cnt(lo, hi, st=1):
    return 0 if hi < lo else (hi - lo) // st + 1


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def rng(ax, lo, hi, st=1):
    return {"ax": ax, "lo": lo, "hi": hi, "st": st}


class Cases:
    """View instances: what to ask of the harness, and the spec's view record."""

    def __init__(self):
        self.items = []  # (kind, n, params, view)

    def add(self, kind, n, params, view, readonly_twin=False):
        if n > 0:
            self.items.append((kind, n, params, view, readonly_twin))

    # make_submatrix / .stencil on it
    def sub(self, sz, lb, ub, stm, pair=0, runtime=False):
        N = len(sz)
        dom = [rng(m, lb[m], ub[m], stm[m]) for m in range(N)]
        v = {"kind": "box", "ord": list(range(N)), "lo": [0] * N, "hi": [s - 1 for s in sz],
             "dom": dom, "pair": pair}
        c = [cnt(l, u, s) for l, u, s in zip(lb, ub, stm)]
        if pair:
            c[pair - 1] -= 1
        kind, ps = "sub%d" % N, []
        if pair:
            kind = "subpairR%d" % N if runtime else "subpair%d_%d" % (N, pair - 1)
            ps = [pair - 1] if runtime else []
        self.add(kind, prod(c), ps + list(sz) + list(lb) + list(ub) + list(stm), v)

    def tr(self, perm, sz, pair=0):
        N = len(sz)
        v = {"kind": "box", "ord": list(range(N)), "lo": [0] * N, "hi": [s - 1 for s in sz],
             "dom": [rng(a, 0, sz[a] - 1) for a in perm], "pair": pair}
        c = [sz[a] for a in perm]
        if pair:
            c[pair - 1] -= 1
        nm = "".join(map(str, perm))
        self.add("trpair%s_%d" % (nm, pair - 1) if pair else "tr" + nm, prod(c), list(sz), v)

    # span storage order x request order
    def span(self, order, req, lo, hi, r, gcw=-1):
        """lo/hi: per storage position, before ghost growth; r: axis -> (lo,hi,st)"""
        g = max(gcw, 0)
        glo = [l - (0 if a == 3 else g) for a, l in zip(order, lo)]
        ghi = [h + (0 if a == 3 else g) for a, h in zip(order, hi)]
        v = {"kind": "box", "ord": list(order), "lo": glo, "hi": ghi,
             "dom": [rng(a, *r[a]) for a in req], "pair": 0}
        n = prod(cnt(*r[a]) for a in req)
        ps = [gcw]
        for l, h in zip(lo, hi):
            ps += [l, h, 1 + (l + h) % 3]  # the stride of a declaration is not a property of the array
        for a in req:
            ps += list(r[a])
        self.add("span%s_%s" % ("".join(map(str, order)), "".join(map(str, req))), n, ps, v, True)

    def coarse(self, order, ax, corder, lo, hi, gcw, ratio, at, f0, n):
        """at: axis -> fixed coarse coordinate"""
        v = {"kind": "coarse", "ord": list(order), "lo": [l - gcw for l in lo], "hi": [h + gcw for h in hi],
             "ax": ax, "at": [at.get(a, 0) for a in order], "ratio": ratio, "f0": f0, "n": n}
        ps = [gcw]
        for l, h in zip(lo, hi):
            ps += [l, h]
        ps += [ratio] + [at[a] for a in corder] + [f0]
        self.add("coarse%s_%d_%s" % ("".join(map(str, order)), ax, "".join(map(str, corder))), n, ps, v)

    def offset(self, base, strides, table):
        v = {"kind": "offset", "base": base, "strides": strides, "table": table}
        self.add("offset%d" % len(strides), len(table), [base] + strides + sum(table, []), v)

    def window(self, order, req, lo, hi, wlo, whi, r):
        v = {"kind": "window", "ord": list(order) + [3], "lo": list(lo) + [wlo], "hi": list(hi) + [whi],
             "dom": [rng(a, *r[a]) for a in req], "pair": 0}
        ps = sum(([l, h] for l, h in zip(lo, hi)), []) + [wlo, whi]
        for a in req:
            ps += list(r[a])
        nm = lambda o: "".join(map(str, o))
        self.add("window%s_%s" % (nm(order), nm(req)), prod(cnt(*r[a]) for a in req), ps, v)


PERMS = {2: [(0, 1), (1, 0)], 3: list(itertools.permutations(range(3))),
         4: [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 3, 1, 0)]}
TRPAIR = [((1, 0), 1), ((1, 0), 2), ((1, 2, 0), 1), ((1, 2, 0), 2), ((1, 2, 0), 3),
          ((2, 0, 1), 1), ((2, 0, 1), 2), ((2, 1, 0), 3), ((2, 3, 1, 0), 2)]
COARSE = [((2,), 2, ()), ((1, 2), 2, (1,)), ((1, 2), 1, (2,)), ((2, 1), 2, (1,)), ((2, 1), 1, (2,)),
          ((0, 1, 2), 2, (0, 1)), ((0, 1, 2), 1, (0, 2)), ((0, 1, 2), 0, (1, 2)), ((0, 1, 2), 2, (1, 0)),
          ((0, 1, 2), 1, (2, 0)), ((1, 2, 0), 2, (0, 1)), ((1, 2, 0), 1, (2, 0)), ((2, 0, 1), 0, (1, 2))]
K, J, I, W = 0, 1, 2, 3
SPANS = [((I,), (I,))] + [(o, r) for o in ((J, I), (I, J)) for r in ((J, I), (I, J))] + \
    [(o, r) for o in itertools.permutations((K, J, I)) for r in itertools.permutations((K, J, I))] + \
    [((K, J, I, W), r) for r in ((K, J, I, W), (W, I, J, K), (I, W, K, J), (J, K, W, I))] + \
    [(o, r) for o in ((I, W), (W, I)) for r in ((I, W), (W, I))]


def rand_sub(R, N, maxext, strided=True, minpair=None):
    sz, lb, ub, stm = [], [], [], []
    for m in range(N):
        s = R.randint(1, maxext)
        if minpair == m:
            s = max(2, s)
        a, b = sorted((R.randrange(s), R.randrange(s)))
        st = R.choice([1, 1, 2, 3]) if strided else 1
        if minpair == m:
            while (b - a) // st < 1:
                a, b = sorted((R.randrange(s), R.randrange(s)))
                st = 1
        sz.append(s); lb.append(a); ub.append(b); stm.append(st)
    return sz, lb, ub, stm


def box_cases(c, R, k, maxn):
    for N in (1, 2, 3, 4):
        for _ in range(k):
            c.sub(*rand_sub(R, N, {1: 12, 2: 6, 3: 4, 4: 3}[N]))
    for N, ps in PERMS.items():
        for p in ps:
            for _ in range(max(1, k // 6)):
                c.tr(p, [R.randint(1, {2: 5, 3: 4, 4: 3}[N]) for _ in range(N)])
    c.items = [x for x in c.items if x[1] <= maxn]


def pair_cases(c, R, k, maxn):
    for N in (1, 2, 3, 4):
        for ax in range(N):
            for q in range(k):
                c.sub(*rand_sub(R, N, {1: 12, 2: 6, 3: 4, 4: 3}[N], strided=q % 3 == 2, minpair=ax),
                      pair=ax + 1, runtime=q % 2 == 1)
    for p, ax in TRPAIR:
        for _ in range(max(1, k // 2)):
            sz = [R.randint(1, {2: 5, 3: 4, 4: 3}[len(p)]) for _ in p]
            sz[p[ax - 1]] = max(2, sz[p[ax - 1]])
            c.tr(p, sz, pair=ax)
    c.items = [x for x in c.items if x[1] <= maxn]


AWAY = [0] * 12 + [100, -1000, 1 << 16, 20000003, -20000003]  # where boxes are numbered


def span_cases(c, R, k, maxn):
    for order, req in SPANS:
        for q in range(k):
            lo = [R.randint(-4, 3) + R.choice(AWAY) for _ in order]
            hi = [l + R.randint(0, 4 if len(order) < 4 else 2) for l in lo]
            g = R.choice([-1, 0, 1, 2])
            r = {}
            for a, l, h in zip(order, lo, hi):
                gg = 0 if a == W else max(g, 0)
                x, y = sorted((R.randint(l - gg, h + gg), R.randint(l - gg, h + gg)))
                r[a] = (x, y, R.choice([1, 1, 1, 2, 3]))
                if q == 0:
                    r[a] = (l - gg, h + gg, 1)
            if prod(cnt(*r[a]) for a in req) <= maxn:
                c.span(order, req, lo, hi, r, g)


def coarse_cases(c, R, k):
    for order, ax, corder in COARSE:
        for _ in range(k):
            ratio = R.choice([1, 2, 2, 3, 4, 5])
            gcw = R.choice([0, 1, 2])
            lo = [R.randint(-4, 2) + R.choice(AWAY) for _ in order]
            hi = [l + R.randint(1, 4) for l in lo]
            m = order.index(ax)
            wide = R.random()
            if wide < .2:
                hi[m] = lo[m] + (R.randint(20, 40) if wide > .04 else 17000)
            fl, fh = ratio * (lo[m] - gcw), ratio * (hi[m] + gcw) + ratio - 1
            f0 = R.randint(fl, fh)
            n = R.randint(1, min(16 if wide >= .2 else 70000, fh - f0 + 1))
            at = {a: R.randint(l - gcw, h + gcw) for a, l, h in zip(order, lo, hi) if a != ax}
            c.coarse(order, ax, corder, lo, hi, gcw, ratio, at, f0, n)


def offset_cases(c, R, k):
    for N in (1, 2, 3):
        for _ in range(k):
            st = [1, R.randint(2, 7), R.randint(8, 40)][:N]
            if R.random() < 0.3:
                R.shuffle(st)
            rows = [[R.randint(-3, 3) for _ in range(N)] for _ in range(R.randint(1, 9))]
            c.offset(R.randint(100, 200), st, rows)


WINDOWS = [((I,), (I,)), ((J, I), (J, I)), ((J, I), (I, J)), ((K, J, I), (K, J, I)), ((J, I, K), (J, I, K)),
           ((K, J, I), (I, J, K)), ((I, K, J), (K, J, I)), ((J, I, K), (K, J, I))]


def window_cases(c, R, k):
    for order, req in WINDOWS:
        for _ in range(k):
            lo = [R.randint(-3, 3) for _ in order]
            hi = [l + R.randint(0, 3) for l in lo]
            r = {}
            for a, l, h in zip(order, lo, hi):
                x, y = sorted((R.randint(l, h), R.randint(l, h)))
                r[a] = (x, y, R.choice([1, 1, 2]))
            wl = R.choice([0, 0, 1, -1])
            c.window(order, req, lo, hi, wl, wl + R.randint(0, 6), r)


def rows_of(view, n, least):
    """row lengths of a long view: how many elements a step along each axis spans"""
    if n <= least or view["kind"] != "box":
        return ()
    c = [cnt(r["lo"], r["hi"], r["st"]) for r in view["dom"]]
    if view["pair"]:
        c[view["pair"] - 1] -= 1
    out, p = set(), 1
    for x in reversed(c[1:]):
        p *= x
        if 1 < p < n:
            out.add(p)
    return tuple(sorted(out))


def long_rows(c, R, k):
    """boxes with one axis much longer than the others, inside larger arrays"""
    for _ in range(k):
        for N in (2, 3, 4):
            for pair in (0, 1 + R.randrange(N)):
                m = R.choice([N - 1, N - 1, R.randrange(N)])
                ext = [R.randint(2, {2: 9, 3: 4, 4: 2}[N]) for _ in range(N)]
                ext[m] = R.randint(33, {2: 140, 3: 70, 4: 50}[N])
                lb = [R.randint(0, 2) for _ in ext]
                st = [R.choice([1, 1, 1, 2]) if q != pair - 1 else 1 for q in range(N)]
                ub = [l + (e - 1) * s for l, e, s in zip(lb, ext, st)]
                c.sub([u + 1 + R.randint(0, 2) for u in ub], lb, ub, st, pair=pair, runtime=R.random() < .5)


def far_spans(c, R, k):
    for order, req in R.sample(SPANS, k):
        ext = [3 if a == W else 1 + int(70000 ** (1 / max(1, len([b for b in order if b != W])))) for a in order]
        lo = [R.randint(-4, 3) + R.choice(AWAY) for _ in order]
        g = R.choice([-1, 0, 1, 2])
        r, hi = {}, [l + e for l, e in zip(lo, ext)]
        for a, l, h in zip(order, lo, hi):
            gg = 0 if a == W else max(g, 0)
            r[a] = (l - R.randint(0, gg), h + R.randint(0, gg), 1 if a == W else R.choice([1, 1, 2]))
        c.span(order, req, lo, hi, r, g)


def far_boxes(c, R, k):
    """more elements, and longer axes, than 16 bits count"""
    for m in range(k):
        for pair in (0, 1, 2, 3):
            ext = [[R.randint(66000, 140000)], [R.randint(66000, 70000), R.randint(2, 5)],
                   [R.randint(2, 5), R.randint(66000, 70000)], [R.randint(260, 400), R.randint(260, 400)],
                   [R.randint(40, 70) for _ in range(3)]]
            for e in ext:
                if pair <= len(e):
                    lb = [R.randint(0, 2) for _ in e]
                    ub = [l + x - 1 for l, x in zip(lb, e)]
                    st = [1 if pair or x < 1000 else R.choice([1, 1, 2, 3]) for x in e]
                    c.sub([u + 1 + R.randint(0, 2) for u in ub], lb, ub, st, pair=pair, runtime=R.random() < .5)


def run(ctx, cases, pairs_upto, nrandom, length, label):
    """Generates walks with TLC, drives them, validates the answers."""
    exe = build("nav", units())
    keys = [(x[1], rows_of(x[3], x[1], pairs_upto)) for x in cases.items]
    sizes = sorted(set(keys))
    sj = write_json(os.path.join(ctx.work, "sizes.json"), [sizes, pairs_upto, nrandom, length])
    oj = os.path.join(ctx.work, "walks.json")
    g = vlib.tlc("WalkGen", env={"SIZES": sj, "OUT": oj, "SEED": vlib.SEED})
    gen = json.load(open(oj))
    wtxt = os.path.join(ctx.work, "walks.txt")
    with open(wtxt, "w") as f:
        for e in gen:
            f.write("%d\n" % len(e["walks"]))
            for w in e["walks"]:
                f.write("%d %s\n" % (len(w), " ".join("%d %d" % (a, b) for a, b in w)))
    idx = {(e["n"], tuple(e["rows"])): i + 1 for i, e in enumerate(gen)}
    lines, meta = [], {}
    for q, (kind, n, ps, v, twin) in enumerate(cases.items):
        lines.append("%d %s %d %d %s" % (q, kind, idx[keys[q]] - 1, n, " ".join(map(str, ps))))
        meta[str(q)] = meta[str(q) + "c"] = (kind, idx[keys[q]], v, ps)
    out = run_harness([exe, wtxt], "\n".join(lines) + "\n")
    tests, cur = [], None
    for ln in out.split("\n"):
        if ln.startswith("T "):
            _, i, rep = ln.split()
            kind, n, v, ps = meta[i]
            cur = {"id": "%s %s" % (kind, ps), "v": v, "n": int(rep), "wk": n, "obs": []}
            tests.append(cur)
        elif ln.startswith("W"):
            cur["obs"].append([[] if t == "-" else [int(x) for x in t.split(",")] for t in ln.split()[1:]])
    want = sum(2 if x[4] else 1 for x in cases.items)
    if len(tests) != want:
        raise vlib.CheckError("harness answered %d of %d views" % (len(tests), want))
    nwalks = sum(len(t["obs"]) for t in tests)
    # validate in slices, so that TLC's trace file stays small
    sl, i = [], 0
    while i < len(tests):
        j, steps = i, 0
        while j < len(tests) and steps < 400000:
            steps += sum(map(len, tests[j]["obs"])); j += 1
        sl.append(tests[i:j]); i = j
    for s in sl:
        used = sorted({t["wk"] for t in s})
        ren = {w: k + 1 for k, w in enumerate(used)}
        tr = {"walks": [gen[w - 1]["walks"] for w in used],
              "tests": [dict(t, wk=ren[t["wk"]]) for t in s]}
        exp = sum(1 + len(o) for t in s for o in t["obs"])
        ok = ctx.validate("TraceNav", tr, exp, sum(len(t["obs"]) for t in s),
                          what="%s: a view answered differently from the cursor machine" % label)
        if not ok:
            break
    ctx.add("views", len(tests))
    ctx.add("walks", nwalks)
    k0 = cases.items[0]
    ctx.sample({"view": k0[0], "params": k0[2], "n": k0[1], "first_walk": gen[idx[keys[0]] - 1]["walks"][-1][:12],
                "answers": tests[0]["obs"][-1][:12]})


def c01(ctx):
    ctx.model("TraversalImpl", "TraversalImplDeep.cfg" if ctx.thorough else None)
    ctx.model("PairImpl", "PairImplDeep.cfg" if ctx.thorough else None)
    ctx.model("CoarseImpl")
    ctx.expect_fail("PairImpl", "PairImplOriginal.cfg")
    R = random.Random(vlib.SEED * 1000 + 1)
    c = Cases()
    k = ctx.pick(4, 14)
    box_cases(c, R, k, 20)
    pair_cases(c, R, ctx.pick(4, 12), 24)
    span_cases(c, R, 1, 16)
    coarse_cases(c, R, ctx.pick(2, 6))
    offset_cases(c, R, ctx.pick(3, 10))
    window_cases(c, R, ctx.pick(2, 8))
    long_rows(c, R, ctx.pick(5, 25))
    far_boxes(c, R, ctx.pick(1, 4))
    far_spans(c, R, ctx.pick(12, len(SPANS)))
    run(ctx, c, ctx.pick(14, 24), ctx.pick(4, 20), ctx.pick(40, 80), "navigation")


def big_boxes(c, R, k):
    """Extents a hand-written test would not use."""
    for _ in range(k):
        c.sub([R.randint(200, 700)], [R.randint(0, 30)], [R.randint(120, 190)], [R.choice([1, 1, 3, 7])])
        a, b = R.randint(20, 60), R.randint(3, 9)
        c.sub([a, b], [R.randint(0, 5), R.randint(0, 2)], [a - 1, b - 1], [R.choice([1, 4]), 1])
        c.sub([b, a], [0, R.randint(0, 5)], [b - 1, a - 1], [1, R.choice([1, 5])])
        c.sub([b, 2, a], [0, 0, 0], [b - 1, 1, a - 1], [R.choice([1, 2]), 1, R.choice([2, 3, 9])])


def c02(ctx):
    ctx.model("TraversalImpl")
    R = random.Random(vlib.SEED * 1000 + 2)
    c = Cases()
    box_cases(c, R, ctx.pick(40, 200), 400)
    long_rows(c, R, ctx.pick(4, 25))
    big_boxes(c, R, ctx.pick(2, 10))
    span_cases(c, R, ctx.pick(9, 40), 300)
    window_cases(c, R, ctx.pick(6, 30))
    run(ctx, c, 0, 1, ctx.pick(12, 40), "addressing")


def c03(ctx):
    ctx.model("PairImpl", "PairImplDeep.cfg" if ctx.thorough else None)
    ctx.expect_fail("PairImpl", "PairImplOriginal.cfg")
    R = random.Random(vlib.SEED * 1000 + 3)
    c = Cases()
    pair_cases(c, R, ctx.pick(8, 40), 60)
    long_rows(c, R, ctx.pick(4, 25))
    run(ctx, c, ctx.pick(16, 40), ctx.pick(4, 16), ctx.pick(40, 80), "neighbour pairs")

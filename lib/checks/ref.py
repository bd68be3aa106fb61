"""Histories of the kernels that exist as reference routines only (general stencils,
smoothers, the node-centred operator): generated from spec/KernGen.tla, bound to boxes
and contents, run on the real routines, validated by spec/TraceKernel.tla."""
import math, os
from fractions import Fraction as Fr
import vlib
from vlib import Unit, HARNESS, build, fres, write_json
from checks import kern
from checks.kern import B, C, Refuse, V, at, flat, num, over

SRC = ["applystencil%dd", "celladjustrhs%dd", "cellsmooth%dd", "cellblocksmooth%dd", "nodediffusionapply%dd",
       "nodediffusionflux%dd", "nodediffusionstencilcoeffs%dd"]


def exe():
    us = [Unit(os.path.join(HARNESS, f)) for f in ("kern_main.cpp", "kern_raw.cpp")]
    us += vlib.fortran_units([s % n for s in SRC for n in (1, 2, 3)] + ["copycoarsetofine"])
    return build("kern_raw", us)


def tag(args):
    """argument list -> typed text of a call by reference"""
    isf = lambda t: not t.lstrip("-").isdigit()
    out = []
    for a in args:
        if a.startswith("@"):
            out.append(a)
        elif " " in a:
            out.append(("D " if any(map(isf, a.split()[1:])) else "I ") + a)
        else:
            out.append(("d " if isf(a) else "i ") + a)
    return [str(len(out))] + out


def star(n):
    z = [0] * n
    return [z] + [[s if e == d else 0 for e in range(n)] for d in range(n) for s in (-1, 1)]


def grid(n, k):
    return [[]] if n == 0 else [[x] + r for r in grid(n - 1, k) for x in range(-k, k + 1)]


NINE = [[0, 0], [-1, 0], [1, 0], [0, -1], [0, 1], [-1, -1], [1, -1], [-1, 1], [1, 1]]
DYADIC, GENERAL = [1, -1, 2, -2, 4], [3, -3, 5, 7, -2, 1]


def inverse(A):
    n = len(A)
    M = [[Fr(x) for x in r] + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c])
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c:
                M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


class World(kern.World):
    """the arrays of the stencil and smoother kernels"""
    def __init__(self, R, n, prec, std, long=.03):
        self.special = {}
        super().__init__(R, n, prec, std, long)
        self.decl.clear(), self.mem.clear(), self.bnd.clear()
        g = lambda a, b: R.randint(a, b)
        self.add("u", "cell", g(1, 3))
        self.add("f", "cell", g(0, 2))
        self.add("res", "cell", g(0, 2))
        self.add("rhs", "cell", 0)
        for a, nw in (("sA", 2 * n + 1), ("sB", 3 ** n), ("sC", g(1, 3)), ("sD", g(2, 4))):
            self.stencil(a, nw)
        if n < 3:
            self.add("dg", "cell", 0, pool=GENERAL)
            self.stencil("m2", 4, "m2")
            for a, lim in (("f", 0), ("u", 0)):
                q = g(lim, 2)
                self.add(a + "0", "cell", q)
                self.add(a + "1", "cell", q)
        else:
            self.nd, self.size = g(1, 3), g(2, 4)
            self.stencil("bs", g(2, 7), "dom")
            for a, q in (("yf", g(0, 1)), ("yu", g(1, 2)), ("yr", g(0, 1))):
                self.add(a, "win", q, nw=self.nd)
            self.stencil("ys", self.size * self.nd ** 2, "blocks")
        self.initial = {k: list(v) for k, v in self.mem.items()}

    def add(self, name, kind, g, dir=0, box=None, pool=None, nw=None):
        if nw is None:
            return super().add(name, kind, g, dir, box, pool)
        n = nw
        for d in range(self.n):
            n *= self.hi[d] - self.lo[d] + 1 + 2 * g
        self.decl[name] = {"kind": "win", "dir": 0, "lo": list(self.lo), "hi": list(self.hi), "g": g, "nw": nw, "n": n}
        self.pool[name] = None
        self.fresh(name)

    def stencil(self, name, nw, kind="row"):
        self.special[name] = kind
        self.add(name, "win", 0, nw=nw)

    def fresh(self, name):
        kind, R = self.special.get(name), self.R
        if kind is None:
            return super().fresh(name)
        nw = self.decl[name]["nw"]
        cells = self.decl[name]["n"] // nw
        v = []
        if kind == "row":
            self.dpool = getattr(self, "dpool", {})
            self.dpool[name] = p = R.choice([DYADIC, DYADIC, GENERAL, [1, -1]])
            for _ in range(cells):
                v += [R.choice(p)] + [R.randint(-3, 3) for _ in range(nw - 1)]
            m = 7
        elif kind == "dom":  # strictly dominant diagonals
            for _ in range(cells):
                v += [R.choice([-1, 1]) * (nw - 1 + R.randint(1, 3))] + [R.randint(-1, 1) for _ in range(nw - 1)]
            m = nw + 2
        elif kind == "m2":
            for _ in range(cells):
                while True:
                    r = [R.randint(-3, 3) for _ in range(4)]
                    if r[0] * r[3] != r[1] * r[2]:
                        break
                v += r
            m = 3
        else:  # the first block regular, of determinant +-1 or +-2; the others arbitrary
            nd, size = self.nd, self.size
            self.invm = 0
            for _ in range(cells):
                L = [[1 if i == j else R.randint(-1, 1) if j < i else 0 for j in range(nd)] for i in range(nd)]
                U = [[R.choice([1, -1]) if i == j else R.randint(-1, 1) if j > i else 0 for j in range(nd)] for i in range(nd)]
                D = [[sum(L[i][q] * U[q][j] for q in range(nd)) for j in range(nd)] for i in range(nd)]
                if R.random() < .3:
                    D.reverse()
                self.invm = max(self.invm, max(sum(map(abs, r)) for r in inverse(D)))
                w = [R.randint(-2, 2) for _ in range(nw)]
                for i in range(nd):
                    for j in range(nd):
                        w[size * (i + j * nd)] = D[i][j]
                v += w
            m = max(map(abs, v))
        self.mem[name], self.bnd[name] = v, B(m)
        return v

    def subbox(self):
        lo, hi = [], []
        for l, h in zip(self.lo, self.hi):
            a, b = l, h
            if self.R.random() < .5:
                a, b = sorted((self.R.randint(l, h), self.R.randint(l, h)))
            lo.append(a); hi.append(b)
        return lo, hi


def shape(w, s):
    """-> (coefficients, offsets)"""
    R, n, gu = w.R, w.n, w.decl["u"]["g"]
    if s == "star":
        off = star(n)
    elif s == "compact":
        off = sorted(grid(n, 1), key=lambda o: any(o))
    else:
        nw = w.decl["sC" if s == "few" else "sD"]["nw"]
        cand = [o for o in grid(n, 1 if s == "few" else gu) if any(o)]
        if len(cand) < nw - 1:
            raise Refuse
        off = [[0] * n] + R.sample(cand, nw - 1)
    if R.random() < .5:
        tail = off[1:]
        R.shuffle(tail)
        off = off[:1] + tail
    return {"star": "sA", "compact": "sB", "few": "sC", "far": "sD"}[s], off


def IV(off):
    return V([x for o in off for x in o])


def abox(w, a):
    d = w.decl[a]
    return list(map(str, flat([x - d["g"] for x in d["lo"]], [x + d["g"] for x in d["hi"]])))


def ints(xs):
    return list(map(str, xs))


def points(lo, hi):   # x fastest
    if not lo:
        return [()]
    return [(x,) + r for r in points(lo[1:], hi[1:]) for x in range(lo[0], hi[0] + 1)]


def dyadic(b):
    return b.x == 1 and b.l & (b.l - 1) == 0


def sweep_bounds(w, lo, hi, off, st, colour, order=lambda c: c):
    """bound on what an ordered sweep stores, following who reads whom"""
    u, f = w.bnd["u"], w.bnd["f"]
    p = w.dpool[st]
    l = math.lcm(*map(abs, p))
    inv = B(Fr(1, min(map(abs, p))), l)
    new, top, work = {}, B(0), Fr(0)
    for c in sorted(points(lo, hi), key=lambda c: c[::-1]):
        if colour != 2 and (c[0] - lo[0] + sum(c[1:])) % 2 != colour:
            continue
        b = f
        for o in off[1:]:
            q = tuple(x + y for x, y in zip(c, o))
            b = b + B(3) * (new[q] if q in new else u)
        work = max(work, b.m)
        new[c] = b = b * inv
        if b.m > 1 << 60 or b.l > 1 << 60:
            raise Refuse
        top = top.join(b)
    return top.join(u), max(work, top.m)


def bind(w, c):
    R, n, k = w.R, w.n, c["k"]
    bn, lo, hi = w.bnd, w.lo, w.hi
    w.exact = False
    g = lambda a: str(w.decl[a]["g"])
    D = "%dd" % n
    if k == "stencil":
        st, off = shape(w, c["shape"])
        if R.random() < .5:
            R.shuffle(off)
        aa, bb = w.num([1, -1, 2, Fr(1, 2), 3, 0]), w.num([1, 1, 0, -1, 2, 5])
        rec = {"k": k, "st": st, "off": off, "u": "u", "f": "f", "out": "res", "aa": fres(*aa.as_integer_ratio()),
               "bb": fres(*bb.as_integer_ratio()), "lo": lo, "hi": hi}
        pt = []
        if c["point"]:
            rec["lo"] = rec["hi"] = p = [R.randint(l, h) for l, h in zip(lo, hi)]
            pt = ints(p)
        args = ints(flat(lo, hi)) + pt + [str(len(off)), IV(off), at(st), num(aa), num(bb), g("f"), at("f"), g("u"), at("u"),
                                         g("res"), at("res")]
        b = C(bb) * bn["f"]
        for _ in off:
            b = b + C(aa) * bn[st] * bn["u"]
        return "applystencil%s%s" % ("atpoint" if c["point"] else "onpatch", D), args, rec, {"res": b}, b.m
    if k == "sysrhs":
        st, off = shape(w, c["shape"])
        size = len(off)
        if c["spare"] and size > 1:
            off = off[:R.randint(1, size - 1)]
        rec = {"k": k, "st": st, "off": off, "u": "u", "f": "f", "lo": lo, "hi": hi}
        args = ints(lo + hi) + [str(len(off)), IV(off), str(size), at(st), g("u"), at("u"), g("f"), at("f")]
        b = bn["f"]
        for _ in off:
            b = b + bn[st] * bn["u"]
        return "celladjustsystemrhspatch" + D, args, rec, {"f": b}, b.m
    if k == "crsfine":
        st, off = shape(w, c["shape"])
        if R.random() < .5:
            R.shuffle(off)
        d, side = c["dir"], c["side"]
        pl, ph = w.subbox()
        inner = hi[d] if side else lo[d]
        if R.random() < .3:
            inner = R.randint(lo[d], hi[d])
        pl[d] = ph[d] = inner + 2 * side - 1
        rec = {"k": k, "st": st, "off": off, "u": "u", "rhs": "rhs", "dir": d, "side": side, "pLo": pl, "pHi": ph}
        args = ints(lo + hi + pl + ph) + (ints([d]) if n > 1 else []) + [str(side), str(len(off)), IV(off), at(st), g("u"), at("u"),
                                                                        at("rhs")]
        b = bn["rhs"]
        for _ in off:
            b = b + bn[st] * bn["u"]
        return "adjcellcrsfinebdryrhs" + D, args, rec, {"rhs": b}, b.m
    if k == "extrap":
        gu = w.decl["u"]["g"]
        f, t = c["face"], c["type"]
        bl, bh = [], []
        for l, h in zip(lo, hi):
            a, b = sorted((R.randint(l - gu, h + gu), R.randint(l - gu, h + gu)))
            bl.append(a); bh.append(b)
        if t == 1 and f < 6:
            d = f // 2
            if hi[d] - lo[d] + 2 * gu < 2:
                raise Refuse
            if f % 2 == 0:
                bl[d] = R.choice([lo[d] - 1, lo[d] - gu, R.randint(lo[d] - gu, hi[d] + gu - 2)])
                bl[d] = min(max(bl[d], lo[d] - gu), hi[d] + gu - 2)
            else:
                bh[d] = R.choice([hi[d] + 1, hi[d] + gu, R.randint(lo[d] - gu + 2, hi[d] + gu)])
                bh[d] = max(min(bh[d], hi[d] + gu), lo[d] - gu + 2)
        elif t == 2 and f < 12:
            kern.corner_pos(w, f % 4, [(0, 1), (0, 2), (1, 2)][f // 4], bl, bh, gu, False)
        elif t == 3 and f < 8:
            kern.corner_pos(w, f % 4, (0, 1), bl, bh, gu, False)
        rec = {"k": k, "u": "u", "face": f, "type": t, "lo": lo, "hi": hi, "bLo": bl, "bHi": bh}
        args = ints(flat(lo, hi)) + [g("u"), at("u"), V(bl), V(bh), str(f), str(t)]
        b = B(3) * bn["u"]
        return "linearextrap", args, rec, {"u": b}, b.m
    wt = B(1, 3) if n == 1 else B(1, 5)
    if k in ("jacobi", "sweep"):
        st, off = shape(w, c["shape"])
        form = c.get("form")
        if form in ("s5", "s7"):
            off = star(n)
        if form == "s9":
            off = NINE
        sl, sh = w.subbox()
        rec = {"k": k, "st": st, "off": off, "u": "u", "f": "f", "lo": sl, "hi": sh}
        args = ints(flat(sl, sh))
        if k == "sweep":
            rec["colour"] = c["colour"]
            if form != "gs":
                args.append(str(c["colour"]))
        if form in (None, "gs", "rb"):
            args += [str(len(off)), IV(off)]
        args += abox(w, st) + [at(st)] + abox(w, "f") + [at("f")] + abox(w, "u") + [at("u")]
        if k == "jacobi":
            b = bn["f"]
            for _ in off:
                b = b + bn[st] * bn["u"]
            p = [Fr(1, x) for x in w.dpool[st]]
            b = bn["u"] + wt * b * B(1, math.lcm(*[x.denominator for x in p]))
            return "celljacobi" + D, args, rec, {"u": b}, b.m
        w.exact = set(w.dpool[st]) <= set(DYADIC) and dyadic(bn["u"]) and dyadic(bn["f"])
        b, m = sweep_bounds(w, sl, sh, off, st, c["colour"])
        nm = {"gs": "cellgs", "rb": "cellrbgs"}.get(form, "cell%srbgs" % form)
        return nm + D, args, rec, {"u": b}, m
    if k == "block1":
        rec = {"k": k, "d": "dg", "f": "f", "u": "u", "lo": lo, "hi": hi}
        args = ints(flat(lo, hi)) + [at("dg"), g("f"), at("f"), g("u"), at("u")]
        b = bn["u"] + wt * bn["f"] * B(1, 1, 7)
        return "cellblock1x1jacobi" + D, args, rec, {"u": b}, b.m
    if k == "block2":
        rec = {"k": k, "d": "m2", "f2": ["f0", "f1"], "u2": ["u0", "u1"], "lo": lo, "hi": hi}
        args = ints(flat(lo, hi)) + [at("m2"), g("f0"), at("f0"), at("f1"), g("u0"), at("u0"), at("u1")]
        f = B(3) * bn["f0"] + B(3) * bn["f1"]
        out = {a: bn[a] + wt * f * B(1, 1, 18) for a in ("u0", "u1")}
        return "cellblock2x2jacobi" + D, args, rec, out, max(b.m for b in out.values())
    if k == "boxblock":
        ext = [h - l + 1 for l, h in zip(lo, hi)]
        for _ in range(20):
            bs = [R.randint(1, min(2, e)) for e in ext]
            if bs[0] * bs[1] * bs[2] <= 4:
                break
        else:
            raise Refuse
        disp = []
        for e, b in zip(ext, bs):
            d0 = R.randint(0, e - b) if R.random() < .4 else 0
            q = R.randint(1, (e - d0) // b) if R.random() < .4 else (e - d0) // b
            disp.append([d0 + b * i for i in range(q)])
        nw = w.decl["bs"]["nw"]
        near = [o for o in grid(3, 1) if any(o)]
        off = [[0, 0, 0]] + (R.sample(near, nw - 1) if R.random() < .5 or nw > 7 else R.sample(star(3)[1:], nw - 1))
        rec = {"k": k, "st": "bs", "off": off, "f": "f", "u": "u", "lo": lo, "hi": hi, "bs": bs, "disp": disp}
        args = ints(flat(lo, hi)) + [str(nw), IV(off), at("bs")] + abox(w, "f") + [at("f")] + abox(w, "u") + [at("u")]
        for q in range(3):
            args += [V(disp[q]), str(len(disp[q])), str(bs[q])]
        r = bn["f"]
        for _ in off:
            r = r + bn["bs"] * bn["u"]
        v = w.mem["bs"]
        rows = max(sum(x * x for x in v[q:q + nw]) for q in range(0, len(v), nw))
        det = int(math.isqrt(rows ** (bs[0] * bs[1] * bs[2])) + 1)
        r = B(r.m, r.l, r.x ** 4)
        b = bn["u"] + wt * r * B(1, 1, det)
        return "cellblockjacobi3d", args, rec, {"u": b}, b.m
    if k == "system":
        cand = [o for o in grid(3, min(2, w.decl["yu"]["g"])) if any(o)]
        near = [o for o in cand if sum(map(abs, o)) == 1]
        off = [[0, 0, 0]] + R.sample(near if R.random() < .6 else cand, w.size - 1)
        rec = {"k": k, "st": "ys", "off": off, "ndof": w.nd, "f": "yf", "u": "yu", "r": "yr", "lo": lo, "hi": hi}
        args = ints(flat(lo, hi)) + [str(w.size), IV(off), at("ys"), str(w.nd)]
        for a in ("yf", "yu", "yr"):
            args += [g(a), at(a)]
        new, top = {}, Fr(0)
        for p in sorted(points(lo, hi), key=lambda p: p[::-1]):
            m = bn["yf"].m + w.nd * bn["ys"].m * sum(new.get(tuple(x + y for x, y in zip(p, o)), bn["yu"].m) for o in off)
            new[p] = bn["yu"].m + w.invm * m
            top = max(top, new[p], m)
        if top > 1 << 60:
            raise Refuse
        b = B(top)
        return "ccellblkjacobi3d", args, rec, {"yu": b, "yr": b}, top
    raise KeyError(k)


INPUTS = {"stencil": ["s", "f", "u"], "sysrhs": ["s", "f", "u"], "crsfine": ["s", "u", "rhs"], "jacobi": ["s", "f", "u"],
          "sweep": ["s", "f", "u"], "block1": ["dg", "f", "u"], "block2": ["m2", "f", "u"], "boxblock": ["bs", "f", "u"],
          "system": ["ys", "yf", "yu"], "extrap": ["u"]}


def raw(bind):
    def f(w, c):
        nm, args, rec, out, m = bind(w, c)
        if nm != "linearextrap" and not (nm.endswith("d") and nm[-2].isdigit()):
            nm += "%dd" % w.n
        return "raw:" + nm, tag(args), rec, out, m
    return f


def cases_for(ctx, families, length, rounds, **kw):
    return kern.cases_for(ctx, families, length, rounds, **kw)


# ---------------------------------------------------------------- node-centred kernels

class NodeWorld(kern.World):
    def __init__(self, R, n, prec, std, long=.03):
        super().__init__(R, n, prec, std, long)
        self.add("st", "win", 0)
        keep = {"u", "a", "f", "res", "rhs", "st", "aa"} | {p + str(d) for p in ("fl", "b", "bb") for d in range(n)}
        self.decl = {k: v for k, v in self.decl.items() if k in keep}
        self.initial = {k: list(self.mem[k]) for k in self.decl}


def node_bind(w, c):
    R, n = w.R, w.n
    nm, args, rec, out, m = kern.bind(w, c)
    if c["k"] == "apply":
        nm = {"v1": "nodediffusionv1apply", "v2": "nodediffusionv2apply", "none": "nodepoissonapply"}[c["react"]]
        aa, bb = w.num([1, -1, 2, Fr(1, 2), 3, 0]), w.num([1, 1, 0, -1, 2, 5])
        rec.update(k="nodeapply", aa=fres(*aa.as_integer_ratio()), bb=fres(*bb.as_integer_ratio()))
        del rec["form"]
        i = args.index(at("fl0"))
        g = str(w.decl["f"]["g"])
        f = [] if at("f") in args else [g, at("f")]
        args = args[:i] + f + args[i:i + n] + [num(aa), num(bb)] + args[i + n:]
        b = out["res"]
        b = C(bb) * w.bnd["f"] + C(aa) * b
        return nm, args, rec, {"res": b}, b.m
    if at("st") in args:  # these have no ghosts
        i = args.index(at("st"))
        args = args[:i - 1] + args[i:]
    base = {"flux": "nodediffusionflux", "poisson_flux": "nodepoissonflux", "offdiag": "nodediffusionoffdiag",
            "poisson_offdiag": "nodepoissonoffdiag", "v1diag": "nodediffusionv1diag", "v2diag": "nodediffusionv2diag",
            "poisson_diag": "nodepoissondiag", "adj_diag": "adjnodediffusiondiag", "adj_poisson_diag": "adjnodepoissondiag",
            "adj_cf_diag": "adjnodediffusioncfdiag", "adj_poisson_cf_diag": "adjnodepoissoncfdiag",
            "adj_offdiag": "adjnodediffusionoffdiag", "adj_poisson_offdiag": "adjnodepoissonoffdiag",
            "adj_cf_offdiag": "adjnodediffusioncfoffdiag", "readj_offdiag": "readjnodediffusionoffdiag",
            "adj_cf_bdryrhs": "adjnodediffusioncfbdryrhs"}
    return base[nm], args, rec, out, m


def run(ctx, cases, what, limit=500000):
    return kern.validate(ctx, cases, kern.execute(exe(), cases), what, limit)


def world(node):
    return dict(world=NodeWorld, binder=raw(node_bind)) if node else dict(world=World, binder=raw(bind), inputs=INPUTS)


def c22(ctx):
    fams = kern.weighted([("stencil", n) for n in (1, 2, 3)])
    cases = cases_for(ctx, fams, 6, ctx.pick(12, 100), **world(False))
    run(ctx, cases, "a stencil or right-hand-side kernel stored other values than its formula")


def c23(ctx):
    laws = {"SEEDS": ctx.pick(1, 3), "BOXES": write_json(os.path.join(ctx.work, "boxes.json"), ctx.pick(
        [[3], [2, 3], [2, 2, 2]], [[1], [2], [4], [5], [1, 4], [3, 2], [4, 3], [1, 1, 2], [2, 2, 2], [2, 3, 2], [3, 2, 2], [2, 2, 3]]))}
    ctx.model("RefLaws", env=laws, timeout=2400)
    ctx.expect_fail("RefLaws", "RefLawsWrong.cfg", env=dict(laws, SEEDS=1))
    fams = kern.weighted([("smooth", n) for n in (1, 2, 3)]) + [("mixed", n) for n in (1, 2, 3)]
    cases = cases_for(ctx, fams, 8, ctx.pick(8, 80), **world(False))
    run(ctx, cases, "a smoother left other contents than its iteration")


def c24(ctx):
    fams = kern.weighted([(f, n) for f in ("apply", "flux", "assemble") for n in (1, 2, 3)])
    cases = cases_for(ctx, fams, 6, ctx.pick(8, 60), **world(True))
    adj = cases_for(ctx, kern.weighted([("adjust", n) for n in (1, 2, 3)]), 10, ctx.pick(1, 8), salt=1000, **world(True))
    for i, c in enumerate(adj):
        c["id"] = "a%d" % i
    run(ctx, cases + adj, "a node-centred kernel left other contents than its formula")


def extrapolation(ctx, what):
    """the part of C15 that exists as a reference routine only"""
    cases = cases_for(ctx, [("extrap", 3)] * 2, 6, ctx.pick(4, 40), salt=2000, **world(False))
    for i, c in enumerate(cases):
        c["id"] = "x%d" % i
    return run(ctx, cases, what)

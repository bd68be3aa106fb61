"""Histories of solver-kernel calls: generated from spec/KernGen.tla, bound to
boxes, coefficients and contents, run on the real kernels (data-parallel, single
precision, reference), validated by spec/TraceKernel.tla."""
import json, math, os, random
from fractions import Fraction as Fr
import vlib
from vlib import Unit, HARNESS, REPO, build, run_harness, write_json, P, fres

CPP_SRC = ["cd_apply_%dd_cuda", "cdf_%dd_cuda", "cd_correct_bc_%dd_cuda", "cd_stencil_%dd_cuda"]
F_SRC = ["celldiffusionapply%dd", "celldiffusionflux%dd", "cellsetcorrectionbc%dd", "celldiffusionstencilcoeffs%dd"]


def cpp_exe(backend=vlib.OMP, real="double", sched=False):
    defs = ["-DKERN_FLOAT"] if real == "float" else []
    inc = []
    if sched:
        defs.append("-DVERIF_SCHED")
        inc = [os.path.join(HARNESS, "sched")]
    us = [Unit(os.path.join(HARNESS, f), defs, backend, inc=inc) for f in ("kern_main.cpp", "kern_cpp.cpp")]
    names = [s % n for s in CPP_SRC for n in (3, 2, 1)] + ["coarse_to_fine_cuda"]
    us += [Unit(os.path.join(REPO, "src/cuda", f + ".cpp"), [], backend, inc=inc) for f in names]
    return build("kern", us)


def ref_exe():
    us = [Unit(os.path.join(HARNESS, f)) for f in ("kern_main.cpp", "kern_f.cpp")]
    us += vlib.fortran_units([s % n for s in F_SRC for n in (1, 2, 3)] + ["copycoarsetofine"])
    return build("kern_ref", us)


def histories(ctx, families, length, rounds, seed=None):
    out = os.path.join(ctx.work, "hist.json")
    fam = write_json(os.path.join(ctx.work, "families.json"), [list(f) for f in families])
    vlib.tlc("KernGen", env={"FAMILIES": fam, "LEN": length, "ROUNDS": rounds, "OUT": out,
                             "SEED": vlib.SEED if seed is None else seed}, workers=1)
    return json.load(open(out))


# ---------------------------------------------------------------- bounds

class B:
    """A bound on the numbers an array may hold: magnitude m; every denominator
    divides l * x for some x <= X (x may differ from element to element)."""
    __slots__ = ("m", "l", "x")

    def __init__(self, m, l=1, x=1):
        self.m, self.l, self.x = m, l, x

    def __add__(self, o):
        return B(self.m + o.m, self.l * o.l // math.gcd(self.l, o.l), self.x * o.x)

    def __mul__(self, o):
        return B(self.m * o.m, self.l * o.l, self.x * o.x)

    def join(self, o):
        return B(max(self.m, o.m), self.l * o.l // math.gcd(self.l, o.l), max(self.x, o.x))

    @property
    def den(self):
        return self.l * self.x


def C(q):
    q = Fr(q)
    return B(abs(q), q.denominator)


def over(vals):
    """bound on one of several numbers, chosen element by element"""
    top = max(v.denominator for v in vals)
    both = math.lcm(*(v.denominator for v in vals))
    return B(max(abs(v) for v in vals), *((both, 1) if both <= 8 * top else (1, top)))


class World:
    exact = False
    huge = 0        # cells, when many are wanted
    stage = None    # bounds on u before its first side, edge, corner, when each kind is written from the former only

    def __init__(self, R, n, prec, std, long=.03):
        self.R, self.n, self.std, self.fixed = R, n, std, None
        self.eps, self.v = (1.2e-16, 20) if prec == "double" else (6.5e-8, 6)
        self.prec = prec
        ext = {1: 9, 2: 4, 3: 3}[n]
        if R.random() < .05:   # many more points than workers
            ext = {1: 90, 2: 13, 3: 6}[n]
        self.lo = [R.randint(-4, 3) for _ in range(n)]
        if R.random() < .06:   # numbered far from zero
            self.lo = [l + R.choice([-1000, 100, 4096, 20000003, -20000003]) for l in self.lo]
        self.hi = [l + R.choice([R.randint(1, ext), R.randint(1, ext), ext, 1]) - 1 for l in self.lo]
        if n > 1 and R.random() < long * {2: 1, 3: .5}[n]:  # one axis much longer than the others
            d = R.randrange(n)
            self.hi = [l + R.randint(1, {2: 6, 3: 2}[n]) - 1 for l in self.lo]
            self.hi[d] = self.lo[d] + R.randint(37, {2: 130, 3: 64}[n]) - 1
        if self.huge:
            axs, left = R.sample(range(n), n), self.huge
            for d in axs[1:]:
                m = R.choice([2, 3, 16, 17, 40, 64])
                self.hi[d] = self.lo[d] + m - 1
                left = left // m + 1
            self.hi[axs[0]] = self.lo[axs[0]] + left - 1
        self.decl, self.mem, self.bnd, self.pool = {}, {}, {}, {}
        g = lambda a, b: R.randint(a, b)
        cell, face, win = "cell", "face", "win"
        self.add("u", cell, g(1, 2))
        self.add("a", cell, g(0, 2))
        self.add("f", cell, g(0, 2))
        self.add("res", cell, g(0, 2))
        self.add("rhs", cell, 0)
        self.add("st", win, g(0, 1))
        dg = g(0, 1)
        small = R.choice([[1, 2, 3, 4, 5], [1, 2, 3, 4, 5], [0, 1, 2, 3], [-2, -1, 1, 2, 3]])
        for d in range(n):
            self.add("fl%d" % d, face, 0, d)
            self.add("b%d" % d, face, 0, d, pool=small)
            self.add("d%d" % d, face, dg, d, pool=small)
        # coefficients declared over their own, larger boxes
        e1 = [(g(0, 1), g(0, 1)) for _ in range(n)]
        for d in range(n):
            self.add("bb%d" % d, face, 0, d, box=([l - e[0] for l, e in zip(self.lo, e1)],
                                                  [h + e[1] for h, e in zip(self.hi, e1)]))
        e2 = [(g(0, 2), g(0, 1)) for _ in range(n)]
        self.add("aa", cell, 0, box=([l - e[0] for l, e in zip(self.lo, e2)], [h + e[1] for h, e in zip(self.hi, e2)]))
        if n == 2:
            self.add("uh", cell, 1)
        if n == 3:
            cg = g(0, 2)
            cl = [g(-4, 2) for _ in range(3)]
            ch = [l + g(1, 4) - 1 for l in cl]
            self.add("c", cell, cg, box=(cl, ch))
            fl_ = [g(-9, 6) for _ in range(3)]
            fh = [l + g(2, 6) - 1 for l in fl_]
            self.add("fi", cell, cg, box=(fl_, fh))
        self.initial = {k: list(v) for k, v in self.mem.items()}

    def add(self, name, kind, g, dir=0, box=None, pool=None):
        lo, hi = box or (self.lo, self.hi)
        self.decl[name] = {"kind": kind, "dir": dir, "lo": list(lo), "hi": list(hi), "g": g}
        n = 2 * self.n + 1 if kind == "win" else 1
        for d in range(self.n):
            n *= hi[d] - lo[d] + 1 + 2 * g + (1 if kind == "face" and d == dir else 0)
        self.decl[name]["n"] = n
        self.pool[name] = pool
        self.fresh(name)

    def fresh(self, name):
        p = self.pool[name]
        if p:
            self.mem[name] = [self.R.choice(p) for _ in range(self.decl[name]["n"])]
            self.bnd[name] = B(max(map(abs, p)))
        else:
            self.mem[name] = [self.R.randint(-self.v, self.v) for _ in range(self.decl[name]["n"])]
            self.bnd[name] = B(self.v)
        return self.mem[name]

    # -- numeric arguments
    def num(self, pool):
        return Fr(self.R.choice(pool))

    def params(self):
        if self.fixed:
            return self.fixed
        dx = self.R.sample([Fr(1, 2), Fr(1), Fr(2), Fr(4), Fr(1, 4), Fr(3), Fr(3, 2), Fr(5), Fr(3, 4), Fr(6)], self.n)
        if self.R.random() < (.75 if self.prec == "float" else .2):
            dx = self.R.sample([Fr(1, 2), Fr(1), Fr(2), Fr(4)], self.n)
        if self.R.random() < .1:
            dx = [dx[0]] * self.n
        co = [1, -1, 2, -2, 3, Fr(1, 2), 4, -3, 0, 1, -1, 2, -5]
        return dx, self.num(co), self.num(co)

    def segment(self):
        """tangential limits of a boundary segment: overlapping the box"""
        bl, bh = [], []
        for l, h in zip(self.lo, self.hi):
            a, b = sorted((self.R.randint(l, h), self.R.randint(l, h)))
            if self.R.random() < .5:
                a, b = l, h
            if not self.std:
                a -= self.R.choice([0, 0, 1, 3])
                b += self.R.choice([0, 0, 1, 3])
                if self.R.random() < .04:
                    a, b = (h + 1, h + 1) if self.R.random() < .5 else (l - 1, l - 1)
            bl.append(a); bh.append(b)
        return bl, bh


class Refuse(Exception):
    """the arguments drawn do not fit the arrays, or the result could not be read back exactly"""


def flat(lo, hi):
    return [x for p in zip(lo, hi) for x in p]


def V(xs):
    return "%d %s" % (len(xs), " ".join(map(str, xs)))


def num(q):
    return repr(float(q))


def at(n):
    return "@" + n


def bind(w, c):
    """-> (kernel name, argument text, TLA record, {output: bound}, work magnitude)"""
    R, n, k = w.R, w.n, c["k"]
    dx, al, be = w.params()
    lo, hi = w.lo, w.hi
    bn = w.bnd
    rec = {"k": k, "lo": lo, "hi": hi, "dx": [fres(*q.as_integer_ratio()) for q in dx],
           "alpha": fres(*al.as_integer_ratio()), "beta": fres(*be.as_integer_ratio())}
    DX = V([num(q) for q in dx])
    names = lambda p: [p + str(d) for d in range(n)]
    ats = lambda p: [at(x) for x in names(p)]
    g = lambda a: str(w.decl[a]["g"])
    L, H = list(map(str, lo)), list(map(str, hi))
    LH = list(map(str, flat(lo, hi)))
    if k == "apply":
        fm, re = c["form"], c["react"]
        rec.update(form=fm, react=re, a="a", u="u", f="f", fl=names("fl"), out="res")
        nm = ("diffusion_%s_" % re if re != "none" else "poisson_%s_" % ("v1" if fm == "res" else "v2")) + fm
        args = LH + ([num(al)] if re != "none" else []) + [num(be), DX]
        if re == "v1":
            args += [g("a"), at("a")]
        if re != "none":
            args += [g("u"), at("u")]
        if fm == "res":
            args += [g("f"), at("f")]
        args += ats("fl") + [g("res"), at("res")]
        b = bn["f"] if fm == "res" else B(0)
        for d in range(n):
            f = bn["fl%d" % d]
            b = b + C(be) * C(1 / dx[d]) * B(2 * f.m, f.l, f.x * f.x)
        if re != "none":
            b = b + C(al) * (bn["a"] if re == "v1" else B(1)) * bn["u"]
        return nm, args, rec, {"res": b}, b.m
    if k == "flux":
        rec.update(coef=c["coef"], u="u", b=names("b"), fl=names("fl"))
        args = L + H + [DX] + (ats("b") if c["coef"] else []) + [g("u"), at("u")] + ats("fl")
        out = {}
        u = bn["u"]
        for d in range(n):
            b = B(2 * u.m, u.l, u.x * u.x) * C(1 / dx[d])
            if c["coef"]:
                b = b * bn["b%d" % d]
            out["fl%d" % d] = b
        return "flux" if c["coef"] else "poisson_flux", args, rec, out, max(b.m for b in out.values())
    if k == "bc":
        return bind_bc(w, c, rec, dx, al, be, DX, LH)
    if k == "corner":
        bl, bh = w.segment()
        gu = w.decl["u"]["g"]
        corner_pos(w, c["face"], (0, 1), bl, bh, gu, True)
        rec.update(u="u", face=c["face"], bLo=bl, bHi=bh)
        args = LH + [g("u"), DX, at("d0"), at("d1"), at("u"), V(bl), V(bh), str(c["ord"]), str(c["face"]),
                     str(c["type"]), str(c["btype"])]
        b = B(5) * bn["u"]
        return "set_corner_bc", args, rec, {"u": b}, b.m
    if k == "homog":
        bl, bh = segment(w, c)
        d = min(1, c["face"] // 2)
        if c["ord"] > hi[d] - lo[d] + 2 or (w.std and c["ord"] not in (1, 2, 3, 4)):
            raise Refuse
        ua = c.get("u", "uh")
        rec.update(u=ua, face=c["face"], ord=c["ord"], bLo=bl, bHi=bh)
        args = [L[0], L[1], H[0], H[1], str(c["face"]), V(bl), V(bh), str(c["ord"]), at(ua)]
        u = bn[ua] if w.stage is None else w.stage.setdefault(1, bn[ua])
        b = B(8 * u.m, {2: 3, 3: 5, 4: 35}.get(c["ord"], 1) * u.l, u.x ** max(1, c["ord"])).join(bn[ua])
        return "set_homogenous_bc", args, rec, {ua: b}, b.m
    if k == "offdiag":
        own, st = c["own"], c.get("st", "st")
        p = "b" if own else "bb"
        bl, bh = w.decl[p + "0"]["lo"], w.decl[p + "0"]["hi"]
        rec.update(coef=c["coef"], b=names(p), st=st)
        if c["coef"]:
            args = L + H + list(map(str, bl + bh)) + [DX, num(be)] + ats(p) + [g(st), at(st)]
        else:
            args = L + H + [DX, num(be), g(st), at(st)]
        b = B(0)
        for d in range(n):
            e = C(be / dx[d] ** 2) * (bn[p + str(d)] if c["coef"] else B(1))
            b = b.join(e)
        return ("" if c["coef"] else "poisson_") + "offdiag", args, rec, {st: b}, b.m
    if k == "diag":
        a, st = "aa", c.get("st", "st")
        s = bn[st]
        b = B(2 * n * s.m, s.l, s.x ** (2 * n))
        rec.update(react=c["react"], a=a, st=st)
        args = L + H
        if c["react"] == "v1":
            args += list(map(str, w.decl[a]["lo"] + w.decl[a]["hi"])) + [num(al), at(a)]
            b = b + C(al) * bn[a]
        elif c["react"] == "v2":
            args += [num(al)]
            b = b + C(al)
        args += [g(st), at(st)]
        return {"v1": "v1diag", "v2": "v2diag", "none": "poisson_diag"}[c["react"]], args, rec, {st: b}, b.m
    if k in ("adjdiag", "adjoff", "adjcfdiag", "adjcfoff", "readj", "bdryrhs"):
        return bind_adj(w, c, rec, dx, be, DX, L, H)
    if k == "copy":
        ax, r = c["axis"], c["r"]
        C_, F_ = w.decl["c"], w.decl["fi"]
        cg = C_["g"]
        ratio = [R.randint(1, 4) for _ in range(3)]
        ratio[ax] = r
        cl = [R.randint(C_["lo"][d] - cg, C_["hi"][d] + cg) for d in range(3)]
        ch = [l + R.randint(0, 2) for l in cl]
        fl = [R.randint(F_["lo"][d] - cg, F_["hi"][d] + cg) for d in range(3)]
        # the fine cells along the axis whose coarse cell exists
        ok = [f for f in range(F_["lo"][ax] - cg, F_["hi"][ax] + cg + 1)
              if C_["lo"][ax] - cg <= f // r <= C_["hi"][ax] + cg]
        if not ok:
            raise Refuse
        a, b = sorted((R.choice(ok), R.choice(ok)))
        if R.random() < .4:
            a, b = ok[0], ok[-1]
        if R.random() < .05:
            b = a - 1
        fl[ax] = a
        fh = [l + R.randint(0, 2) for l in fl]
        fh[ax] = b
        if w.std:  # the other coordinates single, the coarse range the one that covers the fine one
            fh = [b if d == ax else fl[d] for d in range(3)]
            ch = list(cl)
            cl[ax], ch[ax] = a // r, max(a, b) // r
        rec = {"k": "copy", "axis": ax, "ratio": ratio, "cLo": cl, "fLo": fl, "fHi": fh, "c": "c", "f": "fi"}
        args = list(map(str, flat(cl, ch) + flat(fl, fh))) + [str(ax)] + \
            list(map(str, flat(C_["lo"], C_["hi"]) + flat(F_["lo"], F_["hi"]))) + [str(cg), V(ratio), at("c"), at("fi")]
        return "copy", args, rec, {"fi": bn["c"]}, bn["c"].m
    if k == "copycorner":
        C_, F_ = w.decl["c"], w.decl["fi"]
        cg = C_["g"]
        cl = [R.randint(C_["lo"][d] - cg, C_["hi"][d] + cg) for d in range(3)]
        fl = [R.randint(F_["lo"][d] - cg, F_["hi"][d] + cg) for d in range(3)]
        ext = 0 if w.std else R.randint(0, 1)
        rec = {"k": "copycorner", "cLo": cl, "fLo": fl, "c": "c", "f": "fi"}
        args = list(map(str, flat(cl, [x + ext for x in cl]) + flat(fl, [x + ext for x in fl]) + flat(C_["lo"], C_["hi"])
                        + flat(F_["lo"], F_["hi"]))) + [str(cg), at("c"), at("fi")]
        return "copy_corner", args, rec, {"fi": bn["c"]}, bn["c"].m
    raise KeyError(k)


def sign(f, bit):
    return 1 if (f >> bit) % 2 == 0 else -1


def corner_pos(w, f, axes, bl, bh, g, two):
    """positions of a corner or edge such that it and its inward neighbours exist"""
    for q, d in enumerate(axes):
        s = sign(f, q)
        l, h = w.lo[d] - g + (s < 0), w.hi[d] + g - (s > 0)
        if h < l:
            raise Refuse
        std = w.lo[d] - 1 if s > 0 else w.hi[d] + 1
        pos = std if l <= std <= h and (w.std or w.R.random() < .7) else w.R.randint(l, h)
        if two:
            if s > 0:
                bl[d] = pos
            else:
                bh[d] = pos
        else:
            bl[d] = bh[d] = pos


def segment(w, c):
    return tuple(map(list, c["seg"])) if "seg" in c else w.segment()


def side_pos(w, d, low, bl, bh, gu, gd):
    """the ghost line of a side: the standard one, or any whose inward neighbours exist"""
    R = w.R
    lo, hi = w.lo[d], w.hi[d]
    if low:
        l, h = lo - gu, hi + gu - 2
        l, h = max(l, lo - gd - 1), min(h, hi + gd)
        std = lo - 1
    else:
        l, h = lo - gu + 2, hi + gu
        l, h = max(l, lo - gd), min(h, hi + 1 + gd)
        std = hi + 1
    if h < l:
        raise Refuse
    pos = std if l <= std <= h and (w.std or R.random() < .75) else R.randint(l, h)
    if low:
        bl[d] = pos
        bh[d] = pos + (0 if w.std else R.choice([0, 0, 1]))
    else:
        bh[d] = pos
        bl[d] = pos - (0 if w.std else R.choice([0, 0, 1]))


def bind_bc(w, c, rec, dx, al, be, DX, LH):
    R, n, f, t = w.R, w.n, c["face"], c["type"]
    coef, bt, od = c["coef"], c["btype"], c["ord"]
    given = "seg" in c
    bl, bh = segment(w, c)
    dn = c.get("d", "d")
    gu, gd = w.decl["u"]["g"], w.decl[dn + "0"]["g"]
    u = w.bnd["u"] if w.stage is None else w.stage.setdefault(t, w.bnd["u"])
    b = B(3 * u.m, u.l, u.x ** 3)
    if t == 1 and f < 2 * n:
        d, low = f // 2, f % 2 == 0
        if not given:
            side_pos(w, d, low, bl, bh, gu, gd)
        hs = dx[d]
        ds = [Fr(x) for x in w.pool[dn + str(d)]] if coef else [Fr(1)]
        if bt == 0 and od == 2:
            b = B(3 * u.m, 3 * u.l, u.x ** 2)
        if bt == 4 and od in (1, 2):
            if n == 1 and not coef:
                al, be = Fr(2), Fr(1)
                rec.update(alpha=fres(2), beta=fres(1))
            if od == 1:
                den = [2 * al * x + hs * be for x in ds]
                if 0 in den:
                    raise Refuse
                b = over([(2 * al * x - hs * be) / q for x, q in zip(ds, den)]) * u
            else:
                den = [8 * al * x + 3 * hs * be for x in ds]
                if 0 in den:
                    raise Refuse
                r1 = [(8 * al * x - 6 * hs * be) / q for x, q in zip(ds, den)]
                r2 = [hs * be / q for q in den]
                X = over([Fr(1, math.lcm(p.denominator, q.denominator)) for p, q in zip(r1, r2)])
                b = B((max(map(abs, r1)) + max(map(abs, r2))) * u.m, u.l * X.l, u.x ** 2 * X.x)
            if max(abs(x) for x in den) > 40000:
                raise Refuse
    elif given:
        pass
    elif t == 2 and n == 2:
        corner_pos(w, f if f < 4 else 0, (0, 1), bl, bh, gu, True)
    elif t == 2:
        corner_pos(w, f % 4, [(0, 1), (0, 2), (1, 2), (1, 2)][f // 4], bl, bh, gu, False)
    elif t == 3:
        corner_pos(w, f % 4, (0, 1), bl, bh, gu, False)
        bl[2] = bh[2] = R.randint(w.lo[2] - gu, w.hi[2] + gu)
    else:
        raise Refuse
    alr, ber = (w.num([1, 2, 3]), w.num([1, 5])) if (n == 1 and not coef) else (al, be)  # not used there
    rec.update(u="u", face=f, type=t, btype=bt, ord=od, coef=coef, bLo=bl, bHi=bh, d=[dn + str(q) for q in range(n)],
               zero=coef and n == 2)
    args = LH + [DX]
    if coef:
        args += [str(gd)] + [at(dn + str(q)) for q in range(n)]
    args += [str(gu), at("u"), V(bl), V(bh), str(od), str(f)] + ([str(t)] if n > 1 else []) + [str(bt), num(alr), num(ber)]
    b = b.join(w.bnd["u"])
    return "set_bc" if coef else "set_poisson_bc", args, rec, {"u": b}, b.m


def bind_adj(w, c, rec, dx, be, DX, L, H):
    R, n, k = w.R, w.n, c["k"]
    d, side = c["dir"], c["side"]
    coef = c.get("coef", False)
    lo, hi = w.lo, w.hi
    if "seg" in c:
        pl, ph = segment(w, c)
    else:
        pl, ph = [], []
        for l, h in zip(lo, hi):
            a, b = sorted((R.randint(l, h), R.randint(l, h)))
            if R.random() < .5:
                a, b = l, h
            pl.append(a); ph.append(b)
        inner = (lo[d] if side == 0 else hi[d])
        if not w.std and R.random() < .25:
            inner = R.randint(lo[d], hi[d])
        pl[d] = ph[d] = inner + 2 * side - 1
    st = c.get("st", "st")
    s = w.bnd[st]
    names = ["b%d" % q for q in range(n)]
    bb = w.bnd["b%d" % d] if coef else B(1)
    h = dx[d]
    rec.update(dir=d, side=side, pLo=pl, pHi=ph, st=st, coef=coef, b=names)
    for q in ("btype", "ord", "r"):
        if q in c:
            rec[q] = c[q]
    P_ = list(map(str, pl + ph))
    dirs = [str(d)] if n > 1 else []
    B_ = [at(q) for q in names] if coef else []
    S_ = [str(w.decl[st]["g"]), at(st)]
    pre = "adj_" + ("" if coef else "poisson_")
    vals = [Fr(x) for x in (w.pool["b%d" % d] if coef else [1])]
    if any(4 * x + h == 0 or 3 * h + 16 * x == 0 for x in vals):
        raise Refuse
    if k == "adjdiag":
        args = L + H + P_ + dirs + [str(side), str(c["btype"]), str(c["ord"]), DX, num(be)] + B_ + S_
        out = s
        if c["ord"] == 2 and c["btype"] == 4:
            out = s + over([be * x / (h * (3 * h + 16 * x)) for x in vals])
        if c["ord"] == 2 and c["btype"] == 0:
            out = s + C(be / (3 * h * h)) * bb
        return pre + "diag", args, rec, {st: out}, out.m
    if k == "adjcfdiag":
        r = c["r"]
        args = L + H + P_ + [str(r)] + dirs + [str(side), str(c["ord"]), DX, num(be)] + B_ + S_
        fac = Fr(1, 3) if c["ord"] == 1 else Fr(2 * (r - 1), r + 1)
        out = s + C(be / (h * h)) * C(fac) * bb
        return pre + "cf_diag", args, rec, {st: out}, out.m
    if k == "adjoff":
        df, nf = c.get("dirf") or w.num([2, 3, Fr(1, 2), -1, 0, 1]), w.num([1, 2, 0])
        rec["dirf"] = fres(*df.as_integer_ratio())
        args = L + H + P_ + dirs + [str(side), str(c["btype"]), str(c["ord"]), DX, num(df), num(nf), num(be)] + B_ + S_
        out = s
        if c["btype"] == 4 and c["ord"] == 1:
            out = s * over([2 * h / (4 * x + h) for x in vals])
        if c["btype"] == 4 and c["ord"] == 2:
            out = s + B(9) * over([be * x / (h * (3 * h + 16 * x)) for x in vals])
        if c["btype"] == 0 and c["ord"] == 1:
            out = s * C(df)
        if c["btype"] == 0 and c["ord"] == 2:
            out = B(3 * s.m, 3 * s.l, s.x ** 2)
        return pre + "offdiag", args, rec, {st: out}, out.m
    if k == "adjcfoff":
        r = c["r"]
        args = L + H + P_ + [str(r)] + dirs + [str(side), str(c["ord"])] + S_
        out = s
        if c["ord"] == 1:
            out = s * C(Fr(2, 3))
        if c["ord"] == 2:
            out = B(2 * s.m, s.l * (r + 1) * (r + 3), s.x ** 2)
        return "adj_cf_offdiag", args, rec, {st: out}, out.m
    if k == "readj":
        return "readj_offdiag", L + H + P_ + dirs + [str(side)] + S_, rec, {st: s}, s.m
    # bdryrhs
    rec.update(u="u", rhs="rhs")
    args = L + H + P_ + dirs + [str(side)] + S_ + [str(w.decl["u"]["g"]), at("u"), at("rhs")]
    out = w.bnd["rhs"] + s * w.bnd["u"]
    return "adj_cf_bdryrhs", args, rec, {"rhs": out}, out.m


INPUTS = {"apply": ["a", "u", "f", "fl"], "flux": ["u", "b"], "bc": ["u", "d"], "corner": ["u"], "homog": ["uh"],
          "offdiag": ["b", "bb", "st"], "diag": ["st", "aa"], "copy": ["c"], "copycorner": ["c"]}


def make(R, h, prec="double", std=False, refuse=None, long=.03, again=.12, world=None, binder=None, inputs=None):
    """binds one history: list of events (text, TLA record or load, tolerance, bound)"""
    w = (world or World)(R, h["n"], prec, std, long)
    bind, inputs = binder or globals()["bind"], inputs or INPUTS
    fn = lambda nm: nm if nm.startswith("raw:") else nm + str(w.n)
    evs, past = [], []

    def usable(b, m):
        if w.exact:  # nothing is rounded: read back as it is
            return all(x.x == 1 and x.l & (x.l - 1) == 0 and m * x.l < 1 << 48 for x in b.values()), 0
        tol = (40 if prec == "double" else 12) * w.eps * max(1, float(m))
        den = {q: min(x.den, 10 ** 15) for q, x in b.items()}
        return all(2.2 * tol * dd * dd < 1 for dd in den.values()), tol

    def load(a):
        v = w.fresh(a)
        evs.append({"name": "load", "text": "load %s %s" % (a, " ".join(map(str, v))), "load": a, "v": list(v)})

    def issue(c, nm, args, rec, out, tol):
        for a, b in out.items():
            full = c["k"] == "flux"
            w.bnd[a] = b if full else w.bnd[a].join(b)
        evs.append({"name": fn(nm), "text": "%s %s" % (fn(nm), " ".join(args)), "call": rec, "tol": tol,
                    "den": max(b.den for b in out.values()), "cat": c})

    def repeat(c, state):
        """the same call, argument for argument, on what the arrays hold by now"""
        keep = R.getstate()
        R.setstate(state)
        try:
            nm, args, rec, out, m = bind(w, c)
        except Refuse:
            return
        finally:
            R.setstate(keep)
        ok, tol = usable(out, m)
        if ok:
            issue(c, nm, args, rec, out, tol)

    for c in h["calls"]:
        done = False
        for attempt in range(8):
            if attempt == 4:  # denominators may have grown too large: start from fresh contents
                k = c["k"]
                ins = inputs.get(k, ["st", "u", "rhs", "b"])
                for a in sorted(w.decl):
                    if any(a == q or (a[:-1] == q and (a[-1].isdigit() or a[-1].isupper())) for q in ins):
                        load(a)
            state = R.getstate()
            try:
                nm, args, rec, out, m = bind(w, c)
            except Refuse:
                continue
            ok, tol = usable(out, m)
            if not ok:
                continue
            done = True
            break
        if not done:
            if refuse is not None:
                refuse.append(c)
            continue
        issue(c, nm, args, rec, out, tol)
        past.append((c, state))
        if R.random() < again:  # immediately, after the caller changed one of the arrays of the call
            if R.random() < .7:
                load(R.choice([a for a in sorted(w.decl) if at(a) in args]))
            repeat(c, state)
        if R.random() < again:  # later, with other calls in between
            repeat(*R.choice(past[-6:]))
    return {"n": w.n, "decl": w.decl, "mem": w.initial, "events": evs, "prec": prec}


def case_text(c):
    L = ["C %s %d" % (c["id"], c.get("threads", 2))]
    if "sched" in c:
        s = c["sched"]
        L.append("%d %d %d %d %d %s" % (s["workers"], s["deal"], s["walk"], s["split"], len(s["picks"]),
                                        " ".join(map(str, s["picks"]))))
    names = sorted(c["decl"])
    L.append(str(len(names)))
    L += ["%s %d" % (a, c["decl"][a]["n"]) for a in names]
    L += [" ".join(map(str, c["mem"][a])) for a in names]
    L.append(str(len(c["events"])))
    L += [e["text"] + " ;" for e in c["events"]]
    return "\n".join(L) + "\n"


def parse(out):
    res, cur = {}, None
    for ln in out.split("\n"):
        if ln.startswith("T "):
            cur = res.setdefault(ln[2:], [])
        elif ln.startswith("P "):
            t = ln.split()
            d, q = {}, 2
            while q < len(t):
                if t[q][0].isalpha() and t[q] not in ("nan", "inf"):
                    nm = t[q]
                    d[nm] = []
                    q += 1
                else:
                    d[nm].append((int(t[q]), float(t[q + 1])))
                    q += 2
            cur.append((t[1] == "1", d))
    return res


def execute(exe, cases):
    return parse(run_harness([exe], "".join(map(case_text, cases)), env={"OMP_DYNAMIC": "FALSE"}))


def recon(x, tol, maxden):
    """residue of the rational within tol of x with the smallest denominator"""
    if x != x or abs(x) > 1e17:
        return -1
    if x == int(x):
        return int(x) % P
    q = Fr(x)
    # convergents and semiconvergents of the exact value, smallest denominator first
    f = simplest(q - Fr(tol), q + Fr(tol))
    if f.denominator > maxden or f.denominator % P == 0:
        return -1
    return f.numerator % P * pow(f.denominator, -1, P) % P


def simplest(a, b):
    """the fraction with the smallest denominator in [a, b]"""
    fl = a.numerator // a.denominator
    if fl == a:
        return Fr(fl)
    if fl + 1 <= b:
        return Fr(fl + 1)
    r = simplest(1 / (b - fl), 1 / (a - fl))
    return fl + 1 / r


def trace_of(cases, res):
    tr = []
    for c in cases:
        r = res.get(c["id"], [])
        if len(r) != len(c["events"]):
            raise vlib.CheckError("history %s: %d of %d calls answered" % (c["id"], len(r), len(c["events"])))
        evs = []
        for e, (g, d) in zip(c["events"], r):
            if "load" in e:
                rec = {"k": "load", "a": e["load"], "v": [v % P for v in e["v"]]}
                diff = {a: {"ix": [q + 1 for q, _ in vs], "v": [recon(x, 1e-9, 1) for _, x in vs]} for a, vs in d.items()}
            else:
                rec = e.get("call", 0)
                diff = {a: {"ix": [q + 1 for q, _ in vs], "v": [recon(x, e["tol"], e["den"]) for _, x in vs]}
                        for a, vs in d.items()}
            evs.append({"name": e["name"], "call": rec, "step": e.get("step", ""), "guard": g, "diff": diff})
        tr.append({"id": c["id"], "mem": {a: [v % P for v in vs] for a, vs in c["mem"].items()},
                   "decl": {a: {k: v for k, v in dd.items() if k != "n"} for a, dd in c["decl"].items()}, "events": evs})
    return tr


def validate(ctx, cases, res, what, limit=500000):
    return ctx.validate_slices("TraceKernel", cases, lambda c: sum(d["n"] for d in c["decl"].values()) * (1 + len(c["events"])),
                               limit, lambda cs: trace_of(cs, res), what)


def cases_for(ctx, families, length, rounds, prec="double", std=False, salt=0, count=True, **kw):
    R = random.Random(vlib.SEED * 7919 + sum(map(ord, ctx.pid)) + salt)
    hs = histories(ctx, families, length, rounds, vlib.SEED + salt)
    ref, cases = [], []
    for i, h in enumerate(hs):
        c = make(R, h, prec, std, ref, **kw)
        if not c["events"]:
            continue
        c["id"] = "h%d" % i
        c["threads"] = R.choice([1, 2, 3, 8])
        cases.append(c)
    ncalls = sum(1 for c in cases for e in c["events"] if "call" in e)
    if count:
        ctx.add("histories", len(cases))
        ctx.add("calls", ncalls)
        ctx.add("calls_not_bound", len(ref))
        ctx.notes["distinct_calls_by_category"] = len({json.dumps([c["n"], e["cat"]], sort_keys=True)
                                                       for c in cases for e in c["events"] if "cat" in e})
        e = [e for e in cases[0]["events"] if "call" in e]
        if e:
            ctx.sample({"call": e[0]["text"][:300], "category": e[0]["cat"]})
    return cases


def weighted(fams):
    """small dimensions cost little: cover them with more contents and arguments"""
    return [f for f in fams for _ in range({1: 6, 2: 2, 3: 1}[f[1]])]


def huge_cases(ctx, fam, dims, cells, keep):
    """single calls over more cells than 16 bits count"""
    class Huge(World):
        huge = cells
    cases = cases_for(ctx, [(fam, n) for n in dims], 1, 1, salt=5000 + cells, count=False, world=Huge, again=0)
    cases = random.Random(vlib.SEED).sample(cases, min(len(cases), keep))
    for c in cases:
        c["id"] = "huge%d" % cells + c["id"]
        used = " ".join(e["text"] for e in c["events"]).split()
        for a in list(c["decl"]):
            if at(a) not in used:
                del c["decl"][a], c["mem"][a]
    return cases


def family(ctx, fam, what, length, rounds, dims=(1, 2, 3), huge=()):
    cases = cases_for(ctx, weighted([(fam, n) for n in dims]), length, rounds)
    for cells, keep in huge:
        cases += huge_cases(ctx, fam, dims, cells, keep)
    res = execute(cpp_exe(), cases)
    return validate(ctx, cases, res, what)


def c13(ctx):
    family(ctx, "apply", "an operator or residual kernel stored other values than its formula", 6, ctx.pick(110, 500),
           huge=ctx.pick(((67000, 3), (2500, 18)), ((67000, 18), (2500, 18))))


def c14(ctx):
    family(ctx, "flux", "a flux kernel stored other values than its formula, or elsewhere", 4, ctx.pick(150, 700),
           huge=ctx.pick(((67000, 3), (2500, 18)), ((67000, 18), (2500, 18))))


def c15(ctx):
    what = "a boundary kernel left other ghosts than its formula"
    if family(ctx, "bc", what, 8, ctx.pick(4, 24)):
        from checks import ref
        ref.extrapolation(ctx, what)


def c16(ctx):
    family(ctx, "assemble", "an assembly kernel stored other coefficients than its formula", 6, ctx.pick(70, 400),
           huge=ctx.pick(((23000, 2), (2500, 18)), ((23000, 18), (2500, 18))))


def c17(ctx):
    family(ctx, "adjust", "an adjustment kernel left other windows than its formula", 8, ctx.pick(4, 20))


def c18(ctx):
    family(ctx, "all", "a history of kernel calls left other contents than the composition of its calls", 24, ctx.pick(3, 12))


# the cases both implementations define: standard ghost positions, segments inside the box
def c21(ctx):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(cpp_exe), ex.submit(ref_exe)
        port, ref = a.result(), b.result()
    fams = weighted([(f, n) for f in ("apply", "flux", "assemble", "bc", "adjust") for n in (1, 2, 3)] + [("copy", 3)])
    cases = cases_for(ctx, fams, 8, 1, std=True)
    cases += cases_for(ctx, [("all", n) for n in (1, 2, 3)], 16, ctx.pick(1, 5), std=True, salt=1000)
    for i, c in enumerate(cases):
        c["id"] = "s%d" % i
    rp, rr = execute(port, cases), execute(ref, cases)
    ok = validate(ctx, cases, rr, "the reference kernel left other contents than the specification")
    ok = ok and validate(ctx, cases, rp, "the data-parallel kernel left other contents than the specification, which the reference follows")
    return ok


def c20(ctx):
    """the same cases in both precisions against the one specification"""
    import concurrent.futures as cf
    from checks import dsl
    fams = weighted([(f, n) for f in ("apply", "flux", "assemble", "bc", "adjust") for n in (1, 2, 3)] + [("copy", 3)])
    cases = cases_for(ctx, fams, 8, ctx.pick(1, 4), prec="float")
    cases += cases_for(ctx, [("all", n) for n in (1, 2, 3)], 16, ctx.pick(1, 4), prec="float", salt=1000)
    for i, c in enumerate(cases):
        c["id"] = "p%d" % i
    # double precision on inputs single precision cannot hold
    fine = cases_for(ctx, fams, 8, ctx.pick(1, 4), salt=2000)
    for i, c in enumerate(fine):
        c["id"] = "q%d" % i
    ps = []
    for kind, q in (("assign", 14), ("window", 12), ("mix", 10), ("domain", 6)):
        for p in dsl.progs(ctx, kind, ctx.pick(q, 5 * q)):
            p["id"] = kind + p["id"]
            ps.append(p)
    byid = {p["id"]: p for p in ps}
    dc = dsl.make_cases(random.Random(vlib.SEED * 7919 + 20), ps, ctx.pick(5, 10), 4, bits=22, vmax=9)
    ctx.add("programs", len(ps))
    ctx.add("executions", len(dc))
    jobs = {"f": lambda: cpp_exe(real="float"), "d": cpp_exe, "df": lambda: build("dslf", dsl.units(ps, ["-DDSL_FLOAT"])),
            "dd": lambda: build("dsld", dsl.units(ps))}
    with cf.ThreadPoolExecutor(4) as ex:
        exes = dict(zip(jobs, ex.map(lambda f: f(), jobs.values())))
    ok = validate(ctx, cases, execute(exes["f"], cases), "a single-precision kernel left other contents than its formula")
    for c in cases:  # the same calls, read back at the accuracy of the double-precision kernels
        for e in c["events"]:
            if "tol" in e:
                e["tol"] *= 40 * 1.2e-16 / (12 * 6.5e-8)
    ok = ok and validate(ctx, cases + fine, execute(exes["d"], cases + fine), "a double-precision kernel left other contents than its formula")
    ok = ok and dsl.validate(ctx, byid, dc, dsl.execute(exes["df"], byid, dc),
                             "a single-precision statement stored other values than its meaning")
    return ok and dsl.validate(ctx, byid, dc, dsl.execute(exes["dd"], byid, dc),
                               "a double-precision statement stored other values than its meaning")


def c11(ctx):
    """kernel histories under imposed schedules, on real threads, and on the sequential back end"""
    from checks import dsl
    what = "a kernel's result depends on how its points are scheduled"
    S = dsl.schedules(ctx, ctx.pick(60, 600))
    R = random.Random(vlib.SEED * 7919 + 1111)
    R.shuffle(S)
    fams = weighted([("all", n) for n in (1, 2, 3)])
    cases = cases_for(ctx, fams, 12, ctx.pick(1, 3), salt=3000, long=.3)
    for i, c in enumerate(cases):
        c["id"] = "k%d" % i
    sc = [dict(c, sched=S[i % len(S)], threads=1) for i, c in enumerate(cases)]
    out = run_harness([cpp_exe(sched=True)], "".join(map(case_text, sc)))
    n = [ln for ln in out.split("\n") if ln.startswith("S ")][0].split()
    if int(n[1]) < len(cases):
        raise vlib.CheckError("only %s kernel launches were scheduled" % n[1])
    ctx.add("scheduled_launches", int(n[1]))
    ctx.add("scheduled_points", int(n[2]))
    if not validate(ctx, sc, parse(out), what):
        return
    first = None
    for backend in (vlib.OMP, vlib.CPP):
        exe = cpp_exe(backend)
        for th in ((1, 2, 3, 5, 8) if backend is vlib.OMP else (1,)):
            for c in cases:
                c["threads"] = th
            res = execute(exe, cases)
            if first is None or res != first:
                if not validate(ctx, cases, res, what + " (%d threads)" % th):
                    return
            first = first or res
            ctx.add("executions_compared", len(cases))


def law_world(R, n):
    """a world for the runs of spec/Operator.tla: the arrays that spec names"""
    w = World(R, n, "double", False)
    keep = {"u", "a", "f"} | {p + str(d) for p in ("fl", "b") for d in range(n)}
    g = lambda: R.randint(0, 2)
    for nm in ("ap", "ap0", "re"):
        w.add(nm, "cell", g())
    for nm in ("st", "row"):
        w.add(nm, "win", R.randint(0, 1))
    keep |= {"ap", "ap0", "re", "st", "row"}
    w.decl = {k: v for k, v in w.decl.items() if k in keep}
    w.fixed = w.params()
    w.initial = {k: list(w.mem[k]) for k in w.decl}
    return w


def law_call(w, p, step):
    """one step of Operator.tla -> (text, name, {output: bound}, magnitude)"""
    n, lo, hi = w.n, w.lo, w.hi
    dx, al, be = w.fixed
    bn = w.bnd
    DX = V([num(q) for q in dx])
    L, H, LH = list(map(str, lo)), list(map(str, hi)), list(map(str, flat(lo, hi)))
    g = lambda a: str(w.decl[a]["g"])
    ats = lambda q: [at(q + str(d)) for d in range(n)]
    re = p["react"]
    if step == "flux":
        out = {}
        for d in range(n):
            out["fl%d" % d] = B(2 * bn["u"].m) * C(1 / dx[d]) * (bn["b%d" % d] if p["coef"] else B(1))
        args = L + H + [DX] + (ats("b") if p["coef"] else []) + [g("u"), at("u")] + ats("fl")
        return "flux" if p["coef"] else "poisson_flux", args, out
    if step in ("ap", "ap0", "re"):
        fm, r = ("res" if step == "re" else "apply"), (re if step != "ap0" else "none")
        nm = ("diffusion_%s_" % r if r != "none" else "poisson_%s_" % ("v1" if fm == "res" else "v2")) + fm
        args = LH + ([num(al)] if r != "none" else []) + [num(be), DX]
        args += [g("a"), at("a")] if r == "v1" else []
        args += [g("u"), at("u")] if r != "none" else []
        args += [g("f"), at("f")] if fm == "res" else []
        args += ats("fl") + [g(step), at(step)]
        b = bn["f"] if fm == "res" else B(0)
        for d in range(n):
            f = bn["fl%d" % d]
            b = b + C(be) * C(1 / dx[d]) * B(2 * f.m, f.l)
        if r != "none":
            b = b + C(al) * (bn["a"] if r == "v1" else B(1)) * bn["u"]
        return nm, args, {step: b}
    st = "st" if step in ("off", "diag") else "row"
    if step in ("off", "off0"):
        b = B(0)
        for d in range(n):
            b = b.join(C(be / dx[d] ** 2) * (bn["b%d" % d] if p["coef"] else B(1)))
        if p["coef"]:
            return "offdiag", L + H + L + H + [DX, num(be)] + ats("b") + [g(st), at(st)], {st: b}
        return "poisson_offdiag", L + H + [DX, num(be), g(st), at(st)], {st: b}
    s = bn[st]
    b = B(2 * n * s.m, s.l)
    r = re if step == "diag" else "none"
    args = L + H
    if r == "v1":
        ga = w.decl["a"]["g"]
        args += [str(x - ga) for x in lo] + [str(x + ga) for x in hi] + [num(al), at("a")]
        b = b + C(al) * bn["a"]
    elif r == "v2":
        args += [num(al)]
        b = b + C(al)
    return {"v1": "v1diag", "v2": "v2diag", "none": "poisson_diag"}[r], args + [g(st), at(st)], {st: b}


def law_cases(ctx, count):
    out = os.path.join(ctx.work, "laws.json")
    vlib.tlc("LawGen", env={"SEED": vlib.SEED, "COUNT": count, "OUT": out}, workers=1)
    R = random.Random(vlib.SEED * 7919 + 19)
    cases = []
    for i, h in enumerate(json.load(open(out))):
        w = law_world(R, h["n"])
        evs = []
        for s in h["steps"]:
            nm, args, b = law_call(w, h, s)
            for a, x in b.items():
                # an array not yet written keeps elements outside the box
                w.bnd[a] = x.join(B(w.v)) if s != "flux" else x
            m = max(x.m for x in b.values())
            den = max(w.bnd[a].den for a in b)
            tol = 40 * w.eps * max(1, float(m))
            assert 2.2 * tol * den * den < 1
            evs.append({"name": nm + str(w.n), "text": "%s%d %s" % (nm, w.n, " ".join(args)), "step": s, "tol": tol, "den": den})
        dx, al, be = w.fixed
        cases.append({"id": "l%d" % i, "n": w.n, "decl": w.decl, "mem": w.initial, "events": evs, "threads": R.choice([1, 2, 3, 8]),
                      "p": {"lo": w.lo, "hi": w.hi, "dx": [fres(*q.as_integer_ratio()) for q in dx],
                            "alpha": fres(*al.as_integer_ratio()), "beta": fres(*be.as_integer_ratio()),
                            "react": h["react"], "coef": h["coef"]}})
    return cases


def c19(ctx):
    bx = lambda n, v: write_json(os.path.join(ctx.work, n), v)
    ctx.model("KernLaws", env={"ORDERS": 1, "BOXES": bx("b1.json", ctx.pick([[1]], [[1], [2], [1, 1]]))}, timeout=2400)
    ctx.model("KernLaws", env={"ORDERS": 0, "BOXES": bx("b0.json", ctx.pick(
        [[2], [3], [1, 1], [2, 1]], [[2], [3], [4], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]]))},
        timeout=2400)
    cases = law_cases(ctx, ctx.pick(144, 1200))
    ctx.add("histories", len(cases))
    ctx.add("calls", sum(len(c["events"]) for c in cases))
    ctx.sample({"steps": [e["text"] for e in cases[0]["events"]][:4]})
    res = execute(cpp_exe(), cases)
    i = 0
    while i < len(cases):
        tr = trace_of(cases[i:i + 400], res)
        for t, c in zip(tr, cases[i:]):
            t["p"] = c["p"]
        if not ctx.validate("TraceLaws", tr, sum(1 + len(t["events"]) for t in tr), len(tr),
                            what="the kernels' outputs do not satisfy a law of the discrete operator"):
            return False
        i += 400
    return True

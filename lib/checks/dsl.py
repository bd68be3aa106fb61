"""Programs of the lazy expression language: generated from spec/ProgGen.tla,
rendered to C++, run on the real library, validated by spec/TraceDsl.tla."""
import json, math, os, random
from fractions import Fraction as Fr
import vlib
from vlib import Unit, HARNESS, build, run_harness, write_json, P

K, J, I, W = 0, 1, 2, 3
AXN = {0: "K", 1: "J", 2: "I", 3: "W"}
DIR = {0: "z", 1: "y", 2: "x"}
SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
WRITTEN = ("x", "v", "w")


def progs(ctx, kind, count=0, seed=None):
    out = os.path.join(ctx.work, "prog_%s.json" % kind)
    vlib.tlc("ProgGen", env={"KIND": kind, "COUNT": count, "SEED": vlib.SEED if seed is None else seed,
                             "OUT": out})
    ps = json.load(open(out))
    for i, p in enumerate(ps):
        p["id"] = "%s%d" % (kind, i)
        if p.get("yt", "T") != "T":  # the step of a difference has the type of the array's elements
            for s in p["stms"]:
                for e in subtrees(s):
                    if e.get("op") in ("grad", "sten") and e["a"] == "y":
                        e["a"] = "z"
    return ps


# ---------------------------------------------------------------- rendering

class Render:
    """Expression trees to C++ with only the parentheses C++ needs; some nested
    sub-expressions are bound to names first, with their scalars changed before
    the expression is evaluated (scalars are held by value)."""

    def __init__(self, salt, comp, typed):
        self.pre, self.post, self.nt, self.c = [], [], 0, salt
        self.inline = {}
        self.comp = comp
        self.typed = typed  # integer arrays about: integer literals would mean integer arithmetic

    def tick(self, k):
        self.c = (self.c * 1103515245 + 12345) & 0x7fffffff
        return (self.c >> 8) % k

    def sc(self, k):
        return "c.s[%d]" % k

    def ex(self, e, prec=0, top=True):
        o = e["op"]
        if o == "s":
            return self.sc(e["k"])
        if o == "lit":
            return str(e["v"]) if self.tick(3) and not self.typed else "T(%d)" % e["v"]
        if o == "ref":
            if e["a"] in self.inline and self.tick(3) == 0:
                return self.inline[e["a"]]  # a temporary: held by value in the expression
            return e["a"]
        if o == "shift":
            if e["k"] == 1 and self.tick(2):
                return "%s.shift_%s()" % (e["a"], DIR[e["ax"]])
            return "%s.shift_%s(%d)" % (e["a"], DIR[e["ax"]], e["k"])
        if o == "shift2":
            d = {e["ax"]: e["k"], e["ax2"]: e["k2"]}
            axs = [a for a in (I, J, K) if a in d]
            return "%s.shift_%s%s(%d, %d)" % (e["a"], DIR[axs[0]], DIR[axs[1]], d[axs[0]], d[axs[1]])
        if o == "grad":
            h = self.sc(e["h"])
            t = (", up" if self.tick(2) else "") if e["s"] == 1 else ", down"
            return "%s.grad_%s(%s%s)" % (e["a"], DIR[e["ax"]], h, t)
        if o == "sten":
            t = ("up" if self.tick(2) else "") if e["s"] == 1 else "down"
            return "%s.stencil_%s(%s)" % (e["a"], DIR[e["ax"]], t)
        if o == "st":
            return "w(%d)" % e["i"]
        if o == "neg":
            s = "-" + self.ex(e["e"], 4, False)
            return "(%s)" % s if prec > 2 else s
        if o == "dot":
            return "%s.dot(%s.offset(c.tab(%d)))" % (e["a"], e["b"], e["tab"])
        if o == "fine":
            oth = [a for a in self.comp if a != e["ax"]]
            if self.tick(2):
                oth.reverse()
            return "%s.fine(c.ratio%s)" % (e["a"], "".join(", c.template c<%s>()" % AXN[a] for a in oth))
        if o in ("bin", "pbin"):
            p = 1 if e["f"] in ("add", "sub") else 2
            if not top and self.tick(6) == 0:
                return self.named(e)
            s = "%s %s %s" % (self.ex(e["l"], p, False), SYM[e["f"]], self.ex(e["r"], p + 1, False))
            return "(%s)" % s if p < prec else s
        raise KeyError(o)

    def named(self, e):
        self.nt += 1
        t = "t%d" % self.nt
        for side in ("l", "r"):
            if e[side]["op"] == "s":
                a = "a%d" % self.nt
                self.pre.append("T %s = %s;" % (a, self.sc(e[side]["k"])))
                oth = "r" if side == "l" else "l"
                os_ = self.ex(e[oth], 3, False)
                l, r = (a, os_) if side == "l" else (os_, a)
                self.pre.append("auto %s = %s %s %s;" % (t, l, SYM[e["f"]], r))
                self.pre.append("%s = T(-77);" % a)
                return t
        l = self.ex(e["l"], 3, False)
        r = self.ex(e["r"], 3, False)
        self.pre.append("auto %s = %s %s %s;" % (t, l, SYM[e["f"]], r))
        return t


def subtrees(e):
    yield e
    for k in ("l", "r", "e", "e2"):
        if isinstance(e.get(k), dict):
            yield from subtrees(e[k])
    for a in e.get("asg", []):
        yield from subtrees(a["e"])


def arrays_of(stm):
    s = set()
    for e in subtrees(stm):
        for k in ("a", "b"):
            if k in e and e.get("op") in ("ref", "shift", "shift2", "grad", "sten", "dot", "fine"):
                s.add(e[k])
    if stm["kind"] in ("assign", "lhs"):
        s.add("x")
    if stm["kind"] == "multi":
        s |= {"x", "v"}
    if stm["kind"] == "window":
        s.add("w")
    if stm["kind"] in ("selfsub", "selfsub2"):
        s |= {"x", "w"} | ({"v"} if "e2" in stm else set())
    return s


def order_of(p, a):
    o = p["ords"]
    return {"x": o["x"], "v": o["comp"], "y": o["y"], "z": o["z"], "d": o["comp"],
            "w": list(o["w"]) + [W]}[a]


def fn_name(p, m):
    return "%s_%d" % (p["id"], m)


def render_stm(p, m):
    stm = p["stms"][m]
    yt = p.get("yt", "T")
    R = Render(sum(map(ord, p["id"])) * 31 + m + 1, p["ords"]["comp"], yt != "T")
    body = []
    refs = {a: {e["op"] for e in subtrees(stm) for k in ("a", "b") if e.get(k) == a} for a in arrays_of(stm)}
    for a in sorted(arrays_of(stm)):
        o = ", ".join(AXN[x] for x in order_of(p, a))
        if a == "y" and yt != "T":
            body.append("auto y = c.template ro_as<%s, %s>(\"y\");" % (yt, o))
        elif a == "w" and p.get("wt", "T") != "T":
            body.append("auto w = c.template ro_as<%s, %s>(\"w\");" % (p["wt"], o))
        else:
            new = "c.template %s<%s>(\"%s\")" % ("mut" if a in WRITTEN else "ro", o, a)
            const = a not in WRITTEN and refs[a] <= {"ref"} and R.tick(2)
            body.append("%sauto %s = %s;" % ("const " if const else "", a, new))
            if a not in WRITTEN:
                R.inline[a] = new
    comp = p["ords"]["comp"]
    bs = ", ".join("c.template b<%s>()" % AXN[a] for a in comp)
    k = stm["kind"]
    if k == "assign":
        run = "with_domain(%s)(x = %s);" % (bs, R.ex(stm["e"]))
    elif k == "lhs":
        f = "with_lhs_domain(x = %s);" if R.tick(2) else "with_domain()(x = %s);"
        run = f % R.ex(stm["e"])
    elif k == "multi":
        e1 = R.ex(stm["e"])
        run = "with_domain(%s)(x = %s, v = %s);" % (bs, e1, R.ex(stm["e2"]))
    elif k == "selfsub":
        run = "with_domain(w.window(), %s)(x -= %s);" % (bs, R.ex(stm["e"]))
    elif k == "selfsub2":
        e1 = R.ex(stm["e"])
        run = "with_domain(w.window(), %s)(x -= %s, v -= %s);" % (bs, e1, R.ex(stm["e2"]))
    else:
        asg = []
        for a in stm["asg"]:
            l = "w(%d, %d)" % (a["i"], a["j"]) if "j" in a else "w(%d)" % a["i"]
            asg.append("%s = %s" % (l, R.ex(a["e"])))
        run = "with_domain(w.window(), %s)(%s);" % (bs, ", ".join(asg))
    nm = fn_name(p, m)
    return "template <typename T>\nvoid %s(Case<T>& c)\n{\n    %s\n}\nstatic Reg r_%s{\"%s\", %s<real>};\n" % (
        nm, "\n    ".join(body + R.pre + [run]), nm, nm, nm)


def units(ps, defs=(), backend=vlib.OMP, inc=()):
    fs = [render_stm(p, m) for p in ps for m in range(len(p["stms"]))]
    ntu = max(1, min(16, (len(fs) + 11) // 12))
    us = [Unit(os.path.join(HARNESS, "dsl_main.cpp"), list(defs), backend, inc=inc)]
    for q in range(ntu):
        part = fs[q::ntu]
        us.append(Unit("dsl_gen%d.cpp" % q, list(defs), backend, inc=inc,
                       text="#include \"dsl.hpp\"\n" + "".join(part)))
    return us


# ---------------------------------------------------------------- cases

def merge(n, a, ax, lo, hi):
    d = n.setdefault(a, {})
    l, h = d.get(ax, (0, 0))
    d[ax] = (min(l, lo), max(h, hi))


def needs(stm, comp, tabs):
    """displacements at which each array is read, per axis"""
    n = {}
    for e in subtrees(stm):
        o = e.get("op")
        if o == "shift":
            merge(n, e["a"], e["ax"], min(0, e["k"]), max(0, e["k"]))
        elif o == "shift2":
            merge(n, e["a"], e["ax"], min(0, e["k"]), max(0, e["k"]))
            merge(n, e["a"], e["ax2"], min(0, e["k2"]), max(0, e["k2"]))
        elif o in ("grad", "sten"):
            merge(n, e["a"], e["ax"], min(0, e["s"]), max(0, e["s"]))
        elif o == "dot":
            for row in tabs[e["tab"] - 1]:
                for q, d in enumerate(row):
                    merge(n, e["b"], comp[len(comp) - 1 - q], min(0, d), max(0, d))
    return n


class Bd:
    """What is known about the numbers an expression or array may hold: magnitude m;
    every denominator divides l * x' for some x' <= x; err bounds the rounding error
    (0: every value is exactly representable and computed without rounding)."""
    __slots__ = ("m", "l", "x", "err")

    def __init__(self, m, l=1, x=1, err=0.):
        self.m, self.l, self.x, self.err = m, l, x, err

    @property
    def den(self):
        return self.l * self.x

    def join(self, o):
        return Bd(max(self.m, o.m), lcm(self.l, o.l), max(self.x, o.x), max(self.err, o.err))


def lcm(a, b):
    return a * b // math.gcd(a, b)


class Refused(Exception):
    pass


class Mag:
    """Bounds on every value of a statement: which results are exact, and how the
    others can be read back as the rationals they stand for."""

    def __init__(self, arrs, s, tabs, bits, dpool, intarr=()):
        self.a, self.s, self.tabs, self.bits, self.dpool = dict(arrs), s, tabs, bits, dpool
        self.eps = 1.2e-16 if bits > 30 else 6.5e-8
        self.intarr = intarr

    def rnd(self, m, l, x, err):
        """after one rounded operation"""
        exact = err == 0 and x == 1 and l & (l - 1) == 0 and math.log2(max(1, m)) + math.log2(l) <= self.bits
        if l * x > 1 << 60:
            raise Refused
        return Bd(m, l, x, 0. if exact else err + self.eps * float(m))

    def values(self, e):
        """all values a divisor may take"""
        o = e["op"]
        if o == "s":
            return {Fr(self.s[e["k"]])}
        if o == "lit":
            return {Fr(e["v"])}
        if o in ("ref", "shift") and e["a"] == "d":
            return set(map(Fr, self.dpool))
        l, r = self.values(e["l"]), self.values(e["r"])
        f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}[e["f"]]
        return {f(a, b) for a in l for b in r}

    def ev(self, e):
        o = e["op"]
        if o == "s":
            q = Fr(self.s[e["k"]])
            return Bd(abs(q), q.denominator)
        if o == "lit":
            return Bd(abs(e["v"]))
        if o in ("ref", "shift", "shift2", "fine", "sten"):
            return self.a[e["a"]]
        if o == "grad":
            v = self.a[e["a"]]
            d = self.rnd(2 * v.m, v.l, v.x * v.x, 2 * v.err)
            return self.quot(d, {Fr(self.s[e["h"]])})
        if o == "st":
            return self.a["w"]
        if o == "neg":
            return self.ev(e["e"])
        if o == "dot":
            v, w, n = self.a[e["a"]], self.a[e["b"]], len(self.tabs[e["tab"] - 1])
            p = self.prod(v, w)
            if p.x > 1:
                raise Refused
            return self.rnd(n * p.m, p.l, 1, n * p.err * (n if p.err else 1))
        l = self.ev(e["l"])
        if e["f"] == "div":
            return self.quot(l, self.values(e["r"]))
        r = self.ev(e["r"])
        if e["f"] == "mul":
            return self.prod(l, r)
        return self.rnd(l.m + r.m, lcm(l.l, r.l), l.x * r.x, l.err + r.err)

    def prod(self, a, b):
        return self.rnd(a.m * b.m, a.l * b.l, a.x * b.x, float(a.m) * b.err + float(b.m) * a.err + a.err * b.err)

    def quot(self, a, vals):
        if 0 in vals:
            raise Refused
        inv = [1 / v for v in vals]
        m = max(map(abs, inv))
        if len(inv) == 1:
            return self.rnd(a.m * m, a.l * inv[0].denominator, a.x, a.err * float(m))
        ds = {q.denominator for q in inv}
        if all(d & (d - 1) == 0 for d in ds):
            return self.rnd(a.m * m, a.l * max(ds), a.x, a.err * float(m))
        return self.rnd(a.m * m, a.l, a.x * max(ds), a.err * float(m))

    def readable(self, b):
        return b.err == 0 or 2.2 * 4 * b.err * float(b.den) ** 2 < 1

    def store(self, n, b):
        """the array n may hold b from now on"""
        j = self.a[n].join(b)
        if not self.readable(j):
            raise Refused
        self.a[n] = j


def floordiv(a, b):
    return a // b


class CaseGen:
    def __init__(self, R, bits=50, big=False, vmax=50, long=False, huge=0):
        self.R, self.bits, self.big, self.vmax, self.long, self.huge = R, bits, big, vmax, long, huge

    def one(self, p, nev, threads):
        R = self.R
        comp = p["ords"]["comp"]
        nd = len(comp)
        used = sorted(set().union(*(arrays_of(s) for s in p["stms"])))
        has_lhs = any(s["kind"] == "lhs" for s in p["stms"])
        fine = any(e.get("op") == "fine" for s in p["stms"] for e in subtrees(s))
        yt = p.get("yt", "T")
        ntab = max([e.get("tab", 0) for s in p["stms"] for e in subtrees(s)] + [0])
        ext = {1: 10, 2: 5, 3: 3, 4: 2}[nd] * (4 if self.big else 1)
        U = {}
        for a in comp:
            lo = R.randint(-9, 4) if fine else R.randint(-4, 4)
            U[a] = (lo, lo + R.randint(1, ext) - 1 + (1 if nd < 3 else 0))
        if self.long and nd > 1 and not fine:  # one axis much longer than the others
            for a in comp:
                U[a] = (U[a][0], U[a][0] + R.randint(2, {2: 6, 3: 3, 4: 2}[nd]) - 1)
            a = R.choice(comp)
            U[a] = (U[a][0], U[a][0] + R.randint(37, {2: 130, 3: 70, 4: 50}[nd]) - 1)
        if self.huge:  # more elements than 16 bits count
            n = self.huge // (4 if "w" in used else 1)
            axs = R.sample(comp, nd)
            for a in axs[1:]:
                m = R.choice([2, 3, 16, 17, 40, 64]) if nd < 4 else R.randint(2, 9)
                U[a] = (U[a][0], U[a][0] + m - 1)
                n = n // m + 1
            U[axs[0]] = (U[axs[0]][0], U[axs[0]][0] + n - 1)
        ratio = R.choice([1, 2, 2, 3, 4, 5])
        wn = R.randint(1, 5) if ntab else R.randint(4, 5)
        tabs = [[[R.randint(-2, 2) for _ in range(nd)] for _ in range(wn)] for _ in range(ntab)]
        nds = {}
        for s in p["stms"]:
            c = p["ords"]["x"] if s["kind"] == "lhs" else comp
            for a, d in needs(s, c, tabs).items():
                for ax, (l, h) in d.items():
                    merge(nds, a, ax, l, h)
        shapes, mem, gcws, inner = {}, {}, {}, {}
        small = self.vmax
        wide = ("y", "z") if p.get("wt", "T") != "T" and R.random() < .7 else ()
        dpool = [1, -1, 2, -2, 4] + ([] if R.random() < .4 else [3, -3, 5])
        for a in used:
            ordr = order_of(p, a)
            g = R.choice([-1, 0, 1, 2])
            lo, hi = [], []
            for ax in ordr:
                if ax == W and a == "w":
                    l = R.choice([0, 0, 1, -1, 3])
                    lo.append(l); hi.append(l + wn - 1)
                    continue
                gg = 0 if ax == W else max(g, 0)
                need = nds.get(a, {}).get(ax, (0, 0))
                ul, uh = U[ax]
                if fine and a == "y":
                    ul, uh = floordiv(ul, ratio), floordiv(uh, ratio)
                l, h = ul + need[0] + gg, uh + need[1] - gg
                if not (a == "x" and has_lhs):
                    l -= R.randint(0, 1); h += R.randint(0, 1)
                elif h < l:
                    # the declared box is the domain: shrink the ghost width to fit
                    g = -1 if R.random() < .5 else 0
                    l, h = None, None
                if l is not None and h < l:
                    h = l
                lo.append(l); hi.append(h)
            if None in lo:
                lo = [U[ax][0] for ax in ordr]; hi = [U[ax][1] for ax in ordr]
            gcws[a] = g
            gg = max(g, 0)
            # the stride of a declaration is not a property of the array
            inner[a] = [(x, l, h, R.choice([1, 1, 1, 2, 3])) for x, l, h in zip(ordr, lo, hi)]
            shapes[a] = {"ord": ordr, "lo": [l - (0 if x == W else gg) for x, l in zip(ordr, lo)],
                         "hi": [h + (0 if x == W else gg) for x, h in zip(ordr, hi)]}
            n = 1
            for l, h in zip(shapes[a]["lo"], shapes[a]["hi"]):
                n *= h - l + 1
            pool = dpool if a == "d" else range(-small, small + 1)
            mem[a] = [R.choice(pool) for _ in range(n)]
            if a in wide:  # values that the type of w cannot hold
                mem[a] = [v + R.choice((0, 0, 1, -1)) * 2 ** 33 for v in mem[a]]
        s = [R.choice([2, -2, 4, -4, .5, .25, -.5, 1, -1, 3, -1.5]) for _ in range(3)] + [R.choice([.5, 1, 2, 4, 3])]
        mag = Mag({a: Bd(max(map(abs, dpool)) if a == "d" else 2 ** 34 if a in wide else small)
                   for a in used}, s, tabs, self.bits, dpool)
        evs = []
        order = list(range(len(p["stms"])))
        seq = []
        while len(seq) < nev:
            R.shuffle(order)
            seq += order
        for m in seq[:nev]:
            stm = p["stms"][m]
            if not self.fits(stm, mag):
                continue
            evs.append(self.event(p, m, U, shapes, ratio, mag))
            evs[-1]["read"] = {a: (4 * b.err, b.den) for a, b in mag.a.items() if b.err}
        if not evs:
            return None
        return {"prog": p["id"], "threads": threads, "s": s, "tabs": tabs, "inner": inner, "gcw": gcws,
                "sh": shapes, "mem": mem, "events": evs}

    def fits(self, stm, mag):
        """can all results be read back?  If so, accounts for the statement's effect."""
        saved = dict(mag.a)
        try:
            if stm["kind"] == "window":
                for a in stm["asg"]:
                    mag.store("w", mag.ev(a["e"]))
                return True
            todo = [("x", stm["e"])] + ([("v", stm["e2"])] if "e2" in stm else [])
            for t, e in todo:
                b = mag.ev(e)
                if stm["kind"] in ("selfsub", "selfsub2"):
                    x = mag.a[t]
                    b = mag.rnd(b.m + x.m, lcm(b.l, x.l), b.x * x.x, b.err + x.err)
                mag.store(t, b)
            return True
        except Refused:
            mag.a = saved
            return False

    def event(self, p, m, U, shapes, ratio, mag):
        R = self.R
        stm = p["stms"][m]
        comp = p["ords"]["comp"]
        ranges = {}
        fs = [e for e in subtrees(stm) if e.get("op") == "fine"]
        fine = bool(fs)
        f = fs[0] if fine else {}
        emp = R.choice(comp) if R.random() < .04 and stm["kind"] != "lhs" and not fine else None
        for a in comp:
            lo, hi = U[a]
            st = R.choice([1, 2, 2, 3]) if stm["strided"] else 1
            full = self.huge and R.random() < .8 or R.random() < (.5 if not stm["strided"] else .3)
            if fine and a != f["ax"]:
                l = h = R.randint(lo, hi)
            elif full:
                l, h = lo, hi
            else:
                l, h = sorted((R.randint(lo, hi), R.randint(lo, hi)))
            if a == emp:
                h = l - 1
            ranges[a] = (l, h, st)
        at = [0, 0, 0]
        if fine:
            sh = shapes["y"]
            for q, ax in enumerate(sh["ord"]):
                at[ax] = R.randint(sh["lo"][q], sh["hi"][q])
        return {"m": m, "dom": ranges, "ratio": ratio, "at": at}


def tla_dom(order, r):
    return [{"ax": a, "lo": r[a][0], "hi": r[a][1], "st": r[a][2]} for a in order]


def bind(e, ev):
    """fills in what an expression takes from the event"""
    if not isinstance(e, dict):
        return e
    if e.get("op") == "fine":
        return dict(e, ratio=ev["ratio"], at=ev["at"])
    return {k: bind(v, ev) for k, v in e.items()}


def tla_stms(p, c, ev):
    stm = p["stms"][ev["m"]]
    dom = tla_dom(p["ords"]["comp"], ev["dom"])
    k = stm["kind"]
    if k == "assign":
        return [{"kind": "assign", "a": "x", "dom": dom, "e": bind(stm["e"], ev)}]
    if k == "multi":
        return [{"kind": "assign", "a": "x", "dom": dom, "e": stm["e"]},
                {"kind": "assign", "a": "v", "dom": dom, "e": stm["e2"]}]
    if k == "lhs":
        sh = c["sh"]["x"]
        dom = [{"ax": a, "lo": l, "hi": h, "st": 1} for a, l, h in zip(sh["ord"], sh["lo"], sh["hi"])]
        return [{"kind": "assign", "a": "x", "dom": dom, "e": stm["e"]}]
    if k == "selfsub2":
        return [{"kind": "selfsub", "a": a, "st": "w", "dom": dom, "e": e}
                for a, e in (("x", stm["e"]), ("v", stm["e2"]))]
    if k == "selfsub":
        return [{"kind": "selfsub", "a": "x", "st": "w", "dom": dom, "e": stm["e"]}]
    return [{"kind": "window", "a": "w", "dom": dom, "asg": stm["asg"]}]


_dy = {}


def dyres(x):
    r = _dy.get(x)
    if r is None:
        if x != x or x in (float("inf"), float("-inf")):
            r = -1
        else:
            n, d = x.as_integer_ratio()
            r = n % P * pow(d, -1, P) % P
        if len(_dy) < 3000000:
            _dy[x] = r
    return r


_rec = {}


def values(vs, tol, den):
    """residues of the rationals the stored numbers stand for"""
    if not tol:
        return [dyres(v) for v in vs]
    from checks import kern
    out = []
    for v in vs:
        k = (v, tol, den)
        r = _rec.get(k)
        if r is None:
            r = kern.recon(v, tol, den)
            if len(_rec) < 1000000:
                _rec[k] = r
        out.append(r)
    return out


def case_text(p, c):
    L = ["C %s %d" % (c["id"], c["threads"])]
    if "sched" in c:
        s = c["sched"]
        L.append("%d %d %d %d %d %s" % (s["workers"], s["deal"], s["walk"], s["split"], len(s["picks"]),
                                        " ".join(map(str, s["picks"]))))
    L += ["%d %s" % (len(c["s"]), " ".join(map(repr, c["s"]))),
         str(len(c["tabs"]))]
    for t in c["tabs"]:
        flat = sum(t, [])
        L.append("%d %s" % (len(flat), " ".join(map(str, flat))))
    L.append(str(len(c["mem"])))
    for a in sorted(c["mem"]):
        L.append("%s %d %d %s" % (a, c["gcw"][a], len(c["inner"][a]),
                                  " ".join("%d %d %d %d" % t for t in c["inner"][a])))
        L.append("%d %s" % (len(c["mem"][a]), " ".join(map(str, c["mem"][a]))))
    L.append(str(len(c["events"])))
    for ev in c["events"]:
        L.append("%s %d %s %d %d %d %d" % (fn_name(p, ev["m"]), len(ev["dom"]),
                 " ".join("%d %d %d %d" % ((a,) + ev["dom"][a]) for a in ev["dom"]), ev["ratio"], *ev["at"]))
    return "\n".join(L) + "\n"


def parse(out):
    """-> {id: [(guard, {array: values})]}"""
    res, cur = {}, None
    for ln in out.split("\n"):
        if ln.startswith("T "):
            cur = res.setdefault(ln[2:], [])
        elif ln.startswith("P "):
            t = ln.split()
            d, name = {}, None
            for x in t[2:]:
                if x.isalpha() and x not in ("nan", "inf"):
                    name = x
                    d[name] = []
                else:
                    d[name].append(float(x))
            cur.append((t[1] == "1", d))
    return res


def execute(exe, byid, cases):
    text = "".join(case_text(byid[c["prog"]], c) for c in cases)
    return parse(run_harness([exe], text, env={"OMP_DYNAMIC": "FALSE"}))


def trace_of(byid, cases, res):
    tr = []
    for c in cases:
        p = byid[c["prog"]]
        r = res.get(c["id"], [])
        if len(r) != len(c["events"]):
            raise vlib.CheckError("case %s: %d of %d events answered" % (c["id"], len(r), len(c["events"])))
        tr.append({"id": c["id"], "mem": {a: [v % P for v in vs] for a, vs in c["mem"].items()},
                   "sh": c["sh"], "s": [dyres(float(x)) for x in c["s"]], "tabs": c["tabs"],
                   "events": [{"stms": tla_stms(p, c, ev), "guard": g,
                               "post": {a: values(vs, *ev["read"].get(a, (0, 1))) for a, vs in post.items()}}
                              for ev, (g, post) in zip(c["events"], r)]})
    return tr


def make_cases(R, ps, per, nev, bits=50, vmax=50, bigshare=.04, threads=(1, 2, 3, 8), longshare=.02, huge=0):
    cases = []
    for q in range(huge):  # a few with many elements
        for p in R.sample(ps, min(len(ps), 20)):
            typed = p.get("yt", "T") != "T"
            c = CaseGen(R, 22 if typed else bits, False, 9 if typed else vmax, False, R.randint(66000, 72000)).one(
                p, 1, R.choice(threads))
            if c:
                c["id"] = "%s.huge%d" % (p["id"], q)
                cases.append(c)
                break
    for p in ps:
        for q in range(per):
            typed = p.get("yt", "T") != "T"
            g = CaseGen(R, 22 if typed else bits, R.random() < bigshare, 9 if typed else vmax, R.random() < longshare)
            c = None
            for _ in range(6):
                c = g.one(p, nev, R.choice(threads))
                if c:
                    break
            if c:
                c["id"] = "%s.%d" % (p["id"], q)
                cases.append(c)
    return cases


def validate(ctx, byid, cases, res, what, limit=300000):
    return ctx.validate_slices("TraceDsl", cases, lambda c: sum(map(len, c["mem"].values())) * (1 + len(c["events"])),
                               limit, lambda cs: trace_of(byid, cs, res), what)


def run(ctx, ps, per, nev, what, defs=(), backend=vlib.OMP, name="dsl", **kw):
    R = random.Random(vlib.SEED * 7919 + sum(map(ord, ctx.pid)))
    byid = {p["id"]: p for p in ps}
    exe = build(name, units(ps, defs, backend))
    kw.setdefault("huge", ctx.pick(2, 6))
    cases = make_cases(R, ps, per, nev, **kw)
    res = execute(exe, byid, cases)
    ctx.add("programs", len(ps))
    ctx.add("statements", sum(len(p["stms"]) for p in ps))
    ctx.add("executions", len(cases))
    ctx.add("events", sum(len(c["events"]) for c in cases))
    c = cases[0]
    ctx.sample({"program": render_stm(byid[c["prog"]], c["events"][0]["m"]).split("\n")[3:-2],
                "domain": c["events"][0]["dom"], "threads": c["threads"]})
    validate(ctx, byid, cases, res, what)
    return exe, byid, cases, res


def c04(ctx):
    ps = progs(ctx, "orders")
    run(ctx, ps, ctx.pick(3, 20), 8, "a difference, pair or shift used other points than the named ones")


def c05(ctx):
    ps = progs(ctx, "assign", ctx.pick(60, 240)) + progs(ctx, "quad", ctx.pick(6, 40), seed=vlib.SEED + 1)
    run(ctx, ps, ctx.pick(5, 12), 4, "an expression stored other values than its pointwise meaning")


def c06(ctx):
    ps = progs(ctx, "domain", ctx.pick(40, 160)) + progs(ctx, "quad", ctx.pick(12, 60))
    run(ctx, ps, ctx.pick(10, 25), 5, "an assignment left other contents than its domain and value say")


def c07(ctx):
    ps = progs(ctx, "window", ctx.pick(45, 200))
    run(ctx, ps, ctx.pick(6, 12), 5, "a window update left other contents than running it at each point")


def c08(ctx):
    from checks import nav
    ps = progs(ctx, "dot")
    run(ctx, ps, ctx.pick(6, 30), 5, "an offset-table product used other elements than the table names")
    R = random.Random(vlib.SEED * 1000 + 8)
    c = nav.Cases()
    nav.offset_cases(c, R, ctx.pick(8, 40))
    nav.run(ctx, c, 9, ctx.pick(6, 20), 40, "offset views")


def c09(ctx):
    from checks import nav
    ctx.model("CoarseImpl")
    ps = progs(ctx, "fine")
    run(ctx, ps, ctx.pick(8, 40), 4, "a coarse read used another cell than the one containing the fine cell")
    R = random.Random(vlib.SEED * 1000 + 9)
    c = nav.Cases()
    nav.coarse_cases(c, R, ctx.pick(8, 40))
    nav.run(ctx, c, ctx.pick(10, 16), ctx.pick(4, 12), 40, "coarse-to-fine views")
    from checks import kern
    kern.family(ctx, "copy", "a copy operation wrote other fine cells, or another coarse cell's value", 8, ctx.pick(12, 60), dims=(3,))


# ---------------------------------------------------------------- schedules (C11)



def schedules(ctx, count):
    out = os.path.join(ctx.work, "sched.json")
    vlib.tlc("SchedGen", env={"COUNT": count, "SEED": vlib.SEED, "OUT": out})
    return json.load(open(out))


def points(dom):
    n = 1
    for r in dom:
        n *= max(0, (r["hi"] - r["lo"]) // r["st"] + 1)
    return n


def interleavings(ctx, byid, cases, maxpts, maxtests):
    """Model-checks every interleaving of the first statement of small cases."""
    tests = []
    for c in cases:
        st = tla_stms(byid[c["prog"]], c, c["events"][0])[0]
        if 2 <= points(st["dom"]) <= maxpts and len(tests) < maxtests:
            tests.append({"id": c["id"], "mem": {a: [v % P for v in vs] for a, vs in c["mem"].items()},
                          "sh": c["sh"], "s": [dyres(float(x)) for x in c["s"]], "tabs": c["tabs"], "stm": st})
    path = write_json(os.path.join(ctx.work, "sched_tests.json"), tests)
    ctx.model("SchedDsl", env={"TRACE": path})
    ctx.add("statements_model_checked_over_all_interleavings", len(tests))
    # control: a statement that reads its neighbour's output does depend on the order
    bad = {"id": "control", "mem": {"x": [1, 2, 3, 4]}, "sh": {"x": {"ord": [I], "lo": [0], "hi": [3]}}, "s": [1],
           "tabs": [], "stm": {"kind": "assign", "a": "x", "dom": [{"ax": I, "lo": 1, "hi": 3, "st": 1}],
                               "e": {"op": "bin", "f": "add", "l": {"op": "ref", "a": "x"},
                                     "r": {"op": "shift", "a": "x", "ax": I, "k": -1}}}}
    path = write_json(os.path.join(ctx.work, "sched_bad.json"), [bad])
    ctx.expect_fail("SchedDsl", "SchedDsl.cfg", {"TRACE": path})


def c11(ctx):
    ps = progs(ctx, "mix", ctx.pick(30, 120)) + progs(ctx, "window", ctx.pick(10, 60))
    byid = {p["id"]: p for p in ps}
    R = random.Random(vlib.SEED * 7919 + 11)
    small = make_cases(R, ps, ctx.pick(6, 20), 1)
    interleavings(ctx, byid, small, ctx.pick(4, 5), ctx.pick(60, 300))
    what = "the result depends on how the points are scheduled"
    S = schedules(ctx, ctx.pick(120, 1500))
    R.shuffle(S)
    # imposed schedules
    exe = build("dsl_sched", units(ps, ["-DVERIF_SCHED"], vlib.OMP, inc=[os.path.join(HARNESS, "sched")]))
    cases = make_cases(R, ps, ctx.pick(8, 30), 4, threads=(1,), longshare=.15)
    for i, c in enumerate(cases):
        c["sched"] = S[i % len(S)]
    text = "".join(case_text(byid[c["prog"]], c) for c in cases)
    out = run_harness([exe], text)
    s = [ln for ln in out.split("\n") if ln.startswith("S ")][0].split()
    if int(s[1]) < len(cases):
        raise vlib.CheckError("only %s launches were scheduled" % s[1])
    ctx.add("scheduled_launches", int(s[1]))
    ctx.add("scheduled_points", int(s[2]))
    ctx.add("schedules", min(len(S), len(cases)))
    ctx.sample({"schedule": cases[0]["sched"], "program": render_stm(byid[cases[0]["prog"]], cases[0]["events"][0]["m"]).split("\n")[3:-2]})
    validate(ctx, byid, cases, parse(out), what)
    # real threads, and the sequential backend; the same cases, larger domains among them
    cases = make_cases(R, ps, ctx.pick(4, 12), 3, bigshare=.3)
    for backend, nm in ((vlib.OMP, "dsl"), (vlib.CPP, "dsl_seq")):
        exe = build(nm, units(ps, [], backend))
        for th in ((1, 2, 3, 5, 8) if backend is vlib.OMP else (1,)):
            for c in cases:
                c["threads"] = th
            res = execute(exe, byid, cases)
            if th == 1 and backend is vlib.OMP:
                first = res
                if not validate(ctx, byid, cases, res, what):
                    return
            elif res != first:
                # the specification judges which of them is wrong
                validate(ctx, byid, cases, res, what + " (%s, %d threads)" % (nm, th))
            ctx.add("executions_compared", len(cases))
    from checks import kern
    kern.c11(ctx)

"""One boundary problem as ghost values, as an adjusted stencil and as a moved right-hand
side: the scenarios of spec/Boundary.tla run on the real kernels, their outputs judged by
the laws of that specification (spec/TraceBdry.tla)."""
import json, os, random
from fractions import Fraction as Fr
import vlib
from vlib import fres, write_json
from checks import kern
from checks.kern import Refuse

FINDING = "adj_diag adds beta b/(3 h^2) to the diagonal for the Dirichlet condition of second order"


def scenarios(ctx, fills):
    out = os.path.join(ctx.work, "scen.json")
    vlib.tlc("BdryGen", env={"SEED": vlib.SEED, "COUNT": fills, "OUT": out}, workers=1)
    return json.load(open(out))


def uses_robin(s):
    return s.get("btype") == 4 or any(b[0] == 4 for b in s.get("sides", []))


def known(s):
    return s["kind"] == "elim" and s["adjd"] and s["btype"] == 0 and s["ord"] == 2 and \
        (s["n"] == 3 or (s["n"] == 2 and s["coef"]))


class World(kern.World):
    def __init__(self, R, s):
        while True:
            super().__init__(R, s["n"], "double", True)
            ext = [h - l + 1 for l, h in zip(self.lo, self.hi)]
            need = {"fill": 2, "homog": s.get("ord")}.get(s["kind"], 1)
            if min(ext) >= need:
                break
        if s["kind"] == "homog":
            self.add("u", "cell", 1)
        self.add("row", "win", R.randint(0, 1))
        keep = {"u", "aa", "rhs", "st", "row"} | {"b%d" % d for d in range(self.n)}
        self.decl = {k: v for k, v in self.decl.items() if k in keep}
        self.initial = {k: list(self.mem[k]) for k in self.decl}
        dx, al, be = self.params()
        constant = s["kind"] in ("elim", "move") or (s["kind"] == "fill" and self.n == 1 and not s["coef"])
        bc = (Fr(2), Fr(1)) if constant else (self.num([1, 2, 3, -1]), self.num([1, 2, -1, 5]))
        if uses_robin(s) and R.random() < {1: .3, 2: .6, 3: .8}[self.n]:
            if not constant:
                bc = (self.num([1, 2]), self.num([1, 2]))
            dx = self.aligned(s, *bc)
        self.op = (dx, al, be or Fr(-2))
        self.bc = (dx,) + bc
        self.stage = {}
        self.s = self.tangential(s["kind"] in ("elim", "cf", "move"))

    def aligned(self, s, ba, bb):
        """spacings and coefficients for which the denominators 3 bb h + 8 ba b of the
        Robin ghosts are powers of two, so that exact values stay small"""
        if not s["coef"]:
            return [self.num([8, 8, 40 if bb == 1 else 8]) * ba / bb for _ in range(self.n)]
        cs = [self.num([Fr(1, 2), 1, 2]) for _ in range(self.n)]
        for d, c in enumerate(cs):
            a = "b%d" % d
            pool = [c * bb, 5 * c * bb]
            if not all(x.denominator == 1 for x in pool):
                cs[d] = c = Fr(1)
                pool = [bb, 5 * bb]
            self.pool[a] = [int(x) for x in pool]
            self.initial[a] = list(self.fresh(a))
        return [8 * c * ba for c in cs]

    def tangential(self, part):
        lo, hi = list(self.lo), list(self.hi)
        if part and self.R.random() < .4:
            for d in range(self.n):
                lo[d], hi[d] = sorted((self.R.randint(lo[d], hi[d]), self.R.randint(lo[d], hi[d])))
        return lo, hi

    def ghost(self, d, low):
        return self.lo[d] - 1 if low else self.hi[d] + 1

    def seg(self, c):
        """where a step works: SegOf of the specification"""
        k, n = c["k"], self.n
        if k == "homog":
            return list(self.lo), list(self.hi)
        if k == "bc" and c["type"] > 1:
            lo, hi, f = list(self.lo), list(self.hi), c["face"]
            axes = [(0, 1), (0, 2), (1, 2)][f // 4] if c["type"] == 2 else (0, 1, 2)
            for q, d in enumerate(axes):
                lo[d] = hi[d] = self.ghost(d, (f >> q) % 2 == 0)
            return lo, hi
        d, side = (c["face"] // 2, c["face"] % 2) if k == "bc" else (c["dir"], c["side"])
        lo, hi = map(list, self.s)
        lo[d] = hi[d] = self.ghost(d, side == 0)
        return lo, hi


def bound(R, s, steps):
    """binds one scenario, or raises Refuse"""
    w = World(R, s)
    evs = []
    for c in steps:
        c = dict(c)
        if c["k"] in ("bc", "homog"):
            c.update(d="b", u="u")
            w.fixed = w.bc
        else:
            w.fixed = w.op
        if c["k"] in ("bc", "homog", "adjdiag", "adjoff", "adjcfdiag", "adjcfoff", "readj", "bdryrhs"):
            c["seg"] = w.seg(c)
        if c["k"] == "adjoff":
            c["dirf"] = Fr(2)
        nm, args, rec, out, m = kern.bind(w, c)
        tol = 40 * w.eps * max(1, float(m))
        den = max(x.den for x in out.values())
        if 2.2 * tol * den * den >= 1 or den > 10 ** 15:
            raise Refuse
        for a, x in out.items():
            w.bnd[a] = w.bnd[a].join(x)
        nm += str(w.n)
        evs.append({"name": nm, "text": "%s %s" % (nm, " ".join(args)), "call": 0, "tol": tol, "den": den})
    q = lambda x: fres(*Fr(x).as_integer_ratio())
    dx, al, be = w.op
    return {"n": w.n, "decl": w.decl, "mem": w.initial, "events": evs, "s": s, "threads": R.choice([1, 2, 3, 8]),
            "p": {"lo": w.lo, "hi": w.hi, "dx": [q(h) for h in dx], "alpha": q(al), "beta": q(be), "ba": q(w.bc[1]), "bb": q(w.bc[2]),
                  "sLo": w.s[0], "sHi": w.s[1]}}


def cases(ctx, scen, rounds, salt=0):
    R = random.Random(vlib.SEED * 7919 + 25 + salt)
    out, missed = [], 0
    for k in range(rounds):
        for i, e in enumerate(scen):
            for attempt in range(60):
                try:
                    c = bound(R, e["s"], e["steps"])
                    break
                except Refuse:
                    c = None
            if c is None:
                missed += 1
                continue
            c["id"] = "b%d_%d" % (k, i)
            out.append(c)
    ctx.add("scenarios", len(out))
    ctx.add("scenarios_not_bound", missed)
    ctx.add("calls", sum(len(c["events"]) for c in out))
    return out


def trace(cs, res):
    tr = kern.trace_of(cs, res)
    for t, c in zip(tr, cs):
        t["p"], t["s"] = c["p"], c["s"]
        for e in t["events"]:
            del e["call"], e["step"]
    return tr


def judge(ctx, cs, res, what):
    return ctx.validate_slices("TraceBdry", cs, lambda c: sum(d["n"] for d in c["decl"].values()) * (1 + len(c["events"])),
                               400000, lambda x: trace(x, res), what, states=lambda t: 2 + len(t["events"]), env={"LENIENT": 1})


def finding(ctx, cs, res):
    """the listed finding: still there?  (anything beyond it was judged before)"""
    path = write_json(os.path.join(ctx.work, "known.json"), trace(cs, res))
    o = vlib.tlc("TraceBdry", None, {"TRACE": path, "LENIENT": 0})
    if not o.violated:
        return True
    with open(os.path.join(vlib.VERIF, "known-findings.txt")) as f:
        if "known: property=C25 " + FINDING in f.read():
            print("KNOWN-FINDING: property=C25 " + FINDING, flush=True)
            return True
    ctx.violation(FINDING, {"state": vlib.last_state(o.out)})
    return False


def c25(ctx):
    bx = lambda n, v: write_json(os.path.join(ctx.work, n), v)
    laws = {"SEED": vlib.SEED, "NFILL": ctx.pick(4, 20), "STRICT": 0, "BOXES": bx("b.json", ctx.pick(
        [[1], [3], [2, 1], [2, 2], [4, 4], [1, 1, 2]],
        [[1], [2], [3], [4], [1, 1], [2, 1], [1, 2], [3, 3], [4, 5], [1, 1, 2], [2, 1, 1], [2, 2, 2], [3, 2, 2], [2, 3, 2], [2, 2, 3]]))}
    ctx.model("BdryLaws", env=laws, timeout=2400)
    ctx.expect_fail("BdryLaws", "BdryLaws.cfg", env=dict(laws, STRICT=1, BOXES=bx("b1.json", [[2, 2]])))
    scen = scenarios(ctx, ctx.pick(20, 120))
    cs = cases(ctx, scen, ctx.pick(1, 6))
    ctx.sample({"scenario": cs[0]["s"], "calls": [e["text"] for e in cs[0]["events"]][:4]})
    res = kern.execute(kern.cpp_exe(), cs)
    if not judge(ctx, cs, res, "the kernels' ghosts, stencils and right-hand sides do not state one boundary problem"):
        return
    kn = [c for c in cs if known(c["s"])]
    if not finding(ctx, kn, res):
        return
    ref = kern.execute(kern.ref_exe(), cs)
    judge(ctx, cs, ref, "the reference's ghosts, stencils and right-hand sides do not state one boundary problem")

"""Range algebra and index agreement (C10), host/device coherence (C12)."""
import itertools, json, os, random
import vlib
from vlib import Unit, HARNESS, REPO, build, run_harness


def exe(backend=vlib.OMP):
    return build("misc", [Unit(os.path.join(HARNESS, "misc_span.cpp"), [], backend),
                          Unit(os.path.join(HARNESS, "misc_vec.cpp"), [], backend),
                          Unit(os.path.join(REPO, "src/random.cpp"), [], backend)])


def gen(ctx, module, **env):
    out = os.path.join(ctx.work, module + ".json")
    vlib.tlc(module, env=dict(env, OUT=out, SEED=vlib.SEED))
    return json.load(open(out))


ORDERS = [(0,), (2,), (3,), (1, 2), (2, 1), (0, 2), (3, 2), (2, 3), (0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0),
          (2, 0, 1), (2, 1, 0), (1, 2, 3), (0, 1, 2, 3), (3, 1, 0, 2)]


def c10(ctx):
    ctx.model("BoundsLaws")
    e = exe()
    ws = gen(ctx, "BoundsGen", COUNT=ctx.pick(400, 3000), LEN=ctx.pick(25, 60))
    lines = []
    for i, w in enumerate(ws):
        lines.append("B %d %d %s %d %s" % (i, i % 3 != 0, " ".join("%d %d %d" % (b["lo"], b["hi"], b["st"]) for b in w["init"]),
                                           len(w["ops"]), " ".join("%d %d %d %d" % tuple(o) for o in w["ops"])))
    out = run_harness([e], "\n".join(lines) + "\n").split("\n")
    tests, q = [], 0
    for i, w in enumerate(ws):
        assert out[q] == "B %d" % i, out[q]
        q += 1
        obs = []
        for _ in range(len(w["ops"]) + 1):
            v = list(map(int, out[q].split())); q += 1
            obs.append([v[4 * m:4 * m + 4] for m in range(4)])
        tests.append({"init": w["init"], "ops": w["ops"], "obs": obs})
    ctx.validate("TraceBounds", tests, sum(2 + len(t["ops"]) for t in tests), len(tests),
                 what="a range operation changed other ends than the ones it names, or a size is wrong")
    ctx.add("range_walks", len(tests))
    ctx.sample({"range_walk": tests[0]["init"], "ops": tests[0]["ops"][:6], "seen": tests[0]["obs"][:3]})
    # index agreement
    R = random.Random(vlib.SEED * 1000 + 10)
    lines, tests = [], []
    for nm, o in [("".join(map(str, o)), o) for o in ORDERS] + [("t0", (3, 2)), ("t1", (3, 2))]:
        for _ in range(ctx.pick(6, 30)):
            g = R.choice([-1, 0, 1, 2])
            lo = [R.randint(-5, 4) for _ in o]
            if nm[0] == "t":  # a span over an offset table
                g, lo = -1, [int(nm[1])] * 2
            hi = [l + R.randint(0, 30 if len(o) == 1 else 4) for l in lo]
            gg = [0 if a == 3 else max(g, 0) for a in o]
            sh = {"ord": list(o), "lo": [l - x for l, x in zip(lo, gg)], "hi": [h + x for h, x in zip(hi, gg)]}
            allc = list(itertools.product(*[range(l, h + 1) for l, h in zip(sh["lo"], sh["hi"])]))
            cs = allc if len(allc) <= 24 else [allc[0], allc[-1]] + R.sample(allc, 22)
            tests.append({"id": "order %s box %s gcw %d" % (nm, list(zip(lo, hi)), g), "sh": sh,
                          "probes": [{"c": list(c)} for c in cs]})
            lines.append("I %d %s %d %s %d %s" % (len(lines), nm, g,
                                                  " ".join("%d %d" % p for p in zip(lo, hi)), len(cs),
                                                  " ".join(" ".join(map(str, c)) for c in cs)))
    out = run_harness([e], "\n".join(lines) + "\n").split("\n")
    q = 0
    for i, t in enumerate(tests):
        v = out[q].split(); q += 1
        n = len(t["sh"]["ord"])
        assert v[:2] == ["I", str(i)], v
        v = list(map(int, v[2:]))
        t["sizes"] = [v[0], v[1:1 + n], v[1 + n], v[2 + n]]
        for p in t["probes"]:
            p["obs"] = list(map(int, out[q].split())); q += 1
    ctx.validate("TraceIndex", tests, sum(2 + len(t["probes"]) for t in tests), len(tests),
                 what="index, at and traversal disagree")
    ctx.add("index_probes", sum(len(t["probes"]) for t in tests))


def c12(ctx):
    ctx.model("HostDeviceImpl")
    ctx.expect_fail("HostDeviceImpl", "HostDeviceImplOriginal.cfg")
    e = exe()
    ws = gen(ctx, "HdGen", COUNT=ctx.pick(500, 4000), LEN=ctx.pick(25, 60), DEPTH=ctx.pick(3, 4))
    lines = ["H %d %d %d %d %d %s" % (i, w["kind"], w["e1"], w["e2"], len(w["ops"]),
                                      " ".join("%d %d %d %d %d" % tuple(o) for o in w["ops"]))
             for i, w in enumerate(ws)]
    out = run_harness([e], "\n".join(lines) + "\n").split("\n")
    q = 0
    for i, w in enumerate(ws):
        assert out[q] == "H %d" % i, out[q]
        q += 1
        w["obs"] = []
        for _ in w["ops"]:
            v = list(map(int, out[q].split()[1:])); q += 1
            w["obs"].append([] if v[0] == -1 else v[1:])
    for a in range(0, len(ws), 6000):
        part = ws[a:a + 6000]
        if not ctx.validate("TraceHd", part, sum(1 + len(w["ops"]) for w in part), len(part),
                            what="an owning array returned other contents than last written"):
            break
    ctx.add("histories", len(ws))
    ctx.assumptions.append("device writes go through a pointer obtained after the last host read, as in the library's kernels")
    ctx.sample({"history": ws[-1]["ops"][:10], "answers": ws[-1]["obs"][:10]})

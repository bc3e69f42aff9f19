"""C13: the same deck and calls, run again under other circumstances, give bit-identical states, forces and output files."""
import os
import vp, deck, rich, c10, c01

QUERY = ["dump %s", "wk %s", "sfstat %s", "depth %s 1.0 2.0", "wave %s 1.0 -3.0 -4.0 1", "wave %s 300.0 -3.0 4.0 0", "ser %s Q", "save %s Q.md", "fast %s {nl}", "ewn %s", "log %s 2 hello", "loglevel %s 0", "loglevel %s 6", "verb %s 6"]

def events(rng, m, sid, path, ns):
    """the calls that matter, in order; a query may be put after any of them"""
    mot = deck.Motion(rng, m, amp=.5); x = mot.x(0.0); h = m.opts["dtM"]; e = ["create %s %s" % (sid, path)]
    if rng.random() < .2: e.append("scheme %s %s" % (sid, rng.choice(rich.SCHEMES)))
    e.append(deck.init_cmd(sid, x, mot.v(0.0), rng.random() < .5))
    ext = m.opts.get("WaveKin") == 1
    n = 1 + len(m.bodies) + sum(r["N"] + 1 for r in m.rods) + len(m.points) + sum(l["N"] + 1 for l in m.lines)
    if ext: e += ["ewinit " + sid]
    for k in range(ns):
        if rng.random() < .15: e += c10.controls(rng, m, sid)
        if ext: e.append("ewset %s %r %d %s %s" % (sid, k * h, n, deck.fmt([rng.uniform(-1, 1) for _ in range(3 * n)]), deck.fmt([rng.uniform(-1, 1) for _ in range(3 * n)])))
        if rng.random() < .08: e.append(rng.choice(["setdt %s %r" % (sid, h * .5), "scheme %s %s" % (sid, rng.choice(rich.SCHEMES))]))
        H = h * rng.choice([1, 1, 2.5, .3]); e.append(deck.step_cmd(sid, k * h, H, x, mot.v(k * h))); x = x + mot.v(k * h) * H
    return e + ["dump " + sid, "close " + sid]

def files_of(d, skip=()):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".out") and not f.startswith("s"): r[os.path.relpath(os.path.join(root, f), d)] = open(os.path.join(root, f), "rb").read()
    return r

def strip(run, sid, only=("init", "initnoic", "step", "dump", "create", "ewinit", "setul", "setulv", "setea", "pb", "pint", "setdt", "scheme", "ewset")):
    return [{k: v for k, v in r.items() if k != "s"} for r in run.recs if r.get("c") in only and r.get("s") == sid]

def same(a, b):
    if len(a) != len(b): return "%d and %d records" % (len(a), len(b))
    for i, (p, q) in enumerate(zip(a, b)):
        if p["c"] != q["c"]: return "record %d is %s and %s" % (i, p["c"], q["c"])
        d = c10.diff({"lines": p}, {"lines": q}, ("lines",))
        if d: return "%s %d: %s" % (p["c"], i, d[6:])

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); m = rich.model(rng, fails=False)
    ev = events(rng, m, "a", "w/m.txt", rng.choice([2, 4, 7])); sf = m.opts.get("SeafloorFile")
    if sf: m.opts["SeafloorFile"] = "w/" + sf
    put = lambda mm: {"w/" + n: t for n, t in mm.deck().items()}
    files = put(m)
    with vp.Scratch() as d:
        ref = vp.execute(ctx.exe(), files, ev, d, 60); fref = files_of(d)
    if ref.timeout: out.stat("slow"); return out
    if ref.bad(): out.v("abnormal-end", ref.bad(), ref); return out
    R = strip(ref, "a")
    def variant(name, files2, script, env=None, keep=None, cmpfiles=True, sid="a", base="w"):
        with vp.Scratch() as d:
            r = vp.execute(ctx.exe(), files2, script, d, 120, env=env); ff = files_of(d)
        if r.timeout: out.stat("slow"); return
        if r.bad(): out.v("abnormal-end", "%s: %s" % (name, r.bad()), r); return
        v = strip(r, sid)
        if name == "queries":  # the dumps added as queries are not part of the comparison, the last one is
            cut = lambda z: [q for q in z if q["c"] != "dump"] + [q for q in z if q["c"] == "dump"][-1:]
            e = same(cut(R), cut(v))
        else: e = same(R, v)
        if e: out.v("differs", "%s: %s" % (name, e), r, other=ref.script[:4])
        out.ob(len(R), "%s|%s|%s" % (name, m.kind, m.opts["tScheme"]))
        if cmpfiles and not e:
            f2 = {os.path.join("w", os.path.relpath(k, base)): t for k, t in ff.items() if k.startswith(base + "/")}
            if set(f2) != set(fref): out.v("files", "%s: output files %s and %s" % (name, sorted(fref), sorted(f2)), r)
            else:
                for k in sorted(fref):
                    if fref[k] != f2[k]: out.v("files", "%s: contents of %s differ" % (name, k), r)
                    out.ob(1, "file " + ("main" if k == "w/m.out" else "own"))
    def queried():
        s = []
        for l in ev:
            s.append(l)
            if not l.startswith("close"): s += [rng.choice(QUERY).replace("{nl}", str(len(m.lines))) % "a" for _ in range(rng.randint(0, 4))]
        return s
    variant("again", files, ev)
    variant("dirty heap", files, ["junk a %d" % rng.randrange(1 << 30)] + ev, env={"MALLOC_PERTURB_": str(rng.randint(1, 255))})
    variant("queries", files, queried())
    k = rng.choice(["prior", "log", "outs", "cwd", "open"])
    if k == "prior" or k == "open":
        o = rich.model(rng, small=True); f2 = dict(files); of = o.opts.get("SeafloorFile")
        if of: o.opts["SeafloorFile"] = "o/" + of
        f2.update({"o/" + n: t for n, t in o.deck().items()}); pre = events(rng, o, "z", "o/m.txt", 2)
        if k == "open": pre = pre[:-1]
        variant("used process" if k == "prior" else "another system open", f2, pre + ev)
    elif k == "log":
        s = list(ev); s.insert(1, "loglevel a %d" % rng.choice([0, 3, 6])); s.insert(1, "logfile a own.log"); s.insert(1, "verb a %d" % rng.choice([0, 1, 2, 3, 6]))
        mm_opts = m.opts.get("writeLog"); m.opts["writeLog"] = rng.choice([0, 1, 2, 3]); f2 = put(m); m.opts["writeLog"] = mm_opts
        variant("logging", f2, s)
    elif k == "outs":
        sv = (m.outs, [l.get("out") for l in m.lines], [r.get("out") for r in m.rods], m.opts.get("dtOut"))
        m.outs = [] if m.outs and rng.random() < .5 else rich.channels(rng, m, 8); m.opts["dtOut"] = rng.choice([0.0, 3.0]) * m.opts["dtM"]
        for l in m.lines: l["out"] = rng.choice(["-", "ptvcsdUDbK"])
        for r in m.rods: r["out"] = rng.choice(["-", "pvf"])
        f2 = put(m); variant("outputs", f2, ev, cmpfiles=False)
        m.outs = sv[0]; m.opts["dtOut"] = sv[3]
        for l, q in zip(m.lines, sv[1]): l["out"] = q
        for r, q in zip(m.rods, sv[2]): r["out"] = q
    else:
        if not sf: variant("working directory", {"sub/dir/" + n: t for n, t in files.items()}, ["cd sub"] + [l.replace("w/m.txt", "dir/w/m.txt") for l in ev], base="sub/dir/w")
    if not out["samples"]: out["samples"].append({"deck": m.text()[:3000], "calls": [l[:120] for l in ev[:10]], "output files": {k2: len(t) for k2, t in fref.items()}})
    return out

def run(ctx):
    ctx.exe()
    ctx.map(case, [("r", i) for i in range(2000 if ctx.quick else 20000)])
    return ctx.finish()

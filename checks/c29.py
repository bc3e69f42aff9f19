"""C29: a mooring described to the Python generator is the mooring that is simulated."""
import os, math
import vp, deck, c28, c05
import build as B

def job(ctx, c, d):
    rng = ctx.rng(c)
    while True:
        m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=6, small=rng.random() < .5, pins=True, allow_zero_rod=rng.random() < .2)
        if all(deck.btype(b["att"]) != "CPLDPIN" for b in m.bodies): break
    if rng.random() < .4: c05.hub(rng, m)
    for b in m.bodies:
        # angles that survive the change of unit, and the short notations
        b["r6"][3:] = [a if math.degrees(math.radians(a)) == a else float(rng.choice([0, 30, -45, 90, 60])) for a in (round(q, 1) for q in b["r6"][3:])]
        b["r6"][3:] = [a if math.degrees(math.radians(a)) == a else 0.0 for a in b["r6"][3:]]
        if rng.random() < .3: b["CG"] = [rng.choice([0.0, .25, -.5])]
        if rng.random() < .3: b["I"] = b["I"][:1]
        if rng.random() < .4: b["CdA"] = [[2.0], [1.5, .5], [1.0, 2.0, .5]][rng.randrange(3)]
        if rng.random() < .3: b["Ca"] = b["Ca"][:1]
    for p in m.points: p["F"] = None
    for l in m.lines + m.rods: l["out"] = "-"
    m.outs = []; m.fails = []; m.opts.update(dtM=deck.safe_dt(m, .1, .01), tScheme=rng.choice(["rk2", "rk4", "euler", "heun"]), writeLog=0)
    h = m.opts["dtM"] * rng.choice([1, 2]); n = rng.choice([2, 4, 6]); fails = []
    if m.lines and rng.random() < .4:
        k = rng.randrange(len(m.lines)); e = m.lines[k][rng.choice("AB")]; t = rng.choice([0.0, h * 1.5, 1e6]); ten = rng.choice([0.0, 1e3, 1e12])
        m.fails = [(e, k + 1, t, ten)]; fails = [[e, [k + 1], t, ten]]
    mot = deck.Motion(rng, m, amp=rng.choice([.1, .5])); os.makedirs(os.path.join(d, "d2"))
    for f, t in m.deck().items(): open(os.path.join(d, "d2", f), "w").write(t)
    X = [list(map(float, mot.x(0.0)))] * 2 + [list(map(float, mot.x(k * h))) for k in range(1, n)]; W = [list(map(float, mot.v(k * h))) for k in range(n + 1)]
    g = {"ltypes": m.ltypes, "rtypes": m.rtypes, "lines": m.lines, "fails": fails, "opts": [[k, v] for k, v in m.opts.items()],
         "bodies": [dict(kind=deck.btype(b["att"]), p=b["r6"][:3], rad=[math.radians(a) for a in b["r6"][3:]], M=b["M"], CG=b["CG"], I=b["I"], V=b["V"], CdA=b["CdA"], Ca=b["Ca"]) for b in m.bodies],
         "rods": [dict(rtype=r["rtype"], kind=deck.rtype_(r["att"]), body=deck.attbody(r["att"]), a=r["a"], b=r["b"], N=r["N"]) for r in m.rods],
         "points": [dict(kind=deck.ptype(p["att"]), body=deck.attbody(p["att"]), r=p["r"], m=p["m"], V=p["V"], CdA=p["CdA"], Ca=p["Ca"]) for p in m.points]}
    m.kind = "generated"
    return {"seed": "%s|%s|%s" % (ctx.pid, ctx.seed, c), "gen": g, "deck2": os.path.join(d, "d2", "m.txt"), "dir": d, "out": os.path.join(d, "r.json"), "pkg": os.path.join(B.REPO, "wrappers", "python"), "so": ctx.pyso, "consts": {}, "types": {},
            "ext": False, "kind": "still", "depth": float(m.opts["WtrDpth"]), "ic": rng.random() < .2, "nmis": 0, "motion": {"x": X, "v": W, "h": h}}, m

def case(ctx, c): return c28.launch(ctx, c, job)

def run(ctx):
    ctx.pyso, ctx.pyrt = B.build_py()
    ctx.map(case, [["gen", i] for i in range(120 if ctx.quick else 2500)])
    return ctx.finish()

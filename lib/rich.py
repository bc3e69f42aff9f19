"""Decks that use many features at once: tables, waters, bathymetry, outputs, logs, schemes, equilibrium solves."""
import math
import deck, water, phys
SCHEMES = ["euler", "heun", "rk2", "rk4", "ab2", "ab3", "ab4", "LEuler", "LAB2", "LAB3", "LAB4", "BEuler3", "BEuler5", "midpoint4", "midpoint10", "anderson1", "anderson3", "anderson8", "ACA5", "ACA10", "ACA2", "wilson5", "wilson10"]

def table(rng, m, key, i):
    lt = m.ltypes[i]
    if key == "EA":
        e = float(lt["EA"]); xs = [0.0, .02, .1, .5]; ys = [e * x * (1 + .3 * k) for k, x in enumerate(xs)]
    elif key == "BA":
        if float(lt["BA"]) <= 0: return
        b = float(lt["BA"]); xs = [0.0, .1, 1.0, 5.0]; ys = [b * x for x in xs]
    else:
        b = max(float(lt["EI"]), 10.0); xs = [0.0, .05, .2, 1.0]; ys = [b * x for x in xs]
    n = rng.randint(2, 4); fn = "%s%d.dat" % (key, i); lt[key] = fn
    m.files[fn] = "-\nhead\n-\n" + "".join("%r %r\n" % q for q in zip(xs[:n], ys[:n]))

def channels(rng, m, n):
    o = []
    for _ in range(n):
        k = rng.choice("LLLFAPPRB")
        if k == "L" and m.lines:
            i = rng.randrange(len(m.lines)); N = m.lines[i]["N"]; node = rng.choice(["N%d" % rng.randint(0, N), "NA", "NB"])
            q = rng.choice(["px", "py", "pz", "vx", "vy", "vz", "fx", "fy", "fz", "t", "ten", "ax", "ay", "az", "rx", "sub", "ta"])
            o.append(rng.choice(["L", "Line", "LINE"]) + "%d%s%s" % (i + 1, node, q))
        elif k == "F": o.append(rng.choice(["FairTen%d", "FAIRTEN%d"]) % (1 + rng.randrange(len(m.lines))))
        elif k == "A": o.append(rng.choice(["AnchTen%d", "anchten%d"]) % (1 + rng.randrange(len(m.lines))))
        elif k == "P" and m.points: o.append(rng.choice(["P", "Point", "point"]) + "%d" % (1 + rng.randrange(len(m.points))) + rng.choice(["px", "PY", "pz", "vx", "vy", "vz", "fx", "fy", "fz", "ax", "az", "t", "ten"]))
        elif k == "R" and m.rods:
            i = rng.randrange(len(m.rods)); node = rng.choice(["", "", "N%d" % rng.randint(0, m.rods[i]["N"]), "NA", "NB"])
            o.append(rng.choice(["R", "Rod"]) + "%d%s" % (i + 1, node) + rng.choice(["px", "py", "pz", "vx", "vy", "vz", "fx", "fy", "fz", "rx", "ry", "rz", "rvx", "rvy", "mx", "mz", "ax", "az", "rax", "t", "ta", "tb", "sub"]))
        elif k == "B" and m.bodies: o.append(rng.choice(["B", "Body"]) + "%d" % (1 + rng.randrange(len(m.bodies))) + rng.choice(["px", "py", "pz", "rx", "ry", "rz", "vx", "vz", "rvx", "rvz", "fx", "fz", "mx", "my", "ax", "az", "rax", "ten"]))
    return o

def model(rng, small=None, waters=None, fails=False):
    m = deck.rnd_model(rng, zfree=rng.random() < .5, nmax=6, small=rng.random() < .6 if small is None else small, pins=True, allow_zero_rod=False)
    H = m.opts["WtrDpth"]; g = m.opts.get("g", 9.80665); rho = m.opts.get("rho", 1025.0)
    kind = rng.choice(waters or ["still", "still", "w2", "w3", "w7", "c1", "c2", "c5", "wc", "wc", "wc", "bathy", "bathywc", "ext", "extc"])
    m.kind = kind
    if "bathy" in kind: phys.add_water(m, rng, "bathy")
    if kind.startswith("w") or "wc" in kind: water.add_waves(m, rng, int(kind[1]) if kind[1:2].isdigit() else rng.choice([2, 3, 7]), g, rho, H)
    if kind.startswith("c") or kind.endswith("c"):
        water.add_current(m, rng, int(kind[1]) if kind[1:2].isdigit() else rng.choice([1, 2, 5]), H)
        if rng.random() < .4: m.opts["UnifyCurrentGrid"] = rng.choice([0, 1])
    if kind.startswith("ext"): m.opts["WaveKin"] = 1
    for i in range(len(m.ltypes)):
        for k in ("EA", "BA", "EI"):
            if rng.random() < .15: table(rng, m, k, i)
    if rng.random() < .5:
        for l in m.lines: l["out"] = rng.choice(["-", "p", "ptvcsdUDbK"[:rng.randint(1, 10)], "tc", "vK", "b"])
        for r in m.rods: r["out"] = rng.choice(["-", "p", "pvf", "f", "ptUD"])
    if rng.random() < .5: m.outs = channels(rng, m, rng.randint(1, 12))
    m.opts["writeLog"] = rng.choice([0, 0, 1, 2, 3])
    m.opts["tScheme"] = rng.choice(SCHEMES)
    m.opts["dtM"] = deck.safe_dt(m, .1, .01)
    if rng.random() < .3: m.opts["dtOut"] = rng.choice([0.0, 2.5, 1.0]) * m.opts["dtM"]
    if rng.random() < .3: m.opts["WriteUnits"] = rng.choice([0, 1])
    m.opts["dtIC"] = m.opts["dtM"] * rng.choice([2, 5]); m.opts["TmaxIC"] = m.opts["dtIC"] * rng.choice([1, 3, 12]); m.opts["threshIC"] = rng.choice([.5, .01])
    if rng.random() < .5: m.opts["CdScaleIC"] = rng.choice([1.0, 4.0])
    m.opts["ICgenDynamic"] = rng.choice([0, 1])
    if fails and not kind.startswith("ext") and rng.random() < .3:
        k = rng.randrange(len(m.lines)); l = m.lines[k]; e = l[rng.choice("AB")]; m.fails.append(("P" + e if e.isdigit() else e, k + 1, rng.choice([0.0, 1e6, 1e-3]), rng.choice([0.0, 1e3, 1e12])))
    return m

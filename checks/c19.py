"""C19: documented-equivalent ways of writing a deck give bit-identical runs."""
import math, re
import vp, deck, rich, c13
AL = {"B": {"FIXED": ["Fixed", "Anchor", "Fix"], "COUPLED": ["Coupled", "Vessel", "Ves", "Cpld"], "CPLDPIN": ["CoupledPinned", "VesselPinned", "VesPin", "CpldPin"], "FREE": ["Free"]},
      "R": {"FIXED": ["Fixed", "Anchor", "Fix"], "PINNED": ["Pinned", "Pin"], "COUPLED": ["Coupled", "Vessel", "Ves", "Cpld"], "CPLDPIN": ["CoupledPinned", "VesselPinned", "VesPin", "CpldPin"], "FREE": ["Free", "Point", "Con"]},
      "P": {"FIXED": ["Fixed", "Anchor", "Fix"], "COUPLED": ["Coupled", "Vessel", "Ves", "Cpld", "Fairlead"], "FREE": ["Free", "Point", "Con", "Connect"]}}
HEADS = {"LINE TYPES": ["LINE TYPES", "LINE DICTIONARY"], "ROD TYPES": ["ROD TYPES", "ROD DICTIONARY"], "BODIES": ["BODIES", "BODY LIST", "BODY PROPERTIES"], "RODS": ["RODS", "ROD LIST", "ROD PROPERTIES"],
         "POINTS": ["POINTS", "POINT LIST", "POINT PROPERTIES", "CONNECTION PROPERTIES"], "LINES": ["LINES", "LINE LIST", "LINE PROPERTIES"], "OPTIONS": ["OPTIONS"], "OUTPUTS": ["OUTPUTS", "OUTPUT"]}
OPT = {"dtM": ["dtM", "DT"], "g": ["g", "gravity"], "rho": ["rho", "Rho", "WtrDnsty"], "kb": ["kb", "kbot", "kBot"], "cb": ["cb", "cbot", "cBot"], "dtIC": ["dtIC", "ICdt"], "TmaxIC": ["TmaxIC", "ICTmax"], "CdScaleIC": ["CdScaleIC", "ICDfac"], "threshIC": ["threshIC", "ICthresh"]}
# documented defaults (docs/inputs.rst, 'Options'); g is left out: the documented 9.81 and the library's 9.80665 disagree
DEF = {"rho": 1025.0, "kb": 3e6, "cb": 3e5, "FrictionCoefficient": 0.0, "FricDamp": 200.0, "StatDynFricScale": 1.0, "WriteUnits": 1, "dtOut": 0.0, "WaveKin": 0, "Currents": 0, "UnifyCurrentGrid": 1, "tScheme": "RK2", "dtWave": 0.25, "ICgenDynamic": 0, "dtIC": 1.0, "TmaxIC": 120.0, "CdScaleIC": 5.0, "threshIC": .001, "writeLog": 0}

def anycase(rng, s): return rng.choice([s, s.upper(), s.lower(), "".join(rng.choice([ch.upper(), ch.lower()]) for ch in s)])

def number(rng, s):
    """another spelling of the same number"""
    if not re.fullmatch(r"[-+]?[0-9.]+(e[-+]?[0-9]+)?", s) or "." not in s and "e" not in s: return s
    x = float(s)
    w = rng.choice([s, "%.17e" % x, "%.17E" % x, "+" + s if x >= 0 and s[0] != "+" else s, s + "0" if "." in s and "e" not in s else s, "%.20g" % x, "%d" % x if x == int(x) and abs(x) < 1e9 else s, "0" + s if x >= 0 else s])
    return w if float(w) == x else s

def glue(rng, words): return rng.choice(["", "", " ", "    "]) + (" " * rng.choice([1, 1, 3, 8])).join(words) + rng.choice(["", "", "  ", "\t"])

def rewrite(rng, m, kinds):
    """the same model in other words; kinds: which freedoms to use"""
    m = m.clone()
    if "alias" in kinds:
        for b in m.bodies: b["att"] = anycase(rng, rng.choice(AL["B"][deck.btype(b["att"])]))
        for k, L in (("R", m.rods), ("P", m.points)):
            for r in L:
                t = r["att"]
                if t.upper().startswith("BODY"):
                    n = deck.attbody(t); pin = "PIN" in t.upper()
                    r["att"] = anycase(rng, "Body") + str(n) + (anycase(rng, rng.choice(["Pinned", "Pin"])) if pin else "")
                else: r["att"] = anycase(rng, rng.choice(AL[k][(deck.rtype_ if k == "R" else deck.ptype)(t)]))
        for l in m.lines:
            for e in "AB":
                if l[e][0] in "Rr": l[e] = anycase(rng, rng.choice(["R", "Rod"])) + l[e][1:-1] + anycase(rng, l[e][-1])
                else: l[e] = anycase(rng, rng.choice(["", "P", "Point", "C", "Con"])) + l[e]
    if "short" in kinds:
        for b in m.bodies:
            f = deck.f
            if isinstance(b["CG"], list) and b["CG"][0] == b["CG"][1] == 0 and rng.random() < .8: b["CG"] = f(b["CG"][2])
            if isinstance(b["I"], list) and len(set(b["I"])) == 1 and rng.random() < .8: b["I"] = f(b["I"][0])
            if isinstance(b["Ca"], list) and len(set(b["Ca"])) == 1 and rng.random() < .8: b["Ca"] = f(b["Ca"][0])
            c = b["CdA"]
            if isinstance(c, list):
                o = [c]
                if len(set(c)) == 1: o += [c[:1], c[:2], c[:3]]
                if len(set(c[:3])) == 1 and len(set(c[3:])) == 1: o += [[c[0], c[3]]] * 2
                if c[:3] == c[3:]: o += [c[:3]] * 2
                b["CdA"] = "|".join(f(q) for q in rng.choice(o))
    opts = list(m.opts.items())
    if "defaults" in kinds:
        o2 = []
        for k, v in opts:
            if k in DEF and v == DEF[k] and rng.random() < .7: continue
            o2.append((k, v))
        for k, v in DEF.items():
            if k not in m.opts and rng.random() < .5: o2.append((k, v))
        opts = o2
    if "order" in kinds:
        rng.shuffle(opts)
    m.opts = dict(opts)
    if "unused" in kinds:
        m.ltypes.insert(rng.randint(0, len(m.ltypes)), dict(name="spare", d=.3, w=40.0, EA=3e7, BA=-1.0, EI=5.0, Cd=1.0, Ca=1.0, CdAx=.1, CaAx=0.0))
        if m.rtypes: m.rtypes.insert(rng.randint(0, len(m.rtypes)), dict(name="spare", d=.9, w=400.0, Cd=1.0, Ca=1.0, CdEnd=.1, CaEnd=.3))
    out = []; sec = None; left = 0; t = m.text().split("\n")
    for n, l in enumerate(t):
        if l.startswith("---"):
            h = next((k for k in HEADS if " " + k + " " in l), None); sec = h
            left = 0 if h in ("OPTIONS", "OUTPUTS", None) else 2
            if h is None and "need this line" not in l: out.append(l); continue
            if "heads" in kinds:
                w = rng.choice(HEADS[h]) if h else rng.choice(["need this line", "end"])
                if h and rng.random() < .5: w = anycase(rng, w)
                l = "-" * rng.randint(3, 30) + rng.choice([" ", "  "]) + w + rng.choice([" ", ""]) + "-" * rng.randint(3, 50)
            out.append(l); continue
        if sec is None:
            out.append(l); continue
        if left:
            left -= 1
            out.append(rng.choice(["a b c", l, "(units) (#) [m]", "Name of things, 3 4 5"]) if "heads" in kinds else l); continue
        w = l.split(" ")
        if "numbers" in kinds:
            if sec == "OPTIONS": w[0] = number(rng, w[0]) if w[1] not in ("UnifyCurrentGrid", "WriteUnits", "writeLog", "WaveKin", "Currents", "SeafloorFile", "tScheme") else w[0]
            else:
                keep = {"LINES": (0, 1, 2, 3, 5, 6), "RODS": (0, 1, 2, 9, 10), "POINTS": (0, 1), "BODIES": (0, 1), "LINE TYPES": (0,), "ROD TYPES": (0,), "OUTPUTS": tuple(range(99))}[sec]
                w = [x if i in keep else "|".join(number(rng, q) for q in x.split("|")) for i, x in enumerate(w)]
        if sec == "OPTIONS":
            if "alias" in kinds and w[1] in OPT: w[1] = rng.choice(OPT[w[1]])
            if "comments" in kinds: w += rng.choice([[], ["the", "dtM", "of", "(things)"], ["-", "12.0", "rho"], ["#note"]])
            if "alias" in kinds and w[1] == "tScheme" and rng.random() < .5: w[0] = anycase(rng, w[0]) if "case-scheme" in kinds else w[0]
        out.append(glue(rng, w) if "space" in kinds else " ".join(w))
    if "front" in kinds:
        f = [rng.choice(["", "any text here", "True Echo", "--------------------- MoorDyn Input File --------------------", "1 2 3 4 5", "MoorDyn v2 sample"]) for _ in range(rng.randint(0, 5))]
        i = next(i for i, l in enumerate(out) if l.startswith("---")); out = f + out[i:]
    s = "\n".join(out)
    if "end" in kinds: s = s.rstrip("\n") + rng.choice(["", "\n", "\n\n\n"])
    if "crlf" in kinds: s = s.replace("\n", "\r\n")
    return s

KINDS = ["alias", "short", "defaults", "order", "unused", "heads", "numbers", "comments", "space", "front", "end", "crlf"]

def aux(rng, files):
    o = {}
    for n, t in files.items():
        if rng.random() < .5: o[n] = t; continue
        o[n] = "\n".join(re.sub(" +", lambda q: " " * rng.choice([1, 2, 5]), l) for l in t.split("\n"))
    return o

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); m = rich.model(rng, fails=False)
    for b in m.bodies:   # bodies that have a short form
        if rng.random() < .6: b["CG"] = [0.0, 0.0, b["CG"][2]]
        if rng.random() < .6: b["I"] = [b["I"][0]] * 3
        if rng.random() < .6: b["Ca"] = [b["Ca"][0]] * 3
        k = rng.choice([0, 1, 2, 3]); q = b["CdA"]
        if k == 1: b["CdA"] = [q[0]] * 6
        elif k == 2: b["CdA"] = [q[0]] * 3 + [q[3]] * 3
        elif k == 3: b["CdA"] = q[:3] * 2
    for k, v in DEF.items():   # some options at their default
        if k in ("TmaxIC", "dtIC", "WaveKin", "Currents") or rng.random() > .25: continue
        if k == "tScheme" or k in m.opts or rng.random() < .3: m.opts[k] = v
    ev = c13.events(rng, m, "a", "w/m.txt", rng.choice([2, 4])); sf = m.opts.get("SeafloorFile")
    if sf: m.opts["SeafloorFile"] = "w/" + sf
    put = lambda t, fs: dict({"w/" + n: x for n, x in fs.items()}, **{"w/m.txt": t})
    with vp.Scratch() as d: ref = vp.execute(ctx.exe(), put(m.text(), m.files), ev, d, 60); fref = c13.files_of(d)
    if ref.timeout: out.stat("slow"); return out
    if ref.bad(): out.v("abnormal-end", ref.bad(), ref); return out
    R = c13.strip(ref, "a")
    ok = all(r.get("rc", 0) == 0 for r in R if r["c"] in ("init", "initnoic")) and R[0].get("ok", 1)
    for v in range(4):
        kinds = set([KINDS[(hash_(c) + v * 3 + i) % len(KINDS)] for i in range(1)] if v < 3 else rng.sample(KINDS, rng.randint(4, len(KINDS))))
        t = rewrite(rng, m, kinds); fs = aux(rng, m.files) if "space" in kinds else m.files
        with vp.Scratch() as d: r = vp.execute(ctx.exe(), put(t, fs), ev, d, 120); ff = c13.files_of(d)
        if r.timeout: out.stat("slow"); continue
        if r.bad(): out.v("abnormal-end", r.bad(), r); continue
        e = c13.same(R, c13.strip(r, "a"))
        if e: out.v("differs-" + (next(iter(kinds)) if len(kinds) == 1 else "mixed"), "%s: %s" % ("+".join(sorted(kinds)), e), r)
        elif ff != fref and "alias" not in kinds: out.v("files", "%s: output files differ" % "+".join(sorted(kinds)), r)
        for k in kinds: out.ob(len(R), "%s|%s|%s" % (k, m.kind, "ran" if ok else "refused alike"))
    if not out["samples"]: out["samples"].append({"plain": m.text()[:1500], "rewritten": rewrite(rng, m, set(KINDS))[:1500]})
    return out

def hash_(c): return c[1]

def run(ctx):
    ctx.exe()
    ctx.map(case, [("e", i) for i in range(2000 if ctx.quick else 20000)])
    return ctx.finish()

"""C25: the legacy single-system functions against the current interface."""
import vp, deck, trace, phys, rich, c16

def v(x): return "%d %s" % (len(x), deck.fmt(x))
def vv(x, xd): return "%d %s %s" % (len(x), deck.fmt(x), deck.fmt(xd))

def episode(rng, c):
    """one system and the calls on it: pairs (legacy, current)"""
    m = rich.model(rng, waters=["still", "still", "w3", "c1", "wc", "bathy", "ext", "ext"], fails=True); dt = m.opts["dtM"]; mot = deck.Motion(rng, m, amp=.3, rot=.05)
    return m, mot, dt

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); files, S, pairs = {}, [], []; open_ = False; tags = set(); key = 0
    def both(a, b):
        S.append(a); S.append(b)
    for ep in range(rng.choice([1, 2, 2, 3])):
        m, mot, dt = episode(rng, c); name = "e%d" % ep
        if m.opts.get("SeafloorFile"):
            f = m.opts["SeafloorFile"]; t = m.files.pop(f) if f in m.files else m.deck()[f]; m.opts["SeafloorFile"] = "%s_%s" % (name, f); files["%s_%s" % (name, f)] = t
        bad = rng.random() < .2 and ep
        for s in "pq":
            for k, t in m.deck().items(): files["%s%s/%s" % (name, s, k)] = t
        x0, v0 = mot.x(0.0), mot.v(0.0); n = len(x0)
        if bad:                                     # fails to read, or to initialise
            if rng.random() < .5: S.append("v1init v nowhere/m.txt %s" % vv(x0, v0)); tags.add("missing")
            else:
                m.opts["dtM"] = -1.0; files["%sp/m.txt" % name] = files["%sq/m.txt" % name] = m.deck()["m.txt"]; S.append("create z%d %sq/m.txt" % (ep, name))
                both("v1init v %sp/m.txt %s" % (name, vv(x0, v0)), deck.init_cmd("z%d" % ep, x0, v0, ic=True)); S.append("close z%d" % ep); tags.add("failed init")
                if open_: both("v1step v 0 0 %s" % vv(*lastx), deck.step_cmd(cur, 0.0, 0.0, *lastx))          # the running system is still there
            continue
        closed = None
        if open_ and rng.random() < .6: both("v1close v", "close %s" % cur); open_ = False; tags.add("closed")
        elif open_: tags.add("replaced"); closed = cur
        cur = name; S += ["create %s %sq/m.txt" % (cur, name)]; both("v1init v %sp/m.txt %s" % (name, vv(x0, v0)), deck.init_cmd(cur, x0, v0, ic=True)); open_ = True
        if closed: S.append("close %s" % closed)
        t = 0.0; ext = m.kind.startswith("ext"); npt = c16.sizes(m) if ext else 0; lastx = (x0, v0)
        if ext and rng.random() < .8: both("v1ewinit v", "ewinit %s" % cur)
        else: npt = 0
        for k in range(rng.randint(1, 6)):
            h = dt * rng.choice([1, 1, 1, 2.5, 0.0])
            both("v1step v %r %r %s" % (t, h, vv(mot.x(t), mot.v(t))), deck.step_cmd(cur, t, h, mot.x(t), mot.v(t))); t += h
            lastx = (mot.x(t), mot.v(t)); S.append("dump %s" % cur)
            if npt:
                both("v1ewcoords v %d" % npt, "ewcoords %s %d" % (cur, npt)); U = [rng.uniform(-1, 1) for _ in range(6 * npt)]; both("v1ewset v %r %d %s" % (t, npt, deck.fmt(U)), "ewset %s %r %d %s" % (cur, t, npt, deck.fmt(U)))
            for i, l in enumerate(m.lines): S.append("v1fair v %d" % (i + 1)); S.append("v1node v %d %d" % (i + 1, rng.randint(0, l["N"])))
            for i in range(len(m.points)): S += ["v1ppos v %d" % (i + 1), "v1pforce v %d" % (i + 1)]
            both("v1fast v %d" % len(m.lines), "fast %s %d" % (cur, len(m.lines)))
        tags.add(m.kind); tags.add(str(m.opts["tScheme"]))
    if open_: both("v1close v", "close %s" % cur)
    with vp.Scratch() as d: r = vp.execute(ctx.exe("asan" if c[0] == "a" else "plain"), files, S, d, 120)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("crash", "the run ended badly: %s" % r.bad(), r); return out
    last = {}; dump = None; i = 0
    for k, (q, s) in enumerate(zip(r.recs, S)):
        C = q["c"]
        if C == "dump":
            dump = q
            if trace.speed(q) > 1e4: out.stat("cut at divergence"); return out
        elif C in ("v1init", "v1step", "v1close", "v1ewinit", "v1fast", "v1ewcoords"):
            if s.startswith("v1init v nowhere"):
                if q["rc"] == 0: out.v("missing", "initialising from a missing deck succeeded", r)
                continue
            o = r.recs[k + 1]; out.ob(1, "%s|%s" % (C, ",".join(sorted(tags))[:60]))
            if C == "v1ewinit":
                if q["n"] != (o["n"] if not o["rc"] else 0): out.v("ewinit", "%r points by the legacy interface, %r by the current one" % (q["n"], o["n"]), r); return out
            elif "rc" in q and q["rc"] != o["rc"]: out.v("code", "%s returns %r, %s returns %r" % (s[:40], q["rc"], S[k + 1][:40], o["rc"]), r); return out
            for f in ("t", "dt", "f", "v", "r"):
                if f in q and repr(q[f]) != repr(o[f]): out.v("value-" + C, "%s gives %s = %s, the current interface %s" % (s[:30], f, str(q[f])[:80], str(o[f])[:80]), r); return out
            if q.get("rc") and (C == "v1step" or C == "v1init" and not S[k - 1].startswith("create z")): out.stat("failed alike"); return out
        elif C in ("v1fair", "v1node", "v1ppos", "v1pforce"):
            a = s.split()[2:]; j = int(a[0]) - 1
            want = dump["lines"][j]["ft"] if C == "v1fair" else dump["lines"][j]["pos"][int(a[1])] if C == "v1node" else dump["points"][j]["pos" if C == "v1ppos" else "F"]
            out.ob(1, C)
            if repr(q["v"]) != repr(want) or q.get("rc"): out.v("reading", "%s gives %r (code %r), the current interface %r" % (s, q["v"], q.get("rc"), want), r); return out
    return out

def run(ctx):
    ctx.exe(); ctx.exe("asan")
    ctx.map(case, [("p", i) for i in range(500 if ctx.quick else 8000)])
    ctx.map(case, [("a", i) for i in range(120 if ctx.quick else 2000)])
    return ctx.finish()

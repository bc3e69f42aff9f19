"""C23: invalid arguments are refused by code and change nothing; lookups agree with the deck."""
import vp, deck, trace, phys, rich, c10

PT = {"COUPLED": -1, "FREE": 0, "FIXED": 1}; RT = {"COUPLED": -2, "CPLDPIN": -1, "FREE": 0, "PINNED": 1, "FIXED": 2}; BT = {"COUPLED": -1, "CPLDPIN": 2, "FREE": 0, "FIXED": 1}

def lookups(m, d, out, r):
    """counts, identifiers, kinds and attachments as in the deck"""
    for key, objs in (("lines", m.lines), ("points", m.points), ("rods", m.rods), ("bodies", m.bodies)):
        if len(d[key]) != len(objs): out.v("count", "%d %s in the deck, %d reported" % (len(objs), key, len(d[key])), r); return False
        for i, o in enumerate(d[key]):
            if o["id"] != i + 1: out.v("id", "%s %d reports the identifier %d" % (key, i + 1, o["id"]), r); return False
    for i, p in enumerate(m.points):
        if d["points"][i]["type"] != PT[deck.ptype(p["att"])]: out.v("type", "point %d (%s) reports the type %d" % (i + 1, p["att"], d["points"][i]["type"]), r); return False
        want = sorted((k + 1, e) for k, l in enumerate(m.lines) for e, x in enumerate((l["A"], l["B"])) if x == str(i + 1)); got = sorted((a, b) for a, b in d["points"][i]["att"])
        if got != want: out.v("attached", "point %d reports the attached line ends %r, the deck says %r (0: A, 1: B)" % (i + 1, got, want), r); return False
    for i, p in enumerate(m.rods):
        if d["rods"][i]["type"] != RT[deck.rtype_(p["att"])]: out.v("type", "rod %d (%s) reports the type %d" % (i + 1, p["att"], d["rods"][i]["type"]), r); return False
        if d["rods"][i]["N"] != p["N"] or d["rods"][i]["nn"] != p["N"] + 1: out.v("size", "rod %d of %d segments reports %d segments and %d nodes" % (i + 1, p["N"], d["rods"][i]["N"], d["rods"][i]["nn"]), r); return False
    for i, p in enumerate(m.bodies):
        if d["bodies"][i]["type"] != BT[deck.btype(p["att"])]: out.v("type", "body %d (%s) reports the type %d" % (i + 1, p["att"], d["bodies"][i]["type"]), r); return False
    for i, l in enumerate(m.lines):
        o = d["lines"][i]
        if o["N"] != l["N"] or len(o["pos"]) != l["N"] + 1: out.v("size", "line %d of %d segments reports %d segments and %d nodes" % (i + 1, l["N"], o["N"], len(o["pos"])), r); return False
    return True

def judge(r, out):
    for q in r.of("misuse"):
        for name, kind, rc in q["calls"]:
            if (rc == 0) != (kind == "ok"): out.v("%s-%s" % (kind, name), "%s with %s %s" % (name, {"null": "a null argument", "index": "an index out of range", "value": "an invalid value", "ok": "valid arguments"}[kind], "failed with %d" % rc if kind == "ok" else "succeeded"), r)
            out.ob(1, "%s|%s" % (name, kind))
    return not out["viol"]

def misused(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); m = rich.model(rng, waters=["still", "w3", "c1", "wc", "bathy", "ext"]); m.opts["TmaxIC"] = 0.0; n = sum(k for _a, _b, k in m.layout())
    mot = deck.Motion(rng, m, amp=.3, rot=.05); dt = m.opts["dtM"]; nd = len(mot.x(0.0)); S = []; files = {}
    for s in "ab":
        for k, t in m.deck().items(): files["%s/%s" % (s, k)] = t
    if m.opts.get("SeafloorFile"): files[m.opts["SeafloorFile"]] = m.deck()[m.opts["SeafloorFile"]]
    early = rng.random() < .5; ic = rng.random() < .3; k0 = rng.randint(0, 3)
    for s in "ab":
        S.append("create %s %s/m.txt" % (s, s))
        if s == "a" and early:
            S.append("misuse a 0")
            if nd: S += ["initnull a %d" % k for k in range(3)]
        S += [deck.init_cmd(s, mot.x(0.0), mot.v(0.0), ic=ic), "dump " + s]; t = 0.0
        for k in range(5):
            if s == "a" and k >= k0: S += ["ser a x", "dump a", "misuse a 1", "dump a", "ser a y"]
            S += [deck.step_cmd(s, t, dt, mot.x(t), mot.v(t)), "dump " + s]; t += dt
        S.append("close " + s)
    with vp.Scratch() as d: r = vp.execute(ctx.exe("asan"), files, S, d, 120)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("crash", "misuse ended the process: %s" % r.bad(), r); return out
    if any(q["rc"] for q in r.recs if q["c"] in ("init", "initnoic")): out.stat("not initialised"); return out
    for q in r.of("initnull"):
        out.ob(1, "initnull")
        if q["rc"] == 0: out.v("initnull", "initialising %d driven components with null arrays succeeded" % nd, r)
    if not judge(r, out): return out
    A = [q for q in r.recs if q["c"] in ("dump", "ser", "misuse", "init", "initnoic", "step") and q.get("s") == "a"]; B = [q for q in r.of("dump") if q["s"] == "b"]; nat = []
    for i, q in enumerate(A):
        if q["c"] == "misuse" and i > 1 and A[i - 1]["c"] == "dump":
            e = c10.diff(A[i - 1], A[i + 1]) or (None if A[i - 2]["hash"] == A[i + 2]["hash"] else "the serialised state differs")
            if e: out.v("changed", "refused calls changed the system: %s" % e, r); return out
        if q["c"] == "dump" and A[i - 1]["c"] in ("init", "initnoic", "step"): nat.append(q)
    for k, (a, b) in enumerate(zip(nat, B)):
        if trace.speed(a) > 1e4: out.stat("cut at divergence"); break
        e = c10.diff(a, b)
        if e: out.v("later", "after refused calls the run differs at record %d: %s" % (k, e), r); return out
    if B and not lookups(m, B[0], out, r): return out
    if B: lookups(m, B[-1], out, r)
    out.ob(len(nat), "run|%s|%s|%s" % (m.kind, "early" if early else "-", "ic" if ic else "noic")); return out

def v1(ctx, c):
    """the legacy functions without a system, and with indices out of range"""
    out = vp.Out(); rng = ctx.rng(c); m = deck.rnd_model(rng, nmax=5, small=True); m.opts["writeLog"] = 0; m.opts["dtM"] = deck.safe_dt(m); mot = deck.Motion(rng, m, amp=.2)
    nl, npt = len(m.lines), len(m.points); F = lambda: ["v1fair v %d" % k for k in bad(nl)] + ["v1node v %d 0" % k for k in bad(nl)] + ["v1ppos v %d" % k for k in bad(npt)] + ["v1pforce v %d" % k for k in bad(npt)] + ["v1fast v %d" % (nl + 1)]
    def bad(n): return [0, -1, n + 1, n + 2, 2147483647, -2147483648]
    x, v = deck.fmt(mot.x(0.0)), deck.fmt(mot.v(0.0)); n = len(mot.x(0.0)); S = []
    if rng.random() < .5: S += ["v1close v", "v1fair v 1", "v1node v 1 0", "v1ppos v 1", "v1pforce v 1", "v1step v 0 .01 %d %s %s" % (n, x, v)]
    pre = len(S); S += ["v1init v m.txt %d %s %s" % (n, x, v)]; a = len(S); S += F() + ["v1node v %d %d" % (k + 1, q) for k, l in enumerate(m.lines) for q in (l["N"] + 1, -1, 1 << 30)]; b = len(S)
    S += ["v1fair v %d" % (k + 1) for k in range(nl)] + ["v1ppos v %d" % (k + 1) for k in range(npt)] + ["v1pforce v %d" % (k + 1) for k in range(npt)] + ["v1node v %d %d" % (k + 1, q) for k, l in enumerate(m.lines) for q in (0, l["N"])] + ["v1step v 0 .001 %d %s %s" % (n, x, v), "v1close v"]; e = len(S)
    S += ["v1close v"] + F()[:4]
    with vp.Scratch() as d: r = vp.execute(ctx.exe("asan"), m.deck(), S, d, 120)
    if r.timeout: out.stat("slow"); return out
    if r.bad(): out.v("crash", "the run ended badly: %s" % r.bad(), r); return out
    if r.of("v1init")[0]["rc"]: out.stat("not initialised"); return out
    for k, (q, s) in enumerate(zip(r.recs, S)):
        must = a <= k < b or k < pre or k >= e
        if k == a - 1: continue
        ok = q["v"] != -1 if q["c"] == "v1fair" else not q["rc"]
        if must and ok: out.v("legacy-%s" % q["c"], "%s succeeded%s (system with %d lines and %d points)" % (s[:40], ": %r" % (q.get("v"),), nl, npt), r); return out
        if not must and not ok: out.v("legacy-%s" % q["c"], "%s failed" % s[:40], r); return out
        out.ob(1, "%s|%s" % (q["c"], "none" if k < pre or k >= e else "bad" if must else "good"))
    return out

def run(ctx):
    ctx.exe("asan")
    ctx.map(misused, [("m", i) for i in range(300 if ctx.quick else 4000)])
    ctx.map(v1, [("v", i) for i in range(120 if ctx.quick else 1500)])
    return ctx.finish()

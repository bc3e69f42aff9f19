"""C12: several systems in one process, woven call by call or each in a thread of its own, behave as each does alone."""
import os, re, subprocess
import vp, deck, rich, c10, c01, c13

def systems(rng, k, ns, fails):
    L = []
    for i in range(k):
        m = rich.model(rng, small=rng.random() < .7, fails=fails); sid = "s%d" % i; sf = m.opts.get("SeafloorFile")
        if sf: m.opts["SeafloorFile"] = "d%d/%s" % (i, sf)
        s = c01.sess(rng, m, sid, rng.randint(1, ns), "d%d/m.txt" % i)
        if "close " + sid not in s: s.append("close " + sid)
        s.insert(len(s) - 1, "dump " + sid)
        L.append((m, sid, s))
    return L

def all_files(L):
    f = {}
    for i, (m, sid, s) in enumerate(L): f.update({"d%d/%s" % (i, n): t for n, t in m.deck().items()})
    return f

def recs(run, sid): return [{k: v for k, v in r.items() if k != "s"} for r in run.recs if r.get("s") == sid]

def pick(fs, i): return {k: v for k, v in fs.items() if k.startswith("d%d/" % i)}

def judge(out, what, L, i, ref, fref, rr, ff, run, shape):
    a = recs(ref, L[i][1]); e = c13.same(a, rr)
    if e: out.v("differs", "%s: system %d: %s" % (what, i, e), run)
    else:
        x, y = pick(fref, i), pick(ff, i)
        if set(x) != set(y): out.v("files", "%s: system %d: files %s and %s" % (what, i, sorted(x), sorted(y)), run)
        for k in x:
            if k in y and x[k] != y[k]: out.v("files", "%s: %s differs" % (what, k), run)
    out.ob(len(a), shape)

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); thr = c[0] == "t"
    L = systems(rng, rng.choice([2, 3, 4] if thr else [2, 2, 3, 5]), 3 if thr else 5, fails=True); files = all_files(L); exe = ctx.exe("tsan" if thr else "plain")
    solo = []
    for i, (m, sid, s) in enumerate(L):
        with vp.Scratch() as d:
            r = vp.execute(ctx.exe("plain"), files, s, d, 60); solo.append((r, c13.files_of(d)))
        if r.timeout: out.stat("slow"); return out
        if r.bad(): out.v("abnormal-end", r.bad(), r); return out
    shape = "%s|%d|%s" % (c[0], len(L), "+".join(sorted(m.kind for m, _, _ in L)[:2] + sorted(m.opts["tScheme"] for m, _, _ in L)[:1]))
    if not thr:
        with vp.Scratch() as d:
            r = vp.execute(exe, files, c01.weave(rng, [s for _, _, s in L]), d, 120); ff = c13.files_of(d)
        if r.timeout: out.stat("slow"); return out
        if r.bad(): out.v("abnormal-end", r.bad(), r); return out
        for i in range(len(L)): judge(out, "woven", L, i, solo[i][0], solo[i][1], recs(r, L[i][1]), ff, r, shape)
    else:
        with vp.Scratch() as d:
            for i in range(1, len(L)):
                with open(os.path.join(d, "t%d.script" % i), "w") as f: f.write("\n".join(L[i][2]) + "\n")
            # the remaining threads' scripts follow those of the first on the command line
            extra = []
            for i in range(1, len(L)): extra += [os.path.join(d, "t%d.script" % i), os.path.join(d, "t%d.res" % i)]
            r = vp.execute(exe, files, L[0][2], d, 240, tail=extra); ff = c13.files_of(d)
            others = [vp.parse(os.path.join(d, "t%d.res" % i)) for i in range(1, len(L))]
        if r.timeout: out.stat("slow"); return out
        b = r.bad()
        if b:
            m = re.findall(r"WARNING: ThreadSanitizer: ([^\n]*?) \(pid", r.err); fr = re.findall(r"#\d+ (\S[^\n]*?) /\S*?/source/([\w/\.]+):(\d+)", r.err)
            out.v("race" if m else "abnormal-end", "%s in %s" % (m[0], ", ".join("%s (%s)" % (q[0].split("(")[0], q[1]) for q in fr[:2])) if m else b, r); return out
        out.stat("threads", len(L))
        for i in range(len(L)):
            rr = recs(r, L[0][1]) if i == 0 else [{k: v for k, v in q.items() if k != "s"} for q in others[i - 1] if q.get("s") == L[i][1]]
            judge(out, "threads", L, i, solo[i][0], solo[i][1], rr, ff, r, shape)
    if not out["samples"]: out["samples"].append({"decks": [m.text()[:800] for m, _, _ in L[:2]], "calls": [[l[:60] for l in s[:8]] for _, _, s in L]})
    return out

def run(ctx):
    ctx.exe("plain"); ctx.exe("tsan")
    n, k = (800, 500) if ctx.quick else (9000, 5000)
    ctx.map(case, [("t", i) for i in range(k)] + [("w", i) for i in range(n)])
    return ctx.finish()

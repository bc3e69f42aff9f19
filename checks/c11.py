"""C11: damaged or foreign snapshot files are refused and leave the system as it was."""
import os, struct
import vp, deck, trace, phys
import c09, c10
from trace import A

def saved(ctx, m, x, mot, h, k1, d):
    s = ["create a m.txt", deck.init_cmd("a", x, mot.v(0.0))]
    for k in range(k1): s.append(deck.step_cmd("a", k * h, h, x, mot.v(k * h)))
    r = vp.execute(ctx.exe(), m.deck(), s + ["save a S.md", "close a"], d, 60, name="g")
    p = os.path.join(d, "S.md")
    return open(p, "rb").read() if r.of("save") and r.of("save")[0]["rc"] == 0 and os.path.exists(p) else None

HDR = 17
def damage(rng, S):
    """(name, must be refused, bytes or None for a missing file)"""
    n = (len(S) - HDR) // 8; W = lambda i: HDR + 8 * i
    out = [("missing", True, None), ("empty", True, b""), ("header only", True, S[:HDR]),
           ("cut in the header", True, S[:rng.randrange(1, HDR)]), ("cut", True, S[:rng.randrange(HDR, len(S))]), ("cut by one word", True, S[:-8]), ("cut by one byte", True, S[:-1]),
           ("cut, length amended", True, S[:9] + struct.pack("<Q", n - 1) + S[HDR:-8]),
           ("longer", True, S + b"\0" * 8), ("longer, length amended", True, S[:9] + struct.pack("<Q", n + 1) + S[HDR:] + b"\0" * 8), ("longer by bytes", True, S + b"abc"),
           ("no words", True, S[:9] + struct.pack("<Q", 0)),
           ("length wraps", True, S[:9] + struct.pack("<Q", n + (1 << 61)) + S[HDR:]), ("length huge", True, S[:9] + struct.pack("<Q", (1 << 64) - 1) + S[HDR:]), ("length off", True, S[:9] + struct.pack("<Q", n + rng.choice([-1, 1, 7])) + S[HDR:]),
           ("magic", True, b"MoorDin" + S[7:]), ("magic flipped", True, S[:3] + bytes([S[3] ^ (1 << rng.randrange(8))]) + S[4:]), ("older major", True, S[:7] + b"\x01" + S[8:]), ("older minor", True, S[:8] + b"\x00" + S[9:]),
           ("random", True, bytes(rng.randrange(256) for _ in range(rng.choice([5, 17, 40, 2000])))), ("text", True, b"MoorDyn input file\n" * 20)]
    # payload: the words holding the length of a list cannot be any other
    cnt = [i for i in range(n) if 0 < struct.unpack_from("<Q", S, W(i))[0] < 4096]
    for _ in range(3):
        if cnt:
            i = rng.choice(cnt); v = struct.unpack_from("<Q", S, W(i))[0]
            out.append(("small integer word %d: %d" % (i, v), None, S[:W(i)] + struct.pack("<Q", rng.choice([0, v + 1, v - 1, 1 << 20, 1 << 40, 1 << 62, (1 << 64) - 1])) + S[W(i) + 8:]))
    for _ in range(2):
        i = rng.randrange(n); out.append(("word %d" % i, None, S[:W(i)] + struct.pack("<d", rng.choice([float("nan"), float("inf"), -1e300, 1e-310, -0.0])) + S[W(i) + 8:]))
    a, b = sorted(rng.randrange(n) for _ in range(2)); out.append(("words %d..%d scrambled" % (a, b), None, S[:W(a)] + bytes(rng.randrange(256) for _ in range(8 * (b - a))) + S[W(b):]))
    q = bytearray(S[HDR:]); k = rng.randrange(8, len(q) // 2, 8); out.append(("rotated", None, S[:HDR] + bytes(q[k:] + q[:k])))
    return out

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); h = .002; k1 = rng.choice([0, 2, 4])
    def make(r):
        m = deck.rnd_model(r, nmax=5, small=True); m.opts.update(dtM=deck.safe_dt(m, .1, .01), tScheme=r.choice(c09.ALL), writeLog=0, disableOutput=1); return m
    m = make(rng); h = min(h, m.opts["dtM"]); mot = deck.Motion(rng, m, amp=.5); x = mot.x(0.0)
    # foreign snapshots: another system; the same with other segment counts, totals kept; another scheme
    o = make(rng); f2 = m.clone(); f3 = m.clone(); f3.opts["tScheme"] = "rk4" if m.opts["tScheme"] != "rk4" else "euler"
    moved = False
    for l in f2.lines[:-1]:
        if l["N"] != f2.lines[-1]["N"]: l["N"], f2.lines[-1]["N"] = f2.lines[-1]["N"], l["N"]; moved = True; break
    with vp.Scratch() as d:
        S = saved(ctx, m, x, mot, h, k1, d)
        if S is None: out.stat("no snapshot"); return out
        D = damage(rng, S)
        for nm, mm in (("another system", o), ("segments exchanged" if moved else None, f2), ("another scheme", f3)):
            if nm is None: continue
            mo = deck.Motion(rng, mm, amp=.5) if mm is o else mot
            with vp.Scratch() as d2: G = saved(ctx, mm, mo.x(0.0), mo, h if mm is not o else min(h, o.opts["dtM"]), k1, d2)
            if G is not None and len(G) != len(S) or nm == "segments exchanged" and G is not None: D.append((nm, True, G))
        rng.shuffle(D); D = D[:12]
        files = m.deck(); files["S.md"] = S
        for i, (nm, must, data) in enumerate(D):
            if data is not None: files["f%d.md" % i] = data
        kb = rng.choice([0, 1, 3]); pre = ["create %s m.txt", None]
        def to(sid, a, b): return [deck.step_cmd(sid, k * h, h, x + 0 * A(x), mot.v(k * h)) for k in range(a, b)]
        s = []
        for sid in "ab": s += ["create %s m.txt" % sid, deck.init_cmd(sid, x, mot.v(0.0))] + to(sid, 0, kb)
        s += ["dump b"]
        for i, (nm, must, data) in enumerate(D): s += ["load a f%d.md" % i, "dump a", "ser a H"] + (["load a ok.md"] if must is None else ["save a ok.md"]) if must is not None else ["save a ok.md", "load a f%d.md" % i, "dump a", "load a ok.md", "dump a"]
        s += to("a", kb, kb + 3) + ["dump a"] + to("b", kb, kb + 3) + ["dump b", "load a S.md", "save a nodir/x.md", "save a /dev/full", "create u m.txt", "load u S.md", "dump u", "close u"] + ["close a", "close b"]
        run = vp.execute(ctx.exe("asan"), files, s, d, 120)
    if not phys.usable(run, out, m): return out
    recs = list(zip(run.recs, [l for l in run.script]))
    B = run.of("dump", "b"); ref = B[0]; i = -1; da = run.of("dump", "a"); last = None
    for r, l in recs:
        if r["c"] == "load" and " f" in l:
            i = int(l.split(" f")[1][:-3]); nm, must, data = D[i]; last = r; out.ob(1, nm.split(" ")[0] + "|" + m.opts["tScheme"])
            out.stat("refused" if r["rc"] else "accepted")
            if must and r["rc"] >= 0: out.v("accepted", "snapshot file damaged by '%s' was accepted (%d)" % (nm, r["rc"]), run)
        elif r["c"] == "load" and "ok.md" in l:
            if r["rc"]: out.v("recover", "a good snapshot is refused (%d) after loading '%s'" % (r["rc"], nm), run)
            last = None
        elif r["c"] == "load" and "S.md" in l and r["s"] == "a" and r["rc"]: out.v("good-refused", "the intact snapshot is refused with %d" % r["rc"], run)
        elif r["c"] == "load" and r["s"] == "u": out.stat("uninitialised system: %s" % ("accepted" if r["rc"] == 0 else "refused"))
        elif r["c"] == "save" and ("nodir" in l or "/dev/full" in l):
            out.ob(1, "save " + l.split()[2])
            if r["rc"] >= 0: out.v("save-unreported", "%s: a snapshot that could not be written returned %d" % (l, r["rc"]), run)
        elif r["c"] == "dump" and r["s"] == "a" and r is not da[-1]:
            if last is not None and last["rc"] == 0: continue
            e = c10.diff(ref, r); out.ob(1)
            if e: out.v("changed", "after refusing '%s' the system has changed: %s" % (nm, e), run)
    e = c10.diff(B[-1], da[-1])
    if e and trace.speed(B[-1]) < 1e4: out.v("continues", "after the refusals the run goes on another way: %s" % e, run)
    return out

def run(ctx):
    ctx.exe(); ctx.exe("asan")
    ctx.map(case, [("d", k) for k in range(1000 if ctx.quick else 12000)])
    return ctx.finish()

"""C02: mutated decks and auxiliary files under the sanitizers; whatever is accepted is initialised, stepped, queried and closed."""
import glob, os, re, tempfile
import vp, deck, rich

TOK = ["", "0", "-1", "1", "2", "3", "7", "99", "1000", "-5", "0.0", "-0.5", "1e-300", "1e300", "-1e300", "1e400", "nan", "inf", "-inf", "abc", "R", "R1", "R1A", "R1C", "R99A", "P", "P99", "L1", "L99", "B1", "Body", "Body1", "Body9", "Body1Pinned", "Body0", "Point", "Free",
       "Fixed", "Coupled", "CpldPin", "Vessel", "x|y", "1|2", "1|2|3|4", "|", "||", "1|", "-", "--", "---", "----------", "4294967295", "4294967296", "99999999999999999999", "2147483648", "-2147483649", "1,2", ",", "1,,2", "9,1", "0x10", "1.5", "\t", "é", "\x00", "%s%n", "#", "'a'", '"', "ptvK", "rk2", "FairTen1", "FairTen", "FairTen99", "FairTen0", "AnchTen9",
       "L1N99px", "L99N1px", "L1Npx", "L0N0t", "LN1t", "R9px", "R1N77px", "R1NBpx", "R9NBpx", "L9NBt", "P9px", "P0px", "B9px", "B0px", "L-1N1t", "L1NAt", "L1NBt", "P1", "B1rz9", "px", "N1", "1px", "R1N0Q", "TIME", "Time"]
OPTS = ["dtM", "DT", "CFL", "writeLog", "tScheme", "g", "rho", "WtrDpth", "kb", "cb", "dtIC", "TmaxIC", "CdScaleIC", "threshIC", "WaveKin", "dtWave", "Currents", "UnifyCurrentGrid", "WriteUnits", "FrictionCoefficient", "FricDamp", "StatDynFricScale", "dtOut", "SeafloorFile", "ICgenDynamic", "nonsense"]
NUMSEG = {"LINES": 5, "RODS": 9}

def small(t):
    """counts that size arrays stay small: the amount of memory asked for is the user's choice, not an error"""
    return t

def mutate(rng, text, name, other):
    """-> (label, text)"""
    L = text.split("\n"); k = rng.choice(["tok", "tok", "tok", "tok", "tok", "dropf", "dupf", "dropl", "dropl", "dupl", "swapl", "cut", "cutl", "bytes", "opt", "opt", "splice", "ins", "dropsec", "noend", "crlf", "blank", "ws", "long"])
    lines = [i for i, l in enumerate(L) if l.strip()]
    if not lines: return "empty", text
    i = rng.choice(lines); f = L[i].split()
    if k == "tok":
        j = rng.randrange(len(f)); f[j] = rng.choice(TOK); L[i] = " ".join(f)
    elif k == "dropf": f.pop(rng.randrange(len(f))); L[i] = " ".join(f)
    elif k == "dupf": j = rng.randrange(len(f)); f.insert(j, f[j]); L[i] = " ".join(f)
    elif k == "dropl": L.pop(i)
    elif k == "dupl": L.insert(i, L[i])
    elif k == "swapl": j = rng.choice(lines); L[i], L[j] = L[j], L[i]
    elif k == "cut": return k, text[:rng.randrange(len(text))]
    elif k == "cutl": L = L[:i]
    elif k == "bytes":
        b = bytearray(text.encode("utf8", "surrogateescape"))
        for _ in range(rng.choice([1, 3, 20])): b[rng.randrange(len(b))] = rng.choice([rng.randrange(256), 32, 45, 10, 48, 124, 0])
        return k, b.decode("utf8", "surrogateescape")
    elif k == "opt": L.insert(next((q + 1 for q, l in enumerate(L) if "OPTIONS" in l), i), "%s %s" % (rng.choice(TOK + ["1", "2", "3", "5", "7", "4", "6", "bathy.txt", "nofile"]), rng.choice(OPTS)))
    elif k == "splice":
        O = other.split("\n"); a = rng.randrange(len(O)); L[i:i] = O[a:a + rng.randint(1, 6)]
    elif k == "ins": L.insert(i, " ".join(rng.choice(TOK) for _ in range(rng.randint(1, 15))))
    elif k == "dropsec":
        h = [q for q, l in enumerate(L) if "---" in l]
        if len(h) > 1: q = rng.randrange(len(h) - 1); L[h[q]:h[q + 1]] = []
    elif k == "noend":
        while L and "need this" not in L[-1]: L.pop()
        if L: L.pop()
        if rng.random() < .5 and L: L.pop()
    elif k == "crlf": return k, text.replace("\n", rng.choice(["\r\n", "\r", "\n\r", "\n\n"]))
    elif k == "blank": L.insert(i, rng.choice(["", " ", "\t"]))
    elif k == "ws": L[i] = rng.choice([" " * 200 + L[i], L[i].replace(" ", "\t"), L[i].replace(" ", "   "), L[i] + " " * 99])
    elif k == "long": L[i] = L[i] + " " + rng.choice(["x", "1 ", "9", "-"]) * rng.choice([300, 5000])
    return k, "\n".join(L)

def clamp(files):
    """keep the work the deck asks for small: node and component counts, waiting times"""
    t = files["m.txt"]; sec = None; out = []
    for l in t.split("\n"):
        if "---" in l: sec = next((s for s in NUMSEG if re.search(r"\b%s\b" % s, l.upper())), "OPTIONS" if "OPTIONS" in l.upper() else None)
        elif sec in NUMSEG:
            f = l.split(" ")
            f = [q for q in f if q]
            if len(f) > NUMSEG[sec]:
                m = re.match(r"\s*[-+]?\d+", f[NUMSEG[sec]])
                if m and abs(float(m.group())) > 2000: f[NUMSEG[sec]] = "2000"; l = " ".join(f)
        out.append(l)
    files["m.txt"] = "\n".join(out)
    return files

def batch(rng, n):
    base = rich.model(rng, small=True, fails=True); other = rich.model(rng, small=True, fails=True).text(); x0 = base.x0(); out = []
    for _ in range(n):
        files = base.deck(); lab = []
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            nm = "m.txt" if rng.random() < (.55 if len(files) > 1 else 1) else rng.choice(sorted(files))
            k, t = mutate(rng, files[nm], nm, other if nm == "m.txt" else files[rng.choice(sorted(files))]); files[nm] = t; lab.append("%s:%s" % (re.sub(r"\d", "", nm), k))
        if rng.random() < .02 and len(files) > 1: nm = rng.choice([q for q in files if q != "m.txt"]); del files[nm]; lab.append("missing")
        out.append((lab, clamp(files)))
    return x0, out

def script(idx, x0, ic, ns):
    s = []
    for i in idx: s += ["cd d%d" % i, "create s%d m.txt" % i, "drive s%d %d %d %d %s" % (i, ic[i], ns, len(x0), deck.fmt(x0)), "wk s%d" % i, "sfstat s%d" % i, "close s%d" % i, "cd .."]
    return s

def go(ctx, muts, idx, x0, ic, to):
    files = {}
    for i in idx: files.update({"d%d/%s" % (i, n): t for n, t in muts[i][1].items()})
    with vp.Scratch() as d: return vp.execute(ctx.exe("asan"), files, script(idx, x0, ic, 2), d, to)

def case(ctx, c):
    out = vp.Out(); rng = ctx.rng(c); n = 10
    x0, muts = batch(rng, n); ic = [int(rng.random() < .25) for _ in range(n)]
    if os.path.exists(STOP): out.stat("skipped, enough failures already"); return out
    run = go(ctx, muts, range(n), x0, ic, 30)
    if run.bad():
        bad_alloc = False
        for i in range(n):
            r = go(ctx, muts, [i], x0, ic, 15)
            if r.timeout:
                # a deck may legitimately ask for a lot of work (stiff lines, tiny time steps), but not for reading it
                if r.of("create"): out.stat("long run, not judged"); continue
                r = go(ctx, muts, [i], x0, ic, 240)
            b = r.bad()
            if b and re.search(r"AddressSanitizer: (out of memory|requested allocation size|allocator is out of memory)", r.err):
                out.stat("asks for too much memory, not judged"); bad_alloc = True; continue
            if b and (not r.timeout or not r.of("create")): out.v("hang" if r.timeout else "crash", "%s: %s" % (" ".join(muts[i][0]), b), r)
            elif not b: tally(out, muts, [i], r)
        if not out["viol"] and not run.timeout and not bad_alloc: out.v("crash", run.bad(), run)
        if out["viol"]:
            with open(STOP + ".%d" % os.getpid(), "a") as f: f.write("x")
            if sum(os.path.getsize(q) for q in glob.glob(STOP + ".*")) > 40: open(STOP, "w").close()
        return out
    tally(out, muts, range(n), run)
    if not out["samples"]: out["samples"].append({"mutations": muts[0][0], "deck": muts[0][1]["m.txt"][:2000]})
    return out

def tally(out, muts, idx, run):
    for i in idx:
        lab = muts[i][0]
        cr = next(r for r in run.of("create") if r["s"] == "s%d" % i); dr = next(r for r in run.of("drive") if r["s"] == "s%d" % i)
        if dr.get("over"): out.v("overrun", "values written beyond the advertised size", run)
        what = "refused" if not cr["ok"] else "init refused" if dr["irc"] else "stepped" if dr["steps"] == 2 else "step refused"
        out.ob(1, "|".join(sorted(set(lab))[:2] + [what])); out.stat(what)

def run(ctx):
    global STOP
    with tempfile.TemporaryDirectory() as t:
        STOP = os.path.join(t, "stop"); return run_(ctx)

def run_(ctx):
    ctx.exe("asan")
    ctx.map(case, [("f", k) for k in range(700 if ctx.quick else 12000)])
    return ctx.finish()

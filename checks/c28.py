"""C28: the Python wrapper says what the C functions say, raises when they fail, and loses no memory."""
import os, json, subprocess, sys, shutil
import vp, deck, rich
import build as B

def job(ctx, c, d):
    rng = ctx.rng(c); m = rich.model(rng, small=rng.random() < .7)
    h = m.opts["dtM"] * rng.choice([1, 1, 2, .5]); n = rng.choice([3, 5, 8]); mot = deck.Motion(rng, m, amp=rng.choice([.1, .5]))
    if rng.random() < .25: m.opts["dtM"] = h
    for k in ("d1", "d2"):
        for f, t in m.deck().items():
            p = os.path.join(d, k, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "wb").write(t if isinstance(t, bytes) else t.encode())
    X = [list(map(float, mot.x(0.0)))] * 2 + [list(map(float, mot.x(k * h))) for k in range(1, n)]; W = [list(map(float, mot.v(k * h))) for k in range(n + 1)]
    return {"seed": "%s|%s|%s" % (ctx.pid, ctx.seed, c), "deck1": os.path.join(d, "d1", "m.txt"), "cwd": os.path.join(d, "d1"), "deck2": os.path.join(d, "d2", "m.txt"), "dir": d, "out": os.path.join(d, "r.json"), "pkg": os.path.join(B.REPO, "wrappers", "python"), "so": ctx.pyso, "consts": ctx.consts, "types": {"body": [deck.btype(b["att"]) for b in m.bodies], "rod": [deck.rtype_(r["att"]) for r in m.rods], "point": [deck.ptype(p["att"]) for p in m.points]},
            "ext": m.kind.startswith("ext"), "kind": m.kind, "depth": float(m.opts["WtrDpth"]), "ic": rng.random() < .3 and not m.kind.startswith("ext"), "nmis": 60 if rng.random() < .8 else 0, "motion": {"x": X, "v": W, "h": h}}, m

def launch(ctx, c, job):
    out = vp.Out()
    with vp.Scratch() as d:
        j, m = job(ctx, c, d); jp = os.path.join(d, "job.json"); json.dump(j, open(jp, "w"))
        e = dict(os.environ); e.update(vp.SAN_ENV); e.update(LD_PRELOAD=ctx.pyrt, PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        e["ASAN_OPTIONS"] = e.get("ASAN_OPTIONS", "") + ":detect_leaks=0:allocator_may_return_null=1"
        e["TMPDIR"] = d
        for k in ("PYTHONPATH", "PYTHONHOME"): e.pop(k, None)
        for attempt in (0, 1):
            try: r = subprocess.run(["/usr/bin/python3", "-s", os.path.join(B.VERIF, "harness", "pyw.py"), jp], cwd=j.get("cwd", d), env=e, capture_output=True, timeout=240); break
            except subprocess.TimeoutExpired: r = None
        if r is None: out.stat("timeouts"); return out
        err = r.stderr.decode("latin1")
        out.ob(1, None)
        if not os.path.exists(j["out"]):
            import re
            q = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", err); t = [l for l in err.splitlines() if l.strip()]
            fr = re.findall(r"#\d+ \S+ in (\S+) (\S*(?:cmoordyn|source)\S*)", err)
            out.v("crash", "the interpreter ended with %s: %s %s" % (r.returncode, q.group(1) if q else " | ".join(t[-3:]), fr[:3]), files=m.deck(), err=err[-4000:], job=json.dumps(j)[:3000]); return out
        R = json.load(open(j["out"]))
        for k, msg in R["viol"]: out.v(k, "%s [%s]" % (msg, m.kind), files=m.deck(), job=json.dumps(j)[:3000])
        for k, n in R["stats"].items(): out.stat(k, n); out.ob(n)
        for s in R["shapes"]: out.ob(0, s)
    return out

def case(ctx, c): return launch(ctx, c, job)

NAMES = ["NO_OUTPUT", "ERR_LEVEL", "WRN_LEVEL", "MSG_LEVEL", "DBG_LEVEL", "SUCCESS", "INVALID_INPUT_FILE", "INVALID_OUTPUT_FILE", "INVALID_INPUT", "NAN_ERROR", "MEM_ERROR", "INVALID_VALUE", "NON_IMPLEMENTED", "UNHANDLED_ERROR"]
def constants():
    """the values the C header gives to its names"""
    with vp.Scratch() as d:
        open(d + "/c.cpp", "w").write('#include <cstdio>\n#include "MoorDyn2.h"\nint main() {\n' + "".join('#ifdef MOORDYN_%s\nprintf("MOORDYN_%s %%d\\n", (int)(MOORDYN_%s));\n#endif\n' % (n, n, n) for n in NAMES) + "}\n")
        r = subprocess.run(["clang++", "-std=c++17", "-w", "-I" + B.SRC, "-I" + os.path.join(B.BUILD, "cfg"), d + "/c.cpp", "-o", d + "/c"], capture_output=True, text=True)
        if r.returncode: return {}
        return {l.split()[0]: int(l.split()[1]) for l in subprocess.run([d + "/c"], capture_output=True, text=True).stdout.splitlines()}

def run(ctx):
    ctx.pyso, ctx.pyrt = B.build_py(); ctx.consts = constants()
    ctx.map(case, [["py", i] for i in range(96 if ctx.quick else 1500)])
    return ctx.finish()

"""C30: the Fortran module does what the C functions do."""
import os
import vp, c28
import build as B

def job(ctx, c, d):
    j, m = c28.job(ctx, c, d); j["fortran"] = ctx.fort; j["nmis"] = 0
    return j, m
def case(ctx, c): return c28.launch(ctx, c, job)

def link(ctx, c):
    out = vp.Out(); out.ob(1, "link")
    if ctx.why: out.v("interface", "a Fortran program that uses every function of the module cannot be built: " + ctx.why)
    return out

def run(ctx):
    ctx.pyso, ctx.pyrt = B.build_py(); ctx.consts = c28.constants(); ctx.fort, why = B.build_fortran(ctx.pyso)
    ctx.why = why
    ctx.map(link, [["link", 0]])
    if not why: ctx.map(case, [["f90", i] for i in range(96 if ctx.quick else 1500)])
    return ctx.finish()

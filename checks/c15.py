"""C15: currents alone and with waves."""
import c14, felt
COMBO = [(None, 1), (None, 2), (None, 5), (7, 1), (7, 2), (7, 5)] + [(w, c, u) for w in (2, 3) for c in (1, 2, 5) for u in (None, 0, 1)]
def case(ctx, c):
    if c[0] == "f": return felt.water_case(ctx, c, wave=(None, None, 7, 2, 3)[c[1] % 5], cur=(1, 2, 5)[c[1] // 5 % 3])
    k = COMBO[c[1] % len(COMBO)]; return c14.kin_case(ctx, c, wave=k[0], cur=k[1], unify=k[2] if len(k) > 2 else None)
def run(ctx):
    ctx.exe(); n = 20 * len(COMBO) if ctx.quick else 300 * len(COMBO)
    ctx.map(case, [("c", k) for k in range(n)] + [("f", k) for k in range(300 if ctx.quick else 4000)])
    return ctx.finish()

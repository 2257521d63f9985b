"""P19: formats agree with their arguments."""
import ir, fmts


def run(ctx):
    m = ir.load()
    a = fmts.Fmts(m).run()
    ctx.need(a.ncalls, 'formatted output calls', 100)
    for (f, k, loc), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (f, k), ins.loc, msg)
    for loc, msg in a.clang():
        if loc not in [r['loc'] for r in ctx.reports]: ctx.violation('clang: ' + msg[:80], loc, msg)
    ctx.cover(calls_analysed=a.ncalls, constant_formats=a.nconst, arguments_decided=a.nargs, wrappers=len(a.wrappers), violations_found=len(ctx.reports))

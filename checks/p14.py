"""P14: a diagnosed error ends in a failing exit status."""
import ir, diag


def run(ctx):
    m = ir.load()
    a = diag.Diag(m).run()
    ctx.need(len(a.nwrites), 'writes to the diagnostic stream', 5)
    ctx.need(len(a.nexits), 'process exits', 5)
    for (f, k), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (f, k), ins.loc, msg)
    ctx.cover(functions_analysed=a.nfns, diagnostic_writes=len(a.nwrites), exit_sites=len(a.nexits),
              functions_that_return_after_a_diagnostic=sum(1 for v in a.sum.values() if any(v)),
              violations_found=len(ctx.reports))

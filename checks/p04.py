"""P04: lookups that can find nothing."""
import ir, nulls


def run(ctx):
    m = ir.load_small()
    a = nulls.Nulls(m).run()
    ctx.need(len(a.maynull), 'functions that can return NULL', 10)
    for (f, k, loc), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (f, k), ins.loc, msg)
    ctx.cover(functions_analysed=len(m.defs), summaries_computed=a.nfns, lookups=len(a.maynull), accesses_decided=a.nuses, violations_found=len(ctx.reports))
    ctx.cov['lookup_functions'] = ' '.join(sorted(a.maynull))

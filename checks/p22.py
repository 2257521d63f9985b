"""P22: option arguments."""
import argvec


def run(ctx):
    a = argvec.Argvec().run()
    ctx.need(len(a.nloads), 'reads of the argument vector', 10)
    for (f, k, loc), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (f, k), ins.loc, msg)
    ctx.cover(functions_analysed=a.nfns, helpers_inlined=len(a.inlined), vector_reads=len(a.nloads), uses_decided=a.nuses,
              violations_found=len(ctx.reports))

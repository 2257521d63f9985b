"""P15: failures of subprocesses are propagated."""
import procs


def run(ctx):
    a = procs.Procs().run()
    ctx.need(len(a.nforks), 'places that create a process')
    for (f, k), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (f, k), ins.loc, msg)
    ctx.cover(functions_analysed=a.nfns, fork_sites=len(a.nforks), wait_sites=len(a.nwaits), exec_sites=len(a.nexecs), parent_return_paths=a.npaths, statuses_decided=a.nstat,
              violations_found=len(ctx.reports))

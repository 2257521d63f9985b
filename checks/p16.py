"""P16: success means that every output was written completely."""
import streams


def run(ctx):
    a = streams.Streams().run()
    ctx.need(len(a.nopen), 'places that open an output file')
    ctx.need(a.npaths, 'returns with an output stream')
    for (f, k), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (f, k), ins.loc, msg)
    ctx.cover(functions_analysed=a.nfns, open_sites=len(a.nopen), check_sites=len(a.nchk), return_states_decided=a.npaths,
              violations_found=len(ctx.reports))

"""P17: temporary files are removed."""
import tmpfiles


def run(ctx):
    a = tmpfiles.Tmp().run()
    ctx.need(len(a.ncreate), 'places that create a temporary file')
    for (f, k), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (f, k), ins.loc, msg)
    ctx.cover(functions_analysed=a.nfns, creation_sites=len(a.ncreate), exit_handlers=len(a.handlers), process_ends=len(a.nends),
              return_paths_with_a_file=a.npaths, removal_loops_not_understood=a.undecided, violations_found=len(ctx.reports))

"""P07: temporaries saved while an expression is evaluated are restored exactly once."""
import ir, tmpstk


def run(ctx):
    m = ir.load()
    if ctx.tier == 'thorough': tmpstk.BalClient.K, tmpstk.BalClient.KH = 24, 12
    a = tmpstk.Balance(m).run()
    ctx.need(len(a.fns), 'functions that use the temporary stack', 20)
    ctx.need(a.npaths, 'paths', 100)
    for f in sorted(a.rep):
        for ins, k, msg in a.rep[f].values():
            ctx.violation('%s: %s' % (f, k), ins.loc, 'in %s(): %s' % (f, msg))
    users = [n for n, v in a.sum.items() if v is not None]
    ctx.cover(functions_analysed=len(users), path_states_at_return=a.npaths, calls_interpreted=a.ncalls,
              functions_moving_slots=sum(1 for v in a.sum.values() if isinstance(v, str) or v and any(e != ((), ()) for e, _ in v)),
              push_primitives=len(a.prims.push), pop_primitives=len(a.prims.pop), violations_found=len(ctx.reports))
    ctx.explain("""Typestate analysis of the code generator. The primitives are the functions that move the depth of the
      temporary stack; the abstract state is the stack of slots (class, place) relative to function entry.
      Summaries per outcome are computed to a fixpoint over the call graph, with path
      conditions on unchanged syntax-tree fields kept apart. Rules: every function that takes part in recursive code generation has the same
      net effect on every path; nothing is taken off below entry at an entry point; a slot is popped by code that
      handles the class it was pushed with; loops that push and loops that pop move equally many
      slots; the output line reserved when pushing is written when popping, on every path.""")
    ctx.assume('the generator does not change fields of nodes and types while it generates code for them, except the fields it stores to itself',
               'generating a child never revisits the node being generated (the syntax tree is acyclic)')

"""P12: the parser's context is the same after a construct as before it."""
import ir, gstate


def run(ctx):
    m = ir.load()
    if ctx.tier == 'thorough': gstate.GClient.K, gstate.GClient.KH = 20, 10
    a = gstate.Context(m).run()
    ctx.need(len(a.fns), 'functions that can change the parser context', 30)
    ctx.need(a.nstores, 'changes of the context', 20)
    for f in sorted(a.rep):
        for ins, k, msg in a.rep[f].values():
            ctx.violation('%s: %s' % (f, k), ins.loc, 'in %s(): %s' % (f, msg))
    users = [n for n, v in a.sum.items() if v is not None]
    ctx.cover(functions_analysed=len(users), path_states_at_return=a.npaths, context_changes_interpreted=a.nstores,
              context_variables=len(a.vars), violations_found=len(ctx.reports))
    ctx.explain("""Save/restore analysis of the parser. The context variables are the current scope, the innermost jump target,
      the recovery flag of constant evaluation, the initializer context flag, the current function, the list of
      pending scope-exit actions and the in-use flags of the two arenas. Every function is interpreted with the
      entry value of each variable as a symbol; what it leaves in each variable, per outcome, is summarised to a
      fixpoint over the call graph. Rules: on every path to a return each
      variable has its entry value, except in helpers that change it in one uniform way on every path
      (those are substituted at their call sites); a function that opens and closes a block scope gives the pending
      actions back; an arena that is in use is not started again; entry points leave the context unchanged.""")
    ctx.assume('paths that end in a diagnostic do not return (checked by P14)',
               'a scope object is not given another parent after its creation, except the saved scope of a prototype')

"""P02: no token list is followed past its end marker."""
import ir, tokdepth


def run(ctx):
    m = ir.load()
    tokdepth.TokClient.K, tokdepth.TokClient.KH = (8, 2) if ctx.tier == 'quick' else (12, 3)
    a = tokdepth.TokAnalysis(m).run()
    n = sum(a.count.values())
    ctx.need(len(a.fns), 'functions that handle tokens', 100)
    ctx.need(n, 'token accesses', 3000)
    for f in a.rep:
        for ins, t, k, have, what in a.rep[f].values():
            ctx.violation('%s: %s' % (f, what), ins.loc,
                          'in %s(): %s reaches %d token(s) past a position that is only known to have %d'
                          % (f, what, k, have))
    bad = sum(len(v) for v in a.rep.values())
    ctx.cover(functions_analysed=len(a.fns), obligations=n, discharged=n - bad,
              functions_with_lookahead_precondition=sum(1 for r in a.req.values() if any(v > 1 for v in r.values())),
              fixpoint_iterations=a.iterations)
    ctx.explain("""Interprocedural path-sensitive abstract interpretation of the LLVM IR of the tokenizer,
      preprocessor, parser and driver. depth(t) is the number of tokens known to exist from t on; every dereference of a
      token needs depth 1, t->next of a token not known to differ from the end marker has depth 0. Facts
      come from kind comparisons, successful comparison with a non-empty literal, the start-of-line flag, and
      summaries of callees per outcome; look-ahead a function relies on becomes a precondition of its callers.
      One obligation per token access per analysed path state.""")
    ctx.assume('every token list handed between phases ends in an end marker and list links are only changed by the analysed functions',
               'a successful equal() with a non-empty literal, or a hit in a hash table by the spelling, implies the token is not the end marker (whose spelling is empty)',
               'tokens kept in syntax-tree nodes are not the end marker (codegen is not analysed)',
               'add_line_numbers() (relates list and text positions) is not analysed',
               'allocation does not return NULL')

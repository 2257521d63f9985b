"""P03: what the constant evaluator computes."""
import ir, consteval


def run(ctx):
    m0 = ir.load()
    a = consteval.ConstEval(m0)
    keep = sorted(a.find())
    ctx.need(len(keep), 'evaluator functions', 2)
    m = ir.load(keep=keep + ['eval_ctx', 'eval_var', 'eval_var_ofs', 'eval_non_var_ofs', 'eval_constexpr_data', 'eval_void', 'eval_error', 'read_buf', 'read_double_buf', '!cut'])
    a = consteval.ConstEval(m).run()
    ctx.need(len(a.kinds), 'operators of the evaluator', 30)
    ctx.need(a.n['divisions'], 'divisions of the evaluator', 4)
    for (fn, k), (ins, msg) in sorted(a.rep.items()):
        ctx.violation('%s: %s' % (fn, k), ins.loc if ins is not None else fn, msg)
    ctx.cover(functions=len(a.rec), operators=len(a.kinds), paths_analysed=a.n['paths'], divisions_decided=a.n['divisions'],
              obligations=a.n['obligations'], violations_found=len(ctx.reports))

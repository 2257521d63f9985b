"""P28: code emitted for an operator computes that operator."""
import os, time
from multiprocessing import Pool
import ir, emit, emitcfg, emithelp

KEEP = """gen_expr gen_expr2 gen_addr gen_void_expr gen_stmt gen_cond gen_defr gen_funcall push push_from pushf push_x87 pop_gp pop_fp pop_x87
push_copy pop_copy is_memop is_memop_ptr gen_mem_copy2 gen_mem_zero load_fval gen_deref_opt gen_member_opt bool_expr_opt
print_loc clobber_all_regs builtin_alloca gen_vaarg_reg_copy copy_ret_buffer gen_void_assign gen_void_arith_assign !cut""".split()
A = None


def name(cf):
    t = cf['types']
    s = '%s%s' % (cf['kind'], ' ' + cf['akind'] if 'akind' in cf else '')
    s += ' (' + ', '.join('%s%s' % (k + ':' if k else '', v) for k, v in t.items()) + ')'
    for k, (w, o) in cf.get('bits', {}).items(): s += ' bit-field of %d at bit %d' % (w, o)
    return s


def hname(cf):
    if 'fty' in cf: return 'a constant of type ' + cf['fty']
    if 'szarg' in cf: return '%d bytes' % cf['args'][cf['szarg']]
    ks = dict(cf['kinds'], **{'': cf['kind']})
    return ' of '.join('%s (%s)' % (k, cf['types'].get(p)) for p, k in sorted(ks.items(), key=lambda x: len(x[0])))


def job(cf):
    t = time.time()
    A.n = dict(configs=0, paths=0, decided=0, undecided=0, other=0, lines=0)
    A.und, A.undex = {}, {}
    try: bad = A.judge(cf)
    except ir.Broken as e: return cf, None, str(e), 0
    except Exception as e: return cf, None, 'internal: %s %s' % (type(e).__name__, e), 0
    out = []
    for k, x in sorted(bad.items()):
        v = x[2] if len(x) > 2 else None
        tr = []
        if v is not None:
            tr.append('operands of the path: ' + ', '.join('%s=%s' % (short(q), w) for q, w in list(v.v.items())[:6]))
        for th in x[1][:3]: tr.append('rax = %s' % short(th.regs.get('rax'))[:300])
        out.append((k, tr))
    return cf, A.n, out, time.time() - t


def short(t):
    if t == ('a', 0): return 'node'
    if not isinstance(t, tuple) or not t: return str(t)
    if t[0] == 'av': return short(t[1][1]) + '->' + t[1][3]
    if t[0] == 'c': return str(t[1])
    if t[0] == 'op': return '%s%s(%s)' % (t[1], t[2], ', '.join(short(x) for x in t[3:]))
    return '%s(%s)' % (t[0], ', '.join(short(x) for x in t[1:]))


def run(ctx):
    global A
    m = ir.load(keep=KEEP)
    A = emit.Emit(m)
    A.help = emithelp.Help(A)
    for f in ('gen_expr2', 'gen_addr', 'gen_cond'): ctx.need(int(f in m.defs), f)
    L = [c for c in emitcfg.L + emithelp.L if c.get('fn', 'gen_expr2') in m.defs]
    n = {}
    broken = {}
    per = {}
    with Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(job, L, chunksize=8)
    for cf, k, out, t in res:
        fn = cf.get('fn', 'gen_expr2')
        if k is None: broken[out] = broken.get(out, 0) + 1; continue
        for a, b in k.items(): n[a] = n.get(a, 0) + b
        c = per.setdefault(fn if cf.get('help') else cf['kind'], [0, 0])
        c[0] += k['decided']; c[1] += k['undecided']
        for what, tr in out:
            if cf.get('help'):
                ctx.violation('%s: %s' % (fn, what), fn + ' (codegen.c)', 'what %s does for %s: %s' % (fn, hname(cf), what), tr)
                continue
            ctx.violation('%s: %s%s: %s' % (fn, cf['kind'], ' ' + cf['akind'] if 'akind' in cf else '', what), fn + ' (codegen.c)',
                          'the code %s emits for %s%s: %s' % (fn, name(cf), '' if cf['opt'] else ' at -O0', what), tr)
    ctx.need(n.get('decided', 0), 'paths through the code generator that could be judged', 4000)
    ctx.cover(nodes=n['configs'], paths_analysed=n['paths'], paths_decided=n['decided'], paths_undecided=n['undecided'], paths_outside=n['other'], lines_interpreted=n['lines'],
              obligations=n['decided'], operators={k: {'decided': a, 'undecided': b} for k, (a, b) in sorted(per.items())}, nodes_not_decided=dict(sorted(broken.items())), violations_found=len(ctx.reports))

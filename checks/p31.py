"""P31: calls, parameters, results and variable arguments follow the System V ABI."""
import os, random, time
from multiprocessing import Pool
import ir, abi
from emit import T

KEEP = """gen_expr gen_expr2 gen_addr gen_void_expr gen_stmt gen_cond gen_defr push push_from pushf push_x87 pop_gp pop_fp pop_x87
push_copy pop_copy is_memop is_memop_ptr gen_mem_copy2 gen_mem_zero load_f32_f64 gen_deref_opt gen_member_opt bool_expr_opt
print_loc clobber_all_regs clobber_gp builtin_alloca gen_void_assign gen_void_arith_assign resrvln insrtln prepare_funcall emit_text !cut""".split()
A = None
S, AR = abi.St, abi.Ar
ODDN = set()


def types():
    global SC, AG, BIG, ODD, i8, u8, i16, u16, i32, u32, i64, u64, ptr, f32, f64, f80
    i8, u8, i16, u16, i32, u32, i64, u64, ptr, f32, f64, f80 = [T[x] for x in 'i8 u8 i16 u16 i32 u32 i64 u64 ptr f32 f64 f80'.split()]
    SC = [T['bool'], i8, u8, i16, u16, i32, u32, i64, u64, ptr, f32, f64, f80]
    AG = [S('{i64,f64}', i64, f64), S('{f64,i64}', f64, i64), S('{f32,f32,f32}', f32, f32, f32), S('{f64,f64}', f64, f64), S('{i32,f32,f64}', i32, f32, f64), S('{f32,i32,f64}', f32, i32, f64),
          S('{i64,i64}', i64, i64), S('{u8}', u8), S('{u8,u8,u8}', u8, u8, u8), S('{i32,u8}', i32, u8), S('{i64,u8,u8,u8}', i64, u8, u8, u8), S('{f64,f32,i32}', f64, f32, i32), S('{f64,u8}', f64, u8),
          S('{u8,f64}', u8, f64), S('{f32}', f32), S('{f32,f32}', f32, f32), S('union{f32,i32}', f32, i32, un=True), S('union{f64,f32}', f64, f32, un=True), S('{f64,union{f32,i16}}', f64, S('', f32, i16, un=True)),
          S('{f32[3]}', AR(f32, 3)), S('{u8[7]}', AR(u8, 7)), S('{u8[13]}', AR(u8, 13)), S('{i16[6],i16}', AR(i16, 6), i16), S('{{f32,f32},{f32,u8}}', S('', f32, f32), S('', f32, u8)),
          S('{f32,{f64}}', f32, S('', f64)), S('union{{f64,f64},{f32,i64}}', S('', f64, f64), S('', f32, i64), un=True), S('{i64,i32}', i64, i32), S('{f64,f32}', f64, f32), S('{ptr,i16}', ptr, i16)]
    BIG = [S('{i64,i64,i64}', i64, i64, i64), S('{u8[17]}', AR(u8, 17)), S('{f32[5]}', AR(f32, 5)), S('{f64,f64,f64}', f64, f64, f64), S('{f80,i32}', f80, i32), S('{i64} aligned 32', i64, al=32), S('{f64} aligned 64', f64, al=64),
           S('{u8[33]}', AR(u8, 33))]
    ODD = [S('a structure whose second half is padding', i32, al=16), S('a structure of one long double', f80), S('a packed structure with an unaligned member', u8, f64, pack=True)]
    ODDN.update(t.name for t in ODD)


nm = lambda t: 'void' if t is None else t.name


def configs(thorough):
    L = []
    def ca(args, kinds='FUNCALL', ret=None, var=0, ptr=0, opt=1):
        L.append(('call', dict(args=args, kinds=kinds if isinstance(kinds, list) else [kinds] * len(args), ret=ret, var=var, ptr=ptr, opt=opt)))
    def fn(args, ret=None, var=0, vla=0, align=0, defr=0): L.append(('def', dict(args=args, ret=ret, var=var, vla=vla, align=align, defr=defr, opt=1)))
    both = lambda a, **k: (ca(a, **k), fn(a, **{x: y for x, y in k.items() if x in ('ret', 'var')}))
    R = random.Random(31)
    ALL = SC + AG + BIG
    for r in [None] + ALL:
        fn([i32], ret=r, defr=1)
        both([], ret=r); both([i32, f64], ret=r); both([i64] * 6 + [f64] * 8, ret=r)
        both([], ret=r, var=1) if r in BIG[:1] else ca([], ret=r, ptr=1)
    for t in ALL:
        for o in (0, 1):
            for k in ('FUNCALL', 'VAR', None): ca([t], k, opt=o)
        ca([t, i32], [None, 'FUNCALL']); ca([i32, t], ['FUNCALL', None]); ca([t, f64], [None, 'FUNCALL']); ca([i32] * 7 + [t], ['FUNCALL'] * 7 + [None]); ca([t], None, ptr=1)
        fn([t]); fn([t, i32, f64]); fn([i32, t]); fn([t, t, t]); fn([t] * 7); ca([t, t, t]); ca([t] * 7)
        ca([i32, t], ['FUNCALL', None], var=1, ret=BIG[0])
    ca([i64, i64], [None, None])
    for t in (i32, f64, f32, i64, u8):
        for k in (['NUM'], ['NUM', 'VAR'], ['VAR', 'NUM', 'FUNCALL'], ['FUNCALL', None, 'NUM']): ca([t] * len(k), k); [ca([t] * len(k), k, var=1, ptr=p) for p in (1, 2)]
    for t in (i32, f64, f32, i64, u8):
        for k in range(4, 12): both([t] * k)
    for t in (f64, f32): ca([t, t], [None, None]); [ca([t, t], [None, None], var=1, ptr=p) for p in (1, 2)]
    for t in AG:
        for g in (4, 5, 6):
            for f in (6, 7, 8):
                both([i64] * g + [f64] * f + [t, i32, f32])
        for g, f in ((7, 0), (0, 9), (8, 9)): both([i64] * g + [f64] * f + [t, i32, f32])
        both([i64] * 6 + [t, f64]); both([f64] * 8 + [t, i64]); both([t, i64, t, f64, t, u8, t, t])
        both([i64] * 5 + [t, i64, t], ret=BIG[0])
    for t in BIG: both([i32, f80, t, u8, t] + [i64] * 4, ret=t); both([f80, t, i32, f80])
    for g in range(0, 8):
        for f in (0, 1, 2, 7, 8, 9):
            fn([i64] * g + [f64] * f, var=1, ret=R.choice([None, i32, f64, BIG[0]]))
            if g < 3: ca([i64] * g + [f64] * f, var=1)
    for a in (0, 32, 64):
        for v in (0, 1):
            for var in (0, 1):
                for r in (None, AG[0], BIG[0]): fn([i32, f64, BIG[5], AG[4], f80], ret=r, vla=v, align=a, var=var)
                fn([], vla=v, align=a, var=var); fn([u8], vla=v, align=a, var=var, ret=f80)
    for _ in range(1500 if thorough else 150):
        a = [R.choice(R.choice((SC, AG, SC, AG, BIG))) for _ in range(R.randrange(2, 11))]
        ca(a, [R.choice(('FUNCALL', 'FUNCALL', 'VAR', 'NUM' if not isinstance(t, abi.Ag) and t is not f80 else 'VAR')) for t in a], ret=R.choice([None] + ALL), var=R.randrange(2), ptr=R.randrange(3), opt=int(R.random() < .8))
        fn(a, ret=R.choice([None] + ALL), var=int(R.random() < .3), vla=int(R.random() < .2), align=R.choice((0, 0, 0, 32)))
    for t in [i32, u32, i64, u64, ptr, f64, f80] + AG + BIG: L.append(('va', dict(ty=t, opt=1)))
    for t in ODD:
        ca([t]); ca([], ret=t); L.append(('va', dict(ty=t, opt=1)))
        if t is not ODD[2]: fn([t, f64]); fn([], ret=t)
    return L


def show(side, cf):
    if side == 'va': return 'va_arg of ' + nm(cf['ty'])
    a = [nm(t) + ('' if side == 'def' or cf['kinds'][i] in ('FUNCALL', None) else ':' + {'NUM': 'constant', 'VAR': 'variable'}[cf['kinds'][i]]) for i, t in enumerate(cf['args'])]
    if cf.get('var'): a.append('...')
    s = '%s %s(%s)' % (nm(cf['ret']), 'f', ', '.join(a))
    for k, w in (('ptr', 'through a pointer'), ('vla', 'with a variable-length array'), ('align', 'with a variable aligned to %s'), ('defr', 'with deferred statements')):
        if cf.get(k): s += ' ' + (w % cf[k] if '%' in w else w)
    return s + ('' if cf['opt'] else ' at -O0')


def job(x):
    side, cf = x
    t = time.time()
    A.n = dict(configs=0, paths=0, decided=0, undecided=0, other=0, lines=0)
    A.und, A.undex = {}, {}
    bad, und, ok = {}, {}, 0
    def add(r):
        nonlocal ok
        if r[0]: bad[r[0]] = bad.get(r[0], 0) + 1
        elif r[1]: und[r[1]] = und.get(r[1], 0) + 1
        else: ok += 1
    try:
        if side == 'call':
            rets, vs = A.caller(cf)
            for st, _ in rets: add(A.judge_call(cf, vs, st))
        elif side == 'def':
            rets, vs = A.callee(cf)
            for st, _ in rets: add(A.judge_callee(cf, vs, st))
            for st, l in A.snap:
                for q, _ in l: add(A.judge_vastart(cf, vs, q))
        else:
            for st, _ in A.vaarg(cf): add(A.judge_vaarg(cf, st))
    except ir.Broken as e: return x, None, str(e), 0, 0
    except Exception as e: return x, None, 'internal: %s %s' % (type(e).__name__, e), 0, 0
    return x, ok, bad, und, time.time() - t


def run(ctx):
    global A
    m = abi.load(KEEP)
    A = abi.Abi(m)
    A.follow = set(m.defs)
    for f in ('gen_expr2', 'prepare_funcall', 'emit_text', 'gen_stmt'): ctx.need(int(f in m.defs), f)
    types()
    L = configs(ctx.tier == 'thorough')
    if os.environ.get('P31SUB'): L = L[::int(os.environ['P31SUB'])]
    with Pool(min(8, os.cpu_count() or 1)) as p: res = p.map(job, L, chunksize=1)
    where = {'call': 'gen_funcall', 'def': 'emit_text', 'va': 'va_arg'}
    per = {k: dict(lists=0, paths_decided=0, paths_undecided=0) for k in where}
    broken, why = {}, {}
    for x, ok, bad, und, t in res:
        side, cf = x
        n = where[side]
        if ok is None: broken['%s: %s' % (show(side, cf), bad)] = 1; continue
        d = per[side]
        d['lists'] += bool(ok or bad); d['paths_decided'] += ok + sum(bad.values()); d['paths_undecided'] += sum(und.values())
        for k, v in und.items(): why['%s: %s' % (n, k)] = why.get('%s: %s' % (n, k), 0) + v
        if not (ok or bad): broken['%s: no path decided' % show(side, cf)] = 1
        odd = [t for t in cf.get('args', []) + [cf.get('ret'), cf.get('ty')] if t is not None and t.name in ODDN]
        for what in sorted(bad):
            role = '' if not odd else '%s of %s: ' % ('result' if cf.get('ret') in odd else 'argument', nm(odd[0]))
            ctx.violation('%s: %s%s' % (n, role, what), n + ' (codegen.c)', '%s: %s' % (show(side, cf), what))
    if os.environ.get('P31DEBUG'):
        for a, b in sorted(why.items()): print(a, b)
        for b in sorted(broken)[:40]: print(b)
        for r in sorted(res, key=lambda r: -r[4])[:10]: print('%.1f' % r[4], show(*r[0]))
    for k, least in (('call', 700), ('def', 500), ('va', 30)): ctx.need(per[k]['lists'], 'decided kinds of ' + k, least // int(os.environ.get('P31SUB', 1)) - (20 if os.environ.get('P31SUB') else 0))
    ctx.cover(**{k + '_' + a: b for k, v in per.items() for a, b in v.items()}, obligations=sum(v['paths_decided'] for v in per.values()), lists_analysed=len(L), lists_not_decided=len(broken),
              undecided_because=dict(sorted(why.items())), not_decided=sorted(broken)[:60], violations_found=len(ctx.reports))

"""P30: statements run in the order C prescribes."""
import itertools, os, random
from multiprocessing import Pool
import ir, abi, stmts
from emit import T

A = None
I32, I64 = (-2 ** 31, 2 ** 31 - 1), (-2 ** 63, 2 ** 63 - 1)
U32, U64 = (0, 2 ** 32 - 1), (0, 2 ** 64 - 1)


def configs(thorough):
    B = (0, 1)
    L = [('stmt', dict(kind='IF', els=e)) for e in B]
    L += [('stmt', dict(kind='FOR', init=i, cond=c, inc=n, defr=d)) for i in B for c in B for n in B for d in B]
    L += [('stmt', dict(kind='DO'))]
    L += [('stmt', dict(kind='BLOCK', n=n, defr=d)) for n in range(5) for d in B]
    L += [('stmt', dict(kind=k, defr=d)) for k in ('GOTO', 'RETURN') for d in B]
    L += [('stmt', dict(kind='RETURN', defr=d, ty=t)) for d in B for t in ('i32', 'u8', 'i64', 'ptr', 'f32', 'f64', 'f80', (1,), (2,), (3,), (5,))]
    L += [('stmt', dict(kind=k)) for k in ('GOTO_EXPR', 'LABEL', 'EXPR_STMT', 'NULL_STMT')]
    L += [('stmt', dict(kind='STMT_EXPR', n=n, val=v, defr=d, ty=t)) for n in range(4) for v in B for d in B if n or not v for t in ('i32', 'u8', 'i64', 'ptr', 'f32', 'f64', 'f80')]
    L = [(a, dict(c, opt=o)) for a, c in L for o in B]
    for n in range(5):
        for l in itertools.product('VCD', repeat=n):
            for r in ('', 'V', 'C', 'D', 'CV', 'VD', 'DCV'):
                if n == 4 and r not in ('', 'CV'): continue
                for v in B: L.append(('defr', dict(list=list(l), rest=list(r), live=v, opt=1)))
    R = random.Random(30)
    for t, (lo, hi) in (('i32', I32), ('u32', U32), ('i64', I64), ('u64', U64)):
        E = sorted({x for b in (0, 1, 5, 127, 128, 255, 256, 32767, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, lo, hi) for s in (1, -1) for d in (-1, 0, 1) for x in (s * b + d,) if lo <= x <= hi})
        sw = lambda cs, d: L.append(('switch', dict(ty=t, cases=cs, default=d, opt=1)))
        for d in (None, 'L1'): sw([], d)
        for x in E: sw([('L0', x, x)], None if x % 2 else 'L1')
        for i, x in enumerate(E):
            for j, y in enumerate(E):
                if x < y and (thorough or t[0] == 'i' and (i + j) % 3 == 0 or t[0] == 'u' and (i + j) % 2 == 0): sw([('L0', x, y)], 'L1' if j % 2 else None)
        for _ in range(1500 if thorough else 150):
            k = R.randrange(2, 7)
            pts = sorted([R.randrange(lo, hi) for _ in range(2 * k)] if R.random() < .3 else R.sample(E, min(2 * k, len(E))) if R.random() < .5 else [R.randrange(-40, 40) + (40 if lo == 0 else 0) for _ in range(2 * k)])
            cs, last = [], lo - 1
            for a, b in zip(pts[::2], pts[1::2]):
                a = max(a, last + 1)
                if R.random() < .4: b = a
                if b < a or b > hi: continue
                last = b
                cs.append(('L%d' % R.randrange(4) if R.random() < .9 else None, a, b))
            R.shuffle(cs)
            # an entry without a label was merged into another one
            cs = [c if c[0] else (None, c[1], c[1]) for c in cs]
            sw(cs, R.choice((None, 'L4', 'L0', 'L1')))
    return L


def show(k, c):
    if k == 'switch': return 'switch on %s with %s%s' % (c['ty'], ', '.join('%s to %s' % (lo if lo == hi else '%d ... %d' % (lo, hi), l) for l, lo, hi in c['cases'] if l), ', default to ' + c['default'] if c['default'] else '')
    if k == 'defr': return 'deferred: %s, below them: %s' % (' '.join(c['list']) or 'nothing', ' '.join(c['rest']) or 'nothing')
    return '%s (%s)' % (c['kind'], ', '.join('%s=%s' % (a, b) for a, b in sorted(c.items()) if a not in ('kind', 'opt')))


def job(part):
    out = []
    for x in part:
        k, c = x
        try:
            d = dict(c)
            if k == 'switch': d['ty'] = T[c['ty']]
            r = getattr(A, k)(d)
            if not r: out.append((x, None, 'no path'))
            else: out.append((x, sorted({y for y in r if y and y[0] != '?'}), next((y for y in r if y and y[0] == '?'), None)))
        except ir.Broken as e: out.append((x, None, str(e)))
        except Exception as e: out.append((x, None, 'internal: %s %s' % (type(e).__name__, e)))
    return out


def run(ctx):
    global A
    m = abi.load(list(ir.load().fns))
    A = stmts.Stm(m)
    A.follow = set(m.defs)
    for f in ('gen_stmt', 'gen_expr2', 'gen_defr'): ctx.need(int(f in m.defs), f)
    L = configs(ctx.tier == 'thorough')
    k = 25
    with Pool(min(8, os.cpu_count() or 1)) as p: res = [x for part in p.map(job, [L[i:i + k] for i in range(0, len(L), k)], chunksize=2) for x in part]
    per, why = {}, {}
    tot = {}
    for (k, c), bad, err in res:
        n = c['kind'] if k == 'stmt' else dict(defr='deferred', switch='SWITCH')[k]
        tot[n] = tot.get(n, 0) + 1
        if bad is None or err: why['%s: %s' % (n, err)] = why.get('%s: %s' % (n, err), 0) + 1
        if bad is None: continue
        per[n] = per.get(n, 0) + 1
        fn = 'gen_defr' if k == 'defr' else 'gen_expr2' if n == 'STMT_EXPR' else 'gen_stmt'
        for w in bad: ctx.violation('%s %s: %s' % (fn, n, ' '.join(y for y in w.split() if not y.strip(',-').isdigit())), fn + ' (codegen.c)', 'in %s: %s' % (show(k, c), w))
    for n in tot: ctx.need(per.get(n, 0), 'decided ' + n, tot[n])
    ctx.cover(statements=sum(per.values()), not_decided=sum(why.values()), not_decided_because=why, per_kind=per, obligations=sum(per.values()), violations_found=len(ctx.reports))

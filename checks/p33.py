"""P33: labels, case values, jumps and scopes of statements."""
import os, itertools, random
from multiprocessing import Pool
import ir, abi, jumps
from emit import T

A = None


def configs(thorough):
    L = []
    R = random.Random(33)
    st = lambda **k: L.append(('stmt', k))
    chains = [[], [('loop', ['a'], 0)], [('switch', ['a'], 1)], [('loop', [], 1), ('switch', ['a', 'b'], 0)], [('switch', [], 2), ('loop', ['a'], 1)], [('loop', ['a'], 2), ('loop', ['b', 'c'], 1), ('switch', ['d'], 0)],
              [('switch', ['a'], 1), ('switch', ['b'], 0)], [('switch', ['b'], 2), ('switch', ['a', 'c'], 1), ('loop', ['d'], 1)], [('loop', [], 1), ('loop', [], 1), ('loop', ['z'], 0)]]
    for ctx in chains:
        for cur in (0, 1, 3):
            if any(c[2] > cur for c in ctx): continue
            b = dict(ctx=ctx, cur=cur)
            for t in ('bool', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64'):
                st(what='switch', toks=['switch', '(', 'EXPR', ')', 'BODY'], ty=t, **b)
                for w in (1, 3, 8, 31, 32, 33, 40):
                    if w <= T[t].size * 8 and t != 'bool' and cur: st(what='switch', toks=['switch', '(', 'EXPR', ')', 'BODY'], ty=t, bf=w, **b)
            for w, l in (('while', ['while', '(', 'EXPR', ')', 'BODY']), ('do', ['do', 'BODY', 'while', '(', 'EXPR', ')', ';']), ('switch', ['switch', '(', 'EXPR', ')', 'BODY'])): st(what=w, toks=l, nolabels=1, **b)
            st(what='for', toks=['for', '(', ';', 'EXPR', ';', 'EXPR', ')', 'BODY'], init=[';'], cond=1, inc=1, nolabels=1, **b)
            st(what='if', toks=['if', '(', 'EXPR', ')', 'BODY'], **b)
            st(what='if', toks=['if', '(', 'EXPR', ')', 'BODY', 'else', 'BODY'], **b)
            st(what='while', toks=['while', '(', 'EXPR', ')', 'BODY'], **b)
            st(what='do', toks=['do', 'BODY', 'while', '(', 'EXPR', ')', ';'], **b)
            st(what='switch', toks=['switch', '(', 'EXPR', ')', 'BODY'], **b)
            for i in ([';'], ['EXPRSTMT'], ['TYPE', 'DECL']):
                for c in (0, 1):
                    for n in (0, 1):
                        st(what='for', toks=['for', '('] + i + (['EXPR', ';'] if c else [';']) + (['EXPR'] if n else []) + [')', 'BODY'], init=i, cond=c, inc=n, **b)
            st(what='return', toks=['return', ';'], **b)
            st(what='return', toks=['return', 'EXPR', ';'], **b)
            st(what='goto', toks=['goto', 'id:a', ';'], **b)
            st(what='goto*', toks=['goto', '*', 'EXPR', ';'], **b)
            st(what='defer', toks=['defer', 'BODY'], **b)
            st(what='defer', toks=['_Defer', 'BODY'], **b)
            st(what='block', toks=['{', 'BODY'], **b)
            st(what='expr', toks=['BODY'], **b)
            for k in ('break', 'continue'):
                t = next((i for i, c in enumerate(ctx) if k == 'break' or c[0] == 'loop'), None)
                st(what=k, toks=[k, ';'], target=t, **b)
                for n in 'abcdz':
                    t = next((i for i, c in enumerate(ctx) if n in c[1]), None)
                    if t is not None and k == 'continue' and ctx[t][0] == 'switch': t = None
                    st(what=k, toks=[k, 'id:' + n, ';'], target=t, **b)
    for fn in ('compound_stmt', 'secondary_block'):
        for n in range(5 if fn == 'compound_stmt' else 0):
            for b in itertools.product(('BODY', 'DECL', 'DEFER', 'LABEL', 'RET', 'GO'), repeat=n):
                if n > 2 and not thorough and R.random() > (.3 if n == 3 else .05): continue
                if any(x == y == 'LABEL' for x, y in zip(b, b[1:])): continue
                for cur in (0, 1): L.append(('block', dict(fn=fn, toks=[y for x in b for y in (('TYPE', 'DECL') if x == 'DECL' else (x,))] + ['}'], cur=cur)))
                for t in ('i32', 'agg', 'un', 'f80'):
                    if n and fn == 'compound_stmt' and (thorough or n < 4): L.append(('block', dict(fn=fn, kind='STMT_EXPR', ty=t, toks=[y for x in b for y in (('TYPE', 'DECL') if x == 'DECL' else (x,))] + ['LAST', '}'], cur=n % 2)))
        if fn == 'secondary_block':
            for b in ('BODY', 'RET', 'GO', 'DEFER', 'LAST'):
                for l in (0, 1):
                    for cur in (0, 1): L.append(('block', dict(fn=fn, toks=['LABEL'] * l + [b], cur=cur)))
    # goto
    D = [(), (1,), (1, 2), (1, 3), (1, 2, 4), (5,)]
    for x in D:
        for y in D:
            L.append(('gotos', dict(labels=[(['a'], x)], gotos=[('a', y)])))
            L.append(('gotos', dict(labels=[(['a'], x)], gotos=[('b', y)])))
            for z in D:
                L.append(('gotos', dict(labels=[(['b', 'a'], x), (['c'], y)], gotos=[('a', z), ('c', z)])))
                L.append(('gotos', dict(labels=[(['b'], y), (['a', 'c'], x)], gotos=[('c', z)])))
            L.append(('gotos', dict(labels=[(['a', 'b'], x), (['c'], y)], gotos=[('b', (), 'value'), ('c', y)])))
            L.append(('gotos', dict(labels=[(['a'], x)], gotos=[('b', (), 'value')])))
    for cur in (0, 1, 2):
        for n in ('a', 'ab', 'aba'):
            L.append(('names', dict(how='asm', names=list(n), cur=cur)))
        L.append(('names', dict(how='value', names=['a'], cur=cur)))
    L += [(k, dict(c, then=1)) for k, c in L if k == 'gotos']
    L.append(('gotos', dict(labels=[(['a'], ())], gotos=[])))
    L.append(('gotos', dict(labels=[], gotos=[])))
    # labels and cases
    lab = lambda **k: L.append(('labels', k))
    one = [('switch', [], 1)]
    for ty, lo, hi in (('i32', -2 ** 31, 2 ** 31 - 1), ('u32', 0, 2 ** 32 - 1), ('i64', -2 ** 63, 2 ** 63 - 1), ('u64', 0, 2 ** 64 - 1)):
        for ctx in chains + [[('loop', [], 1), ('switch', [], 1)], [('loop', [], 3), ('switch', [], 1)], [('loop', [], 3), ('switch', [], 3)]]:
            for cur in (0, 1, 3):
                if any(c[2] > cur for c in ctx): continue
                for new in ([], [('name', 'x')], [('name', 'x'), ('name', 'y')], [('case', 3, 3)], [('default',)], [('name', 'x'), ('case', 1, 1), ('default',), ('name', 'y'), ('case', 7, 9)], [('case', 1, 4), ('case', 4, 4)], [('default',), ('default',)]):
                    lab(ty=ty, ctx=ctx, cur=cur, old=[], new=new)
        E = sorted({x for b in (lo, lo + 5, 0, 1, 7, 2 ** 31, 2 ** 32, hi - 5, hi) for d in (-1, 0, 1) for x in (b + d, -b + d) if lo <= x <= hi})
        raw = sorted({x for b in (0, 1, 2 ** 31, 2 ** 32, 2 ** 63) for d in (-2, -1, 0, 1) for x in (b + d, -b + d) if -2 ** 63 <= x < 2 ** 64})
        b = dict(ty=ty, ctx=one, cur=1)
        for x in raw:
            lab(old=[], new=[('case', x, x)], **b)
            for y in raw:
                if thorough or R.random() < .3: lab(old=[], new=[('case', x, y)], opt=R.randrange(2), **b)
        for x in E:
            for y in E:
                if x != y and (thorough or abs(x - y) < 9 or {x, y} == {lo, hi}):
                    lab(old=[], new=[('case', x, x), ('case', y, y)], **b)
                    if x in (lo, hi): lab(old=[], new=[('case', x, x), ('case', min(y, hi - 2), min(y, hi - 2) + 2)], **b)
        # every way two ranges can lie to each other
        for base in (0, lo, hi - 7) + ((2 ** 31 - 4,) if hi > 2 ** 31 else ()) + ((-4,) if lo < 0 else (2 ** 63 - 4,) if hi > 2 ** 63 else ()):
            for o in ((0, 0), (2, 3), (3, 3), (4, 7), (0, 7)):
                for n in itertools.combinations_with_replacement(range(8), 2):
                    for op in (0, 1): lab(old=[(base + o[0], base + o[1])], new=[('case', base + n[0], base + n[1])], opt=op, olddef=R.randrange(2), **b)
        for _ in range(3000 if thorough else 250):
            k = R.randrange(2, 7)
            w = R.choice((6, 12, 30))
            base = R.choice((lo, hi - w, 0, min(hi, 2 ** 31) - w // 2, max(lo, -w // 2)))
            base = max(lo, min(hi - w, base))
            rs = []
            for _ in range(k):
                a = R.randrange(base, base + w + 1)
                c = a if R.random() < .5 else R.randrange(a, min(base + w, a + 4) + 1)
                if R.random() < .1 or not any(max(a, p) <= min(c, q) for p, q in rs): rs.append((a, c))
            cut = R.randrange(len(rs) + 1)
            old = []
            for r in rs[:cut]:
                if not any(max(r[0], p) <= min(r[1], q) for p, q in old): old.append(r)
            new = [('case',) + r for r in rs[cut:]] + ([('default',)] if R.random() < .2 else []) + ([('name', 'q')] if R.random() < .2 else [])
            R.shuffle(new)
            lab(old=old, new=new, opt=R.randrange(2), olddef=int(R.random() < .2), **b)
    return L


def show(k, c):
    w = dict(c)
    s = ' '.join(x if isinstance(x, str) else x[0] for x in w.get('toks', ()))
    if k in ('stmt', 'block'): return '"%s"%s with %d deferred around%s' % (s, ' in ' + ', in '.join('%s %s after %d deferred' % (a, '/'.join(b), d) for a, b, d in w['ctx']) if w.get('ctx') else '', w.get('cur', 1), '')
    if k == 'names': return '%s %s' % ('asm goto with' if w['how'] == 'asm' else '&&', ', '.join(w['names']))
    if k == 'gotos': return 'labels %s, gotos %s' % (w['labels'], w['gotos'])
    return 'labels %s after cases %s%s of type %s in %s with %d deferred, optimize %d' % (w['new'], w['old'], ' and default' if w.get('olddef') else '', w['ty'], w['ctx'], w['cur'], w.get('opt', 1))


def job(part):
    out = []
    for x in part:
        k, c = x
        try:
            d = dict(c)
            if 'ty' in c: d['ty'] = abi.St('{i64,i64,i64}', *[T['i64']] * 3) if c['ty'] == 'agg' else abi.St('union{i64,i32}', T['i64'], T['i32'], un=True) if c['ty'] == 'un' else T[c['ty']]
            r = getattr(A, k)(d)
            if k in ('stmt', 'block') and not r: r = [None] if d.get('target', 0) is None else ['valid statements are rejected: ' + ', '.join(sorted(A.errors))]
            out.append((x, sorted({y for y in r if y}), None))
        except ir.Broken as e: out.append((x, None, str(e)))
        except Exception as e: out.append((x, None, 'internal: %s %s' % (type(e).__name__, e)))
    return out


FN = dict(gotos='resolve_goto_labels', labels='label_stmt', names='asm_labels/unary')


def run(ctx):
    global A
    m = abi.load(list(ir.load().fns))
    A = jumps.Judge(m)
    A.follow = set(m.defs)
    for f in ('stmt', 'label_stmt', 'compound_stmt', 'secondary_block', 'resolve_goto_labels'): ctx.need(int(f in m.defs), f)
    L = configs(ctx.tier == 'thorough')
    k = 25
    with Pool(min(8, os.cpu_count() or 1)) as p: res = [x for part in p.map(job, [L[i:i + k] for i in range(0, len(L), k)], chunksize=2) for x in part]
    per, why, tot = {}, {}, {}
    for (k, c), bad, err in res:
        n = c['what'] if k == 'stmt' else c['fn'] if k == 'block' else k
        tot[n] = tot.get(n, 0) + 1
        if bad is None: why['%s: %s' % (n, err)] = why.get('%s: %s' % (n, err), 0) + 1; continue
        per[n] = per.get(n, 0) + 1
        fn = 'stmt' if k == 'stmt' else c['fn'] if k == 'block' else FN[k]
        for w in bad: ctx.violation('%s %s: %s' % (fn, n if k == 'stmt' else '', ' '.join(y for y in w.split() if not y.strip(',-').isdigit())), fn + ' (parse.c)', 'in %s: %s' % (show(k, c), w))
    for n in tot: ctx.need(per.get(n, 0), 'decided ' + n, tot[n])
    ctx.cover(inputs=sum(per.values()), not_decided=sum(why.values()), not_decided_because=why, per_kind=per, obligations=sum(per.values()), violations_found=len(ctx.reports))

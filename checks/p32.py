"""P32: layout of types follows the System V ABI."""
import os, itertools, random
from multiprocessing import Pool
import ir, abi, layout
from layout import Me
from emit import T

A = None
BASIC = dict(ty_bool=('BOOL', 1, 1, 1), ty_char=('CHAR', 1, 1, 0), ty_uchar=('CHAR', 1, 1, 1), ty_pchar=('PCHAR', 1, 1, 0), ty_short=('SHORT', 2, 2, 0), ty_ushort=('SHORT', 2, 2, 1), ty_int=('INT', 4, 4, 0), ty_uint=('INT', 4, 4, 1),
             ty_long=('LONG', 8, 8, 0), ty_ulong=('LONG', 8, 8, 1), ty_llong=('LONGLONG', 8, 8, 0), ty_ullong=('LONGLONG', 8, 8, 1), ty_float=('FLOAT', 4, 4, None), ty_double=('DOUBLE', 8, 8, None), ty_ldouble=('LDOUBLE', 16, 16, None))


def odd(what, ms, packed): return what == 'struct' and packed and any(isinstance(m.ty, abi.Ag) and m.ty.what != 'ARRAY' and 0 < m.al <= m.ty.align for m in ms)


def configs(thorough):
    sc = ('bool', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'll', 'ull', 'en')
    N = [abi.St('{u8,i32}', T['u8'], T['i32']), abi.St('{u8,u8,u8}', *[T['u8']] * 3), abi.St('{i64} aligned 32', T['i64'], al=32), abi.Ar(T['i16'], 3), abi.St('union{u8,i64}', T['u8'], T['i64'], un=True),
         abi.St('packed{u8,i64}', T['u8'], T['i64'], pack=True), abi.Ar(T['f80'], 2), abi.St('{}'), abi.Ar(abi.St('{u8,i32}', T['u8'], T['i32']), 2), abi.Ar(T['i32'], 0)]
    pl = [Me(T[t]) for t in ('u8', 'i16', 'i32', 'i64', 'ptr', 'f32', 'f64', 'f80', 'bool')] + [Me(t) for t in N]
    an = [Me(N[0], name=False), Me(N[4], name=False)]
    bf = [Me(T['bool'], 1)] + [Me(T[t], w) for t in sc[1:] for w in (1, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64) if w <= T[t].size * 8 and (w in (1, 7, T[t].size * 8) or t[0] != 'u')]
    ub = [Me(T[t], w, False) for t in ('u8', 'i16', 'i32', 'i64') for w in (0, 1, 3, 8, 13, 31) if w <= T[t].size * 8]
    al = [Me(T[t], w, True, a) for t in ('u8', 'i16', 'i32', 'i64') for w in (None, 1, 5, 8) for a in (1, 2, 4, 8, 16, 64)] + [Me(T[t], 0, False, a) for t in ('u8', 'i32') for a in (2, 8)] + [Me(t, None, True, a) for t in N for a in (1, 16, 64)]
    full = pl + an + bf + ub + al
    L = []
    for w in ('struct', 'union'):
        for p in (False, True):
            for a in (0, 1, 2, 4, 8, 32):
                L.append((w, [], p, a))
                for m in full: L.append((w, [m], p, a))
    for p in (False, True):
        L += [c for i, c in enumerate(('struct', [x, y], p, 0) for x in full for y in full) if thorough or i % 2 == p]
        small = pl[:4] + bf[:1] + bf[4:60:6] + ub[::4]
        L += [('struct', [x, y, z], p, 0) for x in small for y in small for z in small]
    R = random.Random(32)
    for _ in range(60000 if thorough else 4000):
        L.append((R.choice(('struct', 'struct', 'struct', 'union')), [R.choice(R.choice((pl, bf, bf, ub, al, full))) for _ in range(R.randrange(2, 9))], R.random() < .3, R.choice((0, 0, 0, 1, 4, 8, 32))))
    # known finding: only its simplest form
    L = [c for c in L if not odd(*c[:3])]
    L.append(('struct', [Me(T['u8']), Me(N[2], None, True, 2)], True, 0))
    return L


def show(w, ms, p, a): return '%s%s { %s }%s' % ('packed ' if p else '', w, '; '.join(m.text() for m in ms), ' aligned(%d)' % a if a else '')


def job(part):
    out = []
    for c in part:
        try: out.append((c, sorted(A.compare(*c)), None))
        except ir.Broken as e: out.append((c, None, str(e)))
        except Exception as e: out.append((c, None, 'internal: %s %s' % (type(e).__name__, e)))
    return out


def run(ctx):
    global A
    m = abi.load(list(ir.load().fns))
    A = layout.Layout(m)
    A.follow = set(m.defs)
    for f in ('struct_decl', 'union_decl', 'array_of', 'pointer_to', 'new_type'): ctx.need(int(f in m.defs), f)
    n = 0
    for nm, (k, sz, al, u) in sorted(BASIC.items()):
        b = A.basic(nm)
        if b is None or None in b[:3]: raise ir.Broken('the type %s is not a constant' % nm)
        n += 1
        if b[:3] != (m.E('TY_' + k), sz, al) or u is not None and bool(b[3]) != bool(u): ctx.violation('type: ' + nm, nm + ' (type.c)', '%s has size %s and alignment %s%s' % (nm, b[1], b[2], ', unsigned' if b[3] else ''))
    for t in list(T.values())[:18] + [abi.St('{u8,i32}', T['u8'], T['i32']), abi.St('{u8[3]}', abi.Ar(T['u8'], 3))]:
        for c in (0, 1, 3, 1 << 20):
            r = A.array(t, c)
            n += 1
            ctx.need(len(r), 'arrays')
            if any(x != (m.E('TY_ARRAY'), t.size * c, t.align) for x in r): ctx.violation('array_of', 'array_of (type.c)', 'an array of %d %s has size and alignment %s' % (c, t.name, r[0][1:]))
        r = A.pointer(t)
        n += 1
        if not r or any(x != (m.E('TY_PTR'), 8, 8) for x in r): ctx.violation('pointer_to', 'pointer_to (type.c)', 'a pointer to %s has size and alignment %s' % (t.name, r[0][1:] if r else None))
    L = configs(ctx.tier == 'thorough')
    k = 40
    with Pool(min(8, os.cpu_count() or 1)) as p: res = [x for part in p.map(job, [L[i:i + k] for i in range(0, len(L), k)], chunksize=4) for x in part]
    per, why, done = {}, {}, 0
    for c, bad, err in res:
        if bad is None: why[err] = why.get(err, 0) + 1; continue
        done += 1
        fn = c[0] + '_decl'
        per[fn] = per.get(fn, 0) + 1
        for w in bad:
            key = '%s: a packed structure with a structure member aligned to less than its type' % fn if odd(*c[:3]) else '%s: %s' % (fn, ' '.join(x for x in w.split() if not x.strip(',').isdigit()))
            ctx.violation(key, fn + ' (parse.c)', 'in %s %s' % (show(*c), w))
    ctx.need(done, 'layouts', int(.95 * len(L)))
    ctx.cover(types=n, member_lists=len(L), lists_decided=done, lists_not_decided=len(L) - done, not_decided_because=why, per_function=per, obligations=n + done, violations_found=len(ctx.reports))

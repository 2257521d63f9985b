"""P34: operators convert their operands to, and have, the types C prescribes."""
import os, random, itertools
from multiprocessing import Pool
import ir, abi, conv
from conv import INTS, FLTS
from emit import T

A = None
BIN = 'ADD SUB MUL DIV COND EQ NE LT LE GT GE'.split()
BINI = 'MOD BITAND BITOR BITXOR'.split()
SH = 'SHL SHR SAR'.split()


def configs(thorough):
    R = random.Random(34)
    P = [(t, None) for t in INTS]
    B = [('bool', 1)] + [(t, w) for t in INTS[1:] for w in (1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64) if w <= T[t].size * 8]
    F = [(t, None) for t in FLTS]
    HOW = (None, 'ASSIGN', 'ARITH_ASSIGN', 'POST_INCDEC')
    L = []
    def add(op, a, b=None, all=False):
        for how in (HOW if a[1] or b and b[1] else (None,)):
            for q, q2 in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if not b and q2 or (how and (q or q2)): continue
                if all or thorough or not (q or q2 or how) or R.random() < .1: L.append(dict(op=op, a=a, b=b, how=how, q=q, q2=q2))
    for op in BIN + BINI + SH + ['LOGAND', 'LOGOR', 'ASSIGN']:
        for a in P + ([] if op in SH + BINI else F):
            for b in P + ([] if op in SH + BINI else F): add(op, a, b, True)
        for a in B:
            for b in P + B + ([] if op in SH + BINI else F):
                if thorough or R.random() < (.35 if op in ('ADD', 'SHR', 'LT', 'COND') else .06):
                    add(op, a, b) if op != 'ASSIGN' else None
                    if b not in B: add(op, b, a)
    for op in ('POS', 'NEG', 'BITNOT', 'NOT'):
        for a in P + B + ([] if op == 'BITNOT' else F): add(op, a, None, True)
    return L


nm = lambda o: T[o[0]].name + ('' if o[1] is None else ':%d' % o[1])


def show(c): return '%s of %s%s%s' % (c['op'], nm(c['a']), ' and ' + nm(c['b']) if c['b'] else '', ' (bit-field in %s)' % c['how'] if c['how'] else '')


def job(part):
    out = []
    for c in part:
        try: out.append((c, sorted({y for y in A.judge(c) if y}), None))
        except ir.Broken as e: out.append((c, None, str(e)))
        except Exception as e: out.append((c, None, 'internal: %s %s' % (type(e).__name__, e)))
    return out


def run(ctx):
    global A
    m = abi.load(list(ir.load().fns))
    A = conv.Conv(m)
    A.follow = set(m.defs)
    ctx.need(int('add_type' in m.defs), 'add_type')
    L = configs(ctx.tier == 'thorough')
    if os.environ.get('P34SUB'): L = L[::int(os.environ['P34SUB'])]
    k = 40
    with Pool(min(8, os.cpu_count() or 1)) as p: res = [x for part in p.map(job, [L[i:i + k] for i in range(0, len(L), k)], chunksize=2) for x in part]
    per, why, tot = {}, {}, {}
    for c, bad, err in res:
        n = c['op']
        tot[n] = tot.get(n, 0) + 1
        if bad is None: why['%s: %s' % (n, err)] = why.get('%s: %s' % (n, err), 0) + 1; continue
        per[n] = per.get(n, 0) + 1
        for w in bad: ctx.violation('add_type %s: %s' % (n, w), 'add_type (type.c)', 'in %s: %s' % (show(c), w))
    if os.environ.get('VF_WHY'): print(why)
    for n in tot: ctx.need(per.get(n, 0), 'decided ' + n, tot[n])
    ctx.cover(inputs=sum(per.values()), not_decided=sum(why.values()), not_decided_because=why, per_operator=per, obligations=sum(per.values()), violations_found=len(ctx.reports))

"""P03: what the constant evaluator computes for each operator.

The evaluator's functions are found by what they are: a function over Node that
returns i64 (integers) or long double (floating point), calls itself for
operands and divides.  Every return path carries the node kinds it is taken for
and the value term; the term is brought to a normal form and compared with the
table of operators of C."""
import absint
from absint import C, sx

INTK = ('TY_BOOL', 'TY_PCHAR', 'TY_CHAR', 'TY_SHORT', 'TY_INT', 'TY_LONG', 'TY_LONGLONG')
RING = ('add', 'sub', 'mul')
A0 = ('a', 0)
MIN = -(1 << 63)


def fld(base, n, st='Node'): return ('f', base, st, n)


def skipext(t):
    """drop extensions of a truth value"""
    while t[0] == 'op' and t[1] in ('zext', 'sext') and t[3][0] == 'op' and (t[4] == 1 and t[1] == 'zext' or t[3][1] == 'zext'):
        t = t[3]
    return t


def nfit(t, w):
    """the low w bits of t: leaves without conversions that keep them"""
    while True:
        if t[0] == 'op' and t[1] in ('zext', 'sext') and t[4] >= w: t = t[3]
        elif t[0] == 'op' and t[1] == 'trunc' and t[2] >= w: t = t[3]
        elif t[0] == 'op' and t[1] == 'and' and t[4][0] == 'c' and (t[4][1] & ((1 << w) - 1)) == (1 << w) - 1: t = t[3]
        else: return t


def ring(t, w):
    """polynomial {monomial: coefficient} modulo 2**w"""
    t = nfit(t, w)
    m = (1 << w) - 1
    if t[0] == 'c': return {(): t[1] & m} if t[1] & m else {}
    if t[0] == 'op' and t[1] in RING:
        a, b = ring(t[3], w), ring(t[4], w)
        r = {}
        if t[1] == 'mul':
            for x, p in a.items():
                for y, q in b.items():
                    k = tuple(sorted(x + y, key=str)); r[k] = (r.get(k, 0) + p * q) & m
        else:
            r = dict(a)
            for y, q in b.items(): r[y] = (r.get(y, 0) + (q if t[1] == 'add' else -q)) & m
        return {k: v for k, v in r.items() if v}
    if t[0] == 'op' and t[1] == 'xor' and t[4] == C(-1):    # ~x = -1 - x
        r = {k: -v & m for k, v in ring(t[3], w).items()}
        r[()] = (r.get((), 0) - 1) & m
        return {k: v for k, v in r.items() if v}
    if t[0] == 'op' and t[1] in ('and', 'or', 'xor'):
        return {((t[1],) + tuple(sorted((freeze(ring(t[3], w)), freeze(ring(t[4], w))), key=str)),): 1}
    if t[0] == 'op' and t[1] == 'shl':
        b = t[4]
        if b[0] == 'c' and 0 <= b[1] < 64: return {k: v << b[1] & m for k, v in ring(t[3], w).items() if v << b[1] & m}
        return {(('shl', freeze(ring(t[3], w)), freeze(ring(b, 8))),): 1}
    return {(t,): 1}


def freeze(p): return tuple(sorted(p.items(), key=str))


class Preds:
    """predicates of a type that look at its kind alone: the kinds they hold for"""

    def __init__(s, mod, mods): s.m, s.mods, s.memo = mod, mods, {}

    def of(s, name):
        if name not in s.memo:
            s.memo[name] = None
            s.memo[name] = s.compute(name)
        return s.memo[name]

    def compute(s, name):
        f = s.m.defs.get(name)
        if f is None or f.argty != ['Type*'] or f.ret != 'i1' or f.loops: return None
        for i in f.instrs():
            if i.op in ('store', 'alloca') or i.op == 'call' and s.of(i.callee) is None: return None
        yes = set()
        for k in range(0, 40):
            r = []
            c = absint.Client(); c.K = 100
            c.a = s; s.preds = s
            c.ret = lambda st, ins, v: r.append(s.e.vset(st, v))
            def call(st, ins, args):
                ks = s.of(ins.callee)
                return [(st, C(-1 if k in ks else 0))]
            c.call = call
            ad = ('f', A0, 'Type', 'kind')
            leaf = ('ld', 'kind', ad, 32)
            def entry(st, fn): st.mem[ad] = leaf; st.facts[leaf] = ('in', frozenset((k,)))
            c.entry = entry
            s.e = absint.Engine(s.m, c, s.mods)
            s.e.run(f)
            v = set().union(*[x if x is not None else {None} for x in r]) if r else {None}
            if len(v) != 1 or None in v: return None
            if v != {0}: yes.add(k)
        return frozenset(yes)


class Client(absint.Client):
    K = 600
    KH = 60
    VS = 40
    fp = True

    def __init__(s, a): s.a = a
    def entry(s, st, fn): pass
    def extra_roots(s, st): return [t for t in st.facts if t[0] in ('call', 'ld')]

    def call(s, st, ins, args):
        k = None
        if len(args) > 1 and args[1][0] == 'al':
            k = st.mem.get(fld(args[1], 'kind', 'EvalContext'))
        if ins.callee in s.a.rec:
            key = (ins.callee, tuple(args), k)
            l = s.a.inst.setdefault(ins.id, [])
            if key not in l: l.append(key)
            name = '%s#%d' % (ins.id, l.index(key))
            s.a.calls[name] = {key}
            return [(st, ('call', name, absint.width(ins.ty)))]
        s.a.calls.setdefault(ins.id, set()).add((ins.callee, tuple(args), k))
        ks = s.a.preds.of(ins.callee)
        if ks is None or not args: return None
        ad = ('f', args[0], 'Type', 'kind')
        t = st.mem.get(ad)
        if t is None: t = st.mem[ad] = ('ld', ins.id + 'k', ad, 32)
        out = []
        for truth in (True, False):
            n = st.copy()
            if s.a.e.switch_assume(n, t, *((ks, None) if truth else (None, ks))): out.append((n, C(-1 if truth else 0)))
        return out

    def instr(s, st, ins, v):
        if ins.op in ('sdiv', 'srem', 'udiv', 'urem'): s.a.division(st, ins, v)

    def ret(s, st, ins, v): s.a.rets.append((st, v))


class ConstEval:
    def __init__(s, mod):
        s.m = mod
        s.rep = {}
        s.n = dict(paths=0, divisions=0, decided=0, obligations=0)
        s.kinds = set()

    def find(s):
        m = s.m
        rec = {}
        for n, f in m.defs.items():
            ty = f.argty
            if not ty or ty[0] != 'Node*': continue
            if not any(i.op == 'load' and isinstance(i.ops[0], str) and (g := f.by_id.get(i.ops[0])) is not None and g.op == 'getelementptr'
                       and g.ops[0] == 'a0' and g.x['sty'].startswith('%struct') and m.field(g.x['sty'], g.ops[2][1] if len(g.ops) > 2 else 0)[1] == 'kind'
                       for i in f.instrs()): continue
            if f.ret in ('i64', 'x86_fp80') and n in m.reachable([c for i in f.calls() for c in m.callees(i)]):
                rec[n] = f
        return rec

    def val(s, st, base, *path):
        """value of base->f1->f2... on this path, if it was read"""
        t = base
        for stn, fn in path:
            t = st.mem.get(('f', t, stn, fn))
            if t is None: return None
        return t

    def vs(s, st, t): return s.e.vset(st, t) if t is not None else None

    def fact(s, st, base, *path):
        t = s.val(st, base, *path)
        return s.vs(st, t)

    def sizes(s, st, ty):
        """sizes an integer type can have on this path"""
        t = s.val(st, ty, ('Type', 'size')) if ty is not None else None
        r = {1, 2, 4, 8}
        if t is None: return r
        for x, f in st.facts.items():
            if x == t: r = {n for n in r if (n in f[1]) == (f[0] == 'in')}
            elif x[0] == 'op' and absint.leaves(x) == {t}:
                r = {n for n in r if (e := absint.evalop(x, t, n)) is None or (e in f[1]) == (f[0] == 'in')}
        return r

    def flag(s, st, base, *path):
        v = s.fact(st, base, *path)
        if v is None or len(v) != 1: return None
        return bool(next(iter(v)))

    def report(s, k, ins, msg):
        s.rep.setdefault((s.f.name, k), (ins, 'in %s(): %s' % (s.f.name, msg)))

    # ---- operands
    def opnd(s, t):
        """('lhs', 'eval'|'ctx'|'fp') of a value that is the evaluation of an operand"""
        if t[0] != 'call' or t[1] not in s.calls: return None
        r = set()
        for callee, args, k in s.calls[t[1]]:
            if callee not in s.rec or not args: return None
            a = args[0]
            while a[0] == 'mphi' and False: pass
            if a[0] != 'ld' or a[2][0] != 'f' or a[2][2] != 'Node' or a[2][1] != A0: return None
            if s.rec[callee].ret == 'x86_fp80': md = 'fp'
            elif len(args) < 2 or (k is not None and k == C(s.EVC)): md = 'eval'
            else: md = 'ctx' if args[1] == ('a', 1) else 'other'
            r.add((a[2][3], md))
        return next(iter(r)) if len(r) == 1 else None

    def subst(s, t):
        """operand calls replaced by ('L',), ('R',) ...; modes collected"""
        o = s.opnd(t)
        if o: s.modes[o[0]] = o[1]; return ('call', o[0], t[-1])
        if t[0] == 'op': return t[:3] + tuple(s.subst(x) if isinstance(x, tuple) else x for x in t[3:])
        return t

    def opfact(s, st, name):
        """possible values of the evaluated operand on this path"""
        for t, f in st.facts.items():
            o = s.opnd(t)
            if o and o[0] == name: return f
        return None

    # ---- divisions
    def division(s, st, ins, v):
        a, b = s.e.opnd(st, ins.ops[0]), s.e.opnd(st, ins.ops[1])
        if b[0] == 'c' and b[1] not in (0, -1): return
        s.n['divisions'] += 1
        f = st.facts.get(b)
        vs = s.e.vset(st, b)
        no = (lambda x, fx, vx: (vx is not None and x not in vx) or (fx is not None and fx[0] == 'nin' and x in fx[1]))
        if not no(0, f, vs):
            s.report('%s by zero' % ins.op, ins, 'a %s is executed on a path where the divisor can be 0' % ins.op)
        if ins.op[0] == 's' and not no(-1, f, vs):
            w = absint.width(ins.ty)
            if not no(-(1 << (w - 1)), st.facts.get(a), s.e.vset(st, a)):
                s.report('%s overflow' % ins.op, ins, 'a %s is executed on a path where the minimum can be divided by -1' % ins.op)

    # ---- width of a result
    def norm(s, st, t, ty):
        """(ok, inner, w) : t is reduced to the type's width; inner: what was reduced"""
        kind = s.fact(st, ty, ('Type', 'kind')) if ty is not None else None
        kt = s.val(st, ty, ('Type', 'kind')) if ty is not None else None
        size = s.sizes(st, ty)
        uns = s.flag(st, ty, ('Type', 'is_unsigned')) if ty is not None else None
        kf = st.facts.get(kt) if kt is not None else None
        if kf and (kf[0] == 'nin' and s.ints <= kf[1] or kf[0] == 'in' and not (kf[1] & s.ints)):
            return 'ok', t, 64
        if size <= {8}: return 'ok', t, 64
        # shifts by a distance made from the size
        if t[0] == 'op' and t[1] in ('ashr', 'lshr') and t[3][0] == 'op' and t[3][1] == 'shl' and t[2] == 64 and t[3][4] == t[4]:
            sh = t[4]
            szt = s.val(st, ty, ('Type', 'size')) if ty is not None else None
            if szt is not None and all(absint.evalop(sh, szt, n) == 64 - 8 * n for n in (1, 2, 4, 8)):
                if uns is None: return 'the signedness of the type is not looked at', t, 64
                if uns != (t[1] == 'lshr'): return 'the result of an %s type is extended as if it was %s' % (('unsigned', 'signed') if uns else ('signed', 'unsigned')), t, 64
                return 'ok', t[3][3], None
            if sh[0] == 'c' and size == {8 - sh[1] // 8} and sh[1] % 8 == 0:
                if uns is None or uns != (t[1] == 'lshr'): return 'the extension does not follow the signedness of the type', t, 64
                return 'ok', t[3][3], 64 - sh[1]
        w = sg = None
        u = t
        if t[0] == 'op' and t[1] in ('zext', 'sext'): w, sg, u = t[4], t[1] == 'sext', t[3]
        elif t[0] == 'op' and t[1] == 'and' and t[4][0] == 'c' and t[4][1] in (0xff, 0xffff, 0xffffffff): w, sg, u = t[4][1].bit_length(), False, t[3]
        if w == 1: return 'ok', t, 64
        if w is None: return 'the result is not reduced to the width of its type', t, 64
        if size != {w // 8}: return 'the result is reduced to %d bits where the type can have another size' % w, u, w
        if uns is None: return 'the signedness of the type is not looked at', u, w
        if uns == sg: return 'the result of %s type is extended as if it was %s' % (('an unsigned', 'signed') if uns else ('a signed', 'unsigned')), u, w
        return 'ok', u, w

    # ---- tables
    def run(s):
        m = s.m
        E = m.E
        s.rec = s.find()
        from ir import Broken
        s.EVC = E('EV_CONST')
        s.ints = frozenset(E(k) for k in INTK)
        kn = {}
        for k in ('ADD SUB MUL DIV MOD POS NEG BITAND BITOR BITXOR SHL SHR SAR EQ NE LT LE GT GE COND COMMA NOT BITNOT LOGAND LOGOR CAST NUM').split():
            kn[E('ND_' + k)] = k
        s.kn = kn
        s.TY = {k: E(k) for k in ('TY_FLOAT', 'TY_DOUBLE', 'TY_LDOUBLE', 'TY_BOOL')}
        mods = absint.Mods(m)
        s.preds = Preds(m, mods)
        for n, f in s.rec.items():
            s.f, s.calls, s.rets, s.inst = f, {}, [], {}
            s.e = absint.Engine(m, Client(s), mods, maxstates=60000)
            s.e.run(f)
            for st, v in s.rets:
                if v is None: continue
                kf = st.facts.get(s.val(st, A0, ('Node', 'kind')) or ('none',))
                ks = kf[1] if kf and kf[0] == 'in' else ()
                for k in ks:
                    if k not in kn: s.other(st, v, f); continue
                    s.n['paths'] += 1
                    s.kinds.add((n, kn[k]))
                    (s.fval if f.ret == 'x86_fp80' else s.ival)(st, v, kn[k], f)
                if not ks: s.other(st, v, f)
        return s

    def ok(s): s.n['obligations'] += 1; s.n['decided'] += 1

    def bad(s, kind, what, f):
        s.n['obligations'] += 1
        i = next((i for b in f.blocks for i in b.ins if i.op == 'ret'), None)
        s.report('%s: %s' % (kind, what), i, 'for ND_%s %s' % (kind, what))

    def external(s, v):
        """the value comes from elsewhere (an error path, data of a variable)"""
        if v[0] == 'call':
            return not any(c in s.rec for c, _, _ in s.calls.get(v[1], ()))
        return False

    def other(s, st, v, f):
        """values of objects: data read from an initialiser is reduced like results"""
        if f.ret != 'i64': return
        for t in absint.leaves(v) if v[0] == 'op' else (v,):
            if t[0] == 'call' and any(c == 'read_buf' for c, _, _ in s.calls.get(t[1], ())):
                ty = s.val(st, A0, ('Node', 'ty'))
                u = v
                if v[0] == 'op' and v[1] in ('ashr', 'lshr') and v[3][0] == 'op' and v[3][1] == 'shl' and \
                   any(x[0] == 'ld' and x[2][0] == 'f' and x[2][2] == 'Member' for x in absint.leaves(v[4]) | absint.leaves(v[3][4])):
                    mem = s.val(st, A0, ('Node', 'member'))
                    un = s.flag(st, ty, ('Type', 'is_unsigned')) if ty else None
                    if mem is None: s.bad('constant object', 'the value is shifted although no member is read', f); return
                    bw, bo = s.val(st, mem, ('Member', 'bit_width')), s.val(st, mem, ('Member', 'bit_offset'))
                    if bw is None or bo is None: s.bad('bit-field', 'width or offset of the bit-field are not used', f); return
                    W, O = freeze(ring(bw, 8)), freeze(ring(bo, 8))
                    e2 = {(): 64}
                    for k, c in ring(bw, 8).items(): e2[k] = (e2.get(k, 0) - c) & 255
                    e1 = dict(e2)
                    for k, c in ring(bo, 8).items(): e1[k] = (e1.get(k, 0) - c) & 255
                    if freeze(ring(v[4], 8)) != freeze(e2) or freeze(ring(v[3][4], 8)) != freeze(e1):
                        s.bad('bit-field', 'the bits that are read are not those of the bit-field', f); return
                    if un is None or un != (v[1] == 'lshr'):
                        s.bad('bit-field', 'the extension does not follow the signedness of the bit-field', f); return
                    u = v[3][3]
                r, _, _ = s.norm(st, u, ty)
                if r != 'ok': s.bad('constant object', r, f)
                else: s.ok()

    def ival(s, st, v, k, f):
        ty = s.val(st, A0, ('Node', 'ty'))
        s.modes = {}
        v0 = v
        v = s.subst(v)
        L, R = ('call', 'lhs', 64), ('call', 'rhs', 64)
        if s.external(v0): return

        def modes(*okm):
            for n, md in s.modes.items():
                if md not in okm and not (n, md) in okm:
                    s.bad(k, 'operand %s is evaluated as an address constant' % n, f); return False
            return True
        if k in ('ADD', 'SUB', 'MUL', 'NEG', 'BITNOT', 'SHL'):
            r, u, w = s.norm(st, v, ty)
            if r != 'ok': s.bad(k, r, f); return
            w = w or 8
            e = {'ADD': ('op', 'add', 64, L, R), 'SUB': ('op', 'sub', 64, L, R), 'MUL': ('op', 'mul', 64, L, R),
                 'NEG': ('op', 'sub', 64, C(0), L), 'BITNOT': ('op', 'xor', 64, L, C(-1)), 'SHL': ('op', 'shl', 64, L, R)}[k]
            if ring(u, w) != ring(e, w): s.bad(k, 'the value is not that of the operator', f); return
            if modes(*{'ADD': ('eval', 'ctx'), 'SUB': ('eval', ('lhs', 'ctx'))}.get(k, ('eval',))): s.ok()
        elif k in ('BITAND', 'BITOR', 'BITXOR'):
            op = {'BITAND': 'and', 'BITOR': 'or', 'BITXOR': 'xor'}[k]
            w = 64
            if v[0] == 'op' and v[1] in ('zext', 'sext'):
                r, v, w = s.norm(st, v, ty)
                if r != 'ok': s.bad(k, r, f); return
            if ring(v, w or 8) != ring(('op', op, 64, L, R), w or 8): s.bad(k, 'the value is not that of the operator', f)
            elif modes('eval'): s.ok()
        elif k in ('DIV', 'MOD'):
            uns = s.unsigned(st, f)
            op = 'div' if k == 'DIV' else 'rem'
            rf = s.opfact(st, 'rhs')
            m1 = rf and rf[0] == 'in' and rf[1] == {-1}
            while v[0] == 'op' and v[1] in ('zext', 'sext', 'trunc') : v = v[3]
            if m1 and (k == 'MOD' and v == C(0) or k == 'DIV' and (ring(v, 64) == ring(('op', 'sub', 64, C(0), L), 64) or v == C(MIN))):
                lf = s.opfact(st, 'lhs')
                if v == C(MIN) and not (lf and lf[0] == 'in' and lf[1] == {MIN}): s.bad(k, 'a constant is returned for operands that are not the minimum and -1', f); return
                if uns is not False: s.bad(k, 'an unsigned operation is treated as signed', f)
                else: s.ok()
                return
            if v[0] == 'op' and v[1] in ('s' + op, 'u' + op) and nfit(v[3], 32) == L and nfit(v[4], 32) == R:
                s.sign(st, k, v[1][0] == 'u', uns, f) and modes('eval') and s.ok()
            else: s.bad(k, 'the value is not that of the operator', f)
        elif k in ('SHR', 'SAR'):
            op = 'lshr' if k == 'SHR' else 'ashr'
            size = s.sizes(st, ty)
            sg = None
            w = 64
            if v[0] == 'op' and v[1] in ('zext', 'sext'):
                w, sg, v = v[4], v[1] == 'sext', v[3]
                if size != {w // 8}: s.bad(k, 'the shift is done on %d bits where the type can have another size' % w, f); return
                if sg != (k == 'SAR'): s.bad(k, 'the shifted value is extended with the wrong signedness', f); return
            if not (v[0] == 'op' and v[1] == op and nfit(v[3], min(w, 32)) == L and nfit(v[4], 8) == R):
                s.bad(k, 'the value is not that of the operator', f)
            elif modes('eval'): s.ok()
        elif k in ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE'):
            v = skipext(v)
            if v == C(0) or v == C(1): return
            cmp = {'EQ': 'eq', 'NE': 'ne', 'LT': 'lt', 'LE': 'le', 'GT': 'gt', 'GE': 'ge'}[k]
            sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
            if v[0] == 'op' and v[1] == 'xor' and v[2] == 1 and v[4] == C(-1) and v[3][0] == 'op' and v[3][1].startswith('fcmp '):
                inv = {'oeq': 'une', 'une': 'oeq', 'olt': 'uge', 'ole': 'ugt', 'ogt': 'ule', 'oge': 'ult', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt'}
                p = v[3][1][5:]
                v = ('op', 'fcmp ' + inv.get(p, p), 1) + v[3][3:]
            if v[0] == 'op' and v[1].startswith('fcmp '):
                p = v[1][5:]
                a, b = v[3][1] if v[3][0] == 'call' else None, v[4][1] if v[4][0] == 'call' else None
                want = {'eq': 'oeq', 'ne': 'une'}.get(cmp, 'o' + cmp)
                if (a, b) == ('rhs', 'lhs'): p = p[0] + sw.get(p[1:], p[1:]); a, b = b, a
                if (a, b) != ('lhs', 'rhs') or p != want: s.bad(k, 'the comparison of floating-point values is %s' % p, f)
                else: s.ok()
                return
            if v[0] == 'op' and v[1].startswith('icmp '):
                p = v[1][5:]
                a, b = v[3], v[4]
                if nfit(a, 64) == R and nfit(b, 64) == L: a, b = b, a; p = (p[0] + sw[p[1:]]) if p[1:] in sw else p
                if a != L or b != R: s.bad(k, 'the value does not compare the operands', f); return
                if not modes('eval'): return
                if p in ('eq', 'ne'):
                    if p != cmp: s.bad(k, 'the comparison is %s' % p, f)
                    else: s.ok()
                    return
                if p[1:] != cmp: s.bad(k, 'the comparison is %s' % p, f); return
                s.sign(st, k, p[0] == 'u', s.unsigned(st, f, True), f, True) and s.ok()
            else: s.bad(k, 'the value is not that of the operator', f)
        elif k == 'NOT':
            v = skipext(v)
            if v[0] == 'op' and v[1] == 'icmp eq' and v[3] == L and v[4] == C(0) and modes('eval'): s.ok()
            elif v in (C(0), C(1)):
                lf = s.opfact(st, 'lhs')
                z = None if not lf else True if lf[0] == 'in' and lf[1] == {0} else False if (0 not in lf[1]) == (lf[0] == 'in') else None
                if z is None or z != (v == C(1)): s.bad(k, 'the value is not that of the operator', f)
                else: s.ok()
            else: s.bad(k, 'the value is not that of the operator', f)
        elif k in ('LOGAND', 'LOGOR'):
            stop = k == 'LOGOR'     # value of lhs that decides
            lf = s.opfact(st, 'lhs')
            l = None if not lf else False if lf[0] == 'in' and lf[1] == {0} else True if (0 in lf[1]) == (lf[0] == 'nin') else None
            v = skipext(v)
            ev = 'rhs' in s.modes or s.opfact(st, 'rhs') is not None
            if l is None: s.bad(k, 'the left operand does not decide whether the right one is evaluated', f)
            elif l == stop:
                if v != C(1 if stop else 0) or ev: s.bad(k, 'the left operand does not decide the value alone', f)
                else: s.ok()
            elif v[0] == 'op' and v[1] == 'icmp ne' and v[3] == R and v[4] == C(0): modes('eval') and s.ok()
            elif v in (C(0), C(1)):
                rf = s.opfact(st, 'rhs')
                r = None if not rf else False if rf[0] == 'in' and rf[1] == {0} else True if (0 in rf[1]) == (rf[0] == 'nin') else None
                if r is None or r != (v == C(1)): s.bad(k, 'the value is not that of the operator', f)
                else: s.ok()
            else: s.bad(k, 'the value is not that of the operator', f)
        elif k == 'COND': s.cond(st, v, k, f)
        elif k == 'POS':
            if v[0] == 'op' and v[1] in ('zext', 'sext'):
                r, v, w = s.norm(st, v, ty)
                if r != 'ok': s.bad(k, r, f); return
            if nfit(v, 32) == L: s.ok()
            else: s.bad(k, 'the value is not that of the operand', f)
        elif k == 'COMMA':
            if v == R: s.ok()
            else: s.bad(k, 'the value is not that of the right operand', f)
        elif k == 'NUM':
            if v[0] == 'ld' and v[2] == fld(A0, 'val'): s.ok()
            else:
                r, u, w = s.norm(st, v, ty)
                if r == 'ok' and u[0] == 'ld' and u[2] == fld(A0, 'val'): s.ok()
                else: s.bad(k, 'the value is not that of the number', f)
        elif k == 'CAST': s.cast(st, v, ty, f)

    def cond(s, st, v, k, f):
        cf = s.opfact(st, 'cond')
        c = None if not cf else False if cf[0] == 'in' and cf[1] == {0} else True if (0 in cf[1]) == (cf[0] == 'nin') else None
        n = v[1] if v[0] == 'call' else None
        if c is None: s.bad(k, 'the condition does not decide the value', f)
        elif n not in ('then', 'els'): s.bad(k, 'the value is not that of an operand', f)
        elif c != (n == 'then') or ('els' if c else 'then') in s.modes: s.bad(k, 'the wrong operand is used', f)
        else: s.ok()

    def cast(s, st, v, ty, f):
        k = 'CAST'
        kind = s.fact(st, ty, ('Type', 'kind')) if ty is not None else None
        kt = st.facts.get(s.val(st, ty, ('Type', 'kind')) or ('none',)) if ty is not None else None
        isb = kt is not None and kt[0] == 'in' and kt[1] == {s.TY['TY_BOOL']}
        notb = kt is not None and (s.TY['TY_BOOL'] in kt[1]) == (kt[0] == 'nin')
        L = ('call', 'lhs', 64)
        b = skipext(v)
        if isb:
            if b[0] == 'op' and b[1] == 'icmp ne' and b[3] == L and b[4] == C(0): s.ok()
            elif b[0] == 'op' and b[1] == 'fcmp une' and b[3][0] == 'call' and b[3][1] == 'lhs' and b[4][0] in ('fc', 'c'): s.ok()
            elif b == C(1): s.ok()
            else: s.bad(k, 'the value converted to _Bool is not a comparison with zero', f)
            return
        if not notb: s.bad(k, 'a conversion to _Bool is not told apart', f); return
        if v[0] == 'op' and v[1] == 'fptoui':
            if s.sizes(st, ty) == {8} and s.flag(st, ty, ('Type', 'is_unsigned')): s.ok()
            else: s.bad(k, 'the value is converted as unsigned for a type that can be signed', f)
            return
        r, u, w = s.norm(st, v, ty)
        if r != 'ok': s.bad(k, r, f); return
        while u[0] == 'op' and u[1] == 'trunc': u = u[3]
        if u[0] == 'op' and u[1] == 'fptosi' and u[3][0] == 'call' and u[3][1] == 'lhs':
            if w == 64 and s.flag(st, ty, ('Type', 'is_unsigned')) is not False:
                # an unsigned 64-bit type needs the conversion as unsigned
                sz = s.sizes(st, ty)
                un = s.flag(st, ty, ('Type', 'is_unsigned'))
                if 8 in sz and un is not False: s.bad(k, 'a floating-point value is converted as signed for a type that can be unsigned', f); return
            s.ok(); return
        if nfit(u, min(w or 8, 64)) == L: s.ok()
        else: s.bad(k, 'the value is not that of the operand', f)

    def unsigned(s, st, f, cmp=False):
        """is the operation unsigned on this path? None: not looked at"""
        r = None
        for p in ((('Node', 'ty'),), (('Node', 'lhs'), ('Node', 'ty')), (('Node', 'rhs'), ('Node', 'ty'))):
            if cmp and len(p) == 1: continue
            t = s.val(st, A0, *p)
            if t is None: continue
            u = s.flag(st, t, ('Type', 'is_unsigned'))
            if u is not None: r = u
            z = s.fact(st, t, ('Type', 'size'))
            if z is not None and 8 not in z: s.small = True
        return r

    def sign(s, st, k, isu, uns, f, cmp=False):
        if uns is None:
            s.bad(k, 'the signedness of the operands is not looked at', f); return False
        if isu == uns: return True
        s.bad(k, '%s operands are treated as %s' % (('unsigned', 'signed') if uns else ('signed', 'unsigned')), f)
        return False

    def fval(s, st, v, k, f):
        if s.external(v): return
        ty = s.val(st, A0, ('Node', 'ty'))
        s.modes = {}
        v = s.subst(v)

        def name(t): return t[1] if t[0] == 'call' else None

        def rounded(t):
            kt = s.fact(st, ty, ('Type', 'kind')) if ty is not None else None
            if kt is None or len(kt) != 1: return 'the type of the result is not looked at', t
            kk = next(iter(kt))
            if kk == s.TY['TY_LDOUBLE']: return 'ok', t
            w = 'float' if kk == s.TY['TY_FLOAT'] else 'double' if kk == s.TY['TY_DOUBLE'] else None
            if w is None: return 'ok', t
            if t[0] == 'op' and t[1].startswith('fpext') and t[3][0] == 'op' and t[3][1] == 'fptrunc ' + w: return 'ok', t[3][3]
            return 'the result is not rounded to %s' % w, t
        if k in ('ADD', 'SUB', 'MUL', 'DIV'):
            r, u = rounded(v)
            if r != 'ok': s.bad(k, r, f); return
            if u[0] == 'op' and u[1] == 'f' + k.lower() and name(u[3]) == 'lhs' and name(u[4]) == 'rhs' or \
               k in ('ADD', 'MUL') and u[0] == 'op' and u[1] == 'f' + k.lower() and name(u[3]) == 'rhs' and name(u[4]) == 'lhs': s.ok()
            else: s.bad(k, 'the floating-point value is not that of the operator', f)
        elif k == 'NEG':
            if v[0] == 'op' and v[1].startswith('fpext') : r, v = rounded(v)
            if v[0] == 'op' and v[1] == 'fneg' and name(v[3]) == 'lhs': s.ok()
            else: s.bad(k, 'the floating-point value is not that of the operator', f)
        elif k == 'POS':
            if v[0] == 'op' and v[1].startswith('fpext'): r, v = rounded(v)
            if name(v) == 'lhs': s.ok()
            else: s.bad(k, 'the value is not that of the operand', f)
        elif k == 'COND': s.cond(st, v, k, f)
        elif k == 'COMMA':
            if name(v) == 'rhs': s.ok()
            else: s.bad(k, 'the value is not that of the right operand', f)
        elif k == 'NUM':
            if v[0] == 'ld' and v[2] == fld(A0, 'fval'): s.ok()
            else: s.bad(k, 'the value is not that of the number', f)
        elif k == 'CAST':
            r, u = rounded(v)
            if r != 'ok': s.bad(k, r, f); return
            if name(u) == 'lhs' and s.modes.get('lhs') == 'fp': s.ok(); return
            if u[0] == 'op' and u[1] in ('sitofp', 'uitofp') and name(u[3]) == 'lhs':
                lt = s.val(st, A0, ('Node', 'lhs'), ('Node', 'ty'))
                un = s.flag(st, lt, ('Type', 'is_unsigned')) if lt is not None else None
                zt = st.facts.get(s.val(st, lt, ('Type', 'size')) or ('none',)) if lt is not None else None
                not8 = zt and (8 in zt[1]) == (zt[0] == 'nin')
                if not8 or un is (u[1] == 'uitofp'): s.ok()
                else: s.bad(k, 'an integer is converted as %s where its type can be %s' % (('unsigned', 'signed') if u[1] == 'uitofp' else ('signed', 'unsigned')), f)
            else: s.bad(k, 'the floating-point value is not that of the operand', f)

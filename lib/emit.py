"""P28: code that is emitted for an operator computes that operator.

The code generator's functions are interpreted on an abstract node of one kind
and one choice of operand types (see absint.py); what they print acts on an
abstract machine (x86.py) whose registers hold terms over the operands' values.
At every return the result is compared with the operator of C, in a normal form
modulo the width of the type.

Calls that generate code for an operand, and the helpers that save and restore
values, are replaced by what they are specified to do."""
import re
import random
import absint, x86, termval
import fpnum as F
from termval import Val, Skip, Unknown, ARITH, SHIFT, CMP
from absint import C, sx, NULL
from x86 import M, op, ext, trunc, Poison
from ir import Broken

A0 = ('a', 0)


def fld(b, st, n): return ('f', b, st, n)
def av(b, st, n, w=64): return ('av', fld(b, st, n), w)


class Ty:
    def __init__(s, name, kind, size, uns=False, cls='gp', base=False): s.name, s.kind, s.size, s.uns, s.cls, s.base = name, kind, size, uns, cls, base
    @property
    def bits(s): return 8 * s.size
    @property
    def w(s): return 64 if s.size == 8 or s.cls == 'agg' else 32
    def __repr__(s): return s.name


T = {}


def types(E):
    for n, k, sz, u in (('bool', 'BOOL', 1, 1), ('i8', 'CHAR', 1, 0), ('u8', 'CHAR', 1, 1), ('i16', 'SHORT', 2, 0), ('u16', 'SHORT', 2, 1), ('i32', 'INT', 4, 0), ('u32', 'INT', 4, 1),
                        ('i64', 'LONG', 8, 0), ('u64', 'LONG', 8, 1), ('ll', 'LONGLONG', 8, 0), ('ull', 'LONGLONG', 8, 1), ('en', 'ENUM', 4, 0), ('eu', 'ENUM', 4, 1)):
        T[n] = Ty(n, E('TY_' + k), sz, bool(u))
    T['pc'] = Ty('pc', E('TY_PCHAR'), 1)
    T['ptr'] = Ty('ptr', E('TY_PTR'), 8, True, 'gp', True)
    T['f32'] = Ty('f32', E('TY_FLOAT'), 4, False, 'ss')
    T['f64'] = Ty('f64', E('TY_DOUBLE'), 8, False, 'sd')
    T['f80'] = Ty('f80', E('TY_LDOUBLE'), 16, False, 'ld')
    T['arr'] = Ty('arr', E('TY_ARRAY'), 24, False, 'agg', True)

    T['st'] = Ty('st', E('TY_STRUCT'), 24, False, 'agg')
    T['un'] = Ty('un', E('TY_UNION'), 24, False, 'agg')
    for t in T.values(): t.fw = {'ss': 32, 'sd': 64, 'ld': 80}.get(t.cls)


class Need(Exception):
    def __init__(s, t): s.t = t


class Undecided(Exception): pass


NOALIAS = ('Node', 'Type', 'Member', 'Obj')


class Engine(absint.Engine):
    def kill(s, st, addr):
        r = absint.root(addr)
        if r[0] == 'al':
            for a in list(st.mem):
                if a == addr or (absint.root(a) == r and absint.cls(a) == absint.cls(addr)): del st.mem[a]
            return
        super().kill(st, addr)

    def killcall(s, st, ins, classes, args):
        if ins.callee in s.c.pure: return
        super().killcall(st, ins, [c for c in classes if not (c[0] == 'F' and c[1] in NOALIAS)], [a for a in args if absint.root(a)[0] != 'al'])

    def killmem(s, st, ins, args, fn):
        src = dst = None
        if ins.callee.startswith('llvm.memcpy'): src = args[1]; dst = args[0]
        super().killmem(st, ins, args, fn)
        if src is not None and dst[0] == 'al' and src[0] != 'g': st.mem[('f', dst, '%', 'copy')] = src


class Immut:
    def __contains__(s, x): return x[0] in NOALIAS


class Client(absint.Client):
    K = 4000
    KH = 400
    VS = 64
    immutable = Immut()
    pure = ('snprintf', 'fprintf', 'strlen', 'strcmp', 'is_const_expr', 'is_const_double', 'is_memop', 'is_memop_ptr', 'eval_memop', 'eval_var_opt', 'memcmp', 'bcmp', 'gen_expr', 'gen_addr', 'gen_cond',
            'gen_void_expr', 'add_type', 'new_cast', 'pop_gp', 'pop_fp', 'gen_deref_opt', 'gen_member_opt', 'bool_expr_opt')

    def __init__(s, a): s.a = a

    def entry(s, st, fn):
        m = M()
        st.user = ((m.freeze(),), ())
        s.a.init(st)

    def extra_roots(s, st):
        r = [t for t in st.facts]
        return r

    def norm(s, st): pass

    def load(s, st, ins, addr, val):
        if s.fp and s.a.cf.get('help') == 'fval':
            v = s.a.help.load(st, ins, addr)
            if v is not None: return v
        if val is not None: return None
        a = s.a
        if addr[0] == 'f':
            if addr[1][0] == 'al':
                v = s.a.cell(st, addr)
                if v is not None: return v
            else:
                v = a.cfgcell(addr)
                if v is not None: return v
                if addr[2] in NOALIAS: return ('av', addr, absint.width(ins.ty))
        r = addr
        while r[0] == 'x': r = r[1]
        if r[0] == 'g':
            if r[1] in a.globals_fixed: return C(a.globals_fixed[r[1]])
            v = a.ginit(addr)
            if v is not None: return v
        return None

    def join_user(s, a, b): return a if a == b else None

    def call(s, st, ins, args):
        return s.a.call(st, ins, args)

    def ret(s, st, ins, v): s.a.rets.append((st, v))


class Emit:
    def __init__(s, mod, mods=None):
        s.m = mod
        s.mods = mods or absint.Mods(mod)
        if not T: types(mod.E)
        s.tab, s.tabi = [], {}
        s.x = x86.Exec(s.tab)
        s.rep = {}
        s.n = dict(configs=0, paths=0, decided=0, undecided=0, lines=0)
        s.und, s.undex = {}, {}
        s.kn = {}
        s.writers = set()
        for k in mod.enum_names('ND_ADD'):
            s.kn[mod.E(k)] = k[3:]
        s.nk = {v: k for k, v in s.kn.items()}
        stored = set()
        for f in mod.defs.values():
            for i in f.instrs():
                if i.op == 'store':
                    o = i.ops[1]
                    while isinstance(o, str):
                        g = f.by_id.get(o)
                        if g is None or g.op != 'getelementptr': break
                        o = g.ops[0]
                    if isinstance(o, list) and o[0] == 'g': stored.add(o[1])
        s.stored = stored
        s.globals_fixed = {}
        s.gtypes = {}
        di = [f['name'] for f in mod.di.get('Type', [])]
        for k, g in mod.globals.items():
            i = g.get('init')
            if g.get('ty') == '%struct.Type' and i and i[0] == 'st' and k not in stored and len(di) == len(i[1]):
                v = {n: x[1] for n, x in zip(di, i[1]) if x[0] == 'i'}
                for t in T.values():
                    if t.cls != 'agg' and not t.base and (t.kind, t.size, int(t.uns)) == (v['kind'], v['size'], v['is_unsigned']): s.gtypes[('g', k, 0)] = t
        from consteval import Preds
        s.preds = Preds(mod, s.mods)

    # ---- constants
    def const(s, name):
        g = s.m.globals.get(name)
        if g and g.get('init') and (g.get('const') or name not in s.stored): return g
        return None

    def ginit(s, addr):
        path = []
        r = addr
        while r[0] == 'x':
            if r[2][0] != 'c': return None
            path.insert(0, (r[2][1], r[3])); r = r[1]
        g = s.const(r[1])
        if g is None: return None
        v, ty = g['init'], g['ty']
        if r[2]:
            if path or v[0] != 'arr' or r[2] % 8 or not re.match(r'\[\d+ x (ptr|i64|%.*\*|.*\*)\]$', ty): return None
            path = [(r[2] // 8, re.match(r'\[\d+ x (.*)\]$', ty).group(1))]
        if v[0] == 'zero': return None
        while v[0] == 'arr':
            m = re.match(r'\[(\d+) x (.*)\]$', ty)
            if not m: return None
            ty = m.group(2)
            k = 0
            if path and path[0][1] == ty: k = path.pop(0)[0]
            if not 0 <= k < len(v[1]): return None
            v = v[1][k]
        if path: return None
        if v[0] == 'null': return NULL
        if v[0] == 'g': return ('g', v[1], v[2])
        if v[0] == 'i': return C(v[1])
        return None

    def gstr(s, t):
        if t[0] != 'g': return None
        g = s.const(t[1])
        if g is None: return None
        i = g['init']
        if i[0] == 'str': return bytes.fromhex(i[1])[t[2]:].split(b'\0')[0].decode('latin1')
        if i[0] == 'zero': return ''
        return None

    # ---- placeholders
    def ph(s, e):
        k = s.tabi.get(e)
        if k is None:
            k = s.tabi[e] = len(s.tab); s.tab.append(e)
        return '\x01%d\x02' % k

    CONV = re.compile(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?(hh|h|ll|l|j|z|t)?([a-zA-Z]))')

    def fmt(s, st, f, args):
        """rendered texts: list of (state, text) or None when not decided"""
        out = [(st, '')]
        pos = 0
        args = list(args)
        for m in s.CONV.finditer(f):
            lit = f[pos:m.start()]
            pos = m.end()
            if m.group(0) == '%%':
                out = [(q, t + lit + '%') for q, t in out]; continue
            a = args.pop(0)
            nxt = []
            for q, t in out:
                for q2, tx in s.argtext(q, a, m.group(2), m.group(1)):
                    nxt.append((q2, t + lit + tx))
            out = nxt
        return [(q, t + f[pos:]) for q, t in out]

    def argtext(s, st, a, conv, ln):
        if conv == 's':
            if a[0] == 'op' and a[1] == 'select':
                r = []
                for truth, v in ((True, a[4]), (False, a[5])):
                    n = st.copy()
                    if s.e.assume(n, a[3], truth): r += s.argtext(n, v, conv, ln)
                return r
            g = s.gstr(a)
            if g is not None: return [(st, g)]
            v = st.mem.get(a)
            if v is not None and v[0] == 'str': return [(st, v[1])]
            if a[0] == 'str': return [(st, a[1])]
            return [(st, s.ph(('S', a)))]
        if conv in 'diu':
            vs = s.e.vset(st, a)
            if vs is not None and len(vs) == 1:
                v = next(iter(vs))
                w = 64 if ln in ('l', 'll', 'j', 'z', 't') else 32
                v = v & ((1 << w) - 1) if conv == 'u' else sx(v, w)
                return [(st, str(v))]
            w = 64 if ln in ('l', 'll', 'j', 'z', 't') else 32
            a = s.subst(st, a)
            return [(st, s.ph(('I', ext(a, w, True) if w < 64 else a)))]
        return [(st, s.ph(('S', a)))]

    def subst(s, st, a): return a

    # ---- threads
    def threads(s, st): return [M.thaw(t) for t in st.user[0]]

    def put(s, st, th):
        st.user = (tuple(t.freeze() for t in th), st.user[1])

    def known(s, st, k):
        for a, b in st.user[1]:
            if a == k: return b
        return None

    def learn(s, st, k, v):
        st.user = (st.user[0], tuple(sorted(st.user[1] + ((k, v),), key=str)))

    def emit(s, st, text):
        s.n['lines'] += 1
        try: s.put(st, s.x.lines(s.threads(st), text))
        except Poison as e:
            th = s.threads(st)
            for t in th: t.poison = str(e)
            s.put(st, th)

    def each(s, st, fn):
        th = s.threads(st)
        out = []
        for t in th:
            if t.wait is None and not t.poison:
                try: r = fn(t)
                except Poison as e: t.poison = str(e); r = None
                out.extend(r if r is not None else [t])
            else: out.append(t)
        s.put(st, out)

    # ---- configuration
    def node(s, *path):
        n = A0
        for p in path: n = av(n, 'Node', p)
        return n

    def tyterm(s, n): return av(n, 'Node', 'ty')

    def cfgcell(s, addr):
        base, stn, f = addr[1:]
        if stn == 'Type':
            t = s.cfg_types.get(base)
            if t is not None:
                r = {'kind': t.kind, 'size': t.size, 'is_unsigned': int(t.uns), 'is_atomic': 0}.get(f)
                if r is not None: return C(r)
                if f == 'base' and not t.base: return NULL
        elif stn == 'Node' and base == A0 and f == 'kind' and s.cfg_kind is not None: return C(s.cfg_kind)
        elif stn == 'Node' and base == A0 and f == 'arith_kind' and s.cfg_akind is not None: return C(s.cfg_akind)
        elif stn == 'Node' and f == 'kind' and base in s.cfg_kinds: return C(s.nk[s.cfg_kinds[base]])
        elif addr in s.cfg_cells: return s.cfg_cells[addr]
        return None

    def init(s, st):
        for t, ty in s.cfg_types.items():
            if t[0] == 'g': continue
            st.facts[t] = ('nin', frozenset((0,)))
            if ty.base: st.facts[av(t, 'Type', 'base')] = ('nin', frozenset((0,)))
        for k, v in s.cf.get('args', {1: 0}).items(): st.facts[('a', k)] = ('in', frozenset((v,)))
        if s.cf.get('kind') in ('ASSIGN', 'ARITH_ASSIGN', 'POST_INCDEC') and s.node('lhs') not in s.cfg_kinds:
            st.facts[av(s.node('lhs'), 'Node', 'kind', 32)] = ('in', frozenset(s.nk[k] for k in ('VAR', 'DEREF', 'MEMBER', 'COMMA', 'CHAIN')))
        for p in s.cfg_nodes: st.facts[p] = ('nin', frozenset((0,)))
        if s.cf.get('help'): s.help.init(st)

    def cell(s, st, addr):
        """field of a local node"""
        src = st.mem.get(('f', addr[1], '%', 'copy'))
        if src is not None:
            a = ('f', src) + addr[2:]
            v = st.mem.get(a)
            if v is None: v = s.cfgcell(a)
            if v is None:
                ty = next((f['size'] for f in s.m.di.get(addr[2], []) if f['name'] == addr[3]), 64)
                v = ('av', a, ty)
            return v
        v = st.mem.get(('f', addr[1], '%', 'typed'))
        if v is not None and addr[2:] == ('Node', 'ty'): return v
        return None

    # ---- meaning of nodes
    def mean(s, st, n):
        if n[0] == 'newc': return n[1]
        if n[0] != 'al': return ('V', n)
        m = st.mem.get(('f', n, '%', 'mean'))
        if m is not None: return m
        def g(f):
            a = fld(n, 'Node', f)
            v = st.mem.get(a)
            return v if v is not None else s.cell(st, a)
        k = g('kind')
        src = st.mem.get(('f', n, '%', 'copy'))
        if src is not None and src[0] != 'al':
            for a, v in st.mem.items():
                if a[0] == 'f' and a[1] == n and a[2] == 'Node':
                    b = ('f', src) + a[2:]
                    w = st.mem.get(b) or s.cfgcell(b) or ('av', b, s.fieldw('Node', a[3]))
                    if w != v: break
            else: return ('V', src)
        if k is None or k[0] != 'c':
            vs = s.e.vset(st, k) if k is not None else None
            if vs and len(vs) == 1: k = C(next(iter(vs)))
            else: raise Poison('kind of a node that is built here')
        K = s.kn.get(k[1])
        ty = g('ty')
        if K == 'NULL_EXPR': return ('cur', ty, g('member'))
        if K == 'NUM': return ('N', g('val') or C(0), ty)
        if K == 'ADDR': return ('E', 'ADDR', None, ('A', g('lhs')))
        if K in ('VAR',): return ('obj', g('var'))
        l, r = g('lhs'), g('rhs')
        kids = tuple(s.mean(st, x) for x in (l, r) if x is not None and x != NULL)
        return ('E', K, ty if ty is not None and ty != NULL else None) + kids

    # ---- contracts
    def call(s, st, ins, args):
        f = getattr(s, 'c_' + (ins.callee or ''), None)
        if f is not None: return f(st, ins, args)
        if ins.callee in s.m.defs and s.m.fns[ins.callee].argty and s.m.fns[ins.callee].argty[0] == 'Type*':
            ks = s.preds.of(ins.callee)
            if ks is not None:
                ad = fld(args[0], 'Type', 'kind')
                t = st.mem.get(ad)
                if t is None: t = s.cfgcell(ad)
                if t is None: t = ('av', ad, 32)
                st.mem[ad] = t
                out = []
                for truth in (True, False):
                    n = st.copy()
                    if s.e.switch_assume(n, t, *((ks, None) if truth else (None, ks))): out.append((n, C(-1 if truth else 0)))
                return out
        if ins.callee in s.m.defs and ins.ty == 'void' or ins.callee in s.writers:
            s.each(st, lambda t: setattr(t, 'poison', 'call of %s' % ins.callee))
        return None

    def c_is_bitfield(s, st, ins, args):
        n = args[0]
        k = st.mem.get(fld(n, 'Node', 'kind')) or s.cfgcell(fld(n, 'Node', 'kind')) or (s.cell(st, fld(n, 'Node', 'kind')) if n[0] == 'al' else None) or av(n, 'Node', 'kind', 32)
        mem = s.nk['MEMBER']
        out = []
        for truth in (True, False):
            q = st.copy()
            if not s.e.refine_eq(q, k, mem, truth) if k[0] != 'c' else (k[1] == mem) != truth: continue
            if not truth: out.append((q, C(0))); continue
            b = s.bit(q, n)
            for v in ((b,) if b is not None else (True, False)):
                q2 = q.copy()
                if b is None: s.learn(q2, ('bf', n), v)
                out.append((q2, C(-1 if v else 0)))
        return out

    def bit(s, st, n):
        if n == A0: return s.cfg_bf
        if n == s.node('lhs') and s.cfg_lbf is not None: return s.cfg_lbf
        t = s.cfg_types.get(s.tyterm(n))
        if t is not None and (t.cls != 'gp' or t.base): return False
        return s.known(st, ('bf', n))

    def fork(s, st, key, yes, ok=None):
        """a pure predicate: the same answer each time"""
        k = s.known(st, key)
        out = []
        for v in ((True, False) if k is None else (k,)):
            q = st.copy() if k is None else st
            if k is None and v and ok and not ok(q): continue
            if k is None: s.learn(q, key, v)
            r = C(-1 if v else 0)
            if v: yes(q)
            out.append((q, r))
        return out

    def c_is_const_expr(s, st, ins, args):
        n = args[0]
        m = s.mean(st, n)
        if m[0] == 'N':
            if args[1] != NULL: st.mem[args[1]] = m[1]
            return [(st, C(-1))]
        def yes(q):
            if args[1] != NULL: q.mem[args[1]] = m
        r = s.fork(st, ('const', m), yes, s.noeff(st, n))
        w = absint.width(ins.ty)
        return [(q, v if w == 1 else C(v[1] & 1)) for q, v in r]

    EFFECTS = ('ASSIGN', 'ARITH_ASSIGN', 'POST_INCDEC', 'FUNCALL', 'EXCH', 'CAS', 'STMT_EXPR', 'VA_START', 'VA_ARG', 'VA_COPY', 'ASM', 'NULL_EXPR', 'ALLOCA', 'LABEL_VAL', 'THREAD_FENCE')
    LVAL = ('VAR', 'DEREF', 'MEMBER', 'CAST')

    def only(s, st, n, names, inn=True):
        """constrain the kind of an operand; False when that is impossible"""
        if n[0] == 'newc': return True
        names = frozenset(s.nk[k] for k in names if k in s.nk)
        ad = fld(n, 'Node', 'kind')
        k = st.mem.get(ad) or s.cfgcell(ad) or (s.cell(st, ad) if n[0] == 'al' else None) or av(n, 'Node', 'kind', 32)
        if k[0] == 'c': return (k[1] in names) == inn
        return s.e.switch_assume(st, k, *((names, None) if inn else (None, names)))

    def noeff(s, st, n): return lambda q: s.only(q, n, s.EFFECTS, False)

    def c_is_const_double(s, st, ins, args):
        m = s.mean(st, args[0])
        def yes(q):
            if args[1] != NULL: q.mem[args[1]] = m
        return s.fork(st, ('constd', m), yes, s.noeff(st, args[0]))

    def memop(s, st, args, kind, flag):
        m = s.mean(st, args[0])
        if m[0] == 'E' and m[1] == 'ADDR' and kind == 'p': m = m[3]
        def yes(q):
            q.mem[args[1]] = ('str', s.ph(('O', kind, m)))
            q.mem[args[2]] = ('str', s.ph(('B', kind, m)))
        n = args[0]
        ok = None
        if n[0] != 'newc' and kind == 'm':
            def ok(q):
                if n[0] != 'al' and s.bit(q, n): return False
                a, b = s.cfg_types.get(s.tyterm(n)), s.cfg_types.get(s.tyterm(av(n, 'Node', 'lhs')))
                c = a and b and (a.size != b.size or a.name == 'bool' or a.cls != 'gp' or b.cls != 'gp')
                return s.only(q, n, s.LVAL[:3] if c else s.LVAL)
        elif n[0] == 'al' and m[0] == 'A':
            x = m[1]
            ok = lambda q: s.only(q, x, s.LVAL[:3]) if x[0] in ('av', 'a') else True
        elif n[0] != 'newc':
            def ok(q):
                t = s.cfg_types.get(s.tyterm(n))
                if t is not None and not t.base: return False
                if t is not None and t.cls == 'agg': return s.only(q, n, s.LVAL[:3])
                return s.only(q, n, s.LVAL + ('ADDR',)) if n[0] == 'av' and t is None else s.only(q, n, ('ADDR', 'CAST'))
        return s.fork(st, ('memop', kind, m, flag), yes, ok)

    def c_is_memop(s, st, ins, args): return s.memop(st, args, 'm', args[3])
    def c_is_memop_ptr(s, st, ins, args): return s.memop(st, args, 'p', None)

    def c_eval_var_opt(s, st, ins, args):
        """no variable, or the one a node denotes a part of, and where in it"""
        n = args[0]
        q0 = st.copy()
        out = [(q0, NULL)]
        ad = fld(n, 'Node', 'kind')
        k = st.mem.get(ad) or s.cfgcell(ad) or av(n, 'Node', 'kind', 32)
        for names, res in ((('VAR',), av(n, 'Node', 'var')), (('MEMBER', 'DEREF'), ('mvar', n))):
            q = st.copy()
            names = frozenset(s.nk[x] for x in names)
            if k[0] == 'c':
                if k[1] not in names: continue
            elif not s.e.switch_assume(q, k, names, None): continue
            q.facts[res] = ('nin', frozenset((0,)))
            q.mem[args[1]] = C(0) if res[0] == 'av' else ('vofs', n, 32)
            out.append((q, res))
        return out

    def c_memcmp(s, st, ins, args):
        if s.cf.get('help') != 'fval': return None
        return s.help.memcmp(st, args)
    c_bcmp = c_memcmp

    def c_strcmp(s, st, ins, args):
        a = st.mem.get(args[0], args[0])
        if a[0] == 'str' and s.gstr(args[1]) == '%rip':
            return [(q, C(0) if v != C(0) else C(1)) for q, v in s.fork(st, ('rip', a[1]), lambda q: None)]
        return None

    def c_snprintf(s, st, ins, args):
        f = s.gstr(args[2])
        if f is None: return None
        out = []
        for q, t in s.fmt(st, f, args[3:]):
            q.mem[args[0]] = ('str', t)
            out.append((q, C(len(t))))
        return out

    def c_fprintf(s, st, ins, args):
        f = s.gstr(args[1])
        if f is None:
            if args[1][0] == 'op' and args[1][1] == 'select':
                out = []
                for truth, v in ((True, args[1][4]), (False, args[1][5])):
                    n = st.copy()
                    if s.e.assume(n, args[1][3], truth): out += s.c_fprintf(n, ins, [args[0], v] + args[2:])
                return out
            s.each(st, lambda t: setattr(t, 'poison', 'text is not constant'))
            return None
        out = []
        for q, t in s.fmt(st, f, args[2:]):
            s.emit(q, t)
            out.append((q, C(0)))
        return out

    def setval(s, t, m, evt=True):
        """the value of a node is where generated code leaves it"""
        if m[0] == 'cur': return
        st_ = t.st
        cur = dict(t.regs)
        t.clobber()
        m2 = s.fixcur(m, cur, st_)
        t.regs['rax'] = ('reg', m2); t.regs['xmm0'] = m2; t.st = (m2,)
        if evt: t.eff += (('eval', m2),)

    def fixcur(s, m, regs, st_):
        if m[0] == 'cur': return ('curv', m[1], m[2], regs.get('rax', ('junk', 'rax')), regs.get('xmm0', ('junk', 'x')), st_[0] if st_ else ('junk', 'st'))
        if m[0] == 'E': return m[:3] + tuple(s.fixcur(x, regs, st_) for x in m[3:])
        return m

    def c_gen_expr(s, st, ins, args):
        try: m = s.mean(st, args[0])
        except Poison as e:
            s.each(st, lambda t: setattr(t, 'poison', str(e))); return None
        s.each(st, lambda t: s.setval(t, m))
        return [(st, None)]

    def c_gen_expr2(s, st, ins, args): return s.c_gen_expr(st, ins, args)

    def c_gen_funcall(s, st, ins, args):
        m = s.mean(st, args[0])
        ty = s.cfg_types.get(s.tyterm(args[0]))
        if ty is None:
            f = st.facts.get(av(s.tyterm(args[0]), 'Type', 'kind', 32))
            if f == ('in', frozenset((T['bool'].kind,))): ty = T['bool']
        def g(t):
            if ty is None or ty.cls != 'gp': raise Poison('call of a function')
            s.setval(t, m)
            if ty.size < 8: t.regs['rax'] = op('or', 64, ext(trunc(('reg', m), ty.bits), ty.bits, False), op('shl', 64, t.junk(), C(ty.bits)))
        s.each(st, g)
        return [(st, None)]

    def c_gen_void_expr(s, st, ins, args):
        m = s.mean(st, args[0])
        def f(t):
            t.clobber(); t.st = (); t.eff += (('eval', m),)
        s.each(st, f)
        return [(st, None)]
    c_gen_void_assign = c_gen_void_expr
    c_gen_void_arith_assign = c_gen_void_expr

    def c_gen_addr(s, st, ins, args):
        n = args[0]
        m = s.mean(st, n)
        a = ('A', n) if m[0] == 'V' else ('A', m)
        def f(t):
            t.clobber(); t.st = (); t.regs['rax'] = a; t.eff += (('evala', n),)
        s.each(st, f)
        return [(st, None)]

    def c_gen_cond(s, st, ins, args):
        m = s.mean(st, args[0])
        j = s.e.vset(st, args[1])
        if j is None or len(j) != 1:
            out = []
            for truth in (True, False):
                n = st.copy()
                if s.e.assume(n, args[1], truth): out.append((n, truth))
        else: out = [(st, bool(next(iter(j)) & 1))]
        res = []
        for q, jc in out:
            lb = s.argtext(q, args[2], 's', None)[0][1]
            def f(t):
                t.clobber(); t.st = (); t.eff += (('eval', m),)
                a, b = t, t.copy()
                a.cond += ((('truth', m), not jc),)
                b.cond += ((('truth', m), jc),); b.wait = lb
                return [a, b]
            s.each(q, f)
            res.append((q, None))
        return res

    def c_load_fval(s, st, ins, args):
        v = args[1]
        def f(t):
            r = ('FV', v) if v[0] not in ('V', 'E') else v
            t.regs['xmm0'] = r; t.st = (r,)
            for k in ('rax', 'rdx'): t.regs[k] = t.junk()
        s.each(st, f)
        return [(st, None)]

    # saving and restoring
    def c_push(s, st, ins, args):
        s.each(st, lambda t: setattr(t, 'slots', t.slots + (('gp', t.get('rax')),)))
        return [(st, None)]

    def c_push_from(s, st, ins, args):
        r = s.argtext(st, args[0], 's', None)[0][1]
        s.each(st, lambda t: setattr(t, 'slots', t.slots + (('gp', t.get(s.x.reg(r)[0])),)))
        return [(st, None)]

    def c_pushf(s, st, ins, args):
        s.each(st, lambda t: setattr(t, 'slots', t.slots + (('fp', t.get('xmm0')),)))
        return [(st, None)]

    def c_push_x87(s, st, ins, args):
        s.each(st, lambda t: setattr(t, 'slots', t.slots + (('ld', s.x.fpop(t)),)))
        return [(st, None)]

    def popv(s, t, c):
        if not t.slots: raise Poison('nothing saved')
        k, v = t.slots[-1]
        t.slots = t.slots[:-1]
        return v if k == c else ('junk', 'slot of another class')

    def bools(s, st, v):
        r = []
        for truth in (True, False):
            n = st.copy()
            if s.e.assume(n, v if v[0] != 'c' else C(-1 if v[1] else 0), truth): r.append((n, truth))
        return r

    def c_pop_gp(s, st, ins, args):
        out = []
        for q, r64 in s.bools(st, args[0]):
            for q2, must in s.bools(q, args[2]):
                for q3, dest in s.argtext(q2, args[1], 's', None):
                    for inreg in ((True, False) if not must else (False,)):
                        q4 = q3.copy()
                        nm = None
                        def f(t):
                            v = s.popv(t, 'gp')
                            if not r64: v = ext(v, 32, False)
                            p = 'P%d' % len(t.slots)
                            t.regs[p] = v
                            if not inreg:
                                s.x.wr(t, dest, 64 if r64 else 32, v)
                                if s.x.reg(dest)[1] != (64 if r64 else 32): raise Poison('register width')
                        th = [t for t in s.threads(q4) if t.wait is None]
                        k = (len(th[0].slots) - 1) if th else 0
                        s.each(q4, f)
                        out.append((q4, ('str', '%%P%d%s' % (k, 'q' if r64 else 'd')) if inreg else ('str', dest)))
        return out

    def c_pop_fp(s, st, ins, args):
        out = []
        for q, x64 in s.bools(st, args[0]):
            for q2, must in s.bools(q, args[2]):
                d = args[1]
                for inreg in ((True, False) if not must else (False,)):
                    q3 = q2.copy()
                    th = [t for t in s.threads(q3) if t.wait is None]
                    k = 100 + (len(th[0].slots) - 1 if th else 0)
                    if d[0] != 'c': raise Broken('pop_fp to a register that is not constant')
                    def f(t):
                        v = s.popv(t, 'fp')
                        if not x64: v = ('ss', v)
                        t.regs['xmm%d' % (k if inreg else d[1])] = v
                    s.each(q3, f)
                    out.append((q3, C(k) if inreg else d))
        return out

    def c_pop_x87(s, st, ins, args):
        s.each(st, lambda t: s.x.fpush(t, s.popv(t, 'ld')))
        return [(st, C(-1))]

    def c_gen_mem_copy2(s, st, ins, args):
        x = [s.argtext(st, a, 's', None)[0][1] for a in args[:4]]
        sz = s.e.vset(st, args[4])
        def f(t):
            if sz is None or len(sz) != 1: raise Poison('size of a copy')
            n = next(iter(sz))
            a, b = s.x.addr(t, '%s(%s)' % (x[0], x[1])), s.x.addr(t, '%s(%s)' % (x[2], x[3]))
            v = s.x.load(t, a, n)
            s.x.store(t, b, n, v)
            t.regs['rdx'] = t.junk(); t.regs['xmm0'] = t.junk()
        s.each(st, f)
        return [(st, None)]

    # nodes built while generating code
    def c_add_type(s, st, ins, args):
        n = args[0]
        if n[0] != 'al': return [(st, None)]
        try: m = s.mean(st, n)
        except Poison as e:
            s.each(st, lambda t: setattr(t, 'poison', str(e))); return [(st, None)]
        st.mem[('f', n, '%', 'mean')] = m
        # operands are converted: fields read from here on are new nodes
        if m[0] == 'E' and m[1] not in ('ADDR', 'ASSIGN') and len(m) >= 4:
            for f, x in zip(('lhs', 'rhs'), m[3:]):
                st.mem[fld(n, 'Node', f)] = ('newc', ('E', 'OPND', m[1], f, x) + m[3:])
        return [(st, None)]

    def c_new_cast(s, st, ins, args):
        m = s.mean(st, args[0])
        return [(st, ('newc', ('E', 'CAST', args[1], m)))]

    def c_gen_deref_opt(s, st, ins, args):
        m = s.mean(st, args[0])
        o = st.mem.get(args[1], C(0))
        d = ('delta', m)
        def f(t):
            t.clobber(); t.regs['rax'] = op('sub', 64, m, d); t.eff += (('eval', m),)
        s.each(st, f)
        st.mem[args[1]] = x86.add(o, d)
        return [(st, None)]

    def c_gen_member_opt(s, st, ins, args):
        n = args[0]
        o = st.mem.get(args[1], C(0))
        d = ('delta', n)
        def f(t):
            t.clobber(); t.regs['rax'] = op('sub', 64, ('A', n), d); t.eff += (('evala', n),)
        s.each(st, f)
        st.mem[args[1]] = x86.add(o, d)
        return [(st, None)]

    def c_print_loc(s, st, ins, args): return [(st, None)]
    def c_clobber_all_regs(s, st, ins, args): return [(st, None)]
    def c_error_tok(s, st, ins, args): return [(st, None)]

    def c_bool_expr_opt(s, st, ins, args):
        """no node, the node itself or one below it whose truth value (or its
        negation) is the node's"""
        n, out = args[0], []
        cl = frozenset(s.nk[k] for k in ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE', 'LOGAND', 'LOGOR'))
        kt = av(n, 'Node', 'kind', 32)
        kv = s.cfgcell(fld(n, 'Node', 'kind'))
        ty = s.cfg_types.get(s.tyterm(n))
        def kinds(q, t, v, inn):
            if v is not None: return (v[1] in inn) if True else None
            return s.e.switch_assume(q, t, inn, None)
        # none
        q = st.copy()
        out.append((q, NULL))
        # itself
        q = st.copy()
        if kinds(q, kt, kv, cl):
            q.mem[args[1]] = C(0); out.append((q, n))
        if ty is None or ty.name == 'bool':
            q = st.copy()
            if kv is None or kv[1] not in cl:
                if ty is None: s.e.refine_eq(q, av(s.tyterm(n), 'Type', 'kind', 32), T['bool'].kind, True)
                q.mem[args[1]] = C(0); out.append((q, n))
        # below
        e = ('bexp', n)
        below = frozenset((s.nk['NOT'], s.nk['CAST']))
        if ty is None or ty.cls == 'gp':
            for how in ('cmp', 'bool'):
                for flip in (0, 1):
                    q = st.copy()
                    if not kinds(q, kt, kv, below): continue
                    ek = av(e, 'Node', 'kind', 32)
                    bl = s.cf.get('below')
                    if how == 'cmp': q.facts[ek] = ('in', cl if not bl else frozenset((s.nk[bl[0]],)))
                    else:
                        q.facts[ek] = ('nin', cl)
                        q.facts[av(s.tyterm(e), 'Type', 'kind', 32)] = ('in', frozenset((T['bool'].kind,)))
                    q.facts[e] = ('nin', frozenset((0,)))
                    for a, b in ((e, n), (n, e)): q.facts[op('icmp eq', 64, a, b)] = ('in', frozenset((0,)))
                    s.learn(q, ('bexp', n), e); s.learn(q, ('bflip', n), bool(flip))
                    q.mem[args[1]] = C(flip)
                    out.append((q, e))
        return out

    def bexp_of(s, st, n): return s.known(st, ('bexp', n))
    def small(s, st, n): return any(k[0] == 'rip' and v for k, v in st.user[1])
    def isbf(s, st, n): return bool(s.bit(st, n))

    def fieldw(s, stn, f):
        return next((x['size'] for x in s.m.di.get(stn, []) if x['name'] == f), 64)

    # ==== one configuration ================================================
    def setup(s, cf):
        s.cf = cf
        s.root = A0
        s.cfg_kind = s.nk[cf['kind']] if cf.get('kind') else None
        s.cfg_akind = s.nk[cf['akind']] if cf.get('akind') else None
        s.cfg_bf, s.cfg_lbf = cf.get('bf', False), cf.get('lbf', False if cf.get('kind') in ('ASSIGN', 'ARITH_ASSIGN', 'POST_INCDEC') else None)
        s.cfg_types, s.cfg_cells, s.cfg_kinds, s.cfg_vars = dict(s.gtypes), {}, {}, []
        s.cfg_nodes = [A0] if cf.get('kind') else []
        if cf.get('fty'): s.cfg_types[A0] = T[cf['fty']]
        s.cfg_ptrsub = cf.get('ptrsub', False)
        s.cfg_base = None
        for path, t in cf['types'].items():
            n = A0
            for p in path.split('.') if path else (): n = av(n, 'Node', p)
            s.cfg_types[s.tyterm(n)] = T[t]
            s.cfg_types[av(av(n, 'Node', 'member'), 'Member', 'ty')] = T[t]
            s.cfg_types[av(av(n, 'Node', 'var'), 'Obj', 'ty')] = T[t]
            s.cfg_vars.append(n)
            if n != A0: s.cfg_nodes.append(n)
        for path, t in cf.get('base', {}).items():
            n = A0
            for p in path.split('.') if path else (): n = av(n, 'Node', p)
            s.cfg_types[av(s.tyterm(n), 'Type', 'base')] = T[t]
            s.cfg_base = T[t]
        for path, k in cf.get('kinds', {}).items():
            n = A0
            for p in path.split('.'): n = av(n, 'Node', p)
            s.cfg_kinds[n] = k
        s.cfg_bits = {}
        if cf.get('below'):
            e = ('bexp', A0)
            for x in ('lhs', 'rhs'): s.cfg_types[s.tyterm(av(e, 'Node', x))] = T[cf['below'][1]]; s.cfg_nodes.append(av(e, 'Node', x))
        for path, (w, o) in cf.get('bits', {}).items():
            n = A0
            for p in path.split('.') if path else (): n = av(n, 'Node', p)
            s.cfg_bits[n] = (w, o)
            for f, x in (('bit_width', w), ('bit_offset', o)): s.cfg_cells[fld(av(n, 'Node', 'member'), 'Member', f)] = C(x)
        if s.cfg_lbf: s.cfg_kinds[s.node('lhs')] = 'MEMBER'
        s.globals_fixed = dict(opt_optimize=cf.get('opt', 1), opt_g=0, opt_fpic=cf.get('pic', 0), opt_fpie=0, opt_femulated_tls=0)
        s.rets = []
        c = Client(s)
        c.unroll = c.noalias_args = bool(cf.get('help'))
        c.fp = cf.get('help') == 'fval'
        s.e = Engine(s.m, c, s.mods)
        s.e.maxstates = 2000 if cf.get('help') else 60000
        return s.e

    def run1(s, cf):
        e = s.setup(cf)
        f = s.m.fns[cf.get('fn', 'gen_expr2')]
        s.fn = f
        s.n['configs'] += 1
        e.run(f)
        return s.rets

    # ---- which operands are evaluated
    def meanleaves(s, m, out):
        if m[0] == 'V': out.append(m[1])
        elif m[0] == 'E':
            if m[1] == 'OPND': s.meanleaves(m[4], out)
            else:
                for x in m[3:]:
                    if isinstance(x, tuple) and x:
                        if x[0] in ('V', 'E'): s.meanleaves(x, out)
                        elif x[0] == 'A': out.append(x[1])
        elif m[0] in ('av', 'bexp', 'a'): out.append(m)
        return out

    def evals(s, t):
        out = []
        for e in t.eff:
            if e[0] in ('eval', 'evala'): s.meanleaves(e[1], out)
        return out

    def covered(s, v, st, n, ev, top=False):
        """None or the operand that is missing / evaluated without need"""
        if n in ev: return None
        kn = dict(st.user[1])
        if True:
            for k, x in kn.items():
                if x and k[0] in ('const', 'constd') and (k[1] == ('V', n) or n in s.meanleaves(k[1], [])): return None
            for k, x in kn.items():
                if x and k[0] == 'memop' and (k[2] == ('V', n) or k[2] == ('PA', ('A', n)) or k[2] == ('A', n)): return None
        e = s.bexp_of(st, n)
        if e is not None: return s.covered(v, st, e, ev)
        K = v.kind(n)
        if K is None: return ('missing', n)
        if K in ('NUM', 'VAR', 'NULL_EXPR', 'LABEL_VAL'): return None
        ks = []
        def k(f): return v.kid(n, f)
        if K in ARITH or K in SHIFT or K in CMP or K in ('COMMA', 'CHAIN', 'ASSIGN', 'ARITH_ASSIGN', 'POST_INCDEC', 'EXCH'): ks = [(k('lhs'), 1), (k('rhs'), 1)]
        elif K in ('NEG', 'POS', 'BITNOT', 'NOT', 'CAST', 'ADDR', 'DEREF', 'MEMBER'): ks = [(k('lhs'), 1)]
        elif K == 'LOGAND': ks = [(k('lhs'), 1), (k('rhs'), v.truth(('V', k('lhs'))))]
        elif K == 'LOGOR': ks = [(k('lhs'), 1), (k('rhs'), not v.truth(('V', k('lhs'))))]
        elif K == 'COND':
            c = v.truth(('V', k('cond')))
            ks = [(k('cond'), 1), (k('then'), c), (k('els'), not c)]
        elif K == 'CAS': ks = [(k('cas_addr'), 1), (k('cas_old'), 1), (k('cas_new'), 1)]
        else: return ('missing', n)
        for c, need in ks:
            if need:
                r = s.covered(v, st, c, ev)
                if r: return r
            else:
                for x in ev:
                    if s.within(x, c): return ('extra', c)
        return None

    def within(s, x, n):
        while True:
            if x == n: return True
            if x[0] == 'av' and x[1][2] == 'Node': x = x[1][1]
            else: return False

    # ---- comparison
    def judge(s, cf, tries=160, want=14):
        if cf.get('help'): return s.help.judge(cf)
        rets = s.run1(cf)
        bad = {}
        for i, (st, rv) in enumerate(rets):
            s.n['paths'] += 1
            cc = {}
            v = Val(s, st, None, T, cc)
            if v.infeasible():
                s.n['other'] = s.n.get('other', 0) + 1
                continue
            th = s.threads(st)
            p = [t.poison for t in th if t.poison]
            if p:
                s.und[p[0]] = s.und.get(p[0], 0) + 1
                s.undex.setdefault(p[0], (st, th))
                s.n['undecided'] += 1
                continue
            m = s.static(cf, st, th)
            if m: bad.setdefault(m, (st, th)); continue
            good = 0
            unk = None
            skips = {}
            for k in range(tries):
                rng = random.Random('%d %d' % (i, k))
                v = Val(s, st, rng, T, cc)
                try:
                    r = s.once(cf, st, th, v)
                except Skip as e: skips[str(e)] = skips.get(str(e), 0) + 1; continue
                except Unknown as e: unk = str(e); break
                if r:
                    bad.setdefault(r, (st, th, v)); good = -1; break
                good += 1
                if good >= want: break
            if not unk and not good: unk = 'no choice of operands'
            if unk:
                s.und[unk] = s.und.get(unk, 0) + 1; s.n['undecided'] += 1
                s.undex.setdefault(unk + ' ' + str(sorted(skips.items())), (st, th))
            else: s.n['decided'] += 1
        return bad

    def static(s, cf, st, th):
        for t in th:
            ev = s.evals(t)
            for x in ev:
                if ev.count(x) > 1: return 'an operand is evaluated twice'
            for x in ev:
                for y in ev:
                    if x != y and s.within(x, y): return 'an operand is evaluated twice'
            seen = False
            for e in t.eff:
                if e[0] == 'store' and e[1][0] != 'sp': seen = True
                elif e[0] in ('eval', 'evala') and seen: return 'an operand is evaluated after the result is stored'
                elif e[0] == 'not atomic': return 'the exchange is not atomic'
            if t.slots: return 'a saved value is not restored'
            if t.sp: return 'the stack pointer is not restored'
            if t.cw != ('cw',): return 'the floating-point control word is not restored'
        return None

    def once(s, cf, st, th, v):
        n = A0
        mode = cf.get('mode', 'value')
        K = cf['kind']
        if mode == 'void' and len(th) == 1 and th[0].eff == (('eval', ('V', n)),): return None
        ty = v.type(n)
        exp = []           # expected stores
        L, R = v.kid(n), v.kid(n, 'rhs')
        if K in ('ASSIGN', 'ARITH_ASSIGN', 'POST_INCDEC'):
            tl, tr = v.type(L), v.type(R)
            a = v.A(L)
            if tl.cls == 'agg':
                src = v.V(R)
                new = None
                data = v.loadn(src, tl.size).to_bytes(tl.size, 'little')
                want = a if K == 'ASSIGN' else None
            else:
                old = v.V(L)
                if K == 'ASSIGN': new = v.conv(v.V(R), tr, tl)
                else:
                    ak = cf['akind']
                    mem = v.kid(L, 'member') if s.isbf(st, L) else None
                    tp = v.promote(tl, ('cur', None, mem) if mem is not None else None)
                    if ak in SHIFT: new = v.conv(v.shift(ak, tp, v.conv(old, tl, tp), v.V(R)), tp, tl)
                    elif tl.base: new = v.apply(ak, T['u64'], old, v.conv(v.V(R), tr, T['u64']))
                    else:
                        c = v.uac(tp, tr)
                        new = v.conv(v.apply(ak, c, v.conv(old, tl, c), v.conv(v.V(R), tr, c)), c, tl)
                new = v.bfconv(L, new)
                want = old if K == 'POST_INCDEC' else new
                if s.isbf(st, L):
                    w, o = v.bf(L)
                    u = v.loadn(a, tl.size)
                    u = u & ~(((1 << w) - 1) << o) | ((new & ((1 << w) - 1)) << o)
                    data = u.to_bytes(tl.size, 'little')
                else: data = v.repr(new, tl)[:10]
            exp.append((a, data))
        elif mode == 'addr': want = v.A(n)
        else:
            want = v.V(n)
            if K == 'EXCH':
                x = v.V(R)
                exp.append((v.V(L), v.repr(x, ty)[:10]))
            elif K == 'CAS':
                b = s.cfg_base
                a, o = v.V(v.kid(n, 'cas_addr')), v.V(v.kid(n, 'cas_old'))
                if want: exp.append((a, v.repr(v.V(v.kid(n, 'cas_new')), b)))
                else: exp.append((o, v.loadn(a, b.size).to_bytes(b.size, 'little')))
        if any(n in s.evals(t) for t in th): exp = []
        # is the choice one of this path?
        for t, f in st.facts.items():
            if t[0] in ('a', 'bexp') or t[0] == 'av' and t[2] == 64: continue
            try: x = v.ev(t)
            except Unknown: continue
            if (x in f[1]) != (f[0] == 'in'):
                raise Skip('path')
        sel = []
        for t in th:
            ok = True
            for c, truth in t.cond:
                b = v.truth(c[1]) if c[0] == 'truth' else bool(v.ev(c) & 1)
                if b != truth: ok = False; break
            if ok: sel.append(t)
        if len(sel) != 1: raise Unknown('%d branches are taken' % len(sel))
        t = sel[0]
        for k in t.im:
            try: x = v.ev(k) & termval.M64
            except Unknown: continue
            if not (x < 1 << 31 or x >= (1 << 64) - (1 << 31)): return 'an immediate operand does not fit its instruction'
        if mode == 'cond':
            j = (t.wait is not None)
            if j != (v.truth(('V', n)) == cf['jump']): return 'the branch is taken for the wrong truth value'
            if j and t.wait != s.ph(('S', ('a', 2))): raise Unknown('label')
        elif t.wait is not None: return 'control leaves the expression'
        r = s.covered(v, st, n, s.evals(t), True) if mode != 'addr' or True else None
        if r: return 'an operand is not evaluated' if r[0] == 'missing' else 'an operand is evaluated that is not'
        # stores
        mem = {}
        for e in t.eff:
            if e[0] != 'store': continue
            a = v.ev(e[1]) & termval.M64
            if e[2] == 10 or e[2] in (4, 8) and s.isfp(e[3], v): x = F.enc(v.fp(e[3], 8 * e[2]), 8 * e[2])
            elif e[2] > 10 and e[3][0] == 'M': x = v.loadn(v.ev(e[3][1]) & termval.M64, e[2])
            else: x = v.ev(e[3])
            x &= (1 << (8 * e[2])) - 1
            for i, b in enumerate(x.to_bytes(e[2], 'little')): mem[a + i] = b
        ex = {a + i: b for a, d in exp for i, b in enumerate(d)}
        for a in set(mem) | set(ex):
            g = mem.get(a, v.byte(a))
            w = ex.get(a, v.byte(a))
            if g != w: return 'the value stored is wrong' if a in ex else 'memory outside the object is changed'
        if mode == 'void' or mode == 'cond': return None
        # result
        if ty.cls == 'agg' and ty.name == 'st' and mode == 'value':
            g = v.ev(t.regs.get('rax', ('junk', 'rax')))
            gb = [mem.get((g + i) & termval.M64, v.byte((g + i) & termval.M64)) for i in range(ty.size)]
            wb = [ex.get((want + i) & termval.M64, v.byte((want + i) & termval.M64)) for i in range(ty.size)]
            return None if gb == wb else 'the address is wrong'
        if mode == 'addr' or ty.cls == 'agg':
            return None if v.ev(t.regs.get('rax', ('junk', 'rax'))) & termval.M64 == want & termval.M64 else 'the address is wrong'
        if ty.fw:
            if ty.cls == 'ld':
                if not t.st: return 'no value is left on the floating-point stack'
                g = v.fp(t.st[0], 80)
            else: g = v.fp(t.regs.get('xmm0', ('junk', 'xmm0')), ty.fw)
            return None if F.same(g, want) else 'the result is wrong'
        if not t.fin:
            for x in t.st:
                if x[0] in ('V', 'E', 'curv') and not v.mtype(x).cls == 'ld': continue
                return 'a value is left on the floating-point stack'
        g = v.ev(t.regs.get('rax', ('junk', 'rax')))
        W = 64 if ty.size == 8 or ty.name == 'bool' or K in CMP + ('NOT', 'LOGAND', 'LOGOR') else 32
        return None if (g - want) & ((1 << W) - 1) == 0 else 'the result is wrong'

    def isfp(s, t, v):
        if t[0] in ('ss', 'fzero', 'FV', 'fbits'): return True
        if t[0] in ('V', 'E', 'curv', 'N'): return v.mtype(t).fw is not None
        return t[0] == 'op' and t[1] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcvt', 'i2f')

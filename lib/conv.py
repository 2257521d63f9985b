"""Types of expressions: add_type is interpreted on nodes whose operands have given
types; the type of the result and the conversions put on the operands are compared
with the integer promotions and usual arithmetic conversions of C."""
import jumps
from absint import C, NULL
from emit import T, fld
from ir import Broken

RANK = dict(BOOL=0, CHAR=1, PCHAR=1, SHORT=2, INT=3, LONG=4, LONGLONG=5)
INTS = 'bool pc i8 u8 i16 u16 i32 u32 i64 u64 ll ull'.split()
FLTS = ['f32', 'f64', 'f80']
KIND = dict(bool='BOOL', pc='PCHAR', i8='CHAR', u8='CHAR', i16='SHORT', u16='SHORT', i32='INT', u32='INT', i64='LONG', u64='LONG', ll='LONGLONG', ull='LONGLONG')
GLOB = dict(ty_bool='bool', ty_pchar='pc', ty_char='i8', ty_uchar='u8', ty_short='i16', ty_ushort='u16', ty_int='i32', ty_uint='u32', ty_long='i64', ty_ulong='u64', ty_llong='ll', ty_ullong='ull', ty_float='f32', ty_double='f64', ty_ldouble='f80')
rank = lambda t: RANK[KIND[t]]
UNS = dict(i32='u32', i64='u64', ll='ull')


def promoted(o):
    t, w = o
    if t in FLTS: return t
    if w is not None and w <= 32: return 'u32' if w == 32 and T[t].uns else 'i32'
    return 'i32' if T[t].size < 4 else t


def common(a, b):
    for f in reversed(FLTS):
        if f in (a[0], b[0]): return f
    a, b = promoted(a), promoted(b)
    if T[a].uns == T[b].uns: return a if rank(a) > rank(b) else b
    u, s = (a, b) if T[a].uns else (b, a)
    if rank(u) >= rank(s): return u
    return s if T[s].size > T[u].size else UNS[s]


def width(t, w=None): return 1 if t == 'bool' else w if w is not None else T[t].size * 8


def keeps(src, w, mid, dst):
    """does converting to mid on the way to dst change no value"""
    if mid == dst: return True
    if src in FLTS or mid in FLTS:
        if src in FLTS: return mid in FLTS and FLTS.index(mid) >= FLTS.index(src)
        return mid == 'f80' or mid == 'f64' and width(src, w) <= 53
    if mid == 'bool': return src == 'bool'
    n, su = width(src, w), T[src].uns
    if T[mid].size * 8 >= n and (su == T[mid].uns or su and T[mid].size * 8 > n): return True
    return dst not in FLTS and dst != 'bool' and T[mid].size >= T[dst].size


class Conv(jumps.Judge):
    c_is_bitfield2 = c_is_integer = None
    RECUR = ('is_bitfield2',)

    def begin(s, cf):
        super().begin(cf)
        s.cfg_cur = s.cfg_jc = NULL
        s.raw = ()
        for g, t in GLOB.items(): s.ty_obj(t)

    def ty_obj(s, t, q=False):
        o = s.obj('type %s%s' % (t, ' qualified' if q else ''))
        if o not in s.zero:
            s.zero[o] = True
            s.type(o, T[t])
            s.cell_(o, 'Type', origin=s.ty_obj(t) if q else NULL, is_const=int(q))
        return o

    def state(s, m=None):
        st = super().state(m)
        for g, t in GLOB.items(): st.mem[('g', g, 0)] = s.ty_obj(t)
        st.mem[('g', 'ty_void', 0)] = s.obj('type void')
        for t in s.nn: st.facts[t] = ('nin', frozenset((0,)))
        return st

    def c_is_const_expr(s, st, ins, args): return [(st, C(0))]
    c_is_const_double = c_is_const_expr

    def node(s, name, **kw):
        o = s.obj(name)
        s.zero[o] = True
        s.cell_(o, 'Node', **kw)
        return o

    def operand(s, name, o, how, q):
        t, w = o
        ty = s.ty_obj(t, q)
        if w is None: return s.node(name, kind=s.nk['FUNCALL'], ty=ty)
        m = s.obj('member ' + name)
        s.zero[m] = True
        s.cell_(m, 'Member', is_bitfield=1, bit_width=w, ty=ty)
        n = s.node('member node ' + name, kind=s.nk['MEMBER'], member=m, ty=ty)
        if how: n = s.node(name, kind=s.nk[how], lhs=n, ty=ty)
        return n

    def tname(s, st, t):
        """the name of a type by what it is"""
        if t is None: return None
        c = [s.get(st, t, 'Type', f) if st.mem.get(fld(t, 'Type', f)) is None else st.mem[fld(t, 'Type', f)] for f in ('kind', 'size', 'is_unsigned')]
        if any(x is None or x[0] != 'c' for x in c): return None
        for n in INTS + FLTS:
            if c[0][1] == T[n].kind and c[1][1] == T[n].size and bool(c[2][1]) == T[n].uns: return n
        return '?'

    def chain(s, st, n, orig):
        """the types of the conversions put on an operand, innermost first"""
        l = []
        while n != orig:
            if n is None or s.kind(st, n) != 'CAST' or len(l) > 8: return None
            l.insert(0, s.tname(st, s.get(st, n, 'Node', 'ty')))
            n = s.get(st, n, 'Node', 'lhs')
        return l

    def bad(s, st, n, orig, o, want, what):
        l = s.chain(st, n, orig)
        if l is None: return 'the %s operand is lost' % what
        if None in l or '?' in l: return 'the %s operand is converted to an unknown type' % what
        end = l[-1] if l else o[0]
        if want is not None and (end != want or not l and o[1] is not None and o[1] < T[o[0]].size * 8): return 'the %s operand is converted to %s, not to %s' % (what, end, want)
        for t in l:
            if not keeps(o[0], o[1], t, end if want is None else want) or want is None and not keeps(o[0], o[1], t, 'f80' if o[0] in FLTS else 'ull') : return 'the %s operand is converted to %s on the way, which changes its value' % (what, t)
        return None

    def judge(s, cf):
        """cf: op, a, b (type, width), how (what surrounds the bit-field), q (qualified)"""
        s.begin(cf)
        op, a, b = cf['op'], cf['a'], cf.get('b')
        x = s.operand('first', a, cf.get('how'), cf.get('q'))
        y = s.operand('second', b, cf.get('how'), cf.get('q2')) if b else NULL
        if op == 'COND': n = s.node('the node', kind=s.nk[op], then=x, els=y, cond=s.operand('condition', ('i32', None), None, 0))
        else: n = s.node('the node', kind=s.nk[op], lhs=x, rhs=y)
        s.cell_(n, 'Node', ty=NULL, tok=s.obj('token'))
        s.errors, s.top = set(), 'add_type'
        s.n['configs'] += 1
        out = []
        for st, _ in s.sub(s.state(), 'add_type', [n]):
            t = s.tname(st, s.get(st, n, 'Node', 'ty'))
            f = ('then', 'els') if op == 'COND' else ('lhs', 'rhs')
            l, r = (s.get(st, n, 'Node', k) for k in f)
            if op in ('SHL', 'SHR', 'SAR'): want = promoted(a), promoted(a), None
            elif op in ('POS', 'NEG', 'BITNOT'): want = promoted(a), promoted(a), None
            elif op in ('NOT', 'LOGAND', 'LOGOR'): want = 'i32', None, None
            elif op == 'ASSIGN': want = a[0], a[0], a[0]
            else:
                c = common(a, b)
                want = c if op not in ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE') else 'i32', c, c
            if t != want[0]: out.append('the type of the result is %s, not %s' % (t, want[0])); continue
            if op == 'ASSIGN': e = None if l == x else 'the object assigned to is another'
            else: e = s.bad(st, l, x, a, want[1], 'first')
            if not e and b: e = s.bad(st, r, y, b, want[2], 'second')
            out.append(e)
        if not out: out.append('valid operands are rejected: %s' % ', '.join(sorted(s.errors)))
        return out

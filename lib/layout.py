"""Layout of structures and unions: the members a definition lists are given, the
offsets, sizes and alignments the compiler computes are compared with the ABI's."""
import abi, emit
from absint import C, NULL
from abi import Ag, fld, av


class Me:
    """a member: type, name, bit-field width or None, alignment asked for"""

    def __init__(s, ty, bits=None, name=True, al=0): s.ty, s.bits, s.name, s.al = ty, bits, name, al

    def text(s):
        t = s.ty.name
        if s.bits is not None: t += '%s:%d' % ('' if s.name else ' ', s.bits)
        elif not s.name: t += ' unnamed'
        if s.al: t += ' aligned(%d)' % s.al
        return t


up = lambda n, a: (n + a - 1) // a * a


def struct(ms, packed, alt):
    """[(offset of its storage unit, bit in it)] per member that stays, size, alignment"""
    pos, al, out = 0, 1, []         # position in bits
    for m in ms:
        t = m.ty
        if m.bits is None or m.name:
            al = max(al, m.al, 1 if packed else t.align)
        agg = isinstance(t, Ag) and t.what != 'ARRAY'
        if m.bits is None:
            a = max(m.al, 1 if packed else t.align)
            pos = up(pos, a * 8)
            out.append((pos // 8, 0))
            pos += t.size * 8
            continue
        if m.bits == 0:
            pos = up(pos, max(t.size, m.al) * 8)
            continue
        if m.al: pos = up(pos, m.al * 8)
        if not packed and pos // (t.size * 8) != (pos + m.bits - 1) // (t.size * 8): pos = up(pos, t.size * 8)
        if m.name: out.append((pos // 8 // t.size * t.size, pos % (t.size * 8)))
        pos += m.bits
    al = max(al, alt)
    return out, up((pos + 7) // 8, al), al


def union(ms, packed, alt):
    al, size, out = 1, 0, []
    for m in ms:
        t = m.ty
        if m.bits is None or m.name:
            al = max(al, m.al, 1 if packed else t.align)
            out.append((0, 0))
        size = max(size, t.size if m.bits is None else (m.bits + 7) // 8)
    al = max(al, alt)
    return out, up(size, al), al


class Layout(abi.Abi):
    def compute(s, what, ms, packed, alt):
        """the results of the compiler: [(members, size, alignment)]"""
        s.begin(dict(opt=1))
        ty = s.ptr(('a', 0))
        s.cell_(ty, 'Type', kind=s.m.E('TY_STRUCT' if what == 'struct' else 'TY_UNION'), size=-1, align=1, is_packed=int(packed), is_flexible=0, origin=NULL, decl_next=NULL)
        p = fld(ty, 'Type', 'members')
        ids = []
        for m in ms:
            x = s.ptr(s.new(p))
            ids.append(x)
            s.cell_(x, 'Member', is_bitfield=int(m.bits is not None), bit_width=m.bits or 0, alt_align=m.al, offset=0, bit_offset=0, is_packed=0)
            if m.name: s.ptr(s.new(fld(x, 'Member', 'name')))
            else: s.cell_(x, 'Member', name=NULL)
            s.type(s.new(fld(x, 'Member', 'ty')), m.ty)
            p = fld(x, 'Member', 'next')
        s.cfg_cells[p] = NULL
        out = []
        for st, v in s.sub(s.state(), what + '_decl', [ty, C(alt)]):
            def cell(b, stn, f):
                v = st.mem.get(fld(b, stn, f))
                return s.cfgcell(fld(b, stn, f)) if v is None else v
            if v != ty: out.append('another type'); continue
            l, x = [], cell(ty, 'Type', 'members')
            while x is not None and x != NULL and len(l) <= len(ms):
                if x not in ids: l = None; break
                l.append((ids.index(x), cell(x, 'Member', 'offset'), cell(x, 'Member', 'bit_offset')))
                x = cell(x, 'Member', 'next')
            out.append((l, cell(ty, 'Type', 'size'), cell(ty, 'Type', 'align')))
        s.n['configs'] += 1
        return out

    def compare(s, what, ms, packed, alt):
        exp = (struct if what == 'struct' else union)(ms, packed, alt)
        want = [i for i, m in enumerate(ms) if m.bits is None or m.name]
        bad = set()
        for r in s.compute(what, ms, packed, alt):
            if isinstance(r, str): bad.add(r); continue
            l, size, align = r
            c = lambda t: t[1] if t is not None and t[0] == 'c' else None
            if l is None or [x[0] for x in l] != want: bad.add('the list of members is not the one declared'); continue
            for k, (i, o, b) in enumerate(l):
                m = ms[i]
                eo, eb = exp[0][k]
                if c(o) is None or m.bits is not None and c(b) is None: bad.add('the offset of a member is not known'); continue
                if m.bits is None:
                    if c(o) != eo: bad.add('member %d is at %d, not at %d' % (i + 1, c(o), eo))
                elif c(o) * 8 + c(b) != eo * 8 + eb: bad.add('bit-field %d is at bit %d, not at %d' % (i + 1, c(o) * 8 + c(b), eo * 8 + eb))
                elif c(b) < 0 or c(o) < 0 or not packed and c(b) + m.bits > m.ty.size * 8: bad.add('bit-field %d does not lie in its storage unit' % (i + 1))
            if c(align) != exp[2]: bad.add('the alignment is %s, not %d' % (c(align), exp[2]))
            if c(size) != exp[1]: bad.add('the size is %s, not %d' % (c(size), exp[1]))
        return bad

    # ---- the other types
    def array(s, t, n):
        """(size, alignment) of an array"""
        s.begin(dict(opt=1))
        b = s.ptr(('a', 0))
        s.type(b, t)
        return [s.made(st, v) for st, v in s.sub(s.state(), 'array_of', [b, C(n)])]

    def pointer(s, t):
        s.begin(dict(opt=1))
        b = s.ptr(('a', 0))
        s.type(b, t)
        return [s.made(st, v) for st, v in s.sub(s.state(), 'pointer_to', [b])]

    def made(s, st, v):
        if v is None: return None
        r = [st.mem.get(fld(v, 'Type', f)) for f in ('kind', 'size', 'align')]
        return tuple(x[1] if x is not None and x[0] == 'c' else None for x in r)

    def c_new_type(s, st, ins, args):
        r = ('out', 'type', ins.id)
        for f, v in zip(('kind', 'size', 'align'), args): st.mem[fld(r, 'Type', f)] = v
        st.facts[r] = ('nin', frozenset((0,)))
        return [(st, r)]

    def basic(s, name):
        """(kind, size, alignment, unsigned) of a type the compiler is built with"""
        g = s.m.globals.get(name)
        v = g['init'] if g else ['null']
        g = s.m.globals.get(v[1]) if v[0] == 'g' and v[2] == 0 else None
        if g is None or g['init'][0] != 'st': return None
        d = {s.m.field('%struct.Type', i)[1]: x[1] for i, x in enumerate(g['init'][1]) if x[0] == 'i'}
        return d.get('kind'), d.get('size'), d.get('align'), d.get('is_unsigned')

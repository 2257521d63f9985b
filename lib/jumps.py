"""Labels, jumps and scopes: the functions of the parser that read statements are interpreted
on token lists in which expressions, declarations and nested statements are one token each."""
import abi, absint, stmts
from absint import C, NULL
from abi import fld, av
from emit import A0, T
from ir import Broken

ALLOC = ('arena_calloc', 'ast_arena_calloc', 'ast_arena_malloc', 'calloc', 'malloc', 'arena_malloc')


class Engine(stmts.Engine):
    # objects are the ones of the configuration or newly made, so that different ones are apart
    def kill(s, st, addr):
        if addr[0] == 'f': st.mem.pop(addr, None); return
        super().kill(st, addr)

    def killmem(s, st, ins, args, fn):
        # these are copies between whole objects, see memcpy and memset below
        if args[0][0] in ('al', 'a') and (ins.callee.startswith('llvm.memset') and args[1] == C(0) or ins.callee.startswith('llvm.memcpy') and args[1][0] in ('al', 'a')): return
        super().killmem(st, ins, args, fn)


class Jumps(abi.Abi):
    ENGINE = Engine
    texts = ('%rbp', '%rsp')

    def G(s, n):
        for g in s.m.globals:
            if g.split('.')[0] == n and (g == n or g.endswith('.parse')): return ('g', g, 0)
        raise Broken('no variable %s' % n)

    def begin(s, cf):
        super().begin(cf)
        s.tt, s.zero, s.vals, s.isdecl = {}, {}, {}, set()
        s.objs = {}
        s.cur, s.jc, s.lb, s.gt, s.sc, s.fnv = (s.G(x) for x in ('current_defr', 'jump_ctx', 'labels', 'gotos', 'scope', 'current_fn'))

    def obj(s, name):
        """a distinct object"""
        if name not in s.objs:
            s.fresh += 1
            s.objs[name] = s.ptr(('a', s.fresh))
        return s.objs[name]

    def name_of(s, x):
        if x == NULL: return 'null'
        return next((k for k, v in s.objs.items() if v == x), str(x)[:60])

    def toks(s, l):
        """tokens: text, or (kind, text), or ('const', value)"""
        ids = []
        for i, x in enumerate(l + ['EOF', 'EOF']):
            o = s.obj('token %d' % i)
            ids.append(o)
            text = x if isinstance(x, str) else x[0]
            s.tt[o] = text
            if not isinstance(x, str): s.vals[o] = x[1]
            kind = 'IDENT' if text.startswith('id:') else 'KEYWORD' if text[0].isalpha() and text.islower() else 'PUNCT' if not text.isupper() else 'EOF'
            s.cell_(o, 'Token', kind=s.m.E('TK_' + kind), label_next=NULL, attr_next=NULL)
        for a, b in zip(ids, ids[1:]): s.cell_(a, 'Token', next=b)
        s.cell_(ids[-1], 'Token', next=ids[-1])
        return ids

    def alloc(s, st, name):
        """a new object, all zero"""
        n = st.mem.get(('g', '%count', 0), C(0))[1]
        st.mem[('g', '%count', 0)] = C(n + 1)
        o = s.objs.get('%s %d' % (name, n))
        if o is None:
            o = s.obj('%s %d' % (name, n))
            s.zero[o] = True
        st.facts[o] = ('nin', frozenset((0,)))
        return o

    def cfgcell(s, addr):
        v = s.cfg_cells.get(addr)
        if v is None and addr[3].startswith('bits@') and addr[1] in s.tt:
            w, n = int(addr[3][5:]), 0
            for f in s.m.di[addr[2]]:
                x = s.cfg_cells.get(addr[:3] + (f['name'],))
                if f['bf'] and w <= f['off'] < w + 64 and x is not None: n |= x[1] << f['off'] - w
            return C(n)
        if v is None and addr[1] in s.zero: return s.null(addr)
        return v if v is not None else super().cfgcell(addr)

    def null(s, addr):
        f = next((f for f in s.m.di.get(addr[2], ()) if f['name'] == addr[3]), None)
        return NULL if f and f['ty'].endswith('*') else C(0)

    def cell(s, st, addr):
        if addr[1][0] in ('al', 'a') and addr not in s.cfg_cells and st.mem.get(('f', addr[1], '%', 'zero')): return s.null(addr)
        return super().cell(st, addr)

    def note(s, st, *e): st.user = (st.user[0] + (e,), st.user[1])
    def state(s, m=None):
        st = super().state(m)
        st.user = ((), ())
        st.mem[s.cur] = s.cfg_cur
        st.mem[s.jc] = s.cfg_jc
        st.mem[s.lb] = s.obj('labels before')
        st.mem[s.gt] = s.obj('gotos before')
        st.mem[s.sc] = s.obj('the scope')
        st.mem[s.fnv] = s.obj('the function')
        for g, t in (('ty_int', 'i32'), ('ty_uint', 'u32')):
            st.mem[('g', g, 0)] = s.obj('type ' + t)
            s.type(s.obj('type ' + t), T[t])
        for t in s.nn: st.facts[t] = ('nin', frozenset((0,)))
        return st

    def get(s, st, b, stn, f):
        a = fld(b, stn, f)
        v = st.mem.get(a)
        if v is None and b[0] == 'al': v = s.cell(st, a)
        if v is None: v = s.cfgcell(a)
        return v

    # ---- tokens
    def text(s, a):
        g = s.gstr(a)
        return g

    def c_equal(s, st, ins, args):
        t, w = s.tt.get(args[0]), s.text(args[1])
        if t is None or w is None: raise Broken('a token that is not known')
        return [(st, C(-1 if t == w else 0))]
    c_equal_kw = c_equal_ext = c_equal

    def adv(s, o): return s.cfg_cells[fld(o, 'Token', 'next')]

    def c_consume(s, st, ins, args):
        t, w = s.tt.get(args[1]), s.text(args[2])
        if t is None or w is None: raise Broken('a token that is not known')
        if t == w: st.mem[args[0]] = s.adv(args[1])
        return [(st, C(-1 if t == w else 0))]

    def c_skip(s, st, ins, args):
        t, w = s.tt.get(args[0]), s.text(args[1])
        if t is None or w is None: raise Broken('a token that is not known')
        return [(st, s.adv(args[0]))] if t == w else []

    def c_equal_tok(s, st, ins, args):
        a, b = s.tt.get(args[0]), s.tt.get(args[1])
        if a is None or b is None: raise Broken('a token that is not known')
        return [(st, C(-1 if a == b else 0))]

    def c_ident_tok(s, st, ins, args):
        if not s.tt[args[1]].startswith('id:'): return []
        st.mem[args[0]] = s.adv(args[1])
        return [(st, args[1])]

    def c_is_typename(s, st, ins, args): return [(st, C(-1 if s.tt[args[0]] == 'TYPE' else 0))]

    def c_error_tok(s, st, ins, args):
        s.errors.add(s.gstr(args[1]) or '?')
        return []
    c_internal_error = c_error_ice = lambda s, st, ins, args: []

    # ---- nodes
    def c_new_node(s, st, ins, args):
        n = s.alloc(st, 'node')
        st.mem[fld(n, 'Node', 'kind')] = args[0]
        st.mem[fld(n, 'Node', 'tok')] = args[1]
        return [(st, n)]

    def c_new_unary(s, st, ins, args):
        [(st, n)] = s.c_new_node(st, ins, [args[0], args[2]])
        st.mem[fld(n, 'Node', 'lhs')] = args[1]
        return [(st, n)]

    def allocate(s, st, ins, args): return [(st, s.alloc(st, 'object'))]
    for _n in ALLOC: locals()['c_' + _n] = allocate

    def c_new_unique_name(s, st, ins, args):
        return [(st, s.alloc(st, 'name'))]

    def noop(s, st, ins, args): return [(st, None)]
    c_add_type = c_static_assertion = c_prepare_inline_asm = c_enter_tmp_scope = noop

    def c_is_integer(s, st, ins, args): return [(st, C(-1))]

    def c_enter_scope(s, st, ins, args):
        st.mem[s.sc] = ('f', st.mem[s.sc], 'Scope', 'inner')
        s.note(st, 'enter')
        return [(st, None)]

    def c_leave_scope(s, st, ins, args):
        sc = st.mem[s.sc]
        st.mem[s.sc] = sc[1] if sc[0] == 'f' and sc[3] == 'inner' else ('unk', 'scope')
        s.note(st, 'leave')
        return [(st, None)]

    def expr(s, st, rest, tok, kinds=('EXPR',)):
        t = s.tt.get(tok)
        if t not in kinds: return None
        n = s.alloc(st, 'expression')
        s.ptr_ty(st, n)
        s.note(st, 'expr', tok, n)
        st.mem[rest] = s.adv(tok)
        return n

    def ptr_ty(s, st, n):
        t = s.obj('type of ' + s.name_of(n))
        s.type(t, s.cf.get('ty', T['i32']))
        st.mem[fld(n, 'Node', 'ty')] = t
        st.mem[fld(n, 'Node', 'kind')] = ('av', fld(n, 'Node', 'kind'), 32)
        st.facts[st.mem[fld(n, 'Node', 'kind')]] = ('nin', frozenset(s.nk[k] for k in ('NUM', 'EXPR_STMT', 'RETURN', 'GOTO')))

    def c_expr(s, st, ins, args):
        n = s.expr(st, args[0], args[1])
        return [] if n is None else [(st, n)]

    def c_cond_cast(s, st, ins, args): return [(st, args[0])]
    def c_new_cast(s, st, ins, args):
        n = s.alloc(st, 'cast')
        for f, v in (('kind', C(s.nk['CAST'])), ('lhs', args[0]), ('ty', args[1])): st.mem[fld(n, 'Node', f)] = v
        return [(st, n)]

    def c_is_bitfield2(s, st, ins, args):
        if s.cf.get('bf') is None: return [(st, C(0))]
        st.mem[args[1]] = C(s.cf['bf'])
        return [(st, C(-1))]

    def strip(s, st, n):
        while n is not None and s.kind(st, n) == 'CAST': n = s.get(st, n, 'Node', 'lhs')
        return n

    def c_new_lvar(s, st, ins, args): return [(st, s.alloc(st, 'variable'))]

    def c_new_var_node(s, st, ins, args):
        n = s.alloc(st, 'use of a variable')
        st.mem[fld(n, 'Node', 'kind')] = C(s.nk['VAR'])
        st.mem[fld(n, 'Node', 'var')] = args[0]
        return [(st, n)]

    def c_new_binary(s, st, ins, args):
        [(st, n)] = s.c_new_node(st, ins, [args[0], args[3]])
        st.mem[fld(n, 'Node', 'lhs')], st.mem[fld(n, 'Node', 'rhs')] = args[1:3]
        return [(st, n)]

    def pushed(s, st):
        """what a declaration may leave: nothing or something deferred"""
        q = st.copy()
        d = s.alloc(q, 'deferred')
        q.mem[fld(d, 'DeferStmt', 'next')] = q.mem[s.cur]
        q.mem[s.cur] = d
        return [st, q]

    def c_cond_declaration(s, st, ins, args):
        n = s.expr(st, args[0], args[1])
        if n is None: return []
        t = st.mem[args[0]]
        stop = s.gstr(args[2])
        if s.tt[t] != stop: return []
        st.mem[args[0]] = s.adv(t)
        return [(q, n) for q in s.pushed(st)]

    def c_declspec(s, st, ins, args):
        st.mem[args[0]] = s.adv(args[1])
        return [(st, s.obj('a type'))]

    def c_declaration(s, st, ins, args):
        t = args[1]
        if s.tt[t] != 'DECL': return []
        st.mem[args[0]] = s.adv(t)
        out = []
        for q in s.pushed(st):
            s.note(q, 'decl', q.mem[s.cur])
            r = q.copy()
            n = s.alloc(q, 'initializer')
            s.note(q, 'init', n)
            out += [(q, n), (r, NULL)]
        return out

    def nested(s, st, rest, tok, ok):
        t = s.tt.get(tok)
        if t not in ok: return None
        n = s.alloc(st, 'statement')
        if t == 'LAST':
            e = s.alloc(st, 'last expression')
            s.ptr_ty(st, e)
            st.mem[fld(n, 'Node', 'lhs')] = e
            s.note(st, 'last', n, e)
        st.mem[fld(n, 'Node', 'kind')] = C(s.nk[{'RET': 'RETURN', 'GO': 'GOTO', 'LAST': 'EXPR_STMT'}.get(t, 'IF')])
        st.mem[rest] = s.adv(tok)
        s.note(st, 'nested', tok, n, st.mem[s.cur], st.mem[s.jc], s.ctx(st))
        return n

    def ctx(s, st):
        out, x = [], st.mem[s.jc]
        for _ in range(6):
            if x == NULL or x is None: break
            out.append((x,) + tuple(s.get(st, x, 'JumpContext', f) for f in ('brk_label', 'cont_label', 'defr_end', 'labels', 'switch_node')))
            x = s.get(st, x, 'JumpContext', 'next')
        return tuple(out)

    def c_secondary_block(s, st, ins, args):
        if s.top == 'secondary_block': return s.sub(st, 'secondary_block', args)
        n = s.nested(st, args[0], args[1], ('BODY',))
        return [] if n is None else [(st, n)]

    def c_compound_stmt(s, st, ins, args):
        if s.top == 'compound_stmt': return s.sub(st, 'compound_stmt', args)
        n = s.nested(st, args[0], args[1], ('BODY',))
        return [] if n is None else [(st, n)]

    def c_stmt(s, st, ins, args):
        if s.top == 'stmt': return s.sub(st, 'stmt', args)
        t = s.tt.get(args[1])
        if t == 'DEFER':
            n = s.nested(st, args[0], args[1], ('DEFER',))
            q = s.pushed(st)[1]
            return [(q, n)]
        n = s.nested(st, args[0], args[1], ('BODY', 'RET', 'GO', 'LAST'))
        return [] if n is None else [(st, n)]

    def c_label_stmt(s, st, ins, args):
        if s.top == 'label_stmt': return s.sub(st, 'label_stmt', args)
        st.mem[args[1]] = args[2]
        if s.tt.get(args[2]) == 'LABEL':
            n = s.alloc(st, 'label')
            st.mem[fld(n, 'Node', 'kind')] = C(s.nk['LABEL'])
            c = st.mem[args[0]]
            st.mem[fld(c, 'Node', 'next')] = n
            st.mem[args[0]] = n
            s.note(st, 'label', n)
            st.mem[args[1]] = s.adv(args[2])
            return [(st, s.obj('label list'))]
        return [(st, NULL)]

    def c_expr_stmt(s, st, ins, args):
        if s.tt.get(args[1]) == ';':
            n = s.alloc(st, 'empty statement')
            st.mem[fld(n, 'Node', 'kind')] = C(s.nk['NULL_STMT'])
            st.mem[args[0]] = s.adv(args[1])
            return [(st, n)]
        n = s.nested(st, args[0], args[1], ('BODY', 'EXPRSTMT'))
        return [] if n is None else [(st, n)]

    def c_asm_stmt(s, st, ins, args):
        n = s.alloc(st, 'asm')
        st.mem[args[0]] = s.adv(args[1])
        return [(st, n)]

    def c_const_expr(s, st, ins, args):
        v = s.vals.get(args[1])
        if v is None: return []
        st.mem[args[0]] = s.adv(args[1])
        return [(st, C(v))]

    def c_parse_typedef(s, st, ins, args): return []
    c_global_declaration = c_parse_typedef

    def run(s, fn, args):
        s.errors = set()
        s.top = fn
        s.n['configs'] += 1
        return s.sub(s.state(), fn, args)

setattr(Jumps, 'c_llvm.memset.p0.i64', lambda s, st, ins, args: s.memset(st, args))


def memset(s, st, args):
    if args[0][0] == 'al' and args[1] == C(0):
        for a in [a for a in st.mem if a[0] == 'f' and a[1] == args[0]]: del st.mem[a]
        st.mem[('f', args[0], '%', 'zero')] = C(1)
        return [(st, None)]
    return None


Jumps.memset = memset


def memcpy(s, st, ins, args):
    """the copy of a structure"""
    d, b = args[0], args[1]
    if d[0] not in ('al', 'a') or b[0] not in ('al', 'a'): return None
    for a in [a for a in st.mem if a[0] == 'f' and a[1] == d]: del st.mem[a]
    src = dict(s.cfg_cells) if b[0] == 'a' else {}
    src.update(st.mem)
    for a, v in src.items():
        if a[0] == 'f' and a[1] == b: st.mem[('f', d) + a[2:]] = v
    if b in s.zero: st.mem[('f', d, '%', 'zero')] = C(1)
    return [(st, None)]


setattr(Jumps, 'c_llvm.memcpy.p0.p0.i64', memcpy)


class Judge(Jumps):
    """one method per function: the problems of each path"""

    def f(s, st, n, k): return s.get(st, n, 'Node', k)
    def kind(s, st, n):
        k = s.f(st, n, 'kind')
        return s.kn.get(k[1]) if k is not None and k[0] == 'c' else None

    def contexts(s, l):
        """a chain of loops and switches around; innermost first: (loop or switch, names, deferred)"""
        nxt = NULL
        for i, (k, names, d) in reversed(list(enumerate(l))):
            x = s.obj('context %d' % i)
            s.cell_(x, 'JumpContext', next=nxt, brk_label=s.obj('break %d' % i), cont_label=s.obj('continue %d' % i) if k == 'loop' else NULL, defr_end=s.defer(d), switch_node=s.obj('switch %d' % i) if k == 'switch' else NULL)
            p = fld(x, 'JumpContext', 'labels')
            for n in names:
                t = s.obj('name %s of %d' % (n, i))
                s.tt[t] = 'id:' + n
                s.cfg_cells[p] = t
                p = fld(t, 'Token', 'label_next')
            s.cfg_cells[p] = NULL
            nxt = x
        return nxt

    def defer(s, n):
        """the n-th of the deferred statements around; 0 is none"""
        if n == 0: return NULL
        x = s.obj('deferred around %d' % n)
        s.cell_(x, 'DeferStmt', next=s.defer(n - 1), vla=s.obj('vla around'))
        return x

    def start(s, cf, toks):
        s.begin(dict(cf, opt=cf.get('opt', 1)))
        ids = s.toks(toks)
        s.cfg_cur = s.defer(cf.get('cur', 1))
        s.cfg_jc = s.contexts(cf.get('ctx', []))
        s.ll = NULL if cf.get('nolabels') else s.obj('the labels of the statement')
        return ids

    def common(s, st, toks, rest, end, balanced=True):
        """what holds after every statement"""
        if st.mem.get(s.jc) != s.cfg_jc: return 'the loops and switches around are not restored'
        if balanced and st.mem.get(s.cur) != s.cfg_cur: return 'what is deferred is not restored'
        if st.mem.get(s.sc) != s.obj('the scope'): return 'the scope is not restored'
        if st.mem.get(rest) != s.obj('token %d' % end): return 'the statement does not end where it should'
        return None

    def unwrap(s, st, v, made):
        """the statement in the block for what is deferred"""
        if v is None or s.kind(st, v) is None: return v, None
        if s.kind(st, v) == 'BLOCK' and v not in s.raw:
            a, b = s.f(st, v, 'defr_start'), s.f(st, v, 'defr_end')
            if b != s.cfg_cur: return v, 'what is deferred in the statement runs too far or too short'
            if a != made: return v, 'what is deferred in the statement is not run at its end'
            return s.f(st, v, 'body'), None
        if made != s.cfg_cur and s.kind(st, v) not in ('RETURN', 'GOTO'): return v, 'what is deferred in the statement is never run'
        return v, None

    def stmt(s, cf):
        toks = cf['toks']
        ids = s.start(cf, toks)
        rest = s.obj('rest')
        s.raw = ()
        out = []
        for st, v in s.run('stmt', [rest, ids[0], s.ll]):
            r = s.stmt1(cf, st, v, ids)
            if r is None: r = s.common(st, toks, rest, len(toks), cf['what'] != 'defer')
            out.append(r)
        return out

    def stmt1(s, cf, st, v, ids):
        w = cf['what']
        f = lambda k: s.f(st, x, k)
        nest = [e for e in st.user[0] if e[0] == 'nested']
        ex = [e[2] for e in st.user[0] if e[0] == 'expr']
        cur = s.cfg_cur
        if w in ('if', 'while', 'do', 'for', 'switch'):
            if not nest: return 'the body is not read'
            made = nest[-1][3]
            if w == 'do': x, e = v, None
            else: x, e = s.unwrap(st, v, made)
            if e: return e
            K = {'if': 'IF', 'while': 'FOR', 'for': 'FOR', 'do': 'DO', 'switch': 'SWITCH'}[w]
            if s.kind(st, x) != K: return 'the statement is of kind %s' % s.kind(st, x)
            body = [e for e in nest if s.tt[e[1]] == 'BODY']
            if f('then') != body[0][2]: return 'the body is not the one read'
            if w == 'if':
                if f('cond') != ex[0]: return 'the condition is not the one read'
                if f('els') != (body[1][2] if len(body) > 1 else NULL): return 'the else branch is not the one read'
                return None
            # the context of the body
            c = body[0][5]
            if len(c) != 1 + len(cf.get('ctx', [])) or c[0][0] == s.cfg_jc: return 'the body is not in a loop or switch of its own'
            if len(c) > 1 and c[1][0] != s.cfg_jc: return 'the loops and switches around are lost'
            _, brk, cont, de, lab, sw = c[0]
            if brk is None or brk[0] != 'a' or brk != f('brk_label'): return 'break does not go to the end of the statement'
            if w != 'switch' and (cont is None or cont[0] != 'a' or cont != f('cont_label')): return 'continue does not go to the end of the body'
            if brk == cont: return 'break and continue go to the same place'
            if de != body[0][3]: return 'break does not run what is deferred in the body'
            if lab != s.ll: return 'the labels of the statement are not known in its body'
            if sw != (x if w == 'switch' else NULL): return 'case labels in the body do not belong to the innermost switch'
            cond = None
            order = [e for e in st.user[0] if e[0] in ('expr', 'nested', 'init')]
            if w == 'do': cond = ex[0]
            elif w in ('while', 'switch'): cond = ex[0]
            else:
                k = list(cf['toks'])
                init = next((e for e in order if e[0] == 'init' or e[0] == 'nested' and s.tt[e[1]] == 'EXPRSTMT'), None)
                i = f('init')
                if init is None:
                    if i != NULL and s.kind(st, i) != 'NULL_STMT': return 'the initialization is not the one read'
                elif init[0] == 'init':
                    if s.kind(st, i) != 'EXPR_STMT' or s.f(st, i, 'lhs') != init[1]: return 'the initialization is not the one read'
                elif i != init[2]: return 'the initialization is not the one read'
                cond = ex[0] if cf['cond'] else NULL
                inc = ex[-1] if cf['inc'] else NULL
                if f('inc') != inc: return 'the increment is not the one read'
            if s.strip(st, f('cond')) != cond: return 'the condition is not the one read'
            if w == 'switch':
                t = cf.get('ty', T['i32'])
                int_ = cf['bf'] < 32 or cf['bf'] == 32 and not t.uns if cf.get('bf') else t.size < 4
                want = (4, 0) if int_ else (4, 1) if cf.get('bf') == 32 else (t.size, int(t.uns))
                g = [s.get(st, s.f(st, f('cond'), 'ty'), 'Type', k) for k in ('size', 'is_unsigned')]
                g = tuple(x[1] & 255 if x is not None and x[0] == 'c' else None for x in g)
                if g[1] is not None: g = (g[0], int(g[1] != 0))
                if g != want: return 'the controlling expression is not promoted'
            if w in ('while', 'for'):
                a, b = f('defr_start'), f('defr_end')
                before = next((e[1] for e in st.user[0] if e[0] == 'decl'), s.cfg_cur)
                if not cf.get('cond', 1): before = made
                if a != b and a != made or a == b and made != before: return 'what is deferred by the condition is not run after every round'
                if a != b:
                    ok = {before}
                    if b not in ok: return 'what is deferred by the condition is not all that is run after every round'
            return None
        x = v
        if w == 'return':
            if s.kind(st, x) != 'RETURN' or f('defr_start') != cur or f('defr_end') != NULL: return 'return does not run all that is deferred'
            if s.strip(st, f('lhs')) != (ex[0] if ex else NULL): return 'the value returned is not the one read'
            return None
        if w in ('break', 'continue'):
            if cf['target'] is None: return 'a jump without a target is accepted'
            if s.kind(st, x) != 'GOTO': return 'the statement is of kind %s' % s.kind(st, x)
            t = s.obj('context %d' % cf['target'])
            if f('unique_label') != s.cfg_cells[fld(t, 'JumpContext', 'brk_label' if w == 'break' else 'cont_label')]: return 'the jump goes to %s' % s.name_of(f('unique_label'))
            if f('defr_start') != cur or f('defr_end') != s.cfg_cells[fld(t, 'JumpContext', 'defr_end')]: return 'the jump does not run what is deferred in the scopes it leaves'
            return None
        if w == 'goto':
            if s.kind(st, x) != 'GOTO' or f('labels') != ids[1]: return 'the label is not the one read'
            if f('defr_start') != cur: return 'goto does not know what is deferred where it stands'
            if st.mem.get(s.gt) != x or f('goto_next') != s.obj('gotos before'): return 'the list of gotos is broken'
            return None
        if w == 'goto*': return None if s.kind(st, x) == 'GOTO_EXPR' and f('lhs') == ex[0] else 'the address is not the one read'
        if w == 'defer':
            d = st.mem.get(s.cur)
            g = lambda k: s.get(st, d, 'DeferStmt', k)
            if d == cur or d is None or g('next') != cur: return 'the statement is not deferred'
            if nest[0][3] != cur: return 'the statement deferred sees itself as deferred'
            if g('kind') != C(s.m.E('DF_DEFER_STMT')) or g('stmt') != nest[0][2]: return 'what is deferred is not the statement read'
            if g('vla') != (s.cfg_cells[fld(cur, 'DeferStmt', 'vla')] if cur != NULL else NULL): return 'the variable-length arrays alive are lost'
            if s.kind(st, x) != 'NULL_STMT': return 'the statement is run where it stands'
            return None
        if w in ('block', 'expr'): return None if x == nest[0][2] else 'the statement is not the one read'
        raise Broken(w)

    def block(s, cf):
        """compound_stmt and secondary_block"""
        toks, fn = cf['toks'], cf['fn']
        ids = s.start(cf, toks)
        rest = s.obj('rest')
        out = []
        args = [rest, ids[0]] + ([C(s.nk[cf.get('kind', 'BLOCK')])] if fn == 'compound_stmt' else [])
        s.raw = ()
        for st, v in s.run(fn, args):
            r = s.block1(cf, st, v)
            out.append(r or s.common(st, toks, rest, len(toks)))
        return out

    def block1(s, cf, st, v):
        want = []
        made = s.cfg_cur
        d = made
        for e in st.user[0]:
            if e[0] == 'nested': want.append(e[2])
            if e[0] == 'label': want.append(e[1])
            if e[0] == 'init': want.append(('init', e[1]))
        # the innermost of what is deferred in the block
        ds = [o for k, o in s.objs.items() if k.startswith('deferred ') and not k.startswith('deferred around') and fld(o, 'DeferStmt', 'next') in st.mem]
        top = s.cfg_cur
        while True:
            n = [o for o in ds if st.mem.get(fld(o, 'DeferStmt', 'next')) == top]
            if not n: break
            if len(n) > 1: return 'two things deferred on top of the same'
            top = n[0]
        last = s.kind(st, want[-1]) if want and want[-1][0] == 'a' else None
        if cf['fn'] == 'secondary_block' and len(want) == 1 and (top == s.cfg_cur or last in ('RETURN', 'GOTO')) and v == want[0]: return None
        if s.kind(st, v) != cf.get('kind', 'BLOCK'): return 'a block is not made' if top == s.cfg_cur else 'what is deferred in the block is never run'
        a, b = s.f(st, v, 'defr_start'), s.f(st, v, 'defr_end')
        if b != s.cfg_cur: return 'the block does not run what is deferred in it, but up to %s' % s.name_of(b)
        if a != top and not (a == b and last in ('RETURN', 'GOTO')): return 'the block does not run all that is deferred in it'
        x, got = s.f(st, v, 'body'), []
        while x is not None and x != NULL and len(got) < 20:
            got.append(x)
            x = s.f(st, x, 'next')
        if len(got) != len(want): return 'the block has %d statements, not %d' % (len(got), len(want))
        for g, w in zip(got, want):
            if w[0] == 'init':
                if s.kind(st, g) != 'EXPR_STMT' or s.f(st, g, 'lhs') != w[1]: return 'the statements of the block are not the ones read'
            elif g != w: return 'the statements of the block are not the ones read'
        if cf.get('kind') == 'STMT_EXPR' and want and s.tt.get([e for e in st.user[0] if e[0] == 'nested'][-1][1]) == 'LAST' and s.kind(st, got[-1]) == 'EXPR_STMT':
            e = next(e[2] for e in reversed(st.user[0]) if e[0] == 'nested')
            l, o = s.f(st, e, 'lhs'), s.objs_last(st, e)
            if cf['ty'].cls == 'agg' and a != b and l == o: return 'the value of a statement expression is not copied before what is deferred is run'
        return None

    def objs_last(s, st, e): return next((x[2] for x in st.user[0] if x[0] == 'last' and x[1] == e), None)

    # ---- goto
    def gotos(s, cf):
        """cf: labels [(names, deferred)], gotos [(name, deferred)]"""
        ids = s.start(cf, [])
        def mk(kind, l, head):
            nxt = NULL
            for i, (names, d, *val) in reversed(list(enumerate(l))):
                x = s.obj('%s %d' % (kind, i))
                p = fld(x, 'Node', 'labels')
                for n in names if kind == 'label' else [names]:
                    t = s.obj('%s token %d %s' % (kind, i, n))
                    s.tt[t] = 'id:' + n
                    s.cfg_cells[p] = t
                    if kind == 'label':  # name : next name, or the statement
                        c = s.obj('colon after %d %s' % (i, n))
                        s.ptr(c); s.ptr(t)
                        s.tt[c] = ':'
                        s.cell_(t, 'Token', kind=s.m.E('TK_IDENT'), next=c)
                        z = z0 = s.obj('%s token %d %s' % (kind, i, names[names.index(n) + 1])) if n != names[-1] else s.obj('labelled statement %d' % i)
                        if cf.get('then') and n != names[-1]:  # a case between the names
                            w = [s.obj('case %d.%s.%d' % (i, n, j)) for j in range(3)]
                            for k_, y, y2 in zip(('KEYWORD', 'PP_NUM', 'PUNCT'), w, w[1:] + [z]): s.ptr(y); s.tt[y] = {'KEYWORD': 'case', 'PP_NUM': 'NUM', 'PUNCT': ':'}[k_]; s.cell_(y, 'Token', kind=s.m.E('TK_' + k_), next=y2)
                            z = w[0]
                        s.cell_(c, 'Token', kind=s.m.E('TK_PUNCT'), next=z)
                        if n == names[-1]: s.ptr(z0); s.tt[z0] = 'id:stmt' if cf.get('then') else 'return'; s.cell_(z0, 'Token', kind=s.m.E('TK_IDENT' if cf.get('then') else 'TK_KEYWORD'), next=s.obj('rest'))
                    p = fld(t, 'Token', 'label_next')
                s.cfg_cells[p] = NULL
                if val: d = ()
                s.cell_(x, 'Node', kind=s.nk['LABEL' if kind == 'label' else 'LABEL_VAL' if val else 'GOTO'], goto_next=nxt, defr_start=s.chain(d), defr_end=NULL)
                s.ptr(s.new(fld(x, 'Node', 'tok')))
                s.cell_(s.cfg_cells[fld(x, 'Node', 'tok')], 'Token', next=s.obj('after goto'))
                if kind == 'label': s.cell_(x, 'Node', unique_label=s.obj('place %d' % i))
                nxt = x
            return nxt
        L = mk('label', cf['labels'], s.lb)
        Gs = mk('goto', cf['gotos'], s.gt)
        s.errors, s.top = set(), 'resolve_goto_labels'
        s.n['configs'] += 1
        st = s.state()
        st.mem[s.lb], st.mem[s.gt] = L, Gs
        out = []
        def bad(g): 
            l = [x for x in cf['labels'] if g[0] in x[0]]
            return not l or len(g) < 3 and g[1][:len(l[0][1])] != l[0][1]
        want = not any(bad(g) for g in cf['gotos'])
        for q, _ in s.sub(st, 'resolve_goto_labels', []):
            if not want: out.append('a jump to an unknown label, or into the scope of what is deferred, is accepted'); continue
            r = None
            for i, (n, d, *val) in enumerate(cf['gotos']):
                x = s.obj('goto %d' % i)
                j = next(j for j, l in enumerate(cf['labels']) if n in l[0])
                if s.f(q, x, 'unique_label') != s.obj('place %d' % j): r = 'goto goes to %s' % s.name_of(s.f(q, x, 'unique_label'))
                elif val: continue
                elif s.f(q, x, 'defr_end') != s.chain(cf['labels'][j][1]): r = 'goto does not run what is deferred in the scopes it leaves'
                elif s.f(q, x, 'defr_start') != s.chain(d): r = 'goto does not run what is deferred where it stands'
            if q.mem.get(s.gt) != NULL or q.mem.get(s.lb) != NULL: r = r or 'the labels of a function are seen in the next one'
            out.append(r)
        if want and not out: out.append('a valid jump is rejected: %s' % ', '.join(sorted(s.errors)))
        if not want and not out: out.append(None)
        return out

    def names(s, cf):
        """labels named by asm goto or &&"""
        asm = cf['how'] == 'asm'
        toks = [y for n in cf['names'] for y in (',', 'id:' + n)][1:] + [')'] if asm else ['&&', 'id:' + cf['names'][0]]
        ids = s.start(cf, toks)
        rest, out = s.obj('rest'), []
        for q, v in s.run('asm_labels' if asm else 'unary', [rest, ids[0]]):
            want = [i for i in ids if s.tt[i].startswith('id:')]
            got, x = [], q.mem.get(s.gt)
            while x is not None and x != s.obj('gotos before') and len(got) < 9: got.insert(0, x); x = s.f(q, x, 'goto_next')
            if [s.f(q, x, 'labels') for x in got] != want: out.append('the labels named are not found'); continue
            if q.mem.get(rest) != s.obj('token %d' % len(toks)): out.append('the list does not end where it should'); continue
            if not asm:
                out.append(None if v == got[0] and s.kind(q, v) == 'LABEL_VAL' else 'the value is not that of the label')
                continue
            if any(s.f(q, x, 'defr_start') != s.cfg_cur for x in got): out.append('asm goto does not know what is deferred where it stands'); continue
            args = []
            while v is not None and v != NULL and len(args) < 9: args.append(s.get(q, v, 'AsmParam', 'arg')); v = s.get(q, v, 'AsmParam', 'next')
            out.append(None if args == got else 'the labels of asm goto are not in order')
        return out or ['the labels are rejected: ' + ', '.join(sorted(s.errors))]

    def chain(s, d):
        """deferred statements, outermost first"""
        if not d: return NULL
        x = s.obj('deferred %s' % '.'.join(map(str, d)))
        s.cell_(x, 'DeferStmt', next=s.chain(d[:-1]), vla=NULL)
        return x

    # ---- labels
    def labels(s, cf):
        """cf: ty, ctx, cur, old [(lo, hi)], olddef, new [('case', lo, hi) ('default',) ('name', n)]"""
        toks = []
        for x in cf['new']:
            if x[0] == 'case': toks += ['case', ('CONST', abi.x86.sx(x[1] & (1 << 64) - 1, 64))] + (['...', ('CONST', abi.x86.sx(x[2] & (1 << 64) - 1, 64))] if x[1] != x[2] else []) + [':']
            elif x[0] == 'default': toks += ['default', ':']
            else: toks += ['id:' + x[1], ':']
        ids = s.start(cf, toks + ['BODY'])
        t = cf['ty']
        sw = next((i for i, c in enumerate(cf['ctx']) if c[0] == 'switch'), None)
        for i, c in enumerate(cf['ctx']):
            if c[0] != 'switch': continue
            n = s.obj('switch %d' % i)
            s.type(s.ptr(s.new(fld(s.ptr(s.new(fld(n, 'Node', 'cond'))), 'Node', 'ty'))), t)
            p = fld(n, 'Node', 'cases')
            for j, (lo, hi) in enumerate(cf['old'] if i == sw else []):
                x = s.obj('old case %d' % j)
                s.cfg_cells[p] = x
                s.cell_(x, 'CaseRange', lo=abi.x86.sx(lo, 64), hi=abi.x86.sx(hi, 64), label=s.obj('old label'))
                p = fld(x, 'CaseRange', 'next')
            s.cfg_cells[p] = NULL
            s.cell_(n, 'Node', default_case=s.obj('old default') if cf.get('olddef') and i == sw else NULL)
        at = s.obj('where statements are added')
        lastn = s.obj('the statement before')
        s.cfg_cells[fld(lastn, 'Node', 'next')] = NULL
        rest = s.obj('rest')
        s.errors, s.top = set(), 'label_stmt'
        s.n['configs'] += 1
        st = s.state()
        st.mem[at] = lastn
        # what C says
        w = t.bits
        conv = lambda v: v & (1 << w) - 1 if t.uns else abi.x86.sx(v & (1 << w) - 1, w)
        cases = [(conv(x[1]), conv(x[2])) for x in cf['new'] if x[0] == 'case']
        defs = sum(x[0] == 'default' for x in cf['new'])
        ok = True
        allc = list(cf['old']) + cases
        if any(a > b for a, b in cases) or any(max(a, c) <= min(b, d) for i, (a, b) in enumerate(allc) for c, d in allc[:i]): ok = False
        if defs + bool(cf.get('olddef')) > 1: ok = False
        if (cases or defs) and (sw is None or cf['ctx'][sw][2] != cf['cur']): ok = False
        out = []
        for q, v in s.sub(st, 'label_stmt', [at, rest, ids[0]]):
            if not ok: out.append('labels that are not allowed here are accepted'); continue
            out.append(s.labels1(cf, q, v, ids, at, lastn, rest, sw, cases, defs, w))
        if ok and not out: out.append('valid labels are rejected: %s' % ', '.join(sorted(s.errors)))
        if not ok and not out: out.append(None)
        return out

    def labels1(s, cf, q, v, ids, at, lastn, rest, sw, cases, defs, w):
        if q.mem.get(rest) != ids[-3]: return 'the labels do not end where they should'
        names = [i for i in ids if s.tt[i].startswith('id:')]
        got, x = [], v
        while x is not None and x != NULL and len(got) < 20: got.append(x); x = s.get(q, x, 'Token', 'label_next')
        if got != names: return 'the names of the labels are not the ones read'
        n = q.mem.get(at)
        if not cf['new']: return None if n == lastn else 'a label is made up'
        if n == lastn or s.kind(q, n) != 'LABEL' or s.f(q, lastn, 'next') != n: return 'the label is not put before the statement'
        lab = s.f(q, n, 'unique_label')
        if lab is None or lab[0] != 'a': return 'the label has no name of its own'
        if s.f(q, n, 'defr_start') != s.cfg_cur: return 'the label does not know what is deferred where it stands'
        if q.mem.get(s.lb) != n or s.f(q, n, 'goto_next') != s.obj('labels before'): return 'goto does not find the label'
        g, x = [], s.f(q, n, 'labels')
        while x is not None and x != NULL and len(g) < 20: g.append(x); x = s.get(q, x, 'Token', 'label_next')
        if g != names: return 'goto does not find the label by its name'
        if sw is None or not (cases or defs): return None
        swn = s.obj('switch %d' % sw)
        for i in range(len(cf['ctx'])):
            if cf['ctx'][i][0] == 'switch' and i != sw:
                o = s.obj('switch %d' % i)
                if s.f(q, o, 'cases') != NULL or s.f(q, o, 'default_case') != NULL: return 'a case belongs to another switch'
        d = s.f(q, swn, 'default_case')
        dl = s.get(q, d, 'CaseRange', 'label') if d is not None and d != NULL else NULL
        if defs and dl != lab: return 'default does not go to its label'
        if not defs and d != (s.obj('old default') if cf.get('olddef') else NULL): return 'there is a default that was not written'
        ent, x = [], s.f(q, swn, 'cases')
        while x is not None and x != NULL and len(ent) < 60:
            l, lo, hi = (s.get(q, x, 'CaseRange', k) for k in ('label', 'lo', 'hi'))
            if l is None: return 'a case without a label'
            if l != NULL:
                if lo[0] != 'c' or hi[0] != 'c': return 'a case whose value is not known'
                u = (lambda y: y & (1 << 64) - 1) if cf['ty'].uns and w == 64 else (lambda y: y)
                ent.append((l, u(lo[1]), u(hi[1])))
            x = s.get(q, x, 'CaseRange', 'next')
        vs = {b + e for lo, hi in list(cf['old']) + cases for b in (lo, hi) for e in (-1, 0, 1)} | {(a + b) // 2 for a, b in list(cf['old']) + cases}
        for y in sorted(vs):
            want = lab if any(a <= y <= b for a, b in cases) else s.obj('old label') if any(a <= y <= b for a, b in cf['old']) else None
            have = {l for l, a, b in ent if a <= y <= b}
            if have != ({want} if want else set()) and not (want is None and have == {dl}): return 'the value %d goes to %s' % (y, ', '.join('the new label' if h == lab else s.name_of(h) for h in have) or 'no label')
        return None

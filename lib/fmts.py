"""P19: printf-style formats are constants and agree with their arguments."""
import ir, re, subprocess, os

EXT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1}
VEXT = {'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vdprintf': 1, 'vasprintf': 1}
CONV = re.compile(rb'%(%|([-+ #0]*)(\*|\d+)?(\.(\*|\d*))?(hh|h|ll|l|j|z|t|L|q)?([a-zA-Z]))')


class Fmts:
    def __init__(s, mod):
        s.mod = mod
        s.rep = {}
        s.ncalls = s.nargs = s.nconst = 0

    def report(s, fn, ins, k, msg): s.rep.setdefault((fn.name, k, ins.loc), (ins, 'in %s(): %s' % (fn.name, msg)))

    def sources(s, f, o, seen=None):
        """constants and parameters a format operand can be"""
        seen = seen if seen is not None else set()
        if isinstance(o, list):
            c = s.mod.cstr(o)
            return {('c', c)} if c is not None else {('?', str(o))}
        if o in seen: return set()
        seen.add(o)
        if o[0] == 'a' and o[1:].isdigit(): return {('p', int(o[1:]))}
        i = f.by_id.get(o)
        if i is None: return {('?', o)}
        if i.op == 'phi':
            r = set()
            for v, _ in i.ops: r |= s.sources(f, v, seen)
            return r
        if i.op == 'select': return s.sources(f, i.ops[1], seen) | s.sources(f, i.ops[2], seen)
        if i.op == 'load' and isinstance(i.ops[0], str):
            # an element of a constant table of strings
            g = f.by_id.get(i.ops[0])
            if g is not None and g.op == 'getelementptr' and isinstance(g.ops[0], list) and g.ops[0][0] == 'g':
                gl = s.mod.globals.get(g.ops[0][1])
                if gl and gl.get('const') and gl.get('init'):
                    out = set()
                    def walk(v):
                        if isinstance(v, list):
                            if v and v[0] == 'g':
                                c = s.mod.cstr(v)
                                out.add(('c', c) if c is not None else ('?', v[1]))
                            else:
                                for x in v: walk(x)
                    walk(gl['init'])
                    if out: return out
        return {('?', o)}

    def optype(s, f, o):
        if isinstance(o, list):
            return {'i': None, 'null': 'null', 'f': 'double', 'g': 'ptr', 'fn': 'ptr'}.get(o[0])
        if o[0] == 'a' and o[1:].isdigit(): return f.args[int(o[1:])][1]
        i = f.by_id.get(o)
        return i.ty if i is not None else None

    def run(s):
        m = s.mod
        fmt = dict(EXT); vfmt = dict(VEXT)
        # wrappers, to a fixpoint: a format parameter handed on to a va_list function
        ch = True
        while ch:
            ch = False
            for n, f in m.defs.items():
                for i in f.calls():
                    if i.callee in vfmt and len(i.ops) > vfmt[i.callee]:
                        for k, v in s.sources(f, i.ops[vfmt[i.callee]]):
                            if k == 'p':
                                d = fmt if f.vararg else vfmt
                                if d.get(n) is None: d[n] = v; ch = True
                    elif i.callee in fmt and len(i.ops) > fmt[i.callee]:
                        # forwards its own parameter as a format with arguments of its own
                        for k, v in s.sources(f, i.ops[fmt[i.callee]]):
                            if k == 'p' and n not in fmt and n not in vfmt:
                                s.fwd = getattr(s, 'fwd', {}); s.fwd.setdefault(n, set()).add((v, i))
        s.wrappers = sorted(set(fmt) - set(EXT)) + sorted(set(vfmt) - set(VEXT))
        fwd = getattr(s, 'fwd', {})
        for n, f in m.defs.items():
            for i in f.calls():
                c = i.callee
                if c in vfmt:
                    if len(i.ops) <= vfmt[c]: continue
                    s.ncalls += 1
                    for k, v in s.sources(f, i.ops[vfmt[c]]):
                        if k == '?': s.report(f, i, 'nonconst', 'passes text that is not a constant as a format to %s()' % c)
                        if k == 'c' and not f.vararg: s.report(f, i, 'own', 'passes a va_list that does not belong to the format')
                elif c in fmt:
                    if len(i.ops) <= fmt[c]: continue
                    s.ncalls += 1
                    p = fmt[c]
                    va = len(m.fns[c].args) if c in m.fns and m.fns[c].args else p + 1
                    for k, v in s.sources(f, i.ops[p]):
                        if k == 'c': s.one(f, i, c, v, i.ops[va:])
                        elif k == 'p':
                            for ci in m.callers.get(n, []):
                                for k2, v2 in s.sources(ci.fn, ci.ops[v]):
                                    if k2 == 'c': s.one(f, i, c, v2, i.ops[va:], ' (format given in %s())' % ci.fn.name)
                                    else: s.report(ci.fn, ci, 'nonconst', 'passes text that is not a constant as a format to %s()' % n)
                        else: s.report(f, i, 'nonconst', 'uses text that is not a constant as a format of %s()' % c)
        return s

    def one(s, f, i, c, fmt, args, extra=''):
        s.nconst += 1
        need = []
        pos = 0
        txt = fmt.decode('latin1')
        for mt in CONV.finditer(fmt):
            if fmt.find(b'%', pos, mt.start()) >= 0: break
            pos = mt.end()
            if mt.group(1) == b'%': continue
            if mt.group(3) == b'*': need.append(('i32', '*'))
            if mt.group(5) == b'*': need.append(('i32', '.*'))
            ln, cv = mt.group(6), mt.group(7)
            if cv in b'diouxXc':
                w = {None: 'i32', b'hh': 'i32', b'h': 'i32'}.get(ln, 'i64')
                if cv == b'c': w = 'i32'
                need.append((w, mt.group(0).decode()))
            elif cv in b'sp': need.append(('ptr', mt.group(0).decode()))
            elif cv in b'eEfFgGaA': need.append(('x86_fp80' if ln == b'L' else 'double', mt.group(0).decode()))
            else:
                s.report(f, i, 'conv ' + txt[:40], 'the format "%s" of %s() has an unknown conversion %s' % (txt[:60], c, mt.group(0).decode())); return
        if fmt.find(b'%', pos) >= 0:
            s.report(f, i, 'conv ' + txt[:40], 'the format "%s" of %s() has an incomplete conversion%s' % (txt[:60], c, extra)); return
        if len(need) != len(args):
            s.report(f, i, 'count ' + txt[:40], 'the format "%s" of %s() takes %d arguments but %d are given%s' % (txt[:60], c, len(need), len(args), extra)); return
        for k, ((w, cv), a) in enumerate(zip(need, args)):
            s.nargs += 1
            t = s.optype(f, a)
            if t is None: continue
            if t == 'null':
                if cv.endswith('s'): s.report(f, i, 'null ' + txt[:40], 'prints NULL by %s' % cv)
                continue
            if t != w:
                s.report(f, i, 'type ' + txt[:40], 'argument %d of the format "%s" of %s() is %s where %s needs %s%s' % (k + 1, txt[:60], c, t, cv, w, extra))

    def clang(s):
        """second opinion on the types: the compiler's own format diagnostics"""
        out = []
        for p in ir.sources():
            r = subprocess.run(['clang-18', '-std=gnu99', '-fsyntax-only', '-Wno-everything', '-Wformat', '-Wformat-extra-args',
                                '-Wformat-invalid-specifier', '-Wformat-security', '-Wformat-insufficient-args', '-fno-caret-diagnostics', '-I', ir.REPO, p],
                               stderr=subprocess.PIPE, text=True)
            for l in r.stderr.splitlines():
                mt = re.match(r'(.*?):(\d+):\d+: warning: (.*)', l)
                if mt: out.append((os.path.basename(mt.group(1)) + ':' + mt.group(2), mt.group(3)))
        return out

"""C06: no object starts its life with an indeterminate member.

For every constructor (user-written, copy, template) every scalar member (arithmetic, enumeration, pointer, and
arrays of these) must be definitely assigned when the constructor is done: by a default member initialiser, the
constructor's initialiser list, a delegated constructor, or on every path through the body (including own methods
it calls). A member left to a derived class must be set by every constructor of every derived class. Classes
without a constructor of their own must initialise the member in place, or every creation must value-initialise."""
import re
from model import Paths, expr_str
from lib import graph, baseline
from absval import explore, elem_index, const_in, run_block, AbsEval, FALSE, TRUE
import flow

SCALAR = ('int', 'bool', 'float', 'ptr', 'enum', 'char')


def scalar(t):
    if t is None:
        return None
    if t.k in SCALAR or t.k == 'builtin':
        return 'scalar'
    if t.k == 'arr':
        return 'array' if scalar(t.p) else None
    return None


class Members(object):
    """Rule 1: every constructor definitely assigns every scalar member."""

    def __init__(self, P, ctx):
        self.P = P
        self.ctx = ctx
        self._def = {}
        self._loops = {}
        graph(P)

    # -- what has to be set ------------------------------------------------------------------------------------
    def needs(self, R):
        """Names of the scalar members of R without a default initialiser, including those of members and bases whose
        class has no constructor of its own."""
        c = self.__dict__.setdefault('_need', {})
        if R.q in c:
            return c[R.q]
        c[R.q] = []
        out = [f['n'] for f in R.fields if scalar(f['t']) and not f.get('init') and f['n']]
        for f in R.fields:
            t = f['t']
            if t.k == 'rec' and not f.get('init') and f['n']:
                S = self.P.records.get(t.s)
                if S is not None and self.plain(S):
                    out += ['%s.%s' % (f['n'], x) for x in self.needs(S)]
        for b in R.bases:
            S = self.P.records.get(b if isinstance(b, str) else b[0] if isinstance(b, (tuple, list)) else b.get('q'))
            if S is not None and self.plain(S):
                out += self.needs(S)
        c[R.q] = out
        return out

    def plain(self, R):
        """Class of the repository without a constructor of its own."""
        if not R.file or R.file.startswith('<') or '3rdparty' in R.file or R.union:
            return False
        return not any(m.kind == 'ctor' and not m.implicit and not (m.defaulted and not m.body) for m in R.methods)

    def extent(self, t):
        m = re.search(r'\[(\d+)\]', t.s) if t is not None and t.k == 'arr' else None
        return int(m.group(1)) if m else None

    # -- member denoted by an lvalue ---------------------------------------------------------------------------
    def key(self, fn, e, alias=True):
        """'fld' or 'fld[3]' or ('fld', index node) for a member of *this that e denotes, or None."""
        while e is not None and e.k == 'cast' and e.kids:
            e = e.c()
        if e is None:
            return None
        if e.k == 'un' and e.op == '*':
            b = self.key(fn, e.c(), alias)
            return b + '[0]' if b and '[' not in b and e.c().k == 'cast' else None
        if e.k == 'idx':
            b = self.key(fn, e.c(0), alias)
            if not b:
                return None
            v = const_of(e.c(1))
            bt = e.c(0)
            while bt.k == 'cast' and bt.kids:
                bt = bt.c()
            if bt.t is None or bt.t.k != 'arr':
                return None         # element of what a pointer member points to
            if '[' in b:
                return b            # deeper dimension: counts for the row
            return '%s[%s]' % (b, v if v is not None else '?')
        if e.k == 'mem':
            b = e.c()
            if b is None or b.k == 'this' or b.k == 'un' and b.op == '*' and b.c().k == 'this':
                if alias:
                    a = self.aliases(fn.decl.rec or (fn.parent.decl.rec if fn.parent else None)).get(e.name)
                    if a:
                        return a
                return e.name
            if not e.get('ar'):
                k = self.key(fn, b, alias)
                if k and '[' not in k:
                    return '%s.%s' % (k, e.name)
        return None

    def aliases(self, rq):
        """Reference members bound to elements of an array member by all constructors."""
        if rq is None:
            return {}
        c = self.__dict__.setdefault('_al', {})
        if rq in c:
            return c[rq]
        c[rq] = {}
        out = {}
        for q in [rq] + list(self.P.all_bases(rq)):
            R = self.P.records.get(q)
            if R is None or not any(f['t'].k == 'ref' for f in R.fields):
                continue
            for fn in self.ctors().get(q, []):
                for ini in fn.inits:
                    if ini.get('fld') and ini['e'] is not None:
                        ft = [f for f in R.fields if f['n'] == ini['fld']]
                        if ft and ft[0]['t'].k == 'ref':
                            k = self.key(fn, ini['e'], False)
                            if k:
                                out[ini['fld']] = k
        c[rq] = out
        return out

    def ctors(self):
        r = self.__dict__.get('_ct')
        if r is None:
            r = self._ct = {}
            for fn in self.P.fns:
                if fn.decl.kind in ('ctor', 'cctor', 'mctor') and fn.decl.rec:
                    r.setdefault(fn.decl.rec, []).append(fn)
        return r

    # -- what a function sets ----------------------------------------------------------------------------------
    def complete(self, s, ext):
        out = set(s)
        for f, n in ext.items():
            if f not in out and n and all('%s[%d]' % (f, i) in out for i in range(n)):
                out.add(f)
        return out

    def exts(self, rq):
        out = {}
        for q in [rq] + list(self.P.all_bases(rq)):
            R = self.P.records.get(q)
            for f in (R.fields if R else ()):
                n = self.extent(f['t'])
                if n:
                    out[f['n']] = n
        return out

    def loops(self, fn):
        """for loops that assign all elements of an array member: id of the loop -> members."""
        r = self._loops.get(fn)
        if r is not None:
            return r
        r = self._loops[fn] = {}
        if fn.body is None:
            return r
        ext = None
        for n in fn.walk():
            if n.k != 'assign' or n.op != '=':
                continue
            k = self.key(fn, n.c(0))
            if not k or not k.endswith('[?]'):
                continue
            f = k[:-3]
            x = n
            loop = None
            while x.p is not None:
                x = x.p
                if x.k in ('if', 'cond', 'while', 'do', 'switch', 'rfor'):
                    loop = None
                    break
                if x.k == 'for':
                    loop = x
            if loop is None:
                continue
            if ext is None:
                ext = self.exts(fn.decl.rec) if fn.decl.rec else {}
            m = ext.get(f)
            # the bound of the loop must reach the extent if it is a constant
            ok = True
            x = n
            ix = n.c(0)
            while ix.k == 'cast':
                ix = ix.c()
            while ix.k == 'idx' and ix.c(0).k in ('idx',):
                ix = ix.c(0)
            iv = ix.c(1)
            while iv.k == 'cast':
                iv = iv.c()
            while x.p is not None:
                x = x.p
                if x.k == 'for':
                    c = x.child('cond')
                    if c is not None and c.k == 'bin' and c.op in ('<', '<=', '!=') and iv.k == 'var':
                        l = c.c(0)
                        while l.k == 'cast':
                            l = l.c()
                        b = const_of(c.c(1))
                        if l.k == 'var' and l.get('d') == iv.get('d') and b is not None and m:
                            ok = (b + (1 if c.op == '<=' else 0)) >= m
            if ok:
                r.setdefault(loop.i, set()).add(f)
        return r

    def definite(self, fn, depth=0):
        """Own or inherited members definitely assigned by a call of member function fn on *this ('*': all)."""
        k = fn
        if k in self._def:
            return self._def[k]
        self._def[k] = frozenset()
        if fn.body is None or depth > 8:
            return frozenset()
        lp = self.loops(fn)
        start = set()
        for ini in fn.inits:
            e = ini['e']
            if ini.get('fld') and e is not None:
                start |= self.whole(ini['fld'], e)
            if e is not None:
                for n in e.walk():
                    start |= self.sets(fn, n, depth)
        if fn.blocks:
            cl = {}
            for n in fn.walk():
                if n.k == 'for' and n.i in lp:
                    for role in ('init', 'cond', 'inc'):
                        c = n.child(role)
                        if c is not None:
                            for m in c.walk():
                                cl.setdefault(m.i, set()).update(lp[n.i])

            def transfer(n, s):
                g = self.sets(fn, n, depth)
                if n.i in cl:
                    g = g | cl[n.i]
                return s | g if g else s
            ins = flow.forward(fn, frozenset(start), transfer, flow.notself, lambda a, b: meet(a, b))
            out = ins.get(fn.exit)
            out = frozenset(out) if out is not None else frozenset(['*'])
        else:
            out = frozenset(self.syntactic(fn, start, depth))
        if fn.decl.rec:
            out = frozenset(self.complete(out, self.exts(fn.decl.rec)))
        self._def[k] = out
        return out

    def whole(self, name, e):
        """Members set by the initialisation of a whole member with e: none if that leaves a plain class as it is."""
        if e.k == 'ctor' and not e.args and not e.get('zi') and e.callee is not None and e.callee.kind == 'ctor':
            S = self.P.records.get(e.callee.rec)
            if S is not None and self.plain(S):
                return {name}
        out = {name}
        t = e.t
        S = self.P.records.get(t.s.replace('const ', '')) if t is not None and t.k == 'rec' else None
        if S is not None and self.plain(S):
            out.update('%s.%s' % (name, x) for x in self.needs(S))
        return out

    def syntactic(self, fn, start, depth):
        """Template patterns without a CFG: structural induction over the body."""
        lp = self.loops(fn)

        def stm(n):
            out = set()
            if n.k == 'if':
                for m in n.kids:
                    if m.role not in ('then', 'else'):
                        out |= expr(m)
                br = [m for m in n.kids if m.role in ('then', 'else')]
                if len(br) == 2:
                    out |= stm(br[0]) & stm(br[1])
            elif n.k in ('for', 'rfor', 'while', 'switch', 'try'):
                for m in n.kids:
                    if m.role in ('init', 'cond'):
                        out |= expr(m)
                out |= lp.get(n.i, set())
            elif n.k in ('compound', 'block', 'do'):
                for m in n.kids:
                    out |= stm(m)
            else:
                out |= expr(n)
            return out

        def expr(n):
            out = set()
            for m in n.walk():
                out |= self.sets(fn, m, depth)
            return out
        out = set(start)
        b = fn.body
        out |= stm(b) if b.k in ('if', 'for', 'rfor', 'while', 'switch', 'try', 'do', 'compound', 'block') else \
            set().union(*[stm(m) for m in b.kids]) if b.kids else set()
        return out

    def sets(self, fn, n, depth):
        out = set()
        if n.k == 'un' and n.op == '&' and n.p is not None and n.p.k not in ('call', 'ctor', 'bin'):
            f = self.key(fn, n.c())         # its address is kept: written through that
            if f:
                out.add(f)
        elif n.k == 'vardecl' and n.t is not None and n.t.k == 'ref' and not n.t.p.c and n.kids:
            f = self.key(fn, n.kids[0])
            if f:
                out.add(f)
        elif n.k == 'lambda' and depth < 8:
            b = self.P.lam_by_usr.get(n.get('_fu').u) if n.get('_fu') is not None else None
            if b is not None:
                for m in b.walk():
                    out |= self.sets(fn, m, depth + 1) if m.k not in ('call', 'lambda') else set()
        if n.k == 'assign' and n.op == '=':
            f = self.key(fn, n.c(0))
            if f:
                out.add(f)
        elif n.k in ('call', 'ctor'):
            ce = n.callee
            for i, a in enumerate(n.args):
                x = a
                byptr = False
                while x.k == 'cast' and x.kids:
                    x = x.c()
                if x.k == 'un' and x.op == '&':
                    x = x.c()
                    byptr = True
                f = self.key(fn, x)
                if not f:
                    continue
                t = ce.p[i] if ce is not None and i < len(ce.p) else None
                arr = x.t is not None and x.t.k == 'arr'
                if byptr and f.endswith('[0]') and ce is not None and ce.n in ('memset', 'memcpy', 'fill', 'copy', 'fill_n'):
                    f = f[:-3]
                if byptr or ce is None:
                    out.add(f)
                elif t is not None and t.k in ('ref', 'rref') and not (t.p and t.p.c):
                    out.add(f)
                elif t is not None and t.k == 'ptr' and not (t.p and t.p.c) and arr:
                    out.add(f)
                elif arr and ce.n in ('fill', 'copy', 'fill_n', 'copy_n', 'memset', 'memcpy'):
                    out.add(f)
            if n.k == 'call' and ce is not None and ce.n in ('memset', 'memcpy') and n.args:
                a = n.args[0]
                while a.k == 'cast' and a.kids:
                    a = a.c()
                if a.k == 'this':
                    out.add('*')
            o = n.obj if n.k == 'call' else None
            this = o is None or o.k == 'this' or o.k == 'un' and o.op == '*' and o.c().k == 'this'
            if n.k == 'call' and this and ce is not None and ce.rec and not ce.static:
                out |= self.ofcall(n, depth)
            elif n.k == 'ctor':
                for ini in fn.inits:
                    if ini['e'] is n and not ini.get('fld'):
                        d = n.callee
                        b = self.body(d)
                        if b is not None:
                            out |= self.definite(b, depth + 1)
                        elif d is not None and d.kind in ('cctor', 'mctor'):
                            out |= self.allof(d.rec)
        return out

    def allof(self, rq):
        out = set()
        for q in [rq] + list(self.P.all_bases(rq)):
            R = self.P.records.get(q)
            if R is not None:
                out.update(f['n'] for f in R.fields)
        return out

    def body(self, d):
        if d is None:
            return None
        return d.body or (self.P.by_usr.get(d.pat) if d.pat else None)

    def ofcall(self, n, depth):
        ds = self.P.targets(n)
        if n.fn.decl.kind in ('ctor', 'cctor', 'mctor') or n.get('nv'):
            ds = [n.callee]         # no dispatch below the class under construction
        r = None
        for d in ds:
            b = self.body(d)
            if b is None:
                s = self.allof(d.rec) if (d.implicit or d.defaulted) and d.n == 'operator=' else set()
            else:
                s = self.definite(b, depth + 1)
            r = set(s) if r is None else meet(r, s)
        return r or set()

    # -- the rules ---------------------------------------------------------------------------------------------
    def run(self):
        P, ctx = self.P, self.ctx
        ct = self.ctors()
        for q, R in sorted(P.records.items()):
            if not R.file or R.file.startswith('<') or '3rdparty' in R.file or R.union or \
                    '@' in q and q.split('@')[0] in P.records:
                continue
            need = self.needs(R)
            if not need:
                ctx.count('classes without members that a constructor has to set')
                continue
            ctx.count('classes with members that a constructor has to set')
            cs = [f for f in ct.get(q, []) if f.body is not None and not f.decl.deleted]
            if not cs:
                ctx.count('classes with such members but no constructor (checked where objects are made)' if self.plain(R)
                          else 'classes whose constructors are not compiled here')
            for fn in cs:
                ctx.count('constructors analysed')
                got = self.definite(fn)
                for f in need:
                    ctx.count('constructor/member obligations')
                    if f in got or '*' in got or f.split('.')[0] in got and '.' in f and fn.decl.kind != 'ctor':
                        continue
                    if self.derived_set(q, f):
                        ctx.count('members left to the derived classes, all of which set them')
                        continue
                    if ctx.excepted(P, 'c06_allow.txt', fn, 'member ' + f) is not None:
                        continue
                    ctx.viol('member', '%s(%s)' % (fn.q, ','.join(t.s for t in fn.decl.p)), f,
                             'this constructor may leave the member %s of %s without a value' % (f, q), fn=fn, P=P,
                             node=None)
        self.objects()

    # -- members read by a constructor before they are set ------------------------------------------------------
    def reads(self, fn, n):
        """Members of *this whose value n reads itself."""
        if n.k in ('mem', 'idx') and n.get('rv'):
            k = self.key(fn, n)
            return [k] if k else []
        if n.k == 'assign' and n.op != '=' or n.k == 'un' and n.op in ('++', '--', 'p++', 'p--'):
            k = self.key(fn, n.c(0))
            return [k] if k else []
        return []

    def exposed(self, fn, depth=0):
        """{member: (function, node)} that fn may read before it sets it."""
        c = self.__dict__.setdefault('_exp', {})
        if fn in c:
            return c[fn]
        c[fn] = {}
        out = {}
        if fn.body is None or depth > 5:
            return out
        self._depth = depth

        def visit(n, s):
            if '*' in s:
                return
            for k in self.reads(fn, n):
                if k not in s and k.split('[')[0] not in s and k.split('.')[0] not in s:
                    out.setdefault(k, (fn, n))
            if n.k == 'call' and n.callee is not None and n.callee.rec and not n.callee.static:
                o = n.obj
                if o is None or o.k == 'this' or o.k == 'un' and o.op == '*' and o.c().k == 'this':
                    b = self.body(n.callee)
                    if b is not None and b.body is not None:
                        for k, v in self.exposed(b, depth + 1).items():
                            if k not in s and k.split('[')[0] not in s and k.split('.')[0] not in s:
                                out.setdefault(k, v)
        start = set()
        for ini in fn.inits:
            e = ini['e']
            if e is None:
                continue
            for n in e.walk():
                visit(n, start)
                start |= self.sets(fn, n, depth)
            if ini.get('fld'):
                start |= self.whole(ini['fld'], e)
            elif e.k == 'ctor' and e.callee is not None and e.callee.rec == fn.decl.rec:
                start |= {'*'}          # delegated
        if fn.blocks:
            lp = self.loops(fn)
            cl = {}
            for n in fn.walk():
                if n.k == 'for' and n.i in lp:
                    for role in ('init', 'cond', 'inc'):
                        c2 = n.child(role)
                        if c2 is not None:
                            for m in c2.walk():
                                cl.setdefault(m.i, set()).update(lp[n.i])
            ext = self.exts(fn.decl.rec) if fn.decl.rec else {}

            def transfer(n, s):
                g = self.sets(fn, n, depth)
                if n.i in cl:
                    g = g | cl[n.i]
                return frozenset(self.complete(s | g, ext)) if g else s
            ins = flow.forward(fn, frozenset(start), transfer, flow.notself, lambda a, b: meet(a, b))
            for b, s in ins.items():
                for n in flow.elems(fn, fn.blocks[b]):
                    visit(n, s)
                    s = transfer(n, s)
        c[fn] = out
        return out

    def early(self):
        P, ctx = self.P, self.ctx
        for q, cs in sorted(self.ctors().items()):
            R = P.records.get(q)
            if R is None or not R.file or R.file.startswith('<') or '3rdparty' in R.file:
                continue
            need = set(self.needs(R))
            for fn in cs:
                if fn.body is None or fn.decl.deleted:
                    continue
                ctx.count('constructors whose own reads are analysed')
                for k, (g, n) in sorted(self.exposed(fn).items()):
                    if k.split('[')[0] not in need:
                        continue
                    if ctx.excepted(P, 'c06_allow.txt', fn, 'early ' + k) is not None:
                        continue
                    ctx.viol('early', '%s(%s)' % (fn.q, ','.join(t.s for t in fn.decl.p)), k, 'the member %s is read (%s, %s:%d) '
                             'before this constructor has given it a value' % (k, g.q, g.file, n.l), fn=fn, P=P, node=n if g is fn else None)

    def derived_set(self, q, f):
        ds = [d for d in self.P.all_derived(q)]
        ct = self.ctors()
        R = self.P.records[q]
        if not ds or not (R.abstract or all(m.acc == 'protected' for m in R.methods if m.kind == 'ctor' and not m.implicit)):
            return False
        for d in ds:
            cs = [c for c in ct.get(d, []) if c.body is not None and c.decl.kind == 'ctor']
            if not cs or not all(f in self.definite(c) for c in cs):
                return False
        return True

    def objects(self):
        """Objects of classes without a constructor: their members are set before they are used."""
        P, ctx = self.P, self.ctx
        for fn in P.fns:
            if fn.body is None or '3rdparty' in fn.file:
                continue
            for n in fn.walk():
                if n.k == 'new':
                    t = n.t.p if n.t is not None else None
                    R = P.records.get(t.r or t.s) if t is not None and t.k == 'rec' else None
                    if R is None or not self.plain(R) or not self.needs(R):
                        continue
                    ctx.count('objects of such classes made')
                    ks = [k for k in n.kids if k.k in ('ctor', 'ilist', 'zinit')]
                    if not ks or ks[0].k == 'ctor' and not ks[0].args and not ks[0].get('zi') and ks[0].callee.kind == 'ctor':
                        if ctx.excepted(P, 'c06_allow.txt', fn, 'new ' + R.q) is None:
                            ctx.viol('object', fn.q, 'new ' + R.q, 'the members %s of the new %s are left without a value' %
                                     (', '.join(self.needs(R)), R.q), fn=fn, node=n, P=P)
                if n.k != 'vardecl' or n.t is None or n.t.k != 'rec':
                    continue
                R = P.records.get(n.t.r or n.t.s)
                if R is None or not self.plain(R) or not self.needs(R) or fn.locals[n.get('d')].get('sl'):
                    continue
                ctx.count('objects of such classes made')
                e = n.kids[0] if n.kids else None
                if e is not None and not (e.k == 'ctor' and not e.args and not e.get('zi') and e.callee is not None and
                                          e.callee.kind == 'ctor'):
                    continue
                self.local(fn, n, R)

    def local(self, fn, vd, R):
        P, ctx = self.P, self.ctx
        d = vd.get('d')
        need = self.needs(R)

        def fkey(e):
            while e is not None and e.k in ('cast', 'idx') and e.kids:
                e = e.c()
            if e is not None and e.k == 'mem' and not e.get('ar'):
                b = e.c()
                if b is not None and b.k == 'var' and b.get('d') == d:
                    return e.name
                k = fkey(b)
                return '%s.%s' % (k, e.name) if k else None
            return None

        def transfer(n, s):
            if n.k == 'assign' and n.op == '=':
                k = fkey(n.c(0))
                if k:
                    return s | {k}
                if n.c(0).k == 'var' and n.c(0).get('d') == d:
                    return s | {'*'}
            if n.k in ('call', 'ctor'):
                ce = n.callee
                for i, a in enumerate(n.args):
                    t = ce.p[i] if ce is not None and i < len(ce.p) else None
                    x = a
                    while x.k in ('cast',) and x.kids:
                        x = x.c()
                    adr = x.k == 'un' and x.op == '&'
                    if adr:
                        x = x.c()
                    k = fkey(x)
                    w = adr or t is not None and t.k == 'ref' and not t.p.c
                    if k and w:
                        s = s | {k}
                    elif x.k == 'var' and x.get('d') == d and w and (adr or ce is None or ce.in_repo()):
                        s = s | {'*'}
                o = n.obj if n.k == 'call' else None
                if o is not None and o.k == 'var' and o.get('d') == d and n.op == '=':
                    s = s | {'*'}
            if n.k == 'vardecl' and n.get('d') == d:
                s = frozenset()
            return s
        if not fn.blocks:
            return
        ins = flow.forward(fn, frozenset(), transfer, None, meet)
        from absval import elem_index
        ix = elem_index(fn)
        for n in fn.walk():
            if n.k != 'var' or n.get('d') != d or n.i not in ix:
                continue
            s = flow.at(fn, ins, n, ix, transfer)
            if s is None or '*' in s:
                continue
            p = n.p
            miss = None
            top = n
            while p is not None and p.k in ('mem', 'idx', 'cast') and p.c() is top:
                if p.k == 'mem' and p.get('ar'):
                    break
                top, p = p, p.p
            k = fkey(top)
            if k:
                if top.get('rv') and k in need and k not in s:
                    miss = [k]
            elif p is not None and p.k in ('call', 'ctor', 'return', 'vardecl', 'assign', 'ilist'):
                if p.k == 'assign' and p.c(0) is top or p.k == 'call' and p.op == '=' and p.obj is n:
                    continue
                if p.k in ('call', 'ctor') and p.callee is not None:
                    if n in p.args:
                        j = p.args.index(n)
                        t = p.callee.p[j] if j < len(p.callee.p) else None
                        if t is not None and t.k == 'ref' and not t.p.c and p.callee.in_repo():
                            continue
                    elif p.k == 'call' and p.obj is n and not p.callee.const:
                        continue
                miss = [x for x in need if x not in s]
            if miss:
                name = fn.locals[d]['n']
                if ctx.excepted(P, 'c06_allow.txt', fn, 'object ' + name) is None:
                    ctx.viol('object', fn.q, name, 'the members %s of %s may be used on line %d without having been given a '
                             'value' % (', '.join(miss), name, n.l), fn=fn, node=vd, P=P)
                return


class Locals(object):
    """Rule 2: no local scalar is read before it has been set."""

    def __init__(self, P):
        self.P = P
        self._sum = {}
        self._px = {}

    def px(self, fn):
        r = self._px.get(fn)
        if r is None:
            r = self._px[fn] = (Paths(fn), elem_index(fn))
        return r

    def summary(self, decl, i, depth=0):
        """What a function does with its i'th (non-const reference or pointer) argument: 'always' sets it, 'true': sets
        it whenever it returns a non-zero value, 'reads' it first, 'maybe'."""
        k = (decl.u, i)
        if k in self._sum:
            return self._sum[k]
        self._sum[k] = 'always'
        b = decl.body or (self.P.by_usr.get(decl.pat) if decl.pat else None)
        if b is None or b.body is None or i >= len(b.params) or depth > 5:
            r = 'always'
        elif not b.blocks:
            r = 'always'
        else:
            paths, ix = self.px(b)
            res = self.track(b, b.params[i]['d'], [(b.entry, 0, {})], depth + 1,
                             ptr=b.params[i]['t'] is not None and b.params[i]['t'].k == 'ptr')
            bad = [(n, v) for n, v, env in res if v not in (SET, THROW)]
            if any(v == READ for n, v in bad):
                r = 'reads'
            elif not bad:
                r = 'always'
            elif all(v == FALSE for n, v in bad):
                r = 'true'
            elif all(v == TRUE for n, v in bad):
                r = 'false'
            else:
                r = 'maybe'
        self._sum[k] = r
        return r

    def track(self, fn, d, starts, depth, ptr=False):
        P = self.P
        paths = self.px(fn)[0]
        pend = {}

        def is_x(a):
            while a.k == 'cast' and a.kids:
                a = a.c()
            if ptr:
                if a.k == 'un' and a.op == '*':
                    a = a.c()
                    while a.k == 'cast' and a.kids:
                        a = a.c()
                else:
                    return False
            return a.k == 'var' and a.get('d') == d

        def passed(n):
            """How a call uses the tracked variable: None, 'set', 'read', or 'true'/'false' (set with that result)."""
            ce = n.callee
            use = None
            for i, a in enumerate(n.args):
                t = ce.p[i] if ce is not None and i < len(ce.p) else None
                b = a
                while b.k == 'cast' and b.kids:
                    b = b.c()
                addr = b.k == 'un' and b.op == '&' and b.c().k == 'var' and b.c().get('d') == d and not ptr
                same = is_x(a) if not ptr else (is_x(a) or b.k == 'var' and b.get('d') == d)
                if not addr and not same:
                    continue
                if same and not ptr and a.get('rv'):
                    continue
                isref = t is not None and t.k in ('ref', 'rref')
                if same and isref and t.p is not None and t.p.c and not ptr:
                    return 'read'
                if ce is None or t is None:
                    return 'set'
                if not addr and not isref and not ptr:
                    continue
                rs = set()
                for q in P.targets(n):
                    b2 = q.body or (P.by_usr.get(q.pat) if q.pat else None)
                    if b2 is None:
                        rs.add('always')
                    else:
                        rs.add(self.summary(q, i, depth))
                if not rs or rs == {'always'}:
                    return 'set'
                rs.discard('always')
                if rs == {'true'}:
                    use = 'true'
                elif rs == {'false'}:
                    use = 'false'
                elif 'reads' in rs:
                    return 'read'
                else:
                    use = use or 'maybe'
            return use

        def cr(ev, n, env):
            u = pend.get(n.i)
            if u == 'true':
                return FALSE
            if u == 'false':
                return TRUE
            return None

        def stop(n, env, ev):
            k = n.k
            if k in ('call', 'ctor'):
                u = pend.get(n.i, 0)
                if u == 0:
                    u = pend[n.i] = passed(n)
                if u == 'set':
                    return SET
                if u == 'read':
                    return READ
                return None
            if k == 'assign' and n.op == '=' and is_x(n.c(0)):
                return SET
            if k == 'assign' and n.op != '=' and is_x(n.c(0)):
                return READ
            if k == 'un' and n.op in ('++', '--', 'p++', 'p--', '++p', '--p') and is_x(n.c(0)):
                return READ
            if k == 'var' and n.get('d') == d and not ptr:
                if n.get('rv'):
                    return READ
                p = n.p
                if p is not None and p.k == 'vardecl' and p.t is not None and p.t.k in ('ref', 'ptr'):
                    return SET          # an alias is made: give up on this path
                if p is not None and p.k == 'un' and p.op == '&' and p.p is not None and p.p.k not in ('call', 'ctor', 'cast'):
                    return SET
            if k == 'un' and n.op == '*' and ptr and is_x(n) and n.get('rv'):
                return READ
            if k == 'var' and ptr and n.get('d') == d and n.p is not None and n.p.k in ('vardecl', 'idx') :
                return SET
            if k == 'return' and n.kids and not ptr and is_x(n.kids[0]) and not n.kids[0].get('rv'):
                return READ
            if k == 'omp':
                return SET
            if k == 'lambda':
                for c in n.get('cap') or []:
                    if c.get('d') == d:
                        return SET
            if k == 'vardecl' and n.get('d') == d:
                return SET              # declared anew in the next iteration: another start
            return None
        res, ov = explore(fn, paths, starts, callret=cr, stop=stop)
        return res

    def run(self, ctx):
        P = self.P
        for fn in P.fns:
            if not fn.blocks or '3rdparty' in fn.file:
                continue
            paths, ix = None, None
            for n in fn.walk():
                if n.k != 'vardecl' or n.kids or n.t is None or n.t.k not in SCALAR:
                    continue
                d = n.get('d')
                if fn.locals[d].get('sl') or fn.is_param(d) or n.role in ('lv', 'rs', 'bs', 'es') or \
                        n.p is not None and n.p.role == 'lv':
                    continue
                if paths is None:
                    paths, ix = self.px(fn)
                    ci = const_in(fn, paths)
                ctx.count('local variables declared without a value')
                b, i = None, None
                # start at the first element that mentions the variable, or the declaration statement
                if n.i in ix:
                    b, i = ix[n.i]
                elif n.p is not None and n.p.i in ix:
                    b, i = ix[n.p.i]
                if b is None:
                    ctx.count('declarations not in the CFG')
                    continue
                env = dict(ci.get(b, {}))
                run_block(fn, AbsEval(fn, paths), fn.blocks[b], env, i + 1)
                res = self.track(fn, d, [(b, i + 1, env)], 0)
                bad = [m for m, v, e in res if v == READ]
                if not bad:
                    continue
                m = min(bad, key=lambda x: x.l)
                if ctx.excepted(P, 'c06_allow.txt', fn, 'local ' + fn.locals[d]['n']) is not None:
                    continue
                ctx.viol('local', fn.q, fn.locals[d]['n'], 'the variable %s declared here may be used on line %d without having been '
                         'given a value' % (fn.locals[d]['n'], m.l), fn=fn, node=n, P=P)


def meet(a, b):
    if '*' in a:
        return b
    if '*' in b:
        return a
    return a & b


def const_of(e):
    v = e.get('v') if e is not None else None
    while v is None and e is not None and e.k == 'cast' and e.kids:
        e = e.c()
        v = e.get('v')
    return v if isinstance(v, int) else None


SET = frozenset(['SET'])
READ = frozenset(['READ'])
THROW = frozenset(['THROW'])


def run(P, ctx):
    M = Members(P, ctx)
    M.run()
    M.early()
    Locals(P).run(ctx)
    ctx.need('classes with members that a constructor has to set', 120, 'classes with scalar members without initialisers')
    ctx.need('constructors analysed', 180, 'constructors of these')
    ctx.need('constructor/member obligations', 600, 'members to be set by constructors')
    ctx.need('local variables declared without a value', 200, 'local scalars declared without a value')
    ctx.explain.append('A member counts as set when every path through the constructor (initialiser list, delegated and base '
                       'constructors, own member functions called, loops over all elements of an array) assigns it or passes '
                       'it to a function that may write it.')
    ctx.explain.append('A local scalar declared without a value is reported when some feasible path (branch conditions '
                       'followed) reads it before a write; a function receiving it by reference counts as writing it only '
                       'if all its own paths do, or those with the result the caller has tested for.')
    ctx.assume('for loops over an array member with a non-constant bound cover the whole array')
    ctx.assume('elements of pointed-to blocks and local arrays are not tracked')

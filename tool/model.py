"""Program model over the extracted facts: types, declarations, functions, CFGs,
class hierarchy, call graph, access paths."""
import sys
from facts import extract, AnalysisError, ROOT

KID_KEYS = ('init', 'cv', 'rs', 'bs', 'es', 'lv', 'cond', 'inc', 'o', 'f', 'c', 'a', 'size', 'pl', 'lhs', 'rhs',
            'then', 'else', 'body', 'ci')


class Type(object):
    __slots__ = ('s', 'k', 'p', 'r', 'c', 'u', 'b', 'n', 'ta', 'dep')

    def __init__(self, d):
        self.s = d['s']
        self.k = d['k']
        self.r = d.get('r')
        self.c = bool(d.get('c'))
        self.u = bool(d.get('u'))
        self.b = d.get('b')
        self.n = d.get('n')
        self.p = None
        self.ta = []
        self.dep = bool(d.get('dep'))

    def deref(self):
        return self.p if self.k in ('ref', 'rref') else self

    def __repr__(self):
        return self.s


class FunDecl(object):
    """A (possibly body-less) function declaration, merged over TUs by USR."""
    __slots__ = ('u', 'q', 'n', 'f', 'l', 'r', 'p', 'pn', 'rec', 'const', 'static', 'virtual', 'pure', 'acc', 'kind',
                 'ov', 'va', 'nr', 'deleted', 'defaulted', 'implicit', 'pat', 'body', 'explicit', 'conv', 'dv')

    def __repr__(self):
        return self.q

    @property
    def sig(self):
        return '%s(%s)%s' % (self.q, ', '.join(t.s for t in self.p), ' const' if self.const else '')

    def in_repo(self):
        return bool(self.f) and self.f[0] != '<'


class Glob(object):
    __slots__ = ('u', 'q', 'n', 't', 'f', 'l', 'sl', 'fn', 'sm', 'tls', 'cx', 'gs', 'cv')


DEP_ASSIGN = frozenset(['=', '+=', '-=', '*=', '/=', '|=', '&='])
DEP_BIN = DEP_ASSIGN | frozenset(['==', '!=', '<', '<=', '>', '>=', '&&', '||', '+', '-', '*', '/', '%', '&', '|'])


class Node(object):
    __slots__ = ('k', 'i', 'l', 't', 'd', 'kids', 'p', 'fn', 'role', 'mac')

    def __getattr__(self, name):
        # only called when normal lookup fails
        raise AttributeError(name)

    def get(self, key, default=None):
        return self.d.get(key, default)

    def child(self, role, idx=0):
        j = 0
        for c in self.kids:
            if c.role == role:
                if j == idx:
                    return c
                j += 1
        return None

    def children(self, role):
        return [c for c in self.kids if c.role == role]

    @property
    def op(self):
        return self.d.get('op')

    @property
    def name(self):
        return self.d.get('n')

    @property
    def args(self):
        return [c for c in self.kids if c.role == 'a']

    @property
    def obj(self):
        return self.child('o')

    @property
    def callee(self):
        return self.d.get('_callee')

    def c(self, i=0):
        return self.child('c', i)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.kids))

    def parents(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def __repr__(self):
        return '<%s#%s l%s %s>' % (self.k, self.i, self.l, expr_str(self))


class Block(object):
    __slots__ = ('id', 'elems', 'term', 'tcond', 'tk', 'label', 'succs', 'preds', 'noret', 'lt')


class Fn(object):
    """A function definition."""

    def __init__(self):
        self.nodes = {}
        self.blocks = {}
        self.calls = None

    @property
    def q(self):
        return self.decl.q

    def __repr__(self):
        return '%s (%s:%d)' % (self.decl.q, self.file, self.line)

    def walk(self):
        for ini in self.inits:
            if ini['e'] is not None:
                for n in ini['e'].walk():
                    yield n
        if self.body is not None:
            for n in self.body.walk():
                yield n

    def param(self, i):
        return self.params[i]

    def is_param(self, d):
        return self.locals[d].get('p')


class Record(object):
    pass


class Program(object):
    def __init__(self, raw):
        self.types = {}
        self.funs = {}      # usr -> FunDecl
        self.globals = {}   # usr -> Glob
        self.records = {}   # qname -> Record
        self.enums = {}     # qname -> [(name,val)]
        self.enum_loc = {}
        self.fns = []       # function definitions
        self.gdefs = []
        self.tus = [r['tu'] for r in raw]
        self.by_usr = {}
        self.lam_by_usr = {}
        seen = set()
        main_done = set()
        # non-header TUs first so that main-file definitions win
        for r in raw:
            self._load(r, seen)
        self._link()

    def _mktype(self, r):
        tab = []
        for d in r['types']:
            key = (d['s'], d['k'])
            t = self.types.get(key)
            if t is None:
                t = Type(d)
                self.types[key] = t
            tab.append(t)
        for d, t in zip(r['types'], tab):
            if 'p' in d and d['p'] >= 0 and t.p is None:
                t.p = tab[d['p']]
            if 'ta' in d and not t.ta:
                t.ta = [tab[x] for x in d['ta'] if x >= 0]
        return tab

    def _load(self, r, seen):
        T = self._mktype(r)

        def ty(i):
            return T[i] if i is not None and i >= 0 else None
        F = []
        for d in r['funs']:
            f = self.funs.get(d['u'])
            if f is None:
                f = FunDecl()
                f.u = d['u']
                f.q = d['q']
                f.n = d['n']
                f.f = d['f']
                f.l = d['l']
                f.r = ty(d['r'])
                f.p = [ty(x) for x in d['p']]
                f.pn = d['pn']
                f.dv = d.get('dv')
                f.rec = d.get('rec')
                f.const = bool(d.get('cst'))
                f.static = bool(d.get('st'))
                f.virtual = bool(d.get('vi'))
                f.pure = bool(d.get('pv'))
                f.acc = d.get('acc')
                f.kind = d['kind']
                f.ov = d.get('ov', [])
                f.va = bool(d.get('va'))
                f.nr = bool(d.get('nr'))
                f.deleted = bool(d.get('del'))
                f.defaulted = bool(d.get('def'))
                f.implicit = bool(d.get('imp'))
                f.explicit = bool(d.get('exp'))
                f.conv = bool(d.get('conv'))
                f.pat = d.get('pat')
                f.body = None
                self.funs[d['u']] = f
            F.append(f)
        G = []
        for d in r['globals']:
            g = self.globals.get(d['u'])
            if g is None:
                g = Glob()
                g.u = d['u']
                g.q = d['q']
                g.n = d['n']
                g.t = ty(d['t'])
                g.f = d['f']
                g.l = d['l']
                g.sl = bool(d.get('sl'))
                g.fn = F[d['fn']] if 'fn' in d else None
                g.sm = bool(d.get('sm'))
                g.tls = bool(d.get('tls'))
                g.cx = bool(d.get('cx'))
                g.gs = bool(d.get('gs'))
                g.cv = d.get('cv')
                self.globals[d['u']] = g
            elif g.cv is None:
                g.cv = d.get('cv')
            G.append(g)

        def mk(d, parent, role, fn):
            n = Node()
            n.k = d['k']
            n.i = d['i']
            n.l = d.get('l') or (parent.l if parent is not None else 0)
            n.t = ty(d.get('t'))
            n.mac = d.get('mac')
            n.d = d
            n.p = parent
            n.role = role
            n.fn = fn
            kids = []
            for key in KID_KEYS:
                v = d.get(key)
                if v is None:
                    continue
                if isinstance(v, list):
                    for x in v:
                        if isinstance(x, dict) and 'k' in x:
                            kids.append(mk(x, n, key, fn))
                elif isinstance(v, dict) and 'k' in v:
                    kids.append(mk(v, n, key, fn))
            n.kids = kids
            if n.k == 'call' and 'u' not in d and kids and kids[0].role == 'f' and kids[0].k in ('ref', 'expr'):
                # operator applied to type-dependent operands
                nm = kids[0].d.get('n') or ''
                if nm.startswith('operator'):
                    op = nm[8:].strip()
                    if len(kids) == 3 and op in DEP_BIN:
                        n.k, d['op'] = ('assign' if op in DEP_ASSIGN else 'bin'), op
                        n.kids = kids = kids[1:]
                    elif len(kids) == 2 and op == '!':
                        n.k, d['op'] = 'un', op
                        n.kids = kids = kids[1:]
                    for x in kids:
                        x.role = 'c' if n.k != 'call' else x.role
            for key in KID_KEYS:
                if key in d and (isinstance(d[key], (list, dict))):
                    d.pop(key)
            if 'u' in d and n.k in ('call', 'ctor', 'fn'):
                d['_callee'] = F[d['u']]
            if 'fnm' in d:
                d['_callee'] = F[d['fnm']]
            if 'fu' in d:
                d['_fu'] = F[d['fu']]
            if 'g' in d:
                d['_g'] = G[d['g']]
            if 'at' in d:
                d['_at'] = ty(d['at'])
            if 'it' in d:
                d['_it'] = ty(d['it'])
            if n.k == 'omp':
                for cl in d['cl']:
                    for v in cl.get('v', []):
                        if 'g' in v:
                            v['_g'] = G[v['g']]
            if fn is not None:
                fn.nodes[n.i] = n
            return n

        self._mk = mk
        for d in r['functions']:
            decl = F[d['fn']]
            key = (decl.u, d['file'], d['l'])
            if key in seen:
                continue
            seen.add(key)
            fn = Fn()
            fn.decl = decl
            fn.file = d['file']
            fn.line = d['l']
            fn.endline = d['el']
            fn.dep = bool(d.get('dep'))
            fn.ti = bool(d.get('ti'))
            fn.lam = bool(d.get('lam'))
            fn.parent = F[d['parent']] if 'parent' in d else None
            fn.tu = r['tu']
            fn.params = [{'d': p['d'], 'n': p['n'], 't': ty(p['t']), 'da': p.get('da')} for p in d['ps']]
            fn.locals = [dict(l, t=ty(l['t'])) for l in d['loc']]
            for l in fn.locals:
                if 'g' in l:
                    l['_g'] = G[l['g']]
            fn.inits = []
            for i in d.get('inits', []):
                fn.inits.append({'fld': i.get('fld'), 'base': ty(i['base']) if 'base' in i else None,
                                 'dlg': i.get('dlg'), 'w': i.get('w'), 'ici': i.get('ici'),
                                 'e': mk(i['e'], None, 'init', fn) if i.get('e') else None})
            fn.body = mk(d['body'], None, 'body', fn) if d.get('body') else None
            cfg = d.get('cfg')
            fn.entry = fn.exit = None
            if cfg:
                fn.entry = cfg['entry']
                fn.exit = cfg['exit']
                for b in cfg['blocks']:
                    B = Block()
                    B.id = b['b']
                    B.elems = b['e']
                    B.term = b.get('t')
                    B.tcond = b.get('tc')
                    B.tk = b.get('tk')
                    B.label = b.get('lab')
                    B.lt = b.get('lt')
                    B.noret = bool(b.get('nr'))
                    B.succs = b['s']
                    B.preds = []
                    fn.blocks[B.id] = B
                for B in fn.blocks.values():
                    for s in B.succs:
                        if s is not None and s in fn.blocks:
                            fn.blocks[s].preds.append(B.id)
            self.fns.append(fn)
            if fn.lam:
                self.lam_by_usr[decl.u] = fn
            else:
                decl.body = fn
                self.by_usr[decl.u] = fn
        for d in r['records']:
            q = d['q']
            old = self.records.get(q)
            if old is not None and (old.file, old.line) == (d['f'], d['l']):
                continue
            R = Record()
            R.q = q
            R.u = d['u']
            R.file = d['f']
            R.line = d['l']
            R.dep = bool(d.get('dep'))
            R.union = bool(d.get('union'))
            R.local = bool(d.get('local'))
            R.bases = [{'t': ty(b['t']), 'q': b.get('q') or (ty(b['t']).r if ty(b['t']) else None), 'v': b.get('v')}
                       for b in d['bases']]
            R.fields = []
            for f in d['fields']:
                R.fields.append({'n': f['n'], 't': ty(f['t']), 'l': f['l'], 'init': bool(f.get('init')),
                                 'mut': bool(f.get('mut')), 'acc': f['acc']})
            R.methods = [F[m] for m in d['methods']]
            R.vdtor = bool(d.get('vdtor'))
            R.udtor = bool(d.get('udtor'))
            R.poly = bool(d.get('poly'))
            R.abstract = bool(d.get('abs'))
            R.pod = bool(d.get('pod'))
            R.agg = bool(d.get('agg'))
            if old is not None and old.u != R.u:
                # same name in several TUs (file-local classes): keep both
                self.records[q + '@' + R.file] = R
            else:
                self.records[q] = R
        for d in r['enums']:
            key = d['q'] if d['q'] and '(' not in d['q'] else d['q']
            self.enums[key] = [(c['n'], c['v']) for c in d['c']]
            self.enum_loc[key] = (d['f'], d['l'])
        for d in r['gdefs']:
            g = G[d['g']]
            init = d.get('init')
            self.gdefs.append((g, mk(init, None, 'init', None) if init else None))

    def _link(self):
        self.derived = {}
        for R in self.records.values():
            for b in R.bases:
                if b['q']:
                    self.derived.setdefault(b['q'], set()).add(R.q)
        # overriding
        self.overriders = {}
        for f in self.funs.values():
            for o in f.ov:
                self.overriders.setdefault(o, set()).add(f.u)
        # template instantiation -> pattern
        self.fn_of = {}
        for f in self.funs.values():
            if f.body is None and f.pat and f.pat in self.by_usr:
                f.body = self.by_usr[f.pat]
        self.byname = {}
        for fn in self.fns:
            self.byname.setdefault(fn.q, []).append(fn)

    # -- hierarchy
    def all_bases(self, q):
        out, st = [], [q]
        while st:
            R = self.records.get(st.pop())
            if R is None:
                continue
            for b in R.bases:
                if b['q'] and b['q'] not in out:
                    out.append(b['q'])
                    st.append(b['q'])
        return out

    def all_derived(self, q):
        out, st = set(), [q]
        while st:
            for d in self.derived.get(st.pop(), ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def is_a(self, q, base):
        return q == base or base in self.all_bases(q)

    def all_fields(self, q):
        out = []
        R = self.records.get(q)
        if R is None:
            return out
        out += [(R, f) for f in R.fields]
        for b in self.all_bases(q):
            B = self.records.get(b)
            if B:
                out += [(B, f) for f in B.fields]
        return out

    def all_overriders(self, decl):
        out, st = set(), [decl.u]
        while st:
            for o in self.overriders.get(st.pop(), ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return [self.funs[u] for u in sorted(out)]

    def targets(self, call):
        """Possible callee definitions of a call node (virtual dispatch resolved by CHA)."""
        d = call.callee
        if d is None:
            return []
        res = [d]
        if d.virtual and not call.get('nv') and call.k == 'call':
            res += self.all_overriders(d)
        return res

    def find(self, qname):
        return self.byname.get(qname, [])

    def one(self, qname, pred=None):
        c = [f for f in self.find(qname) if pred is None or pred(f)]
        return c[0] if c else None


# ---------------------------------------------------------------------------
def expr_str(n, depth=0):
    """Readable rendering of an expression node."""
    if n is None:
        return '?'
    if depth > 12:
        return '...'
    k = n.k
    e = lambda x: expr_str(x, depth + 1)
    if k == 'var':
        return n.name
    if k == 'gvar':
        return n.name
    if k in ('int', 'float', 'char'):
        return str(n.get('v'))
    if k == 'str':
        return '"%s"' % str(n.get('v', ''))[:30]
    if k == 'bool':
        return 'true' if n.get('v') else 'false'
    if k == 'null_p':
        return 'nullptr'
    if k == 'this':
        return 'this'
    if k in ('enum', 'fn', 'ref'):
        return n.name or '?'
    if k == 'mem':
        b = n.c()
        if b is None or b.k == 'this':
            return n.name
        return e(b) + ('->' if n.get('ar') else '.') + n.name
    if k == 'call':
        a = ','.join(e(x) for x in n.args)
        o = n.obj
        if n.op and o is not None:
            if n.op == '[]':
                return '%s[%s]' % (e(o), a)
            if n.op == '()':
                return '%s(%s)' % (e(o), a)
            return '%s%s%s' % (e(o), n.op, a)
        if n.op:
            return n.op.join(e(x) for x in n.args)
        nm = n.name or (e(n.child('f')) if n.child('f') else '?')
        if o is not None and not (o.k == 'this'):
            return '%s.%s(%s)' % (e(o), nm, a)
        f = n.child('f')
        if f is not None and f.k == 'mem' and f.c() is not None:
            return '%s(%s)' % (e(f), a)
        return '%s(%s)' % (nm, a)
    if k == 'ctor':
        return '%s(%s)' % (n.name or (n.t.s if n.t else ''), ','.join(e(x) for x in n.args))
    if k in ('bin', 'assign'):
        return '(%s%s%s)' % (e(n.c(0)), n.op, e(n.c(1)))
    if k == 'un':
        op = n.op
        return (e(n.c()) + op[1:]) if op.startswith('p') else op + e(n.c())
    if k == 'cond':
        return '(%s)' % ' ? '.join(e(x) for x in n.kids)
    if k == 'idx':
        return '%s[%s]' % (e(n.c(0)), e(n.c(1)))
    if k == 'cast':
        return '(%s)%s' % (n.t.s if n.t else '', e(n.c()))
    if k == 'new':
        return 'new %s' % n.get('_at')
    if k == 'delete':
        return 'delete ' + e(n.c())
    if k == 'return':
        return 'return ' + (e(n.c()) if n.kids else '')
    if k == 'vardecl':
        return '%s = %s' % (n.name, e(n.c()) if n.kids else '')
    return k


def loc(fn, n):
    return '%s:%d' % (fn.file, n.l if n is not None else fn.line)


def is_copy_ctor(n):
    return n.k == 'ctor' and n.callee is not None and n.callee.kind in ('cctor', 'mctor') and len(n.args) >= 1


def strip_copy(n):
    while n is not None and is_copy_ctor(n):
        n = n.args[0]
    return n


class Paths(object):
    """Access paths with local reference/pointer alias resolution for one function."""

    def __init__(self, fn):
        self.fn = fn
        self.bind = {}
        assigned = set()
        decls = {}
        for n in fn.walk():
            if n.k == 'vardecl':
                decls[n.get('d')] = n
            elif n.k == 'assign' and n.c(0).k == 'var':
                assigned.add(n.c(0).get('d'))
            elif n.k == 'un' and n.op in ('++', '--', 'p++', 'p--', '&') and n.c().k == 'var':
                assigned.add(n.c().get('d'))
            elif n.k == 'call' and n.obj is None or n.k in ('call', 'ctor'):
                # passing by non-const reference may rebind pointers
                ce = n.callee
                if ce is not None:
                    for a, pt in zip(n.args, ce.p):
                        if a.k == 'var' and pt is not None and pt.k == 'ref' and not pt.p.c:
                            assigned.add(a.get('d'))
        for d, n in decls.items():
            t = n.t
            if t is None or not n.kids:
                continue
            init = n.kids[0]
            if t.k in ('ref', 'rref'):
                if n.p is not None and n.p.role == 'lv':
                    continue
                self.bind[d] = ('ref', init)
            elif t.k == 'ptr' and d not in assigned:
                self.bind[d] = ('ptr', init)

    def key(self, n, depth=0):
        """Canonical string of an expression; None when not representable."""
        if n is None or depth > 40:
            return None
        k = n.k
        if k == 'var':
            d = n.get('d')
            b = self.bind.get(d)
            if b is not None:
                r = self.key(b[1], depth + 1)
                if r is not None:
                    return r
            return 'v%d:%s' % (d, n.name)
        if k == 'gvar':
            return 'g:' + n.name
        if k == 'this':
            return 'this'
        if k == 'mem':
            b = n.c()
            bk = 'this' if b is None else self.key(b, depth + 1)
            if bk is None:
                return None
            if bk.startswith('&'):
                bk = bk[1:]
            elif bk.endswith('.*'):
                bk = bk[:-2]
            return bk + '.' + n.name
        if k == 'un':
            bk = self.key(n.c(), depth + 1)
            if bk is None:
                return None
            if n.op == '*':
                if bk == 'this':
                    return 'this'
                return bk[1:] if bk.startswith('&') else bk + '.*'
            if n.op == '&':
                if bk.endswith('.*'):
                    return bk[:-2]
                return '&' + bk
            if n.op in ('-', '!', '~', '+'):
                return n.op + bk
            return None
        if k in ('int', 'char'):
            return '#%s' % n.get('v')
        if k == 'bool':
            return '#%d' % (1 if n.get('v') else 0)
        if k == 'enum':
            return '#' + n.name
        if k == 'float':
            return '#' + n.get('v')
        if k == 'str':
            return '"' + n.get('v', '') + '"'
        if k == 'null_p':
            return '#null'
        if k == 'defarg':
            return '#def'
        if k == 'idx':
            a, b = self.key(n.c(0), depth + 1), self.key(n.c(1), depth + 1)
            if a is None or b is None:
                return None
            return '%s[%s]' % (a, b)
        if k == 'bin':
            a, b = self.key(n.c(0), depth + 1), self.key(n.c(1), depth + 1)
            if a is None or b is None:
                return None
            if n.op in ('+', '*', '==', '!=', '&&', '||', '&', '|') and b < a and not (n.op in ('&&', '||')):
                a, b = b, a
            return '(%s%s%s)' % (a, n.op, b)
        if k == 'cond':
            ks = [self.key(c, depth + 1) for c in n.kids]
            return None if None in ks else '(' + '?'.join(ks) + ')'
        if k == 'cast':
            return self.key(n.c(), depth + 1)
        if k == 'ctor':
            if is_copy_ctor(n) or len(n.args) == 1:
                return self.key(n.args[0], depth + 1)
            return None
        if k == 'call':
            o = n.obj
            ks = [self.key(a, depth + 1) for a in n.args]
            if None in ks:
                return None
            if o is not None:
                ok = self.key(o, depth + 1)
                if ok is None:
                    return None
                if ok.startswith('&'):
                    ok = ok[1:]
                elif ok.endswith('.*'):
                    ok = ok[:-2]
                if n.op == '[]':
                    return '%s[%s]' % (ok, ks[0] if ks else '')
                if n.op in ('*', '->') and not ks:
                    return ok if n.op == '->' else ok + '.*'
                if n.op and n.op != '()':
                    return '(%s %s %s)' % (ok, n.op, ' '.join(ks))
                return '%s.%s(%s)' % (ok, n.name if n.op != '()' else '()', ','.join(ks))
            f = n.child('f')
            if f is not None:
                fk = self.key(f, depth + 1)
                if fk is None:
                    return None
                return '%s(%s)' % (fk, ','.join(ks))
            return '%s(%s)' % (n.callee.q if n.callee else n.name, ','.join(ks))
        if k == 'ref':
            return 'r:' + (n.name or '?')
        return None


_prog = None


def load(only=None):
    global _prog
    if _prog is None:
        _prog = Program(extract(only))
    return _prog

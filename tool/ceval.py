"""Constant propagation through table-building code: evaluates a function for given constant arguments as far as its source
determines the values (exact rational arithmetic); whatever is not determined is UNKNOWN, and a branch on an unknown value is
taken as the successful one (a branch that only returns is not taken) or, when it would change known values, gives Undecided."""
import math
from fractions import Fraction


class Undecided(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class _U(object):
    def __repr__(self):
        return '?'

    def __bool__(self):
        raise Undecided('branch on an unknown value')


UNKNOWN = _U()
WRAP = ('cast', 'paren', 'tmp', 'cleanup', 'expr')


def conversion(e):
    return e.k == 'call' and (e.name or '').startswith('operator ') and e.obj is not None and not e.args


class List(object):
    def __init__(self, v=(), shape=None):
        self.v = list(v)
        self.shape = shape

    def __repr__(self):
        return repr(self.v)


class Mat(object):
    def __init__(self, r=0, c=0):
        self.r, self.c, self.d = r, c, {}

    def get(self, i, j):
        return self.d.get((i, j), Fraction(0))


class Obj(object):
    def __init__(self, rec, f=None):
        self.rec = rec
        self.f = f if f is not None else {}


class Lin(Obj):
    """Linear combination of named vectors."""

    def __init__(self, f=None):
        Obj.__init__(self, None, f)

    def plus(self, x, a=1):
        r = dict(self.f)
        for k, v in x.f.items():
            r[k] = r.get(k, 0) + a * v
        return Lin(r)


class Ptr(object):
    """Pointer to element i of a list."""

    def __init__(self, l, i):
        self.l, self.i = l, i


class Ref(object):
    """Reference to a cell (container, key)."""

    def __init__(self, c, k):
        self.c, self.k = c, k


def load(c, k):
    if isinstance(c, dict):
        v = c.get(k, UNKNOWN)
    elif isinstance(c, Obj):
        v = c.f.get(k, UNKNOWN)
    elif isinstance(c, List):
        if not isinstance(k, int) or k < 0 or k >= len(c.v):
            raise Undecided('index %s out of range of %s' % (k, c))
        v = c.v[k]
    elif isinstance(c, Mat):
        v = c.get(*k)
    else:
        return UNKNOWN
    return load(v.c, v.k) if isinstance(v, Ref) else v


def store(c, k, v):
    if isinstance(c, dict):
        o = c.get(k)
        if isinstance(o, Ref):
            return store(o.c, o.k, v)
        c[k] = v
    elif isinstance(c, Obj):
        o = c.f.get(k)
        if isinstance(o, Ref):
            return store(o.c, o.k, v)
        c.f[k] = v
    elif isinstance(c, List):
        if not isinstance(k, int) or k < 0 or k >= len(c.v):
            raise Undecided('index %s out of range' % k)
        c.v[k] = v
    elif isinstance(c, Mat):
        c.d[k] = v


def copy(v):
    if isinstance(v, List):
        return List([copy(x) for x in v.v], v.shape)
    if isinstance(v, Mat):
        m = Mat(v.r, v.c)
        m.d = dict(v.d)
        return m
    if isinstance(v, Lin):
        return Lin(dict(v.f))
    if isinstance(v, Obj):
        return Obj(v.rec, {k: (x if isinstance(x, Ref) else copy(x)) for k, x in v.f.items()})
    return v


def known(v):
    return v is not UNKNOWN


def isvec(t):
    return t is not None and ('vector<' in t.s or 'std::array<' in t.s or 'RealArray' in t.s or 'Vector' in t.s)


def ismat(t):
    return t is not None and ('matrix<' in t.s or 'Matrix' in t.s)


class Eval(object):
    def __init__(self, P, hooks=None, limit=200000, within=None):
        self.within = within        # the classes whose methods are followed (None: all)
        self.P = P
        self.hooks = hooks or {}    # callee name -> f(eval, node, obj node, args) or a value; return NotImplemented to go on
        self.limit = limit
        self.depth = 0

    # ---- calls -------------------------------------------------------------------------------------------------

    def call(self, fn, this=None, args=(), env=None):
        if self.depth > 30:
            raise Undecided('recursion')
        env = dict(env or {})
        env['this'] = this
        for p, a in zip(fn.params, args):
            env[p['d']] = a
        self.depth += 1
        try:
            for ini in fn.inits:
                e = ini['e']
                if ini.get('fld') and this is not None:
                    this.f[ini['fld']] = self.init(e, ini.get('t') or e.t if e is not None else None, env)
                elif ini.get('base') is not None and this is not None and e is not None:
                    c = e
                    while c is not None and c.k not in ('ctor', 'plist', 'ilist') and c.kids:
                        c = c.kids[-1]
                    if c is not None and c.k == 'ctor':
                        b = self.ctor_of(c, ini['base'])
                        if b is not None:
                            self.call(b, this, self.args(c.args, b, env))
            try:
                self.stmt(fn.body, env)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def ctor_of(self, c, t=None):
        if c.callee is not None:
            f = self.P.by_usr.get(c.callee.u) or self.P.by_usr.get(c.callee.pat)
            return f
        if t is not None and t.r is not None:
            c2 = [f for f in self.P.fns if f.decl.rec == t.r and f.decl.kind == 'ctor' and len(f.params) == len(c.args)]
            return c2[0] if len(c2) == 1 else None
        return None

    def args(self, nodes, fn, env):
        out = []
        for i, a in enumerate(nodes):
            t = fn.params[i]['t'] if i < len(fn.params) else None
            if t is not None and t.k in ('ref', 'rref'):
                lv = self.lval(a, env)
                if lv is not None:
                    out.append(Ref(*lv))
                    continue
            v = self.ev(a, env)
            out.append(copy(v))
        return out

    # ---- statements --------------------------------------------------------------------------------------------

    def stmt(self, s, env):
        if s is None:
            return
        self.limit -= 1
        if self.limit < 0:
            raise Undecided('too long')
        k = s.k
        if k == 'block':
            for x in s.kids:
                self.stmt(x, env)
        elif k == 'decl':
            for x in s.kids:
                if x.k == 'vardecl':
                    self.vardecl(x, env)
        elif k == 'vardecl':
            self.vardecl(s, env)
        elif k == 'if':
            ini = s.child('init')
            if ini is not None:
                self.stmt(ini, env)
            cv = s.child('cv') or s.child('var')
            if cv is not None and cv.k in ('vardecl', 'decl'):
                self.stmt(cv, env)
            c = self.truth(s.child('cond'), env)
            th, el = s.child('then'), s.child('else')
            if c is UNKNOWN:
                if exits(th):
                    c = False
                elif el is not None and exits(el):
                    c = True
                elif harmless(th, self.hooks) and harmless(el, self.hooks):
                    return
                else:
                    raise Undecided('branch at line %d' % s.l)
            if c:
                self.stmt(th, env)
            else:
                self.stmt(el, env)
        elif k == 'for':
            self.stmt(s.child('init'), env)
            while True:
                c = s.child('cond')
                if c is not None:
                    v = self.truth(c, env)
                    if v is UNKNOWN:
                        if harmless(s.child('body'), self.hooks):
                            return
                        raise Undecided('loop at line %d' % s.l)
                    if not v:
                        break
                try:
                    self.stmt(s.child('body'), env)
                except Break:
                    break
                except Continue:
                    pass
                if s.child('inc') is not None:
                    self.ev(s.child('inc'), env)
                self.limit -= 1
                if self.limit < 0:
                    raise Undecided('too long')
        elif k in ('while', 'do'):
            first = k == 'do'
            while True:
                if not first:
                    v = self.truth(s.child('cond'), env)
                    if v is UNKNOWN:
                        if harmless(s.child('body'), self.hooks):
                            return
                        raise Undecided('loop at line %d' % s.l)
                    if not v:
                        break
                first = False
                try:
                    self.stmt(s.child('body'), env)
                except Break:
                    break
                except Continue:
                    pass
                self.limit -= 1
                if self.limit < 0:
                    raise Undecided('too long')
        elif k == 'rfor':
            r = self.ev(s.child('rs') or s.child('range'), env)
            if not isinstance(r, List):
                if harmless(s.child('body'), self.hooks):
                    return
                raise Undecided('range loop at line %d' % s.l)
            vs = [m for m in s.child('lv').walk() if m.k == 'vardecl']
            for i in range(len(r.v)):
                ref = vs[0].t is not None and vs[0].t.k == 'ref'
                env[vs[0].get('d')] = Ref(r, i) if ref else copy(r.v[i])
                try:
                    self.stmt(s.child('body'), env)
                except Break:
                    break
                except Continue:
                    pass
        elif k == 'switch':
            v = self.ev(s.child('cond'), env)
            if v is UNKNOWN:
                if harmless(s.child('body'), self.hooks):
                    return
                raise Undecided('switch at line %d' % s.l)
            flat = []
            flatten(s.child('body'), flat)
            at = None
            for i, x in enumerate(flat):
                if x[0] == 'case' and self.ev(x[1], env) == v:
                    at = i
                    break
            if at is None:
                at = next((i for i, x in enumerate(flat) if x[0] == 'default'), None)
            if at is not None:
                try:
                    for x in flat[at:]:
                        if x[0] == 's':
                            self.stmt(x[1], env)
                except Break:
                    pass
        elif k == 'return':
            raise Return(self.ev(s.kids[0], env) if s.kids else None)
        elif k == 'break':
            raise Break()
        elif k == 'continue':
            raise Continue()
        elif k in ('null', 'label'):
            for x in s.kids:
                self.stmt(x, env)
        elif k in ('try', 'attributed'):
            self.stmt(s.kids[0], env)
        elif k == 'throw':
            raise Undecided('throws')
        else:
            self.ev(s, env)

    def vardecl(self, v, env):
        t, d = v.t, v.get('d')
        e = v.kids[0] if v.kids else None
        if e is None:
            env[d] = List() if isvec(t) else Mat() if ismat(t) else self.blank(t)
        elif t is not None and t.k in ('ref', 'rref'):
            lv = self.lval(e, env)
            env[d] = Ref(*lv) if lv is not None else self.ev(e, env)
        else:
            env[d] = self.init(e, t, env)

    def blank(self, t):
        if t is not None and t.k == 'rec' and t.r in self.P.records and not isvec(t) and not ismat(t):
            o = Obj(t.r)
            for R, f in self.P.all_fields(t.r):
                ft = f['t']
                if isvec(ft):
                    o.f[f['n']] = List()
                elif ismat(ft):
                    o.f[f['n']] = Mat()
            return o
        return UNKNOWN

    def init(self, e, t, env):
        v = copy(self.ev(e, env))
        if t is not None and t.k == 'rec' and isinstance(v, List) and not isvec(t) and not ismat(t) and t.r in self.P.records:
            fs = self.P.records[t.r].fields
            o = self.blank(t)
            if isinstance(o, Obj):
                for f, x in zip(fs, v.v):
                    o.f[f['n']] = x
                return o
        return self.conv(v, t)

    def conv(self, v, t):
        if t is not None and t.k == 'float' and isinstance(v, int) and not isinstance(v, bool):
            return Fraction(v)
        if t is not None and t.k == 'int' and isinstance(v, Fraction):
            return int(v)
        return v

    def truth(self, c, env):
        v = self.ev(c, env)
        if v is UNKNOWN or isinstance(v, (List, Mat, Obj)):
            return UNKNOWN
        if isinstance(v, Ptr):
            return True
        return bool(v)

    # ---- expressions -------------------------------------------------------------------------------------------

    def lval(self, e, env):
        while e is not None and (e.k in WRAP and e.kids or conversion(e)):
            e = e.kids[0]
        if e is None:
            return None
        k = e.k
        if k == 'var':
            d = e.get('d')
            v = env.get(d)
            if isinstance(v, Ref):
                return v.c, v.k
            return env, d
        if k == 'gvar':
            g = e.get('_g')
            if g is None:
                return None
            return {'g': self.glob(g)}, 'g'
        if k == 'mem':
            b = e.kids[0] if e.kids else None
            o = env.get('this') if b is None or strip(b).k == 'this' else self.ev(b, env)
            if isinstance(o, Ref):
                o = load(o.c, o.k)
            if isinstance(o, Obj):
                v = o.f.get(e.name)
                return (v.c, v.k) if isinstance(v, Ref) else (o, e.name)
            return None
        if k == 'idx' or k == 'call' and e.op == '[]' or k == 'call' and e.name == 'at':
            a, i = (e.kids[0], e.kids[1]) if k == 'idx' else (e.obj or fobj(e) or e.args[0], e.args[-1])
            c, i = self.ev(a, env), self.ev(i, env)
            if isinstance(c, Ptr):
                if not known(i):
                    return None
                c, i = c.l, c.i + int(i)
            if isinstance(c, List) and known(i):
                return c, int(i)
            return None
        if k == 'call' and (e.op == '()' or e.callee is None and fobj(e) is not None and len(e.args) == 2):
            o = self.ev(e.obj if e.op == '()' else fnode(e), env)
            if isinstance(o, Mat):
                a = [self.ev(x, env) for x in e.args]
                return (o, (int(a[0]), int(a[1]))) if len(a) == 2 and all(map(known, a)) else None
            if isinstance(o, List) and len(e.args) == 1:
                i = self.ev(e.args[0], env)
                return (o, int(i) - 1) if known(i) else None
            return None
        if k == 'call' and e.name in ('back', 'front') and (e.obj or fobj(e)) is not None:
            o = self.ev(e.obj or fobj(e), env)
            return (o, len(o.v) - 1 if e.name == 'back' else 0) if isinstance(o, List) and o.v else None
        if k == 'un' and e.op == '*':
            p = self.ev(e.kids[0], env)
            return (p.l, p.i) if isinstance(p, Ptr) else None
        if k == 'cond':
            c = self.truth(e.kids[0], env)
            return None if c is UNKNOWN else self.lval(e.kids[1] if c else e.kids[2], env)
        if k == 'call' and (e.name or (fnode(e).name if fnode(e) is not None else None)) in self.hooks:
            v = self.hooks[e.name or fnode(e).name]
            v = v(self, e, e.obj or fobj(e), e.args, env) if callable(v) else v
            return (v.c, v.k) if isinstance(v, Ref) else None
        if k in ('assign',):
            self.ev(e, env)
            return self.lval(e.kids[0], env)
        if k == 'un' and e.op in ('++', '--'):
            self.ev(e, env)
            return self.lval(e.kids[0], env)
        return None

    def glob(self, g):
        memo = self.__dict__.setdefault('_globs', {})
        if g.u not in memo:
            v = UNKNOWN
            if g.cv is not None and (g.t is not None and ('const' in g.t.s or g.cx or g.u in self.P.constglobs)):
                dims, t = [], g.t
                while t is not None and t.k == 'arr':
                    dims.append(t.n)
                    t = t.p
                fl = t is not None and t.k == 'float'
                vals = [Fraction(repr(x)) if fl else x for x in g.cv]
                if g.t.k == 'arr':
                    dims = [int(x) for x in __import__('re').findall(r'\[(\d+)\]', g.t.s)]
                    v = nest(vals, dims)
                else:
                    v = vals[0]
            memo[g.u] = v
        return memo[g.u]

    def ev(self, e, env):
        if e is None:
            return UNKNOWN
        k = e.k
        if k in WRAP and e.kids or conversion(e):
            v = self.ev(e.kids[0], env)
            if k == 'cast':
                v = self.conv(v, e.t)
                if isinstance(v, List) and e.t is not None and e.t.k == 'ptr':
                    return Ptr(v, 0)
            return v
        if k == 'int' or k == 'enum' or k == 'char':
            v = e.get('v')
            return int(v) if v is not None else UNKNOWN
        if k == 'float':
            return Fraction(e.get('v'))
        if k == 'bool':
            return bool(e.get('v'))
        if k == 'nullptr':
            return None
        if k == 'defarg':
            v = e.get('v')
            return v if v is not None else self.ev(e.kids[0], env) if e.kids else UNKNOWN
        if k == 'this':
            return env.get('this')
        if k in ('var', 'gvar', 'mem', 'idx'):
            if k == 'gvar':
                g = e.get('_g')
                return self.glob(g) if g is not None else UNKNOWN
            if k == 'mem' and self.hooks.get('.' + (e.name or '')) is not None:
                v = self.hooks['.' + e.name]
                lv = self.lval(e, env)
                if lv is None or load(*lv) is UNKNOWN:
                    return v
            lv = self.lval(e, env)
            return load(*lv) if lv is not None else UNKNOWN
        if k == 'ilist':
            if len(e.kids) == 1 and e.kids[0].k == 'ilist' and e.t is not None and 'initializer_list' in e.t.s:
                return self.ev(e.kids[0], env)
            vs = [self.ev(x, env) for x in e.kids]
            l = List([copy(v) for v in vs])
            return self.aggregate(l, e.t)
        if k == 'bin':
            return self.binop(e, env)
        if k == 'un':
            return self.unop(e, env)
        if k == 'cond':
            c = self.truth(e.kids[0], env)
            if c is UNKNOWN:
                return UNKNOWN
            return self.ev(e.kids[1] if c else e.kids[2], env)
        if k == 'assign':
            return self.assign(e, env)
        if k == 'ctor':
            return self.ctor(e, env)
        if k == 'call':
            return self.callexpr(e, env)
        if k in ('block', 'if', 'for', 'return', 'decl'):
            self.stmt(e, env)
        if k == 'sizeof' and e.get('v') is not None:
            return int(e.get('v'))
        return UNKNOWN

    def aggregate(self, l, t):
        if t is not None and t.k == 'rec' and t.r in self.P.records and not isvec(t) and not ismat(t):
            o = self.blank(t)
            for f, x in zip(self.P.records[t.r].fields, l.v):
                o.f[f['n']] = x
            return o
        return l

    def assign(self, e, env):
        op = e.op
        v = self.ev(e.kids[1], env)
        lv = self.lval(e.kids[0], env)
        if op != '=':
            old = load(*lv) if lv is not None else UNKNOWN
            v = arith(op[:-1], old, v, e.t) if known(old) and known(v) else UNKNOWN
        if lv is not None:
            v = copy(v)
            old = load(*lv) if not isinstance(lv[0], (dict, Obj)) else None
            if isinstance(v, List) and e.kids[0].t is not None:
                v = self.aggregate(v, e.kids[0].t)
            store(lv[0], lv[1], self.conv(v, e.kids[0].t))
        return v

    def binop(self, e, env):
        op = e.op
        if op in ('&&', '||'):
            a = self.truth(e.kids[0], env)
            if a is UNKNOWN:
                b = self.truth(e.kids[1], env)
                if b is not UNKNOWN and b == (op == '||'):
                    return b
                return UNKNOWN
            if a == (op == '||'):
                return a
            return self.truth(e.kids[1], env)
        a, b = self.ev(e.kids[0], env), self.ev(e.kids[1], env)
        if op == ',':
            return b
        if not known(a) or not known(b):
            return UNKNOWN
        if isinstance(a, Ptr) and isinstance(b, int) and op in '+-':
            return Ptr(a.l, a.i + (b if op == '+' else -b))
        if isinstance(a, List) and isinstance(b, int) and op == '+':
            return Ptr(a, b)
        return arith(op, a, b, e.t)

    def unop(self, e, env):
        op = e.op
        if op in ('++', '--', 'p++', 'p--'):
            lv = self.lval(e.kids[0], env)
            if lv is None:
                return UNKNOWN
            v = load(*lv)
            if not known(v):
                return UNKNOWN
            d = 1 if '+' in op else -1
            w = Ptr(v.l, v.i + d) if isinstance(v, Ptr) else v + d
            store(lv[0], lv[1], w)
            return v if op[0] == 'p' else w
        if op == '*':
            p = self.ev(e.kids[0], env)
            return load(p.l, p.i) if isinstance(p, Ptr) else p if isinstance(p, (Obj, tuple)) else UNKNOWN
        if op == '&':
            lv = self.lval(e.kids[0], env)
            if lv is not None and isinstance(lv[0], List):
                return Ptr(lv[0], lv[1])
            return self.ev(e.kids[0], env)
        v = self.ev(e.kids[0], env)
        if not known(v):
            return UNKNOWN
        if op == '-' and isinstance(v, (int, Fraction)):
            return -v
        if op == '+':
            return v
        if op == '!':
            t = UNKNOWN if isinstance(v, (List, Mat, Obj)) else not v
            return t
        if op == '~' and isinstance(v, int):
            return ~v
        return UNKNOWN

    def ctor(self, e, env):
        a = e.args
        t = e.t
        if isvec(t):
            vals = [self.ev(x, env) for x in a if x.k != 'defarg']
            if not vals:
                return List()
            if len(vals) == 1 and isinstance(vals[0], (List, Lin)):
                return copy(vals[0])
            if isinstance(vals[0], int) and len(vals) <= 2:
                f = vals[1] if len(vals) > 1 else Fraction(0)
                return List([copy(f) for _ in range(vals[0])])
            if len(vals) == 2 and isinstance(vals[0], Ptr) and isinstance(vals[1], Ptr) and vals[0].l is vals[1].l:
                return List([copy(x) for x in vals[0].l.v[vals[0].i:vals[1].i]])
            return UNKNOWN
        if ismat(t):
            vals = [self.ev(x, env) for x in a if x.k != 'defarg']
            if not vals:
                return Mat()
            if isinstance(vals[0], Mat):
                return copy(vals[0])
            if len(vals) >= 2 and all(isinstance(x, int) for x in vals[:2]):
                return Mat(vals[0], vals[1])
            return UNKNOWN
        c = e.callee
        if c is not None and c.kind in ('cctor', 'mctor') and a:
            return copy(self.ev(a[0], env))
        f = self.ctor_of(e)
        if f is not None and t is not None and t.r:
            o = Obj(t.r)
            self.call(f, o, self.args(a, f, env))
            return o
        return UNKNOWN

    def callexpr(self, e, env):
        name = e.name or (fnode(e).name if fnode(e) is not None else None)
        on = e.obj or fobj(e)
        if name in self.hooks:
            h = self.hooks[name]
            v = h(self, e, on, e.args, env) if callable(h) else h
            if v is not NotImplemented:
                return load(v.c, v.k) if isinstance(v, Ref) else v
        if e.op == '=' or name == 'operator=':
            v = copy(self.ev(e.args[-1], env))
            lv = self.lval(on if on is not None else e.args[0], env)
            if lv is not None:
                if isinstance(v, List) and on is not None and on.t is not None:
                    v = self.aggregate(v, on.t)
                store(lv[0], lv[1], v)
            return v
        lv = self.lval(e, env)
        if lv is not None:
            return load(*lv)
        c = e.callee
        if on is not None:
            o = self.ev(on, env)
            if isinstance(o, Ref):
                o = load(o.c, o.k)
            if e.op in ('*', '->') and not e.args and isinstance(o, (Obj, tuple)) or name == 'get' and isinstance(o, tuple):
                return o
            if isinstance(o, List):
                return self.listop(name, o, e, on, env)
            if isinstance(o, Mat):
                a = [self.ev(x, env) for x in e.args]
                if name == 'resize' and len(a) >= 2 and known(a[0]) and known(a[1]):
                    o.r, o.c = a[0], a[1]
                    if len(a) > 2 and a[2]:
                        o.d = {}
                    return None
                if name == 'rows':
                    return o.r
                if name == 'cols':
                    return o.c
                if name in ('fill',) and known(a[0]):
                    o.d = {(i, j): a[0] for i in range(1, o.r + 1) for j in range(1, o.c + 1)}
                    return None
                if name == 'clear':
                    o.d = {}
                    o.r = o.c = 0
                    return None
                raise Undecided('%s of a matrix' % name)
            if isinstance(o, Lin):
                return self.linop(name, o, e, on, env)
            if isinstance(o, Obj):
                f = self.method(o.rec, name, c, len(e.args), on, e.get('nv'))
                if f is not None and (self.within is None or f.decl.rec in self.within):
                    return self.call(f, o, self.args(e.args, f, env))
                return UNKNOWN
            self.touch(e, env)
            return UNKNOWN
        if e.op or name in ('min', 'max', 'abs', 'fabs', 'pow', 'sqrt', 'move', 'forward', 'floor', 'ceil'):
            a = [self.ev(x, env) for x in e.args]
            if name in ('move', 'forward') and len(a) == 1:
                return a[0]
            if e.op and any(isinstance(x, Lin) for x in a):
                return arith(e.op, a[0], a[1], e.t) if len(a) == 2 else Lin({}).plus(a[0], -1) if e.op == '-' else UNKNOWN
            if not all(map(known, a)) or not all(isinstance(x, (int, Fraction)) for x in a):
                return UNKNOWN
            if name == 'min':
                return min(a)
            if name == 'max':
                return max(a)
            if name in ('abs', 'fabs'):
                return abs(a[0])
            if name == 'pow':
                return a[0] ** int(a[1]) if a[1] == int(a[1]) else Fraction(float(a[0]) ** float(a[1]))
            if name == 'sqrt':
                r = Fraction(math.isqrt(Fraction(a[0]).numerator), math.isqrt(Fraction(a[0]).denominator)) if a[0] >= 0 else None
                return r if r is not None and r * r == a[0] else Fraction(math.sqrt(a[0])) if a[0] >= 0 else UNKNOWN
            if name == 'floor':
                return math.floor(a[0])
            if name == 'ceil':
                return math.ceil(a[0])
            return UNKNOWN
        f = None
        if c is not None:
            f = self.P.by_usr.get(c.u) or self.P.by_usr.get(c.pat)
        if f is not None and c.rec and not c.static and env.get('this') is not None:
            o = env['this']
            f2 = self.method(o.rec, name, c, len(e.args), None, e.get('nv'))
            return self.call(f2 or f, o, self.args(e.args, f2 or f, env))
        if f is not None and (not c.rec or c.static) and f.body is not None and '3rdparty' not in f.file:
            return self.call(f, None, self.args(e.args, f, env))
        if c is None and env.get('this') is not None and name:
            f = self.method(env['this'].rec, name, None, len(e.args), None)
            if f is not None:
                return self.call(f, env['this'], self.args(e.args, f, env))
        self.touch(e, env)
        return UNKNOWN

    def touch(self, e, env):
        """An unknown function may change the containers passed to it."""
        for a in e.args:
            if a.t is not None and 'const' in (a.t.s or ''):
                continue
            p = e.callee.p[e.args.index(a)] if e.callee is not None and e.args.index(a) < len(e.callee.p) else None
            if p is not None and not (p.k in ('ref', 'ptr') and not (p.p is not None and p.p.c)):
                continue
            if p is None and e.callee is None:
                continue
            lv = self.lval(a, env)
            if lv is not None and isinstance(lv[0], (dict, Obj, List)):
                try:
                    store(lv[0], lv[1], UNKNOWN)
                except Undecided:
                    pass

    def method(self, rec, name, c, n, on, nv=False):
        """The method of the dynamic type."""
        P = self.P
        nv = nv or on is not None and on.get('nv')
        if c is not None and (not c.virtual or nv):
            f = P.by_usr.get(c.u) or P.by_usr.get(c.pat)
            if f is not None:
                return f
        for r in [rec] + list(P.all_bases(rec)):
            fs = [f for f in P.fns if f.decl.rec == r and f.decl.n == name and len(f.params) >= n]
            if c is not None and len(fs) > 1:
                fs = [f for f in fs if [str(t.s) for t in f.decl.p] == [str(t.s) for t in c.p]] or fs
            if fs:
                return fs[0]
        return None

    def linop(self, name, o, e, on, env):
        """The operations of vectors and matrices, on linear combinations."""
        a = [self.ev(x, env) for x in e.args if x.k != 'defarg']
        a = [load(x.c, x.k) if isinstance(x, Ref) else x for x in a]
        num = [x for x in a if isinstance(x, (int, Fraction))]
        vec = [x for x in a if isinstance(x, Lin)]
        op = e.op or (name or '').replace('operator', '')
        if name in ('size', 'rows', 'cols', 'dim'):
            return UNKNOWN
        if name == 'empty':
            return False
        if op in ('+', '-', '*', '/') and len(a) == 1:
            return arith(op, o, a[0], e.t)
        if op == '-' and not a:
            return Lin({}).plus(o, -1)
        if not all(map(known, a)):
            raise Undecided('%s of a vector with an unknown argument at line %d' % (name, e.l))
        if name == 'add' and vec and len(num) == len(a) - 1:
            o.f = o.plus(vec[0], num[0] if num else 1).f
        elif op in ('+=', '-=') and vec:
            o.f = o.plus(vec[0], 1 if op == '+=' else -1).f
        elif (op in ('*=', '/=') or name == 'multiply') and len(a) == 1 and num:
            o.f = arith('/' if op == '/=' else '*', o, num[0], None).f
        elif name == 'multiply' and len(vec) >= 2 and isinstance(e.args[1], object):
            lv = self.lval(e.args[1], env)
            flags = [x for x in a[2:]]
            if lv is None or any(x not in (False, 0) for x in flags):
                raise Undecided('matrix product at line %d' % e.l)
            store(lv[0], lv[1], arith('*', o, vec[0], None))
            return True
        elif name == 'relax' and num and vec and len(vec) == len(a) - 1:
            y = vec[1] if len(vec) > 1 else o
            o.f = arith('*', y, num[0], None).plus(vec[0], 1 - num[0]).f
        elif name in ('fill', 'init') and num and num[0] == 0 or name == 'resize' and len(a) > 1 and a[-1] is True:
            o.f = {}
        elif name in ('resize', 'reserve'):
            pass
        elif name == 'swap' and vec:
            o.f, vec[0].f = vec[0].f, o.f
        else:
            raise Undecided('%s of a vector at line %d' % (name, e.l))
        return o

    def listop(self, name, o, e, on, env):
        a = [self.ev(x, env) for x in e.args]
        if name == 'size':
            return len(o.v)
        if name == 'empty':
            return not o.v
        if name == 'clear':
            o.v = []
        elif name in ('push_back', 'emplace_back'):
            o.v.append(copy(a[0]) if a else Fraction(0))
        elif name == 'pop_back':
            o.v.pop()
        elif name == 'resize' and a and isinstance(a[0], int):
            f = a[1] if len(a) > 1 and e.args[1].k != 'defarg' and not isinstance(a[1], bool) else Fraction(0)
            o.v = o.v[:a[0]] + [copy(f) for _ in range(a[0] - len(o.v))]
        elif name in ('reserve', 'shrink_to_fit'):
            pass
        elif name == 'assign' and len(a) == 2 and isinstance(a[0], int):
            o.v = [copy(a[1]) for _ in range(a[0])]
        elif name == 'assign' and len(a) == 1 and isinstance(a[0], List):
            o.v = copy(a[0]).v
        elif name in ('data', 'begin', 'cbegin', 'ptr'):
            return Ptr(o, 0)
        elif name in ('end', 'cend'):
            return Ptr(o, len(o.v))
        elif name == 'swap' and isinstance(a[0], List):
            o.v, a[0].v = a[0].v, o.v
        elif name == 'insert':
            raise Undecided('insert')
        else:
            raise Undecided('%s of a vector' % name)
        return None


def fnode(e):
    return e.kids[0] if e.kids and e.kids[0].role == 'f' else None


def fobj(e):
    f = fnode(e)
    return f.kids[0] if f is not None and f.k == 'mem' and f.kids else None


def strip(e):
    while e is not None and e.k in WRAP and e.kids:
        e = e.kids[0]
    return e


def flatten(b, out):
    for x in b.kids if b.k == 'block' else [b]:
        while x is not None and x.k in ('case', 'default'):
            out.append((x.k, x.child('lhs')))
            x = x.child('body') or (x.kids[-1] if x.kids and x.kids[-1].role not in ('lhs',) else None)
        if x is not None:
            out.append(('s', x))


def exits(s):
    if s is None:
        return False
    if s.k in ('return', 'throw', 'break', 'continue'):
        return True
    return s.k == 'block' and bool(s.kids) and exits(s.kids[-1])


def harmless(s, hooks):
    if s is None:
        return True
    for n in s.walk():
        if n.k in ('assign', 'return') or n.k == 'un' and n.op in ('++', '--', 'p++', 'p--') or n.k == 'call' and (
                n.op == '=' or (n.name or (fnode(n).name if fnode(n) is not None else None)) in hooks and callable(hooks.get(n.name or (fnode(n).name if fnode(n) is not None else None)))):
            return False
    return True


def arith(op, a, b, t):
    if op in ('==', '!=') and (a is None or b is None or isinstance(a, Ptr) or isinstance(b, Ptr)):
        eq = a is b or isinstance(a, Ptr) and isinstance(b, Ptr) and a.l is b.l and a.i == b.i
        return eq == (op == '==')
    if isinstance(a, Lin) and isinstance(b, Lin) and op in '+-':
        return a.plus(b, 1 if op == '+' else -1)
    if isinstance(a, Lin) and isinstance(b, Lin) and op == '*':
        return Lin({(x, y): v * w for x, v in a.f.items() for y, w in b.f.items()})
    if isinstance(a, (int, Fraction)) and isinstance(b, Lin):
        a, b = b, a if op == '*' else None
    if isinstance(a, Lin) and isinstance(b, (int, Fraction)) and (op == '*' or op == '/' and b):
        return Lin({k: v * b if op == '*' else v / b for k, v in a.f.items()})
    if not isinstance(a, (int, Fraction)) or not isinstance(b, (int, Fraction)):
        return UNKNOWN
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0:
            return UNKNOWN
        if isinstance(a, Fraction) or isinstance(b, Fraction) or t is not None and t.k == 'float':
            return Fraction(a) / b
        return int(a / b) if abs(a) < 2 ** 50 else (a // b if (a < 0) == (b < 0) else -(-a // b))
    if op == '%':
        return int(math.fmod(a, b)) if b else UNKNOWN
    if op == '==':
        return a == b
    if op == '!=':
        return a != b
    if op == '<':
        return a < b
    if op == '>':
        return a > b
    if op == '<=':
        return a <= b
    if op == '>=':
        return a >= b
    if isinstance(a, int) and isinstance(b, int):
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
    return UNKNOWN


def nest(vals, dims):
    if len(dims) <= 1:
        return List(vals)
    n = len(vals) // dims[0]
    return List([nest(vals[i * n:(i + 1) * n], dims[1:]) for i in range(dims[0])])

"""Difference bounds between integer variables, sizes of containers and constants (a sparse zone domain), per function.

State: frozenset-like dict {(x, y): c} meaning x - y <= c, where x and y are access-path keys of integers ('0' = zero)."""
import re
import flow
from model import Paths

INF = 1 << 60
NE = chr(1)
PURE_SIZE = frozenset(['size', 'rows', 'cols', 'dim', 'length'])
KEEP = frozenset(['operator[]', 'operator()', 'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'data', 'ptr', 'at', 'fill',
                  'reserve', 'c_str', 'zero', 'operator+=', 'operator*=', 'operator-=', 'getColumn', 'fillColumn', 'add',
                  'find', 'cbegin', 'cend', 'capacity', 'get', 'scale', 'setIndex'])
ACCESS = frozenset(['operator[]', 'operator()', 'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'data', 'ptr', 'at', 'find',
                    'get', 'operator*', 'operator->'])
MUT = frozenset(['push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'insert', 'assign', 'erase', 'emplace', 'swap', 'append'])


def strip(e):
    while e is not None and (e.k == 'cast' and e.kids or e.k == 'expr' and len(e.kids) == 1):
        e = e.kids[0]
    return e


def isint(t):
    t = t.deref() if t is not None else None
    return t is not None and t.k in ('int', 'char', 'enum', 'bool')


def unsigned(t):
    t = t.deref() if t is not None else None
    return t is not None and t.k == 'int' and (t.u or t.s.startswith('unsigned') or t.s in ('size_t', 'std::size_t'))


def recv(n):
    """Object of a member call, also where it depends on a template parameter."""
    if n.obj is not None:
        return n.obj
    f = n.kids[0] if n.kids else None
    return f.c() if f is not None and f.role == 'f' and f.k == 'mem' and f.kids else None


def dep(e):
    e = strip(e)
    return e.k == 'call' and e.callee is None and e.name in PURE_SIZE and not e.args


def container(t):
    """'vec' (0-based, size()), 'uvec', 'umat', 'mat3', 'arr' N, ... of a type."""
    t = t.deref() if t is not None else None
    if t is None:
        return None
    if t.k == 'ptr' and t.p is not None:
        t = t.p
    s = t.s.replace('const ', '')
    r = (t.r or s).split('@')[0]
    if t.k == 'arr':
        return 'arr'
    for p, k in (('utl::vector', 'uvec'), ('utl::matrix3d', 'mat3'), ('utl::matrix4d', 'mat4'), ('utl::matrix', 'umat'),
                 ('std::vector', 'vec'), ('std::array', 'sarr'), ('std::deque', 'vec'), ('std::basic_string', 'vec'), ('std::__cxx11::basic_string', 'vec')):
        if r == p or r.startswith(p + '<') or s.startswith(p + '<'):
            return k
    return None


SEARCH = frozenset(['lower_bound', 'upper_bound', 'find', 'find_if'])
POS = {}


def unwrap(e):
    """Strip conversions between iterators too."""
    e = strip(e)
    while e is not None and e.k == 'ctor' and len(e.args) == 1:
        e = strip(e.args[0])
    return e


class Zone(object):
    """Analysis of one function."""

    mods = None         # members of its object that a call may change (None: any)

    def __init__(self, fn, base_of=None):
        self.fn = fn
        self.paths = Paths(fn)
        self.uns = set()
        self.kc = {}
        self.bad = set()
        self.base_of = base_of
        for n in fn.walk():
            if n.k == 'un' and n.op == '&' and n.c().k == 'var':
                self.bad.add(n.c().get('d'))
            elif n.k == 'lambda':
                for c in n.get('cap') or []:
                    if 'd' in c and c.get('ref'):
                        self.bad.add(c['d'])
        self.neg = set()
        for n in fn.walk():
            if n.k == 'un' and n.op == '-' and isint(n.t):
                l = self.lin(n.c())
                if l is not None and l[0] != '0':
                    self.neg.add(l[0])
        self.step = {}
        for n in fn.walk():
            if n.k == 'assign' and n.op in ('+=', '-='):
                l = self.lin(n.c(1))
                k = self.key(n.c(0))
                if l and l[0] == '0' and k:
                    self.step[k] = max(self.step.get(k, 1), abs(l[1]))

    # -- terms ------------------------------------------------------------------------------------------------
    def key(self, e):
        e = strip(e)
        if e is None:
            return None
        k = self.kc.get(e.i)
        if k is None:
            k = self.paths.key(e) or ''
            if re.search(r'\+\+|--|new |=', k):
                k = ''
            self.kc[e.i] = k
        return k or None

    def lin(self, e):
        """(term, constant) of an integer expression."""
        e = strip(e)
        if e is None:
            return None
        if e.k == 'defarg' and e.kids:
            e = strip(e.kids[0])
        cv = e.get('cv')
        if e.k in ('int', 'char'):
            v = e.get('v')
            return ('0', int(v)) if v is not None else None
        if e.k == 'bool':
            return ('0', 1 if e.get('v') else 0)
        if e.k == 'bin' and e.op in ('+', '-') and len(e.kids) == 2:
            a, b = self.lin(e.kids[0]), self.lin(e.kids[1])
            if a and b:
                if b[0] == '0':
                    return (a[0], a[1] + (b[1] if e.op == '+' else -b[1]))
                if a[0] == '0' and e.op == '+':
                    return (b[0], a[1] + b[1])
                if a[0] == '0' and b[0].startswith('v') and isint(e.t) and not unsigned(e.t):
                    return ('-' + b[0], a[1] - b[1])
        if e.k == 'un' and e.op == '-':
            a = self.lin(e.c())
            if a and a[0] == '0':
                return ('0', -a[1])
            return ('-' + a[0], -a[1]) if a and isint(e.t) and not unsigned(e.t) else None
        if e.k == 'un' and e.op in ('++', '--'):
            return self.lin(e.c())          # after the side effect
        if e.k == 'un' and e.op in ('p++', 'p--'):
            a = self.lin(e.c())
            return (a[0], a[1] + (-1 if e.op == 'p++' else 1)) if a else None
        if e.k == 'assign' and e.op == '=':
            return self.lin(e.c(0))
        if e.k == 'call' and e.callee is None and e.t is not None and e.t.k == 'dep' and e.name in PURE_SIZE and not e.args:
            o = recv(e)                         # type-dependent x.size()
            k = self.key(o) if o is not None else None
            if k:
                k = '%s.%s()' % (k, e.name)
                self.uns.add(k)
                return (k, 0)
            return None
        if not isint(e.t):
            return None
        if e.k == 'call' and (e.callee is None or not e.callee.const and e.obj is not None or e.obj is None and not (
                e.callee.static and not e.args)):
            if not (e.callee is not None and e.callee.n in ('operator[]', 'operator()')):
                return None
        if e.k not in ('var', 'mem', 'call', 'gvar', 'idx', 'un', 'bin'):
            return None
        if e.k == 'var' and e.get('d') in self.bad:
            return None
        if e.k == 'gvar':
            return None
        k = self.key(e)
        if k is None:
            return None
        if unsigned(e.t) or e.k == 'call' and e.name in ('size', 'rows', 'cols'):
            self.uns.add(k)
        return (k, 0)

    # -- states -----------------------------------------------------------------------------------------------
    def bound(self, s, x, y, implicit=True, limit=6):
        """Least c with x - y <= c."""
        if x == y:
            return 0
        adj = {}
        for (a, b), c in s.items():
            adj.setdefault(a, []).append((b, c))
        dist = {x: 0}
        cur = {x}
        for _ in range(limit):
            nxt = set()
            for a in cur:
                for b, c in adj.get(a, ()):
                    d = dist[a] + c
                    if d < dist.get(b, INF):
                        dist[b] = d
                        nxt.add(b)
            if implicit and '0' in dist:
                for u in self.uns:
                    if dist['0'] < dist.get(u, INF):
                        dist[u] = dist['0']
                        nxt.add(u)
            cur = nxt
            if not cur:
                break
        return dist.get(y)

    def add(self, s, x, y, c):
        if x == y:
            return s if c >= 0 else None
        o = s.get((x, y))
        if o is not None and o <= c:
            return s
        b = self.bound(s, y, x, False)
        if b is not None and b + c < 0:
            return None
        while True:             # x - y != c is known: tighten
            if (x, NE + '%d:%s' % (c, y)) in s or (y, NE + '%d:%s' % (-c, x)) in s:
                c -= 1
            else:
                break
        s = dict(s)
        s[x, y] = c
        if y == '0' and x in self.neg:          # x <= c  =>  -x >= -c
            s['0', '-' + x] = min(c, s.get(('0', '-' + x), INF))
        elif x == '0' and y in self.neg:
            s['-' + y, '0'] = min(c, s.get(('-' + y, '0'), INF))
        return s

    def ne(self, s, x, y, c):
        b = self.bound(s, x, y)
        if b is not None and b == c:
            return self.add(s, x, y, c - 1)
        b = self.bound(s, y, x)
        if b is not None and b == -c:
            return self.add(s, y, x, -c - 1)
        if x == y:
            return s if c else None
        if y == '0' and c == 0 and x in self.uns:
            return self.add(s, '0', x, -1)
        s = dict(s)
        s[x, NE + '%d:%s' % (c, y)] = 0
        return s

    def join(self, a, b, widen=False):
        if a is b or a == b:
            return a
        out = {}
        for e, c in a.items():
            d = b.get(e)
            if d is None and e[1][0] == NE:
                x, c2, y = e[0], int(e[1][1:].split(':', 1)[0]), e[1].split(':', 1)[1]
                q = self.bound(b, x, y, False)
                if q is not None and q < c2:
                    out[e] = 0
                    continue
                q = self.bound(b, y, x, False)
                if q is not None and q < -c2:
                    out[e] = 0
                continue
            if d is None:
                d = self.bound(b, e[0], e[1], False)
            if d is None:
                continue
            if widen and d > c:
                continue
            out[e] = max(c, d)
        if not widen:
            for e, c in b.items():
                if e not in a and e[1][0] != NE:
                    d = self.bound(a, e[0], e[1], False)
                    if d is not None:
                        out[e] = max(c, d)
        return out

    def kill(self, s, pred):
        dead = [e for e in s if e[1][0] == NE and (pred(e[0]) or pred(e[1]))]
        if dead:
            s = {e: c for e, c in s.items() if e not in dead}
        ks = set(x for e in s for x in e if x != '0' and pred(x))
        if not ks:
            return s
        out = {e: c for e, c in s.items() if e[0] not in ks and e[1] not in ks}
        for k in ks:            # keep what follows by transitivity
            up = [(e[0], c) for e, c in s.items() if e[1] == k and e[0] not in ks]
            dn = [(e[1], c) for e, c in s.items() if e[0] == k and e[1] not in ks]
            if len(up) * len(dn) > 30:
                continue
            for x, c in up:
                for y, d in dn:
                    if x != y and out.get((x, y), INF) > c + d:
                        out[x, y] = c + d
        return out

    def killvar(self, s, d):
        pat = 'v%d:' % d
        return self.kill(s, lambda x: pat in x and re.search(r'(?<![0-9a-zA-Z])' + pat, x))

    def killobj(self, s, k, self_too=True):
        """Everything read through the object with key k."""
        if k is None:
            return s
        def p(x):
            i = x.find(k)
            while i >= 0:
                j = x[i + len(k):i + len(k) + 1]
                if not (j.isalnum() or j == '_') and (i == 0 or not (x[i - 1].isalnum() or x[i - 1] == '_')):
                    return True
                i = x.find(k, i + 1)
            return False
        return self.kill(s, p)

    def eq(self, s, x, l):
        if l is None or x == l[0]:
            return s
        hi, lo = (self.bound(s, l[0], '0', False), self.bound(s, '0', l[0], False)) if l[0] != '0' else (None, None)
        s = self.add(s, x, l[0], l[1])
        s = self.add(s, l[0], x, -l[1]) if s is not None else None
        if hi is not None and s is not None:
            s = self.add(s, x, '0', hi + l[1])
        if lo is not None and s is not None:
            s = self.add(s, '0', x, lo - l[1])
        return s

    def shift(self, s, x, k):
        """x := x + k (x keeps its name; terms that contain x die)."""
        if k > 0 and x in self.uns and ('0', x) not in s:
            s = dict(s)
            s['0', x] = 0
        s = self.kill(s, lambda t: t != x and x in t and re.search(r'(?<![0-9a-zA-Z_])' + re.escape(x) + r'(?![0-9a-zA-Z_])', t))
        out = {}
        for (a, b), c in s.items():
            if b[0] == NE and (a == x or b.endswith(':' + x)):
                continue
            out[a, b] = c + (k if a == x else 0) - (k if b == x else 0)
        return out

    def assign(self, s, target, e):
        t = strip(target)
        l = self.lin(e) if e is not None else None
        k = self.key(t) if t.k in ('var', 'mem', 'idx', 'call', 'un') and isint(t.t) else None
        if k is None or t.k == 'var' and t.get('d') in self.bad:
            k2 = self.key(t)
            if t.k == 'var':
                return self.killvar(s, t.get('d'))
            return self.killobj(s, k2) if k2 else s
        if l is not None and l[0] == k:
            return self.shift(s, k, l[1])
        # constraints on the value computed before the old value dies
        extra = []
        se = strip(e)
        if se is not None and se.k == 'un' and se.op == '-' and self.key(se.c()) == k and any('abs(%s)' % k in x for x in s):
            a, b = 'abs(%s)' % k, '@abs'        # x = -x keeps |x|
            s = {(b if x == a else x, b if y == a else y): c for (x, y), c in s.items()}
            s = self.killvar(s, t.get('d')) if t.k == 'var' else self.killobj(s, k)
            s = {(a if x == b else x, a if y == b else y): c for (x, y), c in s.items()}
            return self.add(s, k, a, 0) or {}
        if (l is None or se.k == 'call') and se is not None:
            extra = self.value(se)
        fresh = '@new'
        if l is not None:
            s = self.eq(s, fresh, l)
        for x, c, up in extra:
            if s is None:
                break
            s = self.add(s, fresh, x, c) if up else self.add(s, x, fresh, -c)
        if s is None:
            s = {}
        s = self.killvar(s, t.get('d')) if t.k == 'var' else self.killobj(s, k)
        if unsigned(t.t):
            self.uns.add(k)
        ren = lambda x: k if x == fresh else x
        return {(ren(a), ren(b)): c for (a, b), c in s.items()}

    def value(self, e):
        """[(term, constant, is_upper)] bounds of the value of a non-linear expression."""
        out = []
        if self.base_of is not None and e.k == 'call':
            lo = self.base_of(e)
            if lo is not None:
                out.append(('0', lo, False))
        k = self.position(e)
        if k:
            self.uns.add(k + '.size()')
            out.append((k + '.size()', 0, True))
            out.append(('0', 0, False))
        elif e.k == 'call' and e.callee is not None and e.callee.n in ('min', 'max') and len(e.args) == 2:
            for a in e.args:
                l = self.lin(a)
                if l:
                    out.append((l[0], l[1], e.callee.n == 'min'))
        elif e.k == 'call' and e.callee is not None and e.callee.q in ('read', 'recv', 'fread') and len(e.args) >= 3:
            l = self.lin(e.args[2])         # at most what is asked for
            if l:
                out.append((l[0], l[1], True))
        elif e.k == 'bin' and e.op == '%':
            l = self.lin(e.kids[1])
            if l:
                out.append((l[0], l[1] - 1, True))
                if unsigned(e.t):
                    out.append(('0', 0, False))
        elif e.k == 'cond' and len(e.kids) == 3:
            a, b = self.lin(e.kids[1]), self.lin(e.kids[2])
            if a and b and a[0] == b[0]:
                out.append((a[0], max(a[1], b[1]), True))
                out.append((a[0], min(a[1], b[1]), False))
        return out

    def position(self, e, depth=0):
        """The container in which e is the position of an element that may not exist (then the size)."""
        e = strip(e)
        if e is None:
            return None
        a = b = None
        if e.k in ('bin', 'call') and e.op == '-':
            l = e.kids if e.k == 'bin' else ([e.obj] if e.obj is not None else []) + list(e.args)
            if len(l) == 2:
                a, b = l
        elif e.k == 'call' and e.callee is not None and e.callee.n == 'distance' and len(e.args) == 2:
            b, a = e.args
        if a is not None:
            a, b = unwrap(a), unwrap(b)
            if a is None or b is None or a.k != 'call' or a.callee is None or a.callee.n not in SEARCH or len(a.args) < 3:
                return None
            f, l = unwrap(a.args[0]), unwrap(a.args[1])
            if not all(x is not None and x.k == 'call' and x.callee is not None and x.obj is not None for x in (b, f, l)):
                return None
            k = self.key(f.obj)
            if k and f.callee.n in ('begin', 'cbegin') and b.callee.n in ('begin', 'cbegin') and l.callee.n in ('end', 'cend') and \
                    self.key(b.obj) == k and self.key(l.obj) == k:
                return k
            return None
        if e.k == 'call' and e.callee is not None and e.callee.rec and not e.callee.virtual and depth < 3 and \
                (e.obj is None or strip(e.obj).k == 'this'):
            d = e.callee
            m = d.body
            if m is None or m.body is None or not isint(d.r):
                return None
            if m.decl.u not in POS:
                POS[m.decl.u] = None
                z = Zone(m) if any(n.k == 'call' and n.callee is not None and n.callee.n in SEARCH for n in m.walk()) else None
                ks = set(z.position(n.kids[0], depth + 1) for n in m.walk() if n.k == 'return' and n.kids and
                         (z.lin(n.kids[0]) or ('?', 0))[0] != '0') if z is not None else ()
                if len(ks) == 1:
                    k = ks.pop()
                    POS[m.decl.u] = k if k and k.startswith('this') else None
            return POS[m.decl.u]
        return None

    def sized(self, s, k, dims):
        """The object with key k has just got the given dimensions {method: (term, const) or None}."""
        for m, l in dims.items():
            if l is not None and s is not None:
                t = '%s.%s()' % (k, m)
                self.uns.add(t)
                if k not in l[0]:
                    s2 = self.eq(s, t, l)
                    s = s2 if s2 is not None else s
        return s

    def newed(self, s, k, e):
        """Pointer k is set to an array that is allocated here."""
        e = strip(e)
        l = self.lin(e.child('size')) if e is not None and e.k == 'new' and e.child('size') is not None else None
        if l is not None and k not in l[0]:
            r = self.eq(s, k + '.#extent', l)
            s = r if r is not None else s
        return s

    def dims_of_ctor(self, t, args):
        kd = container(t)
        a = [x for x in args if x.k != 'defarg']
        if kd in ('vec', 'uvec'):
            if not a:
                return {'size': ('0', 0)}
            if strip(a[0]).k == 'str' and strip(a[0]).get('v') is not None and '\0' not in strip(a[0]).get('v'):
                return {'size': ('0', len(strip(a[0]).get('v').encode()))}
            if (isint(a[0].t) or dep(a[0])) and len(a) <= 2:
                return {'size': self.lin(a[0])}
        elif kd == 'umat':
            if not a:
                return {'rows': ('0', 0), 'cols': ('0', 0)}
            if len(a) >= 2 and isint(a[0].t) and isint(a[1].t) and len(a) <= 3:
                return {'rows': self.lin(a[0]), 'cols': self.lin(a[1])}
        return {}

    # -- transfer ---------------------------------------------------------------------------------------------
    def transfer(self, n, s):
        k = n.k
        if k == 'vardecl':
            d = n.get('d')
            t = self.fn.locals[d]['t']
            if t.k in ('ref', 'rref'):
                return s
            s = self.killvar(s, d)
            if t.k == 'ptr' and n.kids:
                return self.newed(s, 'v%d:%s' % (d, n.name), n.kids[0])
            if isint(t):
                if n.kids and d not in self.bad:
                    key = 'v%d:%s' % (d, n.name)
                    if unsigned(t):
                        self.uns.add(key)
                    l = self.lin(n.kids[0])
                    if l is not None:
                        r = self.eq(s, key, l)
                        s = r if r is not None else s
                        if strip(n.kids[0]).k != 'call':
                            return s
                    se = strip(n.kids[0])
                    for x, c, up in self.value(se):
                        r = self.add(s, key, x, c) if up else self.add(s, x, key, -c)
                        s = r if r is not None else s
                return s
            kd = container(t)
            if kd and t.k == 'rec':
                key = 'v%d:%s' % (d, n.name)
                if not n.kids:
                    return self.sized(s, key, self.dims_of_ctor(t, []))
                e = strip(n.kids[0])
                if e.k == 'ctor':
                    if e.callee is not None and e.callee.kind in ('cctor', 'mctor') and e.args:
                        return self.copy_dims(s, key, e.args[0], t)
                    if not e.get('il'):
                        return self.sized(s, key, self.dims_of_ctor(t, e.args))
            return s
        if k == 'assign':
            l, r = n.c(0), n.c(1)
            if n.op == '=':
                s = self.assign(s, l, r)
                if strip(r).k == 'new' and self.key(l):
                    s = self.newed(s, self.key(l), r)
                return s
            t = strip(l)
            key = self.key(t)
            if n.op in ('+=', '-=') and key and isint(t.t) and not (t.k == 'var' and t.get('d') in self.bad):
                c = self.lin(r)
                if c is not None and c[0] == '0':
                    return self.shift(s, key, c[1] if n.op == '+=' else -c[1])
                if c is not None and n.op == '+=' and (unsigned(r.t) or c[0] in self.uns):
                    # grows: lower bounds stay
                    return {e: v for e, v in self.shift(s, key, 0).items() if e[0] != key}
            return self.assign(s, l, None)
        if k == 'un' and n.op in ('++', '--', 'p++', 'p--'):
            t = strip(n.c())
            key = self.key(t)
            if key and isint(t.t) and not (t.k == 'var' and t.get('d') in self.bad):
                if unsigned(t.t):
                    self.uns.add(key)
                return self.shift(s, key, 1 if '+' in n.op else -1)
            if t.k == 'var':
                return self.killvar(s, t.get('d'))
            return self.killobj(s, key) if key else s
        if k in ('call', 'ctor'):
            return self.call(n, s)
        if k in ('delete',):
            return s
        return s

    def copy_dims(self, s, key, e, t):
        ok = self.key(e)
        if ok is None:
            return s
        ms = ('rows', 'cols') if container(t) == 'umat' else ('size',)
        for m in ms:
            x = '%s.%s()' % (ok, m)
            if any(x in e2 for e2 in s):
                self.uns.add(x)
            s = self.sized(s, key, {m: (x, 0)})
        return s

    def call(self, n, s):
        d = n.callee
        o = n.obj if n.k == 'call' else None
        # by-reference arguments
        f = n.kids[0] if d is None and n.kids and n.kids[0].role == 'f' else None
        if f is not None and f.k in ('var', 'mem') and container(f.t) in ('uvec', 'umat', 'mat3', 'mat4'):
            return s            # type-dependent element access
        for i, a in enumerate(n.args):
            pt = d.p[i] if d is not None and i < len(d.p) else None
            w = False
            if pt is None:
                w = d is None and a.k in ('var', 'mem', 'idx')
            elif pt.k == 'ref' and pt.p is not None and not pt.p.c:
                w = True
            elif pt.k == 'ptr' and pt.p is not None and not pt.p.c:
                w = True
            elif pt.k == 'rref':
                w = True
            if w:
                b = strip(a)
                if b.k == 'un' and b.op == '&':
                    b = strip(b.c())
                if b.k == 'var':
                    s = self.killvar(s, b.get('d'))
                kk = self.key(b)
                if kk and kk not in ('this',):
                    s = self.killobj(s, kk)
                elif b.k == 'this':
                    s = self.killobj(s, 'this')
        if n.k == 'ctor' or d is None and o is None:
            return s
        if o is None:
            if d.rec and not d.static and not d.const and d.kind == 'method':
                s = self.killmods(s, n, 'this')
            return s
        ok = self.key(o)
        if d is not None and d.n in ('front', 'back') and ok and container(o.t) in ('vec', 'uvec'):
            self.uns.add(ok + '.size()')        # the first or last element is accessed: there is one from here on
            r = self.add(s, '0', ok + '.size()', -1)
            s = r if r is not None else s
        if d is not None and (d.const or d.static):
            return s
        nm = d.n if d is not None else n.name
        ot = o.t
        kd = container(ot)
        if kd == 'vec' and nm == 'operator+=' and ok is not None:
            size = ok + '.size()'
            return {e: v for e, v in self.kill(s, lambda x: x != size and self.inobj(x, ok)).items() if e[0] != size}
        if kd == 'arr' or nm in KEEP:
            return s
        if ok is None:
            return s
        if kd is None or nm not in MUT:
            if nm == 'operator=' and kd and n.args:
                s0 = s
                s = self.killobj(s, ok)
                k2 = self.key(n.args[0])
                if k2 and ok not in k2:
                    at = n.args[0].t
                    if container(at) == kd:
                        return self.copy_dims(s, ok, n.args[0], ot)
                return s
            return self.killmods(s, n, ok[:-2] if ok.endswith('.*') else ok)
        args = [x for x in n.args if x.k != 'defarg']
        size = ok + '.size()'
        if kd in ('vec', 'uvec', 'sarr'):
            if nm in ('push_back', 'emplace_back'):
                return self.shift(self.kill(s, lambda x: x != size and self.inobj(x, ok)), size, 1)
            if nm == 'pop_back':
                return self.shift(self.kill(s, lambda x: x != size and self.inobj(x, ok)), size, -1)
            if nm == 'clear':
                return self.sized(self.killobj(s, ok), ok, {'size': ('0', 0)})
            if nm == 'resize' and args and isint(args[0].t) and self.key(args[0]) != size:
                l = self.lin(args[0])
                if l and self.inobj(l[0], ok):
                    if l[0] == size:
                        return self.shift(self.kill(s, lambda x: x != size and self.inobj(x, ok)), size, l[1])
                    return self.killobj(s, ok)
                return self.sized(self.killobj(s, ok), ok, {'size': l})
            if nm == 'assign' and len(args) == 2 and isint(args[0].t):
                l = self.lin(args[0])
                if l and self.inobj(l[0], ok):
                    return self.killobj(s, ok)
                return self.sized(self.killobj(s, ok), ok, {'size': l})
            if nm in ('insert', 'emplace', 'append'):
                return {e: v for e, v in self.kill(s, lambda x: x != size and self.inobj(x, ok)).items() if e[0] != size}
        elif kd == 'umat' and nm == 'resize' and len(args) >= 2 and isint(args[0].t) and isint(args[1].t):
            a, b = self.lin(args[0]), self.lin(args[1])
            if (not a or not self.inobj(a[0], ok)) and (not b or not self.inobj(b[0], ok)):
                return self.sized(self.killobj(s, ok), ok, {'rows': a, 'cols': b})
        elif kd == 'umat' and nm == 'clear':
            return self.sized(self.killobj(s, ok), ok, {'rows': ('0', 0), 'cols': ('0', 0)})
        return self.killobj(s, ok)

    def killmods(self, s, n, k):
        ms = self.mods(n) if self.mods is not None else None
        if ms is None:
            return self.killobj(s, k)
        for m in ms:
            if m.endswith('*'):         # what the member points at
                o = k + '.' + m[:-1]
                s = self.kill(s, lambda x: self.inobj(x, o) and x not in (o, o + '.size()'))
            else:
                s = self.killobj(s, k + '.' + m)
        # values of methods without a visible member
        return self.kill(s, lambda x: self.inobj(x, k) and re.search(re.escape(k) + r'\.\w+\(', x) is not None)

    def inobj(self, x, k):
        i = x.find(k)
        return i >= 0 and not (x[i + len(k):i + len(k) + 1].isalnum())

    # -- conditions -------------------------------------------------------------------------------------------
    def edge(self, c, tv, s):
        for a, t in flow.implied(c, tv):
            s = self.fact(a, t, s)
            if s is None:
                return None
        return s

    def fact(self, a, t, s):
        if a.k == 'call' and a.callee is not None and a.callee.n == 'empty' and a.obj is not None and container(a.obj.t):
            k = self.key(a.obj)
            if k:
                z = k + '.size()'
                self.uns.add(z)
                return self.add(s, z, '0', 0) if t else self.add(s, '0', z, -1)
            return s
        if a.k == 'bin' and a.op in ('<', '<=', '>', '>=', '==', '!=') and len(a.kids) == 2:
            x, y = a.kids
            l, r = self.lin(x), self.lin(y)
            for q, w in ((x, y), (y, x)):
                sq = strip(q)
                if sq.k == 'call' and sq.callee is not None and sq.callee.n in ('abs', 'labs') and isint(sq.t):
                    la = self.lin(sq.args[0]) if sq.args else None
                    if la is not None and la[1] == 0 and la[0] != '0':
                        la = ('abs(%s)' % la[0], 0)
                        if q is x:
                            l = la
                        else:
                            r = la
            if l is None or r is None:
                return s
            op = a.op
            if not t:
                op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
            if op in ('>', '>='):
                l, r, x, y = r, l, y, x
                op = {'>': '<', '>=': '<='}[op]
            # l op r
            sx = strip(x)
            if op in ('<', '<=') and sx.k == 'call' and sx.callee is not None and sx.callee.n in ('abs', 'labs') and sx.args:
                la = self.lin(sx.args[0])           # |a| <= r  =>  a <= r
                if la is not None:
                    s = self.add(s, la[0], r[0], r[1] - la[1] - (1 if op == '<' else 0))
                    if s is None:
                        return None
            if op in ('<', '<='):
                ux, uy = self.isuns(x), self.isuns(y)
                if ux is not None and uy is not None and ux != uy and not self.nonneg(s, x if uy else y):
                    # signed value converted to unsigned
                    if uy:      # signed x < unsigned y: holds only for x >= 0
                        s = self.add(s, '0', l[0], l[1])
                        if s is None:
                            return None
                    else:
                        return s
                # unsigned x - k wraps below k, so x - k < y implies x >= k
                if self.isuns(x) and l[1] < 0:
                    s = self.add(s, '0', l[0], l[1])
                    if s is None:
                        return None
                if self.isuns(y) and r[1] < 0 and not (self.bound(s, '0', r[0]) or 0) <= r[1]:
                    return s
                return self.add(s, l[0], r[0], r[1] - l[1] - (1 if op == '<' else 0))
            if op == '==':
                s = self.add(s, l[0], r[0], r[1] - l[1])
                return self.add(s, r[0], l[0], l[1] - r[1]) if s is not None else None
            return self.ne(s, l[0], r[0], r[1] - l[1])
        l = self.lin(a) if isint(a.t) and a.k not in ('bin',) else None
        if l is not None and a.t.deref().k != 'bool':
            if not t:
                s = self.add(s, l[0], '0', -l[1])
                return self.add(s, '0', l[0], l[1]) if s is not None else None
            return self.ne(s, l[0], '0', -l[1])
        return s

    def low(self, s, e):
        """Greatest known lower bound of an integer expression, also of sums."""
        l, r = self.lin(e), None
        if l is not None:
            b = self.bound(s, '0', l[0], l[0] in self.uns)
            if b is not None:
                r = l[1] - b
        e = strip(e)
        if e.k == 'bin' and e.op == '+':
            a, b = self.low(s, e.kids[0]), self.low(s, e.kids[1])
            if a is not None and b is not None and (r is None or a + b > r):
                r = a + b
        return r

    def isuns(self, e):
        """Is the comparison made with the unsigned value of this operand? (the expression's own type)"""
        e2 = strip(e)
        if e.k == 'cast' and isint(e.t):
            return unsigned(e.t)
        if e2.k in ('int', 'char'):
            return None
        return unsigned(e2.t)

    def nonneg(self, s, e):
        e2 = strip(e)
        if e2.k == 'int':
            return int(e2.get('v')) >= 0
        l = self.lin(e)
        if l is None:
            return False
        b = self.bound(s, '0', l[0])
        return b is not None and b <= l[1]

    # -- fixpoint ---------------------------------------------------------------------------------------------
    def solve(self, limit=4000, init=None):
        fn = self.fn
        ins = {fn.entry: init or {}}
        cnt = {}
        work = [fn.entry]
        rpo = self.order()
        n = 0
        while work:
            work.sort(key=lambda b: -rpo.get(b, 0))
            b = work.pop()
            n += 1
            if n > limit:
                return None
            s = self.through(fn.blocks[b], ins[b])
            for t, st in flow.outs(fn, fn.blocks[b], s, self.edge):
                if t not in ins:
                    ins[t] = st
                    if t not in work:
                        work.append(t)
                else:
                    back = rpo.get(t, 0) <= rpo.get(b, 0)
                    if back:
                        cnt[t] = cnt.get(t, 0) + 1
                    j = self.join(ins[t], st, cnt.get(t, 0) > 2)
                    if j != ins[t]:
                        ins[t] = j
                        if t not in work:
                            work.append(t)
        self.ins = ins
        return ins

    def through(self, B, s, upto=None):
        for n in flow.elems(self.fn, B):
            if n is upto:
                return s
            s = self.transfer(n, s)
        return s

    def order(self):
        fn = self.fn
        seen, out = set(), []
        st = [(fn.entry, iter([x for x in fn.blocks[fn.entry].succs if x is not None]))]
        seen.add(fn.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen and x in fn.blocks:
                    seen.add(x)
                    st.append((x, iter([y for y in fn.blocks[x].succs if y is not None])))
                    break
            else:
                st.pop()
                out.append(b)
        out.reverse()
        return {b: i for i, b in enumerate(out)}


class Mods(object):
    """Members of *this that a member function may change, by name; None when unknown."""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def __call__(self, n):
        out = set()
        if n.callee is None:
            return None
        for d in self.P.targets(n):
            m = self.of(d)
            if m is None:
                return None
            out |= m
        return out

    def of(self, d, depth=0):
        if d.u in self.memo:
            return self.memo[d.u]
        if d.const or d.static:
            return set()
        b = d.body or (self.P.by_usr.get(d.pat) if d.pat else None)
        if b is None or b.body is None or b.dep or depth > 12:
            return None
        self.memo[d.u] = set()
        r = self.scan(b, depth)
        self.memo[d.u] = r
        return r

    def scan(self, b, depth):
        out = set()
        refs = {}

        def root(e):
            """Member of *this that is part of the expression, '' when none, None when it is *this."""
            e = strip(e)
            deep = ''
            while e is not None:
                if e.t is not None and e.t.deref().k == 'ptr' and not top(e):
                    deep = '*'
                if e.k == 'mem':
                    o = strip(e.c())
                    if o is None or o.k == 'this':
                        return e.name + deep
                    e = o
                elif e.k == 'this':
                    return None
                elif e.k == 'un' and e.op in ('*', '&'):
                    e = strip(e.c())
                elif e.k == 'idx':
                    e = strip(e.c(0))
                elif e.k == 'call' and e.obj is not None:
                    e = strip(e.obj)
                elif e.k == 'var' and e.get('d') in refs:
                    r = refs[e.get('d')]
                    return r + deep if r and not r.endswith('*') and not (e.t is not None and e.t.k == 'ptr' and addr.get(e.get('d'))) else r
                else:
                    return ''
            return ''
        addr = {}
        cur = []

        def top(e):
            return bool(cur) and e is cur[-1]
        for n in b.walk():
            if n.k == 'vardecl' and n.kids and b.locals[n.get('d')]['t'].k in ('ref', 'ptr'):
                x = strip(n.kids[0])
                addr[n.get('d')] = x.k == 'un' and x.op == '&'
                refs[n.get('d')] = root(n.kids[0])
            elif n.k == 'rfor':
                lv, rs = n.child('lv'), n.child('rs')
                for m in (lv.walk() if lv is not None and rs is not None else ()):
                    if m.k == 'vardecl' and b.locals[m.get('d')]['t'].k == 'ref':
                        refs[m.get('d')] = root(rs.kids[0] if rs.k == 'vardecl' and rs.kids else rs)
        for n in b.walk():
            t = []
            if n.k == 'assign':
                t = [n.c(0)]
            elif n.k == 'un' and n.op in ('++', '--', 'p++', 'p--'):
                t = [n.c()]
            elif n.k == 'lambda' and any(c.get('this') for c in n.get('cap') or []):
                return None
            elif n.k in ('call', 'ctor'):
                d = n.callee
                for i, a in enumerate(n.args):
                    pt = d.p[i] if d is not None and i < len(d.p) else None
                    if pt is None or pt.k in ('ref', 'ptr') and pt.p is not None and not pt.p.c or pt.k == 'rref':
                        if pt is None and a.t is not None and a.t.k in ('int', 'float', 'bool', 'enum'):
                            continue
                        if pt is not None and pt.k == 'ref':
                            cur.append(strip(a))
                        r = root(a)
                        del cur[:]
                        if r is None and strip(a).k in ('this', 'un'):
                            return None
                        if r:
                            out.add(r)
                if n.k == 'call' and d is not None and d.rec and not d.static and not d.const:
                    o = strip(n.obj) if n.obj is not None else None
                    if o is None or o.k == 'this' or o.k == 'un' and strip(o.c()) is not None and strip(o.c()).k == 'this':
                        for x in (self.P.targets(n) if d.virtual else [d]):
                            m = self.of(x, depth + 1)
                            if m is None:
                                return None
                            out |= m
                    elif d.n not in ACCESS:
                        t = [n.obj]
                elif n.k == 'call' and d is None and n.obj is not None:
                    t = [n.obj]
            for e in t:
                if n.k != 'call':
                    cur.append(strip(e))
                r = root(e)
                del cur[:]
                if r is None:
                    return None
                if r:
                    out.add(r)
        return out

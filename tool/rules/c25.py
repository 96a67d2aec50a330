"""C25: blocks of memory are as large as what is put into them.

Rule 1 (array): an index into a dynamically allocated array, bounded by a loop or check, is below the allocated number of
elements (also that of a member array which another method allocates), and all allocations of one array agree.
Rule 2 (work): the work arrays and result arrays handed to LAPACK, ARPACK and SuperLU have the sizes that cfg/c25_work.txt
demands in terms of the other arguments of the same call.
Rule 3 (block): memcpy, memset, memmove, fread, fwrite, stream read/write and std::copy move no more elements than both sides
hold, and the element size is that of the elements.
Rule 4 (text): text buffers hold the longest text that may be printed, copied or read into them.
Rule 6 (walk): a pointer that is advanced in a counted loop stays within the array it walks through.
Rule 5 (counter): an index into an array of fixed size that is counted up in a loop is limited by a check.
Sizes are polynomials in the variables of the function, propagated along every path (alternatives are kept apart)."""
import re
import flow
import par
import zone
from rules.c12 import accesses, name
from lib import read_table
from model import Paths, expr_str
from zone import strip, container, isint

SIZE = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'char': 1, 'unsigned char': 1, 'long': 8, 'unsigned long': 8,
        'long long': 8, 'unsigned long long': 8, 'size_t': 8, 'std::size_t': 8, 'bool': 1, 'short': 2, 'Real': 8, 'float32': 4}
MAXALT = 6
DBG = 0
P = None
WORK = {}
INVAR = {}
OWNED = {}


# -- polynomials: frozenset of (monomial = sorted tuple of symbols, coefficient) -------------------------------------
def const(c):
    return frozenset([((), c)]) if c else frozenset()


def sym(k):
    return frozenset([((k,), 1)])


def add(a, b, f=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + f * c
    return frozenset((m, c) for m, c in d.items() if c)


def mul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = tuple(sorted(m + n))
            d[k] = d.get(k, 0) + c * e
    r = frozenset((m, c) for m, c in d.items() if c)
    return r if len(r) <= 12 else None


def less(a, b):
    """Is a < b for all (positive) values of the symbols? True, False or None (depends)."""
    d = add(a, b, -1)
    if not d:
        return False
    if all(c < 0 for m, c in d):
        return True
    if all(c > 0 for m, c in d):
        return False
    return None


def text(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p, key=lambda x: (-len(x[0]), x[0])):
        t = '*'.join(re.sub(r'v\d+:', '', x).replace('this.', '').replace('.*', '') for x in m)
        out.append(('%d' % c) if not m else t if c == 1 else '%d*%s' % (c, t))
    return ' + '.join(out)


def tsize(t):
    t = t.deref() if t is not None else None
    if t is None:
        return None
    if t.k == 'ptr':
        return 8
    if t.k == 'arr' and t.n and t.p is not None:
        s = tsize(t.p)
        return s * int(t.n) if s else None
    return SIZE.get(t.s.replace('const ', '').strip())


def elem(t):
    """Element type of a pointer or array type."""
    t = t.deref() if t is not None else None
    return t.p if t is not None and t.k in ('ptr', 'arr') else None


class Sizes(object):
    """Forward analysis of sizes: state {key: frozenset of alternatives}."""

    def __init__(self, fn):
        self.fn = fn
        self.z = zone.Zone(fn)
        self.narrow = False
        self.ins = None
        self.at = {}

    def key(self, e):
        return self.z.key(e)

    # -- values -----------------------------------------------------------------------------------------------
    def val(self, e, s, depth=0):
        """Alternatives of an integer expression."""
        e = strip(e)
        if e is None or depth > 12:
            return None
        if e.k == 'defarg' and e.kids:
            return self.val(e.kids[0], s, depth + 1)
        if e.k in ('int', 'char', 'bool'):
            return frozenset([const(int(e.get('v') or 0))])
        if e.k == 'un' and e.op == '-':
            a = self.val(e.c(), s, depth + 1)
            return frozenset(add(const(0), x, -1) for x in a) if a else None
        if e.k == 'sizeof':
            v = e.get('v')
            at = (e.d.get('_at') or None)
            if v is not None:
                return frozenset([const(int(v))])
            return frozenset([sym('sizeof(%s)' % (getattr(at, 's', at)))])
        if e.k == 'bin' and e.op in ('+', '-', '*') and isint(e.t) or e.k == 'bin' and e.op in ('+', '-', '*') and e.t is not None and e.t.k == 'dep':
            a, b = self.val(e.kids[0], s, depth + 1), self.val(e.kids[1], s, depth + 1)
            if a is None or b is None or len(a) * len(b) > MAXALT:
                return None
            r = [add(x, y) if e.op == '+' else add(x, y, -1) if e.op == '-' else mul(x, y) for x in a for y in b]
            return frozenset(r) if all(x is not None for x in r) else None
        if e.k == 'cond' and len(e.kids) == 3:
            a, b = self.val(e.kids[1], s, depth + 1), self.val(e.kids[2], s, depth + 1)
            return a | b if a and b and len(a | b) <= MAXALT else None
        if e.k == 'call' and e.name in ('strlen',) and e.args:
            return self.strlen(e.args[0], s)
        if e.k == 'call' and e.name in ('size', 'rows', 'cols', 'dim', 'length') and not [a for a in e.args if a.k != 'defarg']:
            o = zone.recv(e)
            k = self.key(o) if o is not None else None
            if k:
                kd = container(o.t)
                if e.name == 'length':
                    return self.dim(s, k, 'size', kd)
                if e.name == 'dim' and kd is None:
                    return self.dim(s, k, 'size', None)
                return self.dim(s, k, e.name, kd)
        if e.k == 'call' and e.callee is not None and e.callee.n == 'distance' and len(e.args) == 2:
            return self.dist(e.args[0], e.args[1], s)
        if (e.k == 'bin' or e.k == 'call') and e.op == '-':
            l = e.kids if e.k == 'bin' else ([e.obj] if e.obj is not None else []) + list(e.args)
            if len(l) == 2 and not isint(l[0].t):
                return self.dist(l[1], l[0], s)
        k = self.key(e)
        if k is None:
            return None
        if k in s:
            return s[k]
        if e.t is not None and not isint(e.t) and e.t.k != 'dep':
            return frozenset([sym('int(%s)' % k)])
        return frozenset([sym(k)])

    def dim(self, s, k, m, kd):
        k2 = '%s.%s()' % (k, m)
        if k2 in s:
            return s[k2]
        if kd == 'umat' and m == 'size':
            a, b = self.dim(s, k, 'rows', kd), self.dim(s, k, 'cols', kd)
            if len(a) * len(b) <= MAXALT:
                return frozenset(mul(x, y) for x in a for y in b)
        return frozenset([sym(k2)])

    def strlen(self, e, s):
        e = strip(e)
        if e.k == 'str':
            return frozenset([const(len((e.get('v') or '').split('\0')[0].encode()))])
        k = self.key(e)
        if k is None:
            return None
        return s.get(k + '.#len', frozenset([sym('strlen(%s)' % k)]))

    def pos(self, e, s):
        """(container key, offset alternatives) of an iterator or pointer expression."""
        e = strip(e)
        while e is not None and e.k == 'ctor' and len(e.args) == 1:
            e = strip(e.args[0])
        if e is None:
            return None
        if (e.k == 'bin' or e.k == 'call') and e.op in ('+', '-'):
            l = e.kids if e.k == 'bin' else ([e.obj] if e.obj is not None else []) + list(e.args)
            if len(l) == 2:
                a, b = self.pos(l[0], s), self.val(l[1], s)
                if a and a[1] and b and len(a[1]) * len(b) <= MAXALT:
                    f = 1 if e.op == '+' else -1
                    return a[0], frozenset(add(x, y, f) for x in a[1] for y in b), a[2]
            return None
        if e.k == 'call' and e.obj is not None and e.name in ('begin', 'cbegin', 'data', 'ptr') and not [a for a in e.args if a.k != 'defarg']:
            k = self.key(e.obj)
            return (k, frozenset([const(0)]), e.obj) if k else None
        if e.k == 'call' and e.obj is not None and e.name in ('end', 'cend') and not e.args:
            k = self.key(e.obj)
            return (k, self.dim(s, k, 'size', container(e.obj.t)), e.obj) if k else None
        if e.k == 'call' and e.obj is not None and e.name == 'ptr' and len(e.args) == 1 and container(e.obj.t) == 'umat':
            k = self.key(e.obj)
            c = self.val(e.args[0], s)
            r = self.dim(s, k, 'rows', 'umat') if k else None
            if c and r and len(c) * len(r) <= MAXALT:
                return k, frozenset(mul(x, y) for x in c for y in r), e.obj
            return None
        if e.k == 'var' and e.t is not None:
            k = self.key(e)
            for q in (k,):
                if q and q + '.#pos' in s:
                    o, off, node = s[q + '.#pos']
                    return o, off, node
        return None

    def dist(self, a, b, s):
        a, b = self.pos(a, s), self.pos(b, s)
        if a and b and a[0] == b[0] and len(a[1]) * len(b[1]) <= MAXALT:
            return frozenset(add(y, x, -1) for x in a[1] for y in b[1])
        return None

    # -- extents ----------------------------------------------------------------------------------------------
    def ext(self, e, s, depth=0):
        """(alternatives of the number of elements at pointer e, element type) or None."""
        e = strip(e)
        if e is None or depth > 8:
            return None
        while e.k == 'ctor' and len(e.args) == 1:
            e = strip(e.args[0])
        if e.k == 'un' and e.op == '&':
            x = strip(e.c())
            if x.k == 'idx':
                return self.shift(self.ext(x.c(0), s, depth + 1), self.val(x.c(1), s))
            if x.k == 'call' and x.obj is not None and (x.op == '[]' or x.callee is not None and x.callee.n == 'front'):
                i = self.val(x.args[0], s) if x.args else frozenset([const(0)])
                return self.shift(self.whole(x.obj, s), i)
            if x.k in ('var', 'mem') and x.t is not None and x.t.deref().k not in ('arr', 'ptr') and container(x.t) is None and tsize(x.t):
                return frozenset([const(1)]), x.t.deref()
            return None
        if e.k in ('bin', 'call') and e.op in ('+', '-'):
            l = e.kids if e.k == 'bin' else ([e.obj] if e.obj is not None else []) + list(e.args)
            if len(l) == 2:
                return self.shift(self.ext(l[0], s, depth + 1), self.val(l[1], s), -1 if e.op == '-' else 1)
            return None
        if e.k == 'call' and e.obj is not None and e.name in ('data', 'ptr', 'begin', 'cbegin') and not [a for a in e.args if a.k != 'defarg']:
            return self.whole(e.obj, s)
        if e.k == 'call' and e.obj is not None and e.name == 'ptr' and len(e.args) == 1:
            p = self.pos(e, s)
            return self.shift(self.whole(e.obj, s), p[1]) if p else None
        if e.k == 'call' and e.name in ('alloca', '__builtin_alloca') and e.args:
            return self.val(e.args[0], s), None     # in bytes
        if e.t is not None and e.t.deref().k == 'arr' and e.t.deref().n:
            return frozenset([const(int(e.t.deref().n))]), e.t.deref().p
        k = self.key(e)
        if k is not None and k + '.#ext' in s:
            return s[k + '.#ext'], elem(e.t)
        if k is not None and k in s and isinstance(s[k], tuple):
            return s[k]
        p = self.pos(e, s) if e.k == 'var' else None
        if p:
            return self.shift(self.whole(p[2], s), p[1])
        return None

    def shift(self, x, off, f=1):
        if x is None or off is None or x[0] is None or len(x[0]) * len(off) > MAXALT:
            return None
        return frozenset(add(a, b, -f) for a in x[0] for b in off), x[1]

    def whole(self, o, s):
        kd = container(o.t)
        t = o.t.deref()
        if t is None:
            return None
        if kd == 'arr' and t.n:
            return frozenset([const(int(t.n))]), t.p
        if kd == 'sarr':
            m = re.search(r',\s*(\d+)', t.s)
            return (frozenset([const(int(m.group(1)))]), t.ta[0] if t.ta else None) if m else None
        if (t.r or t.s).replace('const ', '').split('@')[0] == 'Vec3':
            return frozenset([const(3)]), None
        k = self.key(o)
        if k is None or kd is None:
            return None
        return self.dim(s, k, 'size', kd), t.ta[0] if t.ta else None

    # -- transfer ---------------------------------------------------------------------------------------------
    def kill(self, s, k, content=True):
        """Forget what is known of the object or variable with key k, and all that depends on it."""
        if not k:
            return s
        pat = re.compile(r'(?<![A-Za-z0-9_])' + re.escape(k) + r'(?![A-Za-z0-9_])')
        out = {}
        for x, v in s.items():
            if pat.search(x):
                continue
            if x.endswith('.#pos'):
                if pat.search(v[0]) or any(pat.search(m) for p in v[1] for ms, c in p for m in ms):
                    continue
            elif any(pat.search(m) for p in v for ms, c in p for m in ms):
                continue
            out[x] = v
        return out

    def put(self, s, k, v):
        if v is None or not k or len(v) > MAXALT:
            return s
        pat = re.compile(r'(?<![A-Za-z0-9_])' + re.escape(k) + r'(?![A-Za-z0-9_])')
        if any(pat.search(m) for p in v for ms, c in p for m in ms):
            return s
        s = dict(s)
        s[k] = v
        return s

    def given(self, s, k, t, r):
        """Variable with key k of type t gets the value r."""
        r0 = strip(r)
        while r0 is not None and r0.k == 'ctor' and len(r0.args) == 1 and container(r0.t) is None:
            r0 = strip(r0.args[0])
        if isint(t):
            v = self.val(r, s)
            return self.put(self.kill(s, k), k, v)
        if t is not None and t.deref().k == 'ptr':
            if r0.k == 'new' and r0.child('size') is not None:
                v = self.val(r0.child('size'), s)
                return self.put(self.kill(s, k), k + '.#ext', v)
            if r0.k == 'new':           # what its constructor allocates
                s2 = self.kill(s, k)
                for m in r0.walk():
                    if m.k == 'ctor' and m.callee is not None and m.callee.body is not None:
                        for mem, i in made(m.callee.body):
                            if i < len(m.args):
                                s2 = self.put(s2, '%s.%s.#ext' % (k, mem), self.val(m.args[i], s))
                        break
                return s2
            x = self.ext(r, s)
            l = self.strlen(r, s) if elem(t) is not None and elem(t).k == 'char' and r0.k in ('var', 'mem', 'str') else None
            if r0.k == 'call' and r0.name in ('alloca', '__builtin_alloca') and x is not None and x[0] is not None:
                b = tsize(elem(t))
                v = frozenset(div(a, b) for a in x[0]) if b else None
                return self.put(self.kill(s, k), k + '.#ext', v if v and None not in v else None)
            s = self.kill(s, k)
            if x is not None and x[0] is not None and (x[1] is None or tsize(x[1]) == tsize(elem(t))):
                s = self.put(s, k + '.#ext', x[0])
            if l is not None:
                s = self.put(s, k + '.#len', l)
            return s
        p = self.pos(r, s) if t is not None and container(t) is None else None
        s = self.kill(s, k)
        if p and not re.search(r'(?<![A-Za-z0-9_])' + re.escape(k) + r'(?![A-Za-z0-9_])', p[0]):
            s = dict(s)
            s[k + '.#pos'] = p
        return s

    def sized(self, s, k, kd, dims):
        s = self.kill(s, k)
        for m, v in dims.items():
            s = self.put(s, '%s.%s()' % (k, m), v)
        return s

    def transfer(self, n, s):
        k = n.k
        if k == 'vardecl':
            d = n.get('d')
            t = self.fn.locals[d]['t']
            if t.k in ('ref', 'rref'):
                return s
            key = 'v%d:%s' % (d, n.name)
            if not n.kids:
                kd = container(t)
                if kd in ('vec', 'uvec') and t.k == 'rec':
                    return self.put(self.kill(s, key), key + '.size()', frozenset([const(0)]))
                return self.kill(s, key)
            kd = container(t)
            if kd and t.k == 'rec':
                e = strip(n.kids[0])
                dims = {}
                if e.k == 'ctor':
                    if e.callee is not None and e.callee.kind in ('cctor', 'mctor') and e.args:
                        dims = self.copy(e.args[0], kd, s)
                    elif not e.get('il'):
                        dims = self.ctor(kd, e.args, s)
                elif e.k in ('var', 'mem', 'call'):
                    dims = self.copy(e, kd, s) if e.k != 'call' else {}
                return self.sized(s, key, kd, dims)
            return self.given(s, key, t, n.kids[0])
        if k == 'assign':
            l = strip(n.c(0))
            key = self.key(l)
            if not key:
                return s
            if n.op == '=':
                return self.given(s, key, l.t, n.c(1))
            if n.op in ('+=', '-=') and isint(l.t):
                a, b = self.val(l, s), self.val(n.c(1), s)
                v = None
                if a and b and len(a) * len(b) <= MAXALT and key in s:
                    v = frozenset(add(x, y, 1 if n.op == '+=' else -1) for x in a for y in b)
                return self.put(self.kill(s, key), key, v)
            if n.op in ('+=', '-=') and key + '.#ext' in s:
                x = self.shift((s[key + '.#ext'], None), self.val(n.c(1), s), 1 if n.op == '+=' else -1)
                return self.put(self.kill(s, key), key + '.#ext', x[0] if x else None)
            return self.kill(s, key)
        if k == 'un' and n.op in ('++', '--', 'p++', 'p--'):
            return self.kill(s, self.key(n.c()))
        if k in ('call', 'ctor'):
            return self.call(n, s)
        return s

    def copy(self, e, kd, s):
        k = self.key(e)
        if not k:
            return {}
        return {m: self.dim(s, k, m, kd) for m in (('rows', 'cols') if kd == 'umat' else ('size',))}

    def ctor(self, kd, args, s):
        a = [x for x in args if x.k != 'defarg']
        if kd in ('vec', 'uvec'):
            if not a:
                return {'size': frozenset([const(0)])}
            if isint(a[0].t) and len(a) <= 2:
                return {'size': self.val(a[0], s)}
            if len(a) == 2:
                return {'size': self.dist(a[0], a[1], s)}
        elif kd == 'umat' and len(a) >= 2 and isint(a[0].t) and isint(a[1].t):
            return {'rows': self.val(a[0], s), 'cols': self.val(a[1], s)}
        return {}

    def call(self, n, s):
        d = n.callee
        o = n.obj if n.k == 'call' else None
        s0 = s
        nm = d.n if d is not None else n.name
        if nm in ('strcpy', 'strcat', 'sprintf') and n.args:
            return self.strop(n, nm, s)
        if nm == 'strtok':
            return s
        for i, a in enumerate(n.args):
            pt = d.p[i] if d is not None and i < len(d.p) else None
            w = pt is None and d is None or pt is not None and pt.k in ('ref', 'ptr', 'rref') and (pt.p is None or not pt.p.c)
            if w:
                b = strip(a)
                if b.k == 'un' and b.op == '&':
                    b = strip(b.c())
                if b.k in ('var', 'mem', 'idx'):
                    kk = self.key(b)
                    if pt is not None and pt.k == 'ptr' and b.t is not None and b.t.deref().k in ('ptr', 'arr') and strip(a) is b:
                        s = self.kill(s, kk + '.#len') if kk else s      # only the content
                        continue
                    s = self.kill(s, kk)
                    if kk and d is not None and d.in_repo():
                        s = dict(s)
                        s[kk + '.#touched'] = frozenset()
                elif b.k == 'this':
                    s = self.kill(s, 'this')
        if n.k == 'ctor':
            return s
        if o is None:
            if d is not None and d.rec and not d.static and not d.const and d.kind == 'method':
                s = self.kill(s, 'this')
            return s
        ok = self.key(o)
        if not ok or d is not None and (d.const or d.static):
            return s
        kd = container(o.t)
        if kd is None:
            if d is not None and d.n in ('str', 'operator<<', 'operator>>', 'read', 'write', 'getline'):
                return s
            return self.kill(s, ok)
        if nm in zone.KEEP and nm != 'reserve' or nm == 'reserve':
            return s
        args = [x for x in n.args if x.k != 'defarg']
        if kd in ('vec', 'uvec'):
            if nm in ('resize', 'assign') and args and isint(args[0].t):
                return self.sized(s, ok, kd, {'size': self.val(args[0], s0)})
            if nm == 'clear':
                return self.sized(s, ok, kd, {'size': frozenset([const(0)])})
            if nm == 'operator=' and args and container(args[0].t) == kd:
                return self.sized(s, ok, kd, self.copy(args[0], kd, s0))
            if nm in ('push_back', 'emplace_back'):
                v = s0.get(ok + '.size()')
                return self.sized(s, ok, kd, {'size': frozenset(add(x, const(1)) for x in v) if v else None})
        elif kd == 'umat':
            if nm == 'resize' and len(args) >= 2 and isint(args[0].t) and isint(args[1].t):
                return self.sized(s, ok, kd, {'rows': self.val(args[0], s0), 'cols': self.val(args[1], s0)})
            if nm == 'operator=' and args and container(args[0].t) == kd:
                return self.sized(s, ok, kd, self.copy(args[0], kd, s0))
        return self.kill(s, ok)

    def strop(self, n, nm, s):
        b, off = self.dest(n.args[0], s)
        k = self.key(b)
        if not k:
            return s
        self.narrow = True
        L = self.written(n, nm, s)
        self.narrow = False
        if L is None:
            return self.kill(s, k + '.#len')
        if nm == 'strcat':
            cur = self.strlen(b, s)
            L = frozenset(add(x, y) for x in cur for y in L) if cur else None
        elif off:
            L = frozenset(add(x, y) for x in off for y in L)
        s = {x: v for x, v in s.items() if x != k + '.#len'}
        return self.put(s, k + '.#len', L) if L is not None and not any(k + ')' in m for p in L for ms, c in p for m in ms) else s

    def dest(self, e, s):
        e = strip(e)
        if e.k == 'bin' and e.op == '+':
            return strip(e.kids[0]), self.val(e.kids[1], s)
        if e.k == 'call' and e.name == 'strtok' and e.args:
            return strip(e.args[0]), None
        return e, None

    def written(self, n, nm, s):
        """Alternatives of the greatest length that is written (without the terminating zero), None if unlimited."""
        if nm in ('strcpy', 'strcat'):
            return self.strlen(n.args[1], s)
        f = strip(n.args[1])
        if f.k != 'str':
            return None
        args, i, tot = list(n.args[2:]), 0, [const(0)]
        fmt = f.get('v') or ''
        pos = 0
        for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfgGcsp%])', fmt):
            tot = [add(x, const(len(fmt[pos:m.start()].encode()))) for x in tot]
            pos = m.end()
            c = m.group(5)
            if c == '%':
                tot = [add(x, const(1)) for x in tot]
                continue
            a = args[i] if i < len(args) else None
            i += 1
            w = int(m.group(2) or 0)
            if c == 's':
                l = self.strlen(a, s) if a is not None else None
                if l is None or len(l) != 1:
                    return None
                tot = [add(x, y) for x in tot for y in l]
                continue
            big = m.group(4) in ('l', 'll', 'z', 'j', 't')
            k = 1 if c == 'c' else (5 if self.narrow else 10 if big else 11) if c in 'diouxX' else (
                8 + int(m.group(3) or 6)) if c in 'eEgG' else 317 + int(m.group(3) or 6)
            tot = [add(x, const(max(k, w))) for x in tot]
        tot = [add(x, const(len(fmt[pos:].encode()))) for x in tot]
        return frozenset(tot)


MADE = {}


def made(f):
    """[(member array, parameter that gives its size)] of a constructor."""
    if f.decl.u not in MADE:
        pi = {p['d']: i for i, p in enumerate(f.params)}
        out = []
        for n in f.walk():
            if n.k == 'assign' and n.op == '=' and strip(n.c(0)).k == 'mem' and strip(strip(n.c(0)).c()).k == 'this':
                e = strip(n.c(1))
                z = strip(e.child('size')) if e.k == 'new' and e.child('size') is not None else None
                if z is not None and z.k == 'var' and z.get('d') in pi:
                    out.append((strip(n.c(0)).name, pi[z.get('d')]))
        MADE[f.decl.u] = out
    return MADE[f.decl.u]


def div(p, b):
    """p / b for a constant b or None."""
    if all(c % b == 0 for m, c in p):
        return frozenset((m, c // b) for m, c in p)
    return None


def unsizeof(p):
    """(p without its sizeof factor) or None."""
    out = []
    for m, c in p:
        q = [x for x in m if x.startswith('sizeof(')]
        if len(q) != 1:
            return None
        m = list(m)
        m.remove(q[0])
        out.append((tuple(m), c))
    return frozenset(out)


def join(a, b):
    if a is b or a == b:
        return a
    out = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if v == w:
            out[k] = v
        elif not isinstance(v, tuple) and not isinstance(w, tuple) and len(v | w) <= MAXALT:
            out[k] = v | w
    return out


def lesseach(exts, reqs):
    """Insufficient in every alternative (True), sufficient in every one (False) or undecided (None)."""
    r = [less(x, y) for x in exts for y in reqs]
    if r and all(v is True for v in r):
        return True
    if r and all(v is False for v in r):
        return False
    return None


BLOCK = {'memcpy': ((0, 1), 2), 'memmove': ((0, 1), 2), 'memset': ((0,), 2)}


def job(fn):
    out, cnt = [], {}

    def c(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    walks = {}
    for n in fn.walk():
        if n.k == 'for' and n.child('init') is not None and n.child('cond') is not None and n.child('inc') is not None:
            for v in n.child('init').walk():
                if v.k == 'vardecl' and v.kids and isint(v.t or fn.locals[v.get('d')]['t']):
                    walks[v.i] = n
    calls = [n for n in fn.walk() if n.k == 'call' and (n.name in BLOCK or n.name in WORK or n.name in (
        'fread', 'fwrite', 'sprintf', 'snprintf', 'strcpy', 'strcat', 'copy', 'read', 'write', 'getline', 'copy_n', 'alloca', '__builtin_alloca') or n.name in OWNED or spans(n))]
    walks = {i: n for i, n in walks.items() if any(steps(n))}
    if calls or walks:
        S = Sizes(fn)
        ins = flow.forward(fn, dict(), S.transfer, None, join, 3000)
        ids = set(n.i for n in calls)
        for b, s in ins.items():
            for n in flow.elems(fn, fn.blocks[b]):
                if n.i in ids:
                    judge(fn, S, n, s, out, c)
                if n.i in walks:
                    walk(fn, S, n, walks[n.i], s, out, c)
                s = S.transfer(n, s)
    arrays(fn, out, c)
    counters(fn, out, c)
    return out, cnt


def spans(n):
    """Is n a library algorithm over a block of elements given by two pointers?"""
    return n.callee is not None and n.callee.q.startswith('std::') and n.obj is None and len(n.args) >= 2 and all(
        a.t is not None and a.t.deref().k == 'ptr' for a in n.args[:2])


def split(S, e, s):
    """(pointer, alternatives of the number added to it)."""
    e = strip(e)
    if e.k == 'bin' and e.op in ('+', '-'):
        b, o = split(S, e.kids[0], s)
        v = S.val(e.kids[1], s)
        if o is None or v is None or len(o) * len(v) > MAXALT:
            return b, None
        return b, frozenset(add(x, y, 1 if e.op == '+' else -1) for x in o for y in v)
    return e, frozenset([const(0)])


def compare(S, n, s, what, x, req, out, c, rule, inst):
    """x = (extents, element type); req = alternatives of the number needed."""
    if x is None or x[0] is None or req is None:
        c('%s of unknown size' % rule)
        if DBG:
            print('UNK', S.fn.q, n.l, inst, what, x is not None and [text(p) for p in x[0] or ()], req and [text(p) for p in req])
        return
    c('%s compared' % rule)
    r = lesseach(x[0], req)
    if r is None and all(related(fn_zone(S), n, p, q) for p in x[0] for q in req):
        c('%s proven by a check before' % rule)
        return
    if DBG and r is None:
        print('UNDEC', S.fn.q, n.l, inst, what, '|', [text(p) for p in x[0]], '|', [text(p) for p in req])
    if r is None and len(x[0]) + len(req) > 2 and all(any(less(p, q) is False for q in req) for p in x[0]) and all(
            any(less(p, q) is False for p in x[0]) for q in req):
        c('%s with matching alternatives' % rule)
        return
    if r is None and claim(S, x[0], req, s):
        r = True
    if r is True:
        out.append((rule, n.i, inst, '%s holds %s elements, but %s are needed' % (
            what, ' or '.join(sorted(text(p) for p in x[0])), ' or '.join(sorted(text(p) for p in req)))))
    elif r is None:
        c('%s undecided' % rule)


def fn_zone(S):
    if S.ins is None:
        S.ins = S.z.solve() or {}
        S.at = {}
        for b, s in S.ins.items():
            for n in flow.elems(S.fn, S.fn.blocks[b]):
                if n.k == 'call':
                    S.at[n.i] = s
                s = S.z.transfer(n, s)
    return S


def single(p):
    t, k = None, 0
    for m, c in p:
        if not m:
            k = c
        elif len(m) == 1 and c == 1 and t is None:
            t = m[0]
        else:
            return None
    return (t or '0', k)


def related(S, n, ext, req):
    """Do the checks before node n prove that ext >= req?"""
    e = {}
    for m, c in req:            # (a/b)*b <= a
        m = list(m)
        for q in [x for x in m if x.startswith('(') and '/' in x and c > 0]:
            for t in m:
                if q.endswith('/%s)' % t):
                    m.remove(q)
                    m.remove(t)
                    m.append(q[1:-len(t) - 2])
                    break
        m = tuple(sorted(m))
        e[m] = e.get(m, 0) + c
    req = frozenset((m, c) for m, c in e.items() if c)
    if less(ext, req) is False:
        return True
    d = add(req, ext, -1)       # <= 0 is wanted
    while d and all(m for m, c in d):       # a common factor
        f = set.intersection(*[set(m) for m, c in d])
        if not f:
            break
        f = sorted(f)[0]
        e = []
        for m, c in d:
            m = list(m)
            m.remove(f)
            e.append((tuple(m), c))
        d = frozenset(e)
    pos = [(m, c) for m, c in d if m and c > 0]
    neg = [(m, c) for m, c in d if m and c < 0]
    k = sum(c for m, c in d if not m)
    if len(pos) > 1 or len(neg) > 1 or any(abs(c) != 1 or len(m) != 1 for m, c in pos + neg):
        return False
    s = S.at.get(n.i)
    if s is None:
        return False
    b = S.z.bound(s, pos[0][0][0] if pos else '0', neg[0][0][0] if neg else '0')
    return b is not None and b + k <= 0


def claim(S, ext, req, s):
    """Is a size that cannot be proven sufficient this function's own doing?"""
    pars = {'v%d:%s' % (p['d'], p['n']): p['t'] for p in S.fn.params}

    def syms(ps):
        return set(x for p in ps for m, c in p for x in m)
    se, sr = syms(ext), syms(req)
    own = False
    for x in se | sr:
        m = re.match(r'(v\d+:\w+)(\.\*)?(\.(size|rows|cols)\(\))?$', x)
        if not m:
            if x.startswith('this.') and re.match(r'this\.\w+$', x) or re.match(r'\(?this\.\w+', x) and x in sr:
                continue
            return False
        if not m.group(3) and m.group(1) not in pars and (x in se) != (x in sr):
            return False            # a local of unknown value
        if m.group(3) and x in se and x not in sr:
            if m.group(1) + '.#touched' in s:
                return False
            if m.group(1) in pars:
                t = pars[m.group(1)]
                if t.k not in ('ref', 'ptr') or t.p is None or t.p.c:
                    return False    # what the caller passes
            own = True
    return True


def steps(f):
    """(pointer variable, step node or None) of the pointers that a for loop advances."""
    for n in f.child('inc').walk():
        if n.k == 'assign' and n.op == '+=' and strip(n.c(0)).k == 'var' and n.c(0).t is not None and n.c(0).t.deref().k == 'ptr':
            yield strip(n.c(0)), n.c(1)
        elif n.k == 'un' and n.op.strip('p') == '++' and strip(n.c()).k == 'var' and n.c().t is not None and n.c().t.deref().k == 'ptr':
            yield strip(n.c()), None


def walk(fn, S, v, f, s, out, c):
    cond = strip(f.child('cond'))
    if cond.k != 'bin' or cond.op not in ('<', '<=') or strip(cond.kids[0]).k != 'var' or strip(cond.kids[0]).get('d') != v.get('d'):
        return
    i0, N = S.val(v.kids[0], s), S.val(cond.kids[1], s)
    if not i0 or not N:
        return
    n = [add(add(x, y, -1), const(1 if cond.op == '<=' else 0)) for x in N for y in i0]
    body = f.child('body')
    for p, st in steps(f):
        x = S.ext(p, s)
        c('pointers advanced in a loop')
        if x is None or x[0] is None:
            continue
        if body is not None and any(m.k == 'assign' and strip(m.c(0)).k == 'var' and strip(m.c(0)).get('d') == p.get('d') for m in body.walk()):
            continue
        w = S.val(st, s) if st is not None else frozenset([const(1)])
        if w:
            req = frozenset(mul(a, b) for a in n for b in w)
            if None not in req:
                o = []
                compare(S, v, s, expr_str(p), x, req, o, c, 'walk', 'pointer through %s' % re.sub(r'\W.*', '', elem(p.t).s))
                out.extend(o)


def judge(fn, S, n, s, out, c):
    nm = n.name
    d = n.callee
    if nm in ('alloca', '__builtin_alloca') and n.p is not None:
        q = n.p
        while q.k in ('cast', 'expr') and q.p is not None:
            q = q.p
        t = fn.locals[q.get('d')]['t'] if q.k == 'vardecl' else q.c(0).t if q.k == 'assign' else None
        b, by = tsize(elem(t)) if t is not None else None, S.val(n.args[0], s)
        c('block operations')
        if b and b > 1 and by and any(div(p, b) is None for p in by):
            out.append(('block', n.i, 'alloca bytes', 'the number of bytes, %s, is not a multiple of the size of the elements (%d)' % (expr_str(n.args[0]), b)))
    elif nm in BLOCK and n.obj is None and len(n.args) == 3:
        c('block operations')
        by = S.val(n.args[2], s)
        szs = [m for m in n.args[2].walk() if m.k == 'sizeof']
        for i in BLOCK[nm][0]:
            a = strip(n.args[i])
            x = S.ext(n.args[i], s)
            et = x[1] if x is not None and x[1] is not None else elem(a.t)
            es = tsize(et)
            inst = '%s argument %d' % (nm, i + 1)
            for m in szs:
                at = m.d.get('_at')
                v = m.get('v')
                if at is not None and getattr(at, 'k', None) == 'ptr' and (et is None or et.k != 'ptr'):
                    out.append(('block', n.i, inst + ' pointer', 'the size of the pointer %s is taken instead of that of what it points at' % expr_str(m)))
                elif v and es and int(v) % es != 0:
                    out.append(('block', n.i, inst + ' type', 'the elements of %s have %d bytes, not %d' % (expr_str(a), es, int(v))))
                elif v and es and int(v) != es and getattr(at, 'k', None) != 'arr' and et is not None and et.k in ('int', 'double', 'float', 'char'):
                    out.append(('block', n.i, inst + ' type', 'the elements of %s have %d bytes, not %d' % (expr_str(a), es, int(v))))
            if by is None or x is None or x[0] is None:
                c('block of unknown size')
                continue
            if szs and szs[0].get('v') is None:
                req = [unsizeof(p) for p in by]
            elif es:
                req = [div(p, es) for p in by]
            else:
                req = [None]
            if None in req:
                out.append(('block', n.i, inst + ' bytes', 'the number of bytes, %s, is not a multiple of the size of the elements of %s' % (expr_str(n.args[2]), expr_str(a)))) if es and es > 1 else c('block of unknown size')
                continue
            compare(S, n, s, expr_str(a), x, frozenset(req), out, c, 'block', inst)
    elif nm in ('fread', 'fwrite') and len(n.args) == 4:
        c('block operations')
        x = S.ext(n.args[0], s)
        a = strip(n.args[0])
        et = x[1] if x is not None and x[1] is not None else elem(a.t)
        es, sz = tsize(et), S.val(n.args[1], s)
        if es and sz and sz != frozenset([const(es)]):
            out.append(('block', n.i, nm + ' type', 'the elements of %s have %d bytes, not %s' % (expr_str(a), es, expr_str(n.args[1]))))
        compare(S, n, s, expr_str(a), x, S.val(n.args[2], s), out, c, 'block', nm)
    elif nm in ('read', 'write') and n.obj is not None and d is not None and (d.rec or '').startswith('std::') and len(n.args) == 2:
        c('block operations')
        a = n.args[0]
        while a.k in ('cast', 'expr') and a.kids:
            a = a.kids[0]
        x = S.ext(a, s)
        et = x[1] if x is not None and x[1] is not None else elem(a.t)
        es, by = tsize(et), S.val(n.args[1], s)
        if strip(a).k == 'str':
            x, es = (frozenset([const(len(strip(a).get('v') or ''))]), None), 1
        if x is None or not es or by is None:
            c('block of unknown size')
            return
        req = [div(p, es) for p in by]
        if None in req:
            out.append(('block', n.i, nm + ' bytes', 'the number of bytes, %s, is not a multiple of the size of the elements of %s' % (expr_str(n.args[1]), expr_str(a))))
            return
        compare(S, n, s, expr_str(a), x, frozenset(req), out, c, 'block', nm)
    elif nm == 'getline' and n.obj is not None and len(n.args) >= 2:
        c('text operations')
        compare(S, n, s, expr_str(n.args[0]), S.ext(n.args[0], s), S.val(n.args[1], s), out, c, 'text', nm)
    elif nm == 'snprintf' and n.obj is None and len(n.args) >= 3:
        c('text operations')
        compare(S, n, s, expr_str(n.args[0]), S.ext(n.args[0], s), S.val(n.args[1], s), out, c, 'text', nm)
    elif nm in ('sprintf', 'strcpy', 'strcat') and n.obj is None and len(n.args) >= 2:
        c('text operations')
        b, off = S.dest(n.args[0], s)
        x = S.ext(b, s)
        L = S.written(n, nm, s)
        if x is None or x[0] is None:
            out.append(('text', n.i, nm + ' unknown', 'text is written with %s to %s, whose size is not known here' % (nm, expr_str(n.args[0]))))
            return
        if L is None:
            out.append(('text', n.i, nm + ' unlimited', 'text of any length is written to %s, which has room for %s characters' % (
                expr_str(n.args[0]), ' or '.join(text(p) for p in x[0]))))
            return
        if nm == 'strcat':
            off = S.strlen(b, s)
        c('text compared')

        def full(L):
            if off:
                L = frozenset(add(p, q) for p in L for q in off)
            return frozenset(add(p, const(1)) for p in L)
        L = full(L)
        if any(less(p, q) is not False for p in x[0] for q in L):
            S.narrow = True
            L2 = S.written(n, nm, s)
            S.narrow = False
            short = L2 is None or any(less(p, q) is not False for p in x[0] for q in full(L2))
            out.append(('text', n.i, nm + (' short' if short else ''), 'up to %s characters are written to %s, which has room for %s' % (
                ' or '.join(text(p) for p in L), expr_str(b), ' or '.join(text(p) for p in x[0]))))
    elif nm == 'copy' and n.obj is None and len(n.args) == 3 and d is not None and d.q == 'std::copy':
        c('block operations')
        L = S.dist(n.args[0], n.args[1], s)
        if L is None and spans(n):
            (a, o), (b, q) = split(S, n.args[0], s), split(S, n.args[1], s)
            if o and q and S.key(a) and S.key(a) == S.key(b) and len(o) == len(q) == 1:
                compare(S, n, s, expr_str(a), S.ext(a, s), q, out, c, 'block', 'copy source')
                L = frozenset(add(y, x, -1) for x in o for y in q)
        compare(S, n, s, expr_str(n.args[2]), S.ext(n.args[2], s), L, out, c, 'block', 'copy')
    elif spans(n) and not (nm == 'copy' and len(n.args) != 3):
        (a, o), (b, q) = split(S, n.args[0], s), split(S, n.args[1], s)
        if o and q and S.key(a) and S.key(a) == S.key(b):
            c('block operations')
            compare(S, n, s, expr_str(a), S.ext(a, s), q, out, c, 'block', nm)
    elif nm in WORK and n.obj is None:
        for row in WORK[nm]:
            work(fn, S, n, s, row, out, c)
    if nm in OWNED and n.obj is None and n.args:
        a = strip(n.args[0])
        m = strip(a.c()) if a.k == 'un' and a.op == '&' else a
        k = S.key(m.c()) if m is not None and m.k == 'mem' and m.kids else None
        for f, i in OWNED[nm] if k else ():
            x = s.get('%s.%s.#ext' % (k, f))
            if x is not None and i < len(n.args):
                c('work arrays')
                compare(S, n, s, f, (x, None), S.val(n.args[i], s), out, c, 'work', '%s of %s' % (f, nm))


def work(fn, S, n, s, row, out, c):
    i, need, unless = row
    if i >= len(n.args):
        return
    a = n.args[i]
    if flow.isnull(strip(a)):
        return
    if unless is not None and unless < len(n.args):
        v = S.val(n.args[unless], s)
        if v == frozenset([const(-1)]):
            c('work space queries')
            return
    c('work arrays')
    x = S.ext(a, s)
    if x is None or x[0] is None:
        c('work of unknown size')
        return
    res = []
    for alt in need:            # any of these is enough
        req = [const(0)]
        for coef, args in alt:
            t = [const(coef)]
            for j in args:
                v = S.val(n.args[j], s) if j < len(n.args) else None
                if v is None:
                    c('work of unknown size')
                    return
                t = [mul(x, y) for x in t for y in v]
            req = [add(x, y) for x in req for y in t]
            if len(req) > MAXALT or None in req:
                return
        o = []
        compare(S, n, s, expr_str(a), x, frozenset(req), o, c, 'work', '%s argument %d' % (n.name, i + 1))
        res.append(o)
    if all(res):
        out.extend(res[0])


# -- fixed arrays indexed by a counter -------------------------------------------------------------------------
def counters(fn, out, c):
    inc = {}
    for n in fn.walk():
        if n.k == 'un' and n.op.strip('p') == '++' and strip(n.c()).k == 'var':
            q = n.p
            while q is not None and q.k not in ('for', 'while', 'do', 'rfor'):
                q = q.p
            if q is not None:
                inc.setdefault(strip(n.c()).get('d'), []).append(q)
    if not inc:
        return
    idx = [n for n in fn.walk() if n.k == 'idx' and strip(n.c(1)).k in ('var', 'un') and n.c(0).t is not None and n.c(0).t.deref().k == 'arr']
    idx = [n for n in idx if any(m.k == 'var' and m.get('d') in inc for m in n.c(1).walk())]
    if not idx:
        return
    z = zone.Zone(fn)
    if z.solve() is None:
        return
    ids = set(n.i for n in idx)
    for b, s in z.ins.items():
        for n in flow.elems(fn, fn.blocks[b]):
            if n.i in ids:
                l = z.lin(n.c(1))
                d = [m.get('d') for m in n.c(1).walk() if m.k == 'var' and m.get('d') in inc][0]
                inside = False
                q = n.p
                while q is not None:
                    inside = inside or any(q is x for x in inc[d])
                    q = q.p
                if l is not None and l[0] != '0' and inside:
                    c('counters of fixed arrays')
                    v = 'v%d:' % d
                    loops = [x.child('cond') for x in inc[d] if x.child('cond') is not None]
                    lim = any(m.k == 'var' and m.get('d') == d for x in loops for m in x.walk()) or any(
                        v in (e[0] + e[1]) and e[0] != '0' and e[1][0] != zone.NE for e in s if e[0] == l[0] and (e[1] == '0' or e[1] != l[0]))
                    if not lim and z.bound(s, l[0], '0', False) is None:
                        out.append(('counter', n.i, 'array of %s' % n.c(0).t.deref().n, 'the index %s of %s, which has %s elements, is counted up in a loop that '
                                    'nothing limits to that number' % (expr_str(n.c(1)), expr_str(n.c(0)), n.c(0).t.deref().n)))
            s = z.transfer(n, s)


# -- arrays of members and locals ----------------------------------------------------------------------------------
def arrays(fn, out, c):
    news = [n for n in fn.walk() if n.k == 'new' and n.child('size') is not None]
    rec = fn.decl.rec
    inv = {k: v for q in [rec] + list(P.all_bases(rec)) for k, v in INVAR.get(q, {}).items()} if rec else {}
    if not news and not inv:
        return
    if not any(n.k == 'idx' for n in fn.walk()) and not news:
        return
    z = zone.Zone(fn)
    init = {}
    if fn.decl.kind == 'method':
        for m, (t, k) in inv.items():
            r = z.eq(init, 'this.%s.#extent' % m, (t, k))
            init = r if r is not None else init
    if z.solve(init=init) is None:
        return
    for b, s in z.ins.items():
        for n in flow.elems(fn, fn.blocks[b]):
            for nm, sz, ix, base in accesses(z, n):
                if not sz[0].endswith('.#extent'):
                    continue
                l = z.lin(ix)
                if l is None:
                    continue
                c('accesses of allocated arrays')
                ub = z.bound(s, l[0], sz[0], False)
                if ub is None:
                    continue
                v = ub + l[1] - sz[1] - base
                c('accesses with a known bound')
                if v >= 0:
                    out.append(('array', n.i, name(sz, nm), 'the index %s may be %s the last of the elements that are allocated for %s' % (
                        expr_str(ix), 'one past' if v == 0 else '%d past' % (v + 1), nm)))
            s = z.transfer(n, s)
    if not news:
        return
    for m, (t, k) in inv.items():
        e = 'this.%s.#extent' % m
        for b in fn.blocks:
            B = fn.blocks[b]
            if b not in z.ins or fn.exit not in [x for x in B.succs if x is not None]:
                continue
            s = z.through(B, z.ins[b])
            if not any(e in x for x in s):
                continue
            ub = z.bound(s, e, t, False)
            if ub is not None:
                c('allocations that agree')
                if ub < k:
                    nn = [n for n in news]
                    out.append(('array', nn[0].i, m + ' allocation', '%s is allocated with %d elements less than where the other methods rely on (%s + %d)' % (
                        m, k - ub, t.replace('this.', ''), k)))


def mine(prog):
    """Extents of member arrays in terms of other members: {class: {member: (term, constant)}}."""
    inv = {}
    for f in prog.fns:
        if not f.decl.rec or f.dep or '3rdparty' in f.file:
            continue
        z = None
        for n in f.walk():
            if n.k == 'assign' and n.op == '=' and strip(n.c(1)).k == 'new' and strip(n.c(1)).child('size') is not None:
                m = strip(n.c(0))
                if m.k != 'mem' or strip(m.c()).k != 'this':
                    continue
                if z is None:
                    z = zone.Zone(f)
                l = z.lin(strip(n.c(1)).child('size'))
                if l is not None and l[0].startswith('this.') and re.match(r'this\.\w+$', l[0]):
                    own = prog.records.get(f.decl.rec)
                    for q in [f.decl.rec] + list(prog.all_bases(f.decl.rec)):
                        r = prog.records.get(q)
                        if r is not None and any(x['n'] == m.name for x in r.fields):
                            inv.setdefault(q, {}).setdefault(m.name, set()).add(l)
    return {q: {m: max(ls, key=lambda x: x[1]) for m, ls in d.items() if len(set(x[0] for x in ls)) == 1} for q, d in inv.items()}


def parse(t):
    """'4*a1 + a1*a2 + 3' -> [(coef, [argument indices])]."""
    out = []
    for term in t.split('+'):
        c, a = 1, []
        for f in term.strip().split('*'):
            f = f.strip()
            if f.startswith('a'):
                a.append(int(f[1:]) - 1)
            else:
                c *= int(f)
        out.append((c, a))
    return out


def run(prog, ctx):
    global P
    P = prog
    zone.Zone.mods = zone.Mods(P)
    WORK.clear()
    OWNED.clear()
    for r in read_table('c25_owned.txt'):
        OWNED.setdefault(r[0], []).append((r[1], int(r[2]) - 1))
    for r in read_table('c25_work.txt'):
        WORK.setdefault(r[0], []).append((int(r[1]) - 1, [parse(t) for t in r[2].split(' or ')], int(r[3]) - 1 if len(r) > 3 and r[3] else None))
    INVAR.clear()
    INVAR.update(mine(P))
    ctx.count('member arrays with a known size', sum(len(d) for d in INVAR.values()))
    fns = [f for f in P.fns if f.blocks and '3rdparty' not in f.file and not f.file.startswith('/')]
    seen = set()
    for f, (out, cnt) in zip(fns, par.pmap(job, fns, 16)):
        for k, v in cnt.items():
            ctx.count(k, v)
        for rule, i, inst, msg in out:
            if (f.decl.u, rule, i, inst) in seen:
                continue
            seen.add((f.decl.u, rule, i, inst))
            if ctx.excepted(P, 'c25_allow.txt', f, inst):
                continue
            ctx.viol(rule, f.q, inst, msg, fn=f, node=f.nodes.get(i), P=P)
    ctx.need('block compared', 25, 'blocks whose size is compared')
    ctx.need('text compared', 12, 'texts whose length is compared')
    ctx.need('work compared', 35, 'work arrays whose size is compared')
    ctx.need('accesses with a known bound', 20, 'accesses of allocated arrays with a known bound')
    ctx.need('counters of fixed arrays', 40, 'indices of fixed arrays that are counted up')
    ctx.explain.append(__doc__.replace('\n', ' '))
    ctx.assume('counts printed into names have at most ten digits; sizes are not negative')

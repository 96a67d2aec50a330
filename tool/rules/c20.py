"""C20: no reference, pointer or iterator is used after what it refers to is gone.

Rule 1 (stale): a local iterator, pointer or reference into a container (also that of a range-based loop) is not used on any
path on which the container has been changed in a way that invalidates it, directly or by a function it is passed to or a
member function that changes it. A member that is a position in another member is set again when that one is changed.
Rule 2 (deleted): a pointer is not used after what it points to was deleted, unless it is given a new value.
Rule 5 (left): a member that refers to a deleted object is given a new value, or its container is emptied, on every way out.
Rule 3 (dangling): no function returns a reference, pointer or iterator to a local object, and no local pointer is set to
the content of a temporary object.
Rule 6 (registered): an object that leaves `this` in a global pointer variable resets it in its destructor.
Rule 4 (escape): the address of a local object or of a by-reference capture of one is not stored in an object that
outlives the function."""
import re
import flow
import par
import zone
from model import Paths, expr_str
from zone import strip

ITER = frozenset(['begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'insert', 'erase',
                  'emplace', 'data', 'ptr', 'c_str', 'find_if', 'get_allocator', 'equal_range'])
ELEM = frozenset(['front', 'back', 'at', 'operator[]', 'operator()', 'emplace_back'])
STD = frozenset(['next', 'prev', 'lower_bound', 'upper_bound', 'find', 'find_if', 'remove', 'remove_if', 'unique', 'min_element',
                 'max_element', 'adjacent_find', 'partition'])
INVAL = {'vec': frozenset(['push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'assign', 'reserve', 'append',
                           'shrink_to_fit', 'operator=', 'push_front', 'emplace_front', 'pop_front', 'pop_back', 'redim', 'expandRows']),
         'node': frozenset(['clear', 'operator=', 'assign'])}
GROW = frozenset(['push_back', 'emplace_back'])
P = None
INV = {}
MODS = None


def kind(t):
    """'vec' (contiguous storage), 'node' (stable elements) or None for a type."""
    t = t.deref() if t is not None else None
    if t is None:
        return None
    if t.k == 'ptr' and t.p is not None:
        t = t.p
    k = zone.container(t)
    if k in ('vec', 'uvec', 'umat', 'mat3', 'mat4'):
        return 'vec'
    for s in (t.r or '', t.s.replace('const ', '')):
        if s.startswith(('std::map', 'std::set', 'std::multimap', 'std::multiset', 'std::list', 'std::unordered', 'std::__cxx11::list',
                         'std::forward_list')):
            return 'node'
    return None


def isiter(t):
    t = t.deref() if t is not None else None
    return t is not None and ('iterator' in t.s or 'iterator' in (t.r or ''))


def pair(t):
    t = t.deref() if t is not None else None
    return t is not None and (t.r or t.s).startswith('std::pair')


def small(t):
    return t is not None and (t.k == 'ptr' or isiter(t) or t.k in ('ref', 'rref'))


def meth(n):
    if n.op:
        return 'operator' + n.op
    return n.callee.n if n.callee is not None else n.name


def byref(n, a):
    i = [j for j, x in enumerate(n.args) if x is a]
    ps = n.callee.p if n.callee is not None else []
    return not ps or i[0] >= len(ps) or ps[i[0]] is None or ps[i[0]].k == 'ref' and not ps[i[0]].p.c


class Flow(object):
    """State: frozenset of (variable, container key, kind, line it became stale or 0)."""

    def __init__(self, fn):
        self.fn = fn
        self.paths = Paths(fn)
        self.keys = {}
        self.refs = {}
        self.reserved = set()
        self.names = {}
        for n in fn.walk():
            if n.k == 'call' and meth(n) == 'reserve' and zone.recv(n) is not None:
                k = self.key(zone.recv(n))
                if k:
                    self.reserved.add(k)
            elif n.k == 'vardecl':
                self.names[n.get('d')] = n
                if n.t is not None and n.t.k in ('ref', 'rref'):
                    self.refs[n.get('d')] = n

    def key(self, e):
        e = strip(e)
        if e is None:
            return None
        k = self.keys.get(e.i, 0)
        if k == 0:
            k = self.paths.key(e)
            if k is not None and re.search(r'\+\+|--|new |=', k):
                k = None
            if k is not None and k.endswith('.*'):
                k = k[:-2]
            self.keys[e.i] = k
        return k

    def full(self, e):
        e = strip(e)
        if e.k == 'var':
            return 'v%d:%s' % (e.get('d'), e.name)
        k = self.paths.key(e) if e.k in ('mem', 'idx') or e.k == 'call' and e.op == '[]' else None
        return k if k and not re.search(r'\+\+|--|new |=', k) else None

    # -- what an expression refers to -------------------------------------------------------------------------
    def val(self, e, s):
        """Containers that an iterator or pointer value points into."""
        e = zone.unwrap(e)
        if e is None:
            return frozenset()
        if e.k == 'mem' and isiter(e.t) and not e.get('ar') and strip(e.c()).k == 'var' and pair(e.c().t):
            return frozenset((k, kd, st) for d, k, kd, st in s if d == strip(e.c()).get('d'))
        if e.k == 'var':
            return frozenset((k, kd, st) for d, k, kd, st in s if d == e.get('d')) if small(e.t) and e.get('d') not in self.refs else self.ref(e, s)
        if e.k == 'un':
            if e.op == '&':
                return self.ref(e.c(), s)
            if e.op.strip('p') in ('++', '--'):
                return self.val(e.c(), s)
            return frozenset()
        if e.k in ('bin', 'assign') and e.kids:
            if e.op in ('+', '-'):
                return self.val(e.kids[0], s) if small(e.kids[0].t) else self.val(e.kids[1], s) if len(e.kids) > 1 and small(e.kids[1].t) else frozenset()
            if e.op == '=':
                return self.val(e.kids[1], s)
            return frozenset()
        if e.k == 'cond':
            return self.val(e.kids[1], s) | self.val(e.kids[2], s)
        if e.k == 'call':
            o, m = zone.recv(e), meth(e)
            if o is not None:
                if isiter(o.t) and e.op in ('+', '-', '++', '--', '+=', '-=', '='):
                    return self.val(e.args[0] if e.op == '=' and e.args else o, s)
                if m in ITER and kind(o.t):
                    k = self.key(o)
                    r = frozenset([(k, kind(o.t), 0)]) if k else frozenset()
                    return r | self.ref(o, s)
                return frozenset()
            f = e.callee
            if f is not None and e.args:
                if f.n in STD and f.q.startswith('std::'):
                    return self.val(e.args[0], s)
                if e.op in ('+', '-', '++', '--') and isiter(e.args[0].t):
                    return self.val(e.args[0], s)
        return frozenset()

    def ref(self, e, s):
        """Containers that the object an lvalue denotes is stored in."""
        e = strip(e)
        if e is None:
            return frozenset()
        if e.k == 'var':
            if e.get('d') in self.refs:
                return frozenset((k, kd, st) for d, k, kd, st in s if d == e.get('d'))
            return frozenset()
        if e.k == 'idx':
            return self.val(e.c(0), s) if e.c(0).t is not None and e.c(0).t.deref().k == 'ptr' else self.ref(e.c(0), s)
        if e.k == 'un' and e.op == '*':
            return self.val(e.c(), s) if not self.element(e.c()) else frozenset()
        if e.k == 'mem' and e.kids:
            b = strip(e.c())
            if b.k == 'call' and b.op == '->' and zone.recv(b) is not None and isiter(zone.recv(b).t):
                return self.val(zone.recv(b), s)
            if e.get('ar'):
                return self.val(b, s) if not self.element(b) else frozenset()
            return self.ref(b, s)
        if e.k == 'cond':
            return self.ref(e.kids[1], s) | self.ref(e.kids[2], s)
        if e.k == 'call':
            o, m = zone.recv(e), meth(e)
            if o is None:
                return self.val(e.args[0], s) if e.op in ('*', '->') and e.args and isiter(e.args[0].t) else frozenset()
            if e.op in ('*', '->') and isiter(o.t):
                return self.val(o, s)
            if m in ELEM and kind(o.t) and (e.t is None or e.t.k != 'x'):
                k = self.key(o)
                r = frozenset([(k, kind(o.t), 0)]) if k else frozenset()
                return r | self.ref(o, s)
        return frozenset()

    def element(self, e):
        """Is the pointer value of e itself an element of a container (which it does not point into)?"""
        e = strip(e)
        return e.k == 'call' and not isiter(e.t) and meth(e) not in ITER or e.k == 'mem' or e.k == 'idx' or e.k == 'un' and e.op == '*'

    # -- changes ----------------------------------------------------------------------------------------------
    def stale(self, s, pred, line):
        return frozenset((d, k, kd, line) if st == 0 and pred(d, k, kd) else (d, k, kd, st) for d, k, kd, st in s)

    def changes(self, n):
        """[(container key, kind, method or callee)] changed by a call."""
        out = []
        if n.k == 'call':
            o, m = zone.recv(n), meth(n)
            if o is not None and kind(o.t) and not (o.t is not None and isiter(o.t)):
                kd = kind(o.t)
                if m in INVAL[kd]:
                    k = self.key(o)
                    if k and not (m in GROW and k in self.reserved):
                        out.append((k, kd, m))
        if n.k in ('call', 'ctor') and n.callee is not None:
            o = zone.recv(n) if n.k == 'call' else None
            T = P.targets(n)
            for d in T:
                for x, kd in INV.get(d.u, ()):
                    if isinstance(x, int):
                        k = self.key(n.args[x]) if x < len(n.args) else None
                    elif o is not None:
                        b = self.key(o)
                        k = b + x[4:] if b else None
                    else:
                        k = None
                    if k:
                        out.append((k, kd, d.q))
        return out

    def transfer(self, n, s):
        if not s and n.k not in ('vardecl', 'assign', 'call', 'delete'):
            return s
        if s:
            d = None
            if n.k == 'vardecl':
                d = n.get('d')
            elif n.k in ('assign', 'un') and n.kids and (n.k == 'assign' or n.op.strip('p') in ('++', '--')):
                d = strip(n.c(0)).get('d') if strip(n.c(0)).k == 'var' else None
            elif n.k == 'call' and n.op in ('++', '--', '+=', '-=', '='):
                o = zone.recv(n) or (n.args[0] if n.args else None)
                d = strip(o).get('d') if o is not None and strip(o).k == 'var' else None
            if d is not None:
                t = re.compile(r'(?<!\w)v%d:' % d)
                s = frozenset(x for x in s if not (x[2] == 'deleted' and t.search(x[1])))
        if n.k in ('call', 'ctor'):
            for k, kd, m in self.changes(n):
                s = self.stale(s, lambda d, x, kd2: kd2 != 'deleted' and (x == k or x.startswith((k + '.', k + '['))), n.l)
                s = frozenset(x for x in s if not (x[2] == 'deleted' and x[1].startswith(k + '[')))
            o = zone.recv(n) if n.k == 'call' else None
            if any(x[2] == 'deleted' for x in s):
                b = self.full(o) if o is not None and o.k != 'this' else 'this' if o is not None else None
                if b is not None or n.k == 'call' and n.callee is None:
                    m = MODS(n) if n.callee is not None else None
                    s = frozenset(x for x in s if not (x[2] == 'deleted' and (b is None or x[1].startswith(b + '.')) and (
                        m is None or b is None or x[1][len(b) + 1:].split('.')[0].split('[')[0] in m)))
                for a in n.args:            # given a new value by a function it is passed to
                    k = self.full(a)
                    if k:
                        s = frozenset(x for x in s if not (x[2] == 'deleted' and x[1] == k and byref(n, a)))
            if o is not None and meth(n) == 'erase' and kind(o.t) == 'node' and n.args:
                a = zone.unwrap(n.args[0])
                while a.k == 'un' and a.op.strip('p') in ('++', '--') or a.k == 'call' and a.op in ('++', '--'):
                    a = None
                    break
                if a is not None and a.k == 'mem' and isiter(a.t) and not a.get('ar') and strip(a.c()).k == 'var':
                    a = strip(a.c())
                if a is not None and a.k == 'var':
                    s = self.stale(s, lambda d, x, kd: d == a.get('d'), n.l)
                elif a is not None and not isiter(a.t):
                    k = self.key(o)
                    src = self.val(a, s) | self.ref(a, s)
                    if any(x[0] == k for x in src):     # erase by a key that is stored in the element
                        ds = [m.get('d') for m in a.walk() if m.k == 'var']
                        s = self.stale(s, lambda d, x, kd: d in ds and x == k, n.l)
            if n.k == 'call' and n.op == '=' and o is not None and strip(o).k == 'var' and isiter(o.t):
                return self.set(s, strip(o).get('d'), self.val(n.args[0], s) if n.args else frozenset())
            if n.k == 'call' and n.op in ('++', '--', '+=', '-='):
                return s
        elif n.k == 'vardecl':
            d, t = n.get('d'), n.t
            if t is None or not n.kids:
                return self.set(s, d, frozenset())
            if t.k in ('ref', 'rref'):
                return self.set(s, d, self.ref(n.kids[0], s))
            e = zone.unwrap(n.kids[0])
            if pair(t) and e.k == 'call' and meth(e) in ('insert', 'emplace', 'equal_range') and zone.recv(e) is not None:
                k = self.key(zone.recv(e))
                return self.set(s, d, frozenset([(k, kind(zone.recv(e).t), 0)]) if k and kind(zone.recv(e).t) else frozenset())
            if isiter(t) or t.k == 'ptr' or t.k == 'dep':
                return self.set(s, d, self.val(n.kids[0], s) if not self.element(e) else frozenset())
            return self.set(s, d, frozenset())
        elif n.k == 'assign' and n.op == '=':
            l = strip(n.c(0))
            k = self.full(l)
            if k:
                s = frozenset(x for x in s if not (x[2] == 'deleted' and (x[1] == k or x[1].startswith((k + '.', k + '[')))))
            if l.k == 'var' and l.get('d') not in self.refs and small(l.t):
                return self.set(s, l.get('d'), self.val(n.c(1), s) if not self.element(n.c(1)) else frozenset())
        elif n.k == 'delete':
            k = self.full(n.c())
            if k and (strip(n.c()).k in ('var', 'mem', 'idx') or strip(n.c()).op == '[]'):
                s = s | frozenset([(-1, k, 'deleted', n.l)])
        return s

    def set(self, s, d, o):
        return frozenset(x for x in s if x[0] != d) | frozenset((d, k, kd, st) for k, kd, st in o)


def summary(fn):
    """Members and parameters whose content a function may move or destroy: direct ones, and calls to follow."""
    out, calls = set(), []
    F = Flow(fn)
    par_ = {'v%d:%s' % (p['d'], p['n']): i for i, p in enumerate(fn.params) if p['t'].k == 'ref' and not p['t'].p.c}

    def norm(k):
        if k in par_:
            return par_[k]
        return k if k and re.match(r'this\.\w+$', k) else None
    for n in fn.walk():
        if n.k not in ('call', 'ctor'):
            continue
        o = zone.recv(n) if n.k == 'call' else None
        if o is not None and kind(o.t) and meth(n) in INVAL[kind(o.t)]:
            x = norm(F.key(o))
            if x is not None:
                out.add((x, kind(o.t)))
        if n.callee is not None:
            own = o is not None and F.key(o) == 'this'
            am = [(i, norm(F.key(a))) for i, a in enumerate(n.args) if a.k != 'defarg']
            am = [(i, x) for i, x in am if x is not None]
            if own or am:
                calls.append((n, own, am))
    return out, [(tuple(d.u for d in P.targets(n)), own, am) for n, own, am in calls]


def used(F, n):
    """Is the value of this variable node used (rather than set or compared)?"""
    p, c = n.p, n
    while p is not None and p.k in ('cast', 'expr'):
        p, c = p.p, p
    if p is None:
        return False
    if pair(n.t):
        return p.k == 'mem' and isiter(p.t)
    if p.k == 'assign' and p.op == '=' and p.c(0) is c:
        return n.get('d') in F.refs
    if p.k == 'call' and p.op == '=' and zone.recv(p) is c:
        return n.get('d') in F.refs
    if p.k in ('bin', 'un') and p.op in ('==', '!=', '!', '&&', '||') and not isiter(n.t) and n.get('d') not in F.refs:
        return False
    if p.k in ('if', 'while', 'for') or p.k == 'delete':
        return p.k == 'delete'
    return True


def temporary(e):
    """Is e a temporary object (the result of a function by value or a constructed one) that dies with the statement?"""
    e = strip(e)
    if e is None or e.t is None:
        return False
    if e.k == 'call' and e.callee is not None and e.callee.r is not None:
        return e.callee.r.k == 'rec' and not (e.op in ('*', '->'))
    return e.k == 'ctor' and e.p is not None and e.p.k != 'vardecl'


def locals_of(fn):
    """Local objects (not references, pointers or statics) by declaration."""
    out = {}
    for n in fn.walk():
        if n.k == 'vardecl' and n.t is not None and n.t.k not in ('ref', 'rref', 'dep') and not n.get('static'):
            if n.get('st') or fn.locals[n.get('d')].get('st'):
                continue
            out[n.get('d')] = n.name
    for p in fn.params:
        if p['t'].k not in ('ref', 'rref', 'dep'):
            out[p['d']] = p['n']
    return out


def pointee(F, e, L):
    e = zone.unwrap(e)
    if e is None:
        return None
    if e.k == 'un' and e.op == '&':
        return place(F, e.c(), L)
    if e.k == 'call':
        o, m = zone.recv(e), meth(e)
        if o is not None and m in ('data', 'ptr', 'c_str', 'begin', 'end', 'cbegin', 'find') and kind(o.t):
            return place(F, o, L)
        if o is not None and m == 'get' and (o.t.r or '').startswith('std::unique_ptr'):
            return place(F, o, L)
    if e.k == 'cond':
        return pointee(F, e.kids[1], L) or pointee(F, e.kids[2], L)
    if e.k == 'var' and e.t is not None and e.t.k == 'arr':
        return L.get(e.get('d'))
    return None


def place(F, e, L):
    e = strip(e)
    if e is None:
        return None
    if e.k == 'var':
        if e.get('d') in F.refs:
            v = F.refs[e.get('d')]
            return place(F, v.kids[0], L) if v.kids and not (v.p is not None and v.p.role == 'lv') else None
        return L.get(e.get('d'))
    if e.k == 'mem' and e.kids and not e.get('ar'):
        return place(F, e.c(), L)
    if e.k == 'idx' and e.c(0).t is not None and e.c(0).t.deref().k == 'arr':
        return place(F, e.c(0), L)
    if e.k == 'call':
        o, m = zone.recv(e), meth(e)
        if o is not None and m in ELEM and kind(o.t):
            return place(F, o, L)
    if e.k == 'cond':
        return place(F, e.kids[1], L) or place(F, e.kids[2], L)
    return None


def job(fn):
    out, cnt = [], {}

    def c(k, v=1):
        cnt[k] = cnt.get(k, 0) + v
    F = Flow(fn)
    ins = flow.forward(fn, frozenset(), F.transfer)
    c('functions')
    seen = set()
    for b, s in ins.items():
        for n in flow.elems(fn, fn.blocks[b]):
            if n.k == 'var' and s:
                X = [x for x in s if x[0] == n.get('d')]
                if X:
                    c('uses of references into containers')
                X = [x for x in X if x[3]]
                if X and used(F, n) and n.get('d') not in seen:
                    seen.add(n.get('d'))
                    d, k, kd, l = sorted(X, key=lambda x: x[1:])[0]
                    nm = clean(k)
                    vn = n.name
                    again = any(m.k in ('assign', 'call') and m.op == '=' and strip(zone.recv(m) if m.k == 'call' and zone.recv(m) is not None else m.kids[0] if m.kids else m).get('d') == d
                                for m in fn.walk())
                    out.append(('stale', n.i, nm if again else nm + ' kept', '%s refers into %s, which was changed on line %d in a way that invalidates it, and is '
                                'used here' % ('the iterator of this loop' if vn.startswith('__') else vn, nm, l)))
            if s and (n.k in ('var', 'mem', 'idx') or n.k == 'call' and n.op == '[]') and any(x[0] == -1 for x in s):
                k = F.full(n)
                for x in s:
                    if x[0] == -1 and x[1] == k and used(F, n) and ('D', k) not in seen:
                        p = n.p
                        if p is not None and p.k == 'mem' and p.get('ar') or p is not None and (p.k == 'un' and p.op == '*' or p.k in (
                                'idx', 'call', 'return', 'delete', 'ctor')):
                            if p.k == 'idx' and p.c(0) is not n or p.k == 'call' and n not in p.args and zone.recv(p) is not n:
                                continue
                            seen.add(('D', k))
                            out.append(('deleted', n.i, clean(k), '%s was deleted on line %d and is used here' % (expr_str(n), x[3])))
            if n.k == 'delete':
                c('deletions')
            if n.k in ('call', 'ctor'):
                ch = F.changes(n)
                if ch:
                    c('changes of containers', len(ch))
            s = F.transfer(n, s)
    left(fn, F, out, c)
    positions(fn, F, out, c)
    # -- dangling --------------------------------------------------------------------------------------------
    L = locals_of(fn)
    rt = fn.decl.r if fn.decl is not None else None
    for n in fn.walk():
        if n.k == 'return' and n.kids and rt is not None:
            if rt.k in ('ref', 'rref'):
                c('references returned')
                x = place(F, n.c(), L)
                if x:
                    out.append(('dangling', n.i, 'return ' + clean(x), 'a reference to the local object %s is returned' % x))
                elif temporary(n.c()) and not rt.k == 'rref':
                    out.append(('dangling', n.i, 'return temporary', 'a reference to the temporary object %s is returned' % expr_str(n.c())))
            elif rt.k == 'ptr' or isiter(rt):
                c('pointers returned')
                x = pointee(F, n.c(), L)
                if x:
                    out.append(('dangling', n.i, 'return ' + clean(x), 'a pointer to the local object %s is returned' % x))
                else:
                    e = zone.unwrap(n.c())
                    if e.k == 'call' and zone.recv(e) is not None and meth(e) in ('c_str', 'data', 'ptr', 'begin') and temporary(zone.recv(e)):
                        out.append(('dangling', n.i, 'return temporary', 'a pointer into the temporary object %s is returned' % expr_str(zone.recv(e))))
        elif n.k == 'vardecl' and n.kids and n.t is not None and (n.t.k == 'ptr' or isiter(n.t)):
            e = zone.unwrap(n.c())
            c('local pointers and iterators')
            if e.k == 'call' and zone.recv(e) is not None and meth(e) in ('c_str', 'data', 'ptr', 'begin', 'end', 'find', 'get') and \
                    (kind(zone.recv(e).t) or (zone.recv(e).t.deref().r or '').startswith('std::unique_ptr')) and temporary(zone.recv(e)):
                out.append(('dangling', n.i, n.name, '%s is set to the content of the temporary object %s, which is gone after this '
                            'statement' % (n.name, expr_str(zone.recv(e)))))
        elif n.k == 'assign' and n.op == '=' and (n.c(0).t is None or n.c(0).t.k == 'ptr'):
            k = F.key(n.c(0))
            l = strip(n.c(0))
            if l.k in ('mem', 'gvar') and k and (k.startswith('this.') or k.startswith('g:')):
                c('pointers stored in members')
                x = pointee(F, n.c(1), L)
                if x:
                    again = any(m.k == 'assign' and m is not n and F.key(m.c(0)) == k and pointee(F, m.c(1), L) is None and m.l > n.l
                                for m in fn.walk())
                    if not again:
                        out.append(('escape', n.i, clean(k), 'the address of the local object %s is stored in %s, which outlives it' % (x, clean(k))))
        elif n.k == 'call' and meth(n) in ('push_back', 'emplace_back', 'insert') and zone.recv(n) is not None and n.args:
            k = F.key(zone.recv(n))
            if k and (k.startswith('this.') or k.startswith('g:')):
                x = pointee(F, n.args[0], L)
                if x and n.args[0].t is not None and n.args[0].t.k == 'ptr' and zone.unwrap(n.args[0]).k == 'un':
                    out.append(('escape', n.i, clean(k), 'the address of the local object %s is stored in %s, which outlives it' % (x, clean(k))))
    return out, cnt


def left(fn, F, out, c):
    """Members that still refer to a deleted object when the function returns."""
    dels = [n for n in fn.walk() if n.k == 'delete']
    if not dels or fn.decl is None or fn.decl.n.startswith('~') or any(strip(n.c()).k == 'this' for n in dels):
        return
    el = {}         # loop variable: container of this object
    for n in fn.walk():
        if n.k == 'rfor':
            lv, rs = n.child('lv'), n.child('rs')
            e = next((m.kids[0] for m in rs.walk() if m.k == 'vardecl' and m.kids), None) if rs is not None else None
            k = F.key(e) if e is not None else None
            for m in lv.walk() if k and k.startswith('this.') else ():
                if m.k == 'vardecl':
                    el[m.get('d')] = k

    def place_of(e):
        e = strip(e)
        if e is None:
            return None
        if e.k == 'var':
            return el[e.get('d')] + '[]' if e.get('d') in el else None
        if e.k == 'idx' or e.k == 'call' and e.op == '[]' and zone.recv(e) is not None:
            k = F.key(e.c(0) if e.k == 'idx' else zone.recv(e))
            return k + '[]' if k and k.startswith('this.') else None
        if e.k == 'mem' and e.kids:
            if strip(e.c()).k == 'this':
                return F.key(e)
            b = place_of(e.c())
            return b if b and b.endswith('[]') else None
        if e.k == 'mem':
            k = F.key(e)
            return k if k and re.match(r'this\.\w+$', k) else None
        return None
    at = {n.i: place_of(n.c()) for n in dels}
    if not any(at.values()):
        return
    c('members whose objects are deleted', len([1 for v in at.values() if v]))

    def transfer(n, s):
        if n.k == 'delete':
            k = at.get(n.i)
            return s | frozenset([(k, n.l, n.i)]) if k else s
        if not s:
            return s
        if n.k == 'assign' and n.op == '=':
            k = place_of(n.c(0))
            return frozenset(x for x in s if x[0] != k and not (k and x[0].startswith(k + '.'))) if k else s
        if n.k == 'call':
            o = zone.recv(n)
            if o is not None:
                k = F.key(o)
                if k and (n.op == '=' or kind(o.t) and meth(n) in INVAL['vec'] | INVAL['node'] | frozenset(['swap', 'erase', 'pop_back'])):
                    s = frozenset(x for x in s if x[0].rstrip('[]') != k)
                elif k == 'this' or o.k == 'this':
                    m = MODS(n) if n.callee is not None else None
                    s = frozenset(x for x in s if m is not None and re.split(r'[.\[]', x[0][5:])[0] not in m)
            for a in n.args:
                if a.k != 'defarg' and byref(n, a):
                    k = F.key(a) or place_of(a)
                    s = frozenset(x for x in s if x[0] != k and x[0] != (k or '') + '[]')
        return s

    def edge(cond, tv, s):
        for a, v in flow.implied(cond, tv):
            t = flow.nulltest(a, v)
            if t is not None and t[1]:
                k = place_of(t[0])
                s = frozenset(x for x in s if x[0] != k)
        return s
    ins = flow.forward(fn, frozenset(), transfer, edge)
    for k, l, i in sorted(ins.get(fn.exit) or ()):
        out.append(('left', i, clean(k), '%s was deleted here, but still refers to the deleted object when the function returns' % clean(k)))


def homes(fn):
    """Members that are set to a position in another member: [(class, member, container member)]."""
    out = []
    if fn.decl is None or not fn.decl.rec:
        return out
    F = Flow(fn)
    for n in fn.walk():
        if n.k == 'assign' and n.op == '=':
            l, r = strip(n.c(0)), n.c(1)
        elif n.k == 'call' and n.op == '=' and zone.recv(n) is not None and n.args and isiter(zone.recv(n).t):
            l, r = strip(zone.recv(n)), n.args[0]
        elif n.k == 'cinit' or n.k == 'init':
            continue
        else:
            continue
        if l is None or l.k != 'mem' or l.t is None or not small(l.t) or l.t.k in ('ref', 'rref'):
            continue
        k = F.key(l)
        if not k or not re.match(r'this\.\w+$', k) or F.element(r) and not isiter(r.t):
            continue
        for c, kd, st in F.val(r, frozenset()):
            if c and re.match(r'this\.\w+$', c) and c != k:
                out.append((fn.decl.rec, k[5:], c[5:], kd))
    return out


HOME = {}
SETS = {}       # function: members that are positions in other members which it may set


def positions(fn, F, out, c):
    """A member that is a position in another member is set again when that member is changed, before the function succeeds."""
    if fn.decl is None or fn.decl.n.startswith('~') or not fn.decl.rec:
        return
    pairs = [(m, h, kd) for r, l in HOME.items() if P.is_a(fn.decl.rec, r) for m, h, kd in l]
    if not pairs or not any(F.changes(n) for n in fn.walk() if n.k in ('call', 'ctor')):
        return

    def transfer(n, s):
        if n.k == 'assign' and n.op == '=' or n.k == 'call' and n.op == '=' and zone.recv(n) is not None:
            k = F.key(n.c(0) if n.k == 'assign' else zone.recv(n))
            s = frozenset(x for x in s if 'this.' + x[0] != k)
        if n.k in ('call', 'ctor'):
            o = zone.recv(n) if n.k == 'call' else None
            own = n.callee is not None and o is not None and (o.k == 'this' or F.key(o) == 'this')
            m = set().union(*[SETS.get(d.u, set()) for d in P.targets(n)]) if own else ()
            if own and s:
                s = frozenset(x for x in s if x[0] not in m)
            for k, kd, how in F.changes(n):
                for a, h, kd2 in pairs:
                    if k == 'this.' + h and not (own and a in m):
                        c('changes of containers a member refers into')
                        s = s | frozenset([(a, h, n.l, n.i)])
        return s

    def edge(cond, tv, s):
        for a, v in flow.implied(cond, tv):
            a = strip(a)
            if v and a.k == 'call' and meth(a) == 'empty' and zone.recv(a) is not None:
                k = F.key(zone.recv(a))
                s = frozenset(x for x in s if 'this.' + x[1] != k)
        return s
    ins = flow.forward(fn, frozenset(), transfer, edge)
    bad = set()
    for b, s in ins.items():
        for n in flow.elems(fn, fn.blocks[b]):
            s = transfer(n, s)
            if n.k == 'return' and n.kids and strip(n.c()).k in ('bool', 'int') and not strip(n.c()).get('v'):
                s = frozenset()         # the function reports failure
        if fn.exit in fn.blocks[b].succs:
            bad |= s
    for a, h, l, i in sorted(bad):
        out.append(('stale', i, '%s in %s' % (a, h), '%s is changed here in a way that invalidates %s, which is not set again before the function returns' % (h, a)))


def registered(ctx):
    """An object that leaves its own address in a global variable takes it back when it is destroyed."""
    sets = {}
    for f in P.fns:
        for n in f.walk():
            if n.k == 'assign' and n.op == '=':
                l = strip(n.c(0))
                if l is not None and l.k == 'gvar' and l.t is not None and l.t.k == 'ptr':
                    sets.setdefault(f, []).append((l, n))

    def name(l):
        return expr_str(l).replace('::utl', 'utl')
    for f in sorted(sets, key=lambda x: (x.q, x.line)):
        for l, n in sets[f]:
            r = strip(n.c(1))
            if r is None or r.k != 'this' or not f.decl.rec or '3rdparty' in f.file:
                continue
            ctx.count('objects that register themselves')
            todo, seen, ok = [g for g in P.fns if g.decl.kind == 'dtor' and g.decl.rec and P.is_a(f.decl.rec, g.decl.rec)], set(), False
            while todo and not ok:
                g = todo.pop()
                if g in seen:
                    continue
                seen.add(g)
                ok = any(name(x) == name(l) and strip(m.c(1)) is not None and strip(m.c(1)).k != 'this' for x, m in sets.get(g, ()))
                todo += [d.body for m in g.walk() if m.k == 'call' for d in P.targets(m) if d.body is not None]
            if not ok and ctx.excepted(P, 'c20_allow.txt', f, 'registered ' + expr_str(l)) is None:
                ctx.viol('registered', f.q, expr_str(l), 'the address of the object is left in %s, where it remains when the object is destroyed' %
                         expr_str(l), fn=f, node=n, P=P)


def clean(k):
    return re.sub(r'v\d+:', '', k).replace('this.', '').replace('.->', '->')


def run(prog, ctx):
    global P, MODS
    P = prog
    INV.clear()
    MODS = zone.Mods(P)
    fns = [f for f in P.fns if f.blocks and '3rdparty' not in f.file and not f.file.startswith('/')]
    todo = []
    for f, (o, cs) in zip(fns, par.pmap(summary, fns, 16)):
        if f.decl is None:
            continue
        if o:
            INV.setdefault(f.decl.u, set()).update(o)
        todo += [(f.decl.u,) + x for x in cs]
    ch = True
    while ch:
        ch = False
        for u, us, own, am in todo:
            for v in us:
                for x, kd in list(INV.get(v, ())):
                    y = None
                    if isinstance(x, int):
                        y = dict(am).get(x)
                    elif own:
                        y = x
                    if y is not None and (y, kd) not in INV.get(u, ()):
                        INV.setdefault(u, set()).add((y, kd))
                        ch = True
    ctx.count('functions that may invalidate references into members or arguments', len(INV))
    HOME.clear()
    SETS.clear()
    for f, l in zip(fns, par.pmap(homes, fns, 16)):
        for r, m, h, kd in l:
            SETS.setdefault(f.decl.u, set()).add(m)
            if (m, h, kd) not in HOME.setdefault(r, []):
                HOME[r].append((m, h, kd))
    calls = {}
    for f in fns:
        if f.decl is not None and f.decl.rec and any(P.is_a(f.decl.rec, r) for r in HOME):
            calls[f.decl.u] = [d.u for n in f.walk() if n.k == 'call' and n.callee is not None and zone.recv(n) is not None and
                               zone.recv(n).k == 'this' for d in P.targets(n)]
    ch = True
    while ch:
        ch = False
        for u, l in calls.items():
            new = set().union(*[SETS.get(v, set()) for v in l])
            if not new <= SETS.get(u, set()):
                SETS.setdefault(u, set()).update(new)
                ch = True
    ctx.count('members that are positions in other members', sum(len(l) for l in HOME.values()))
    for f, (out, cnt) in zip(fns, par.pmap(job, fns, 16)):
        for k, v in cnt.items():
            ctx.count(k, v)
        for rule, i, inst, msg in out:
            if ctx.excepted(P, 'c20_allow.txt', f, inst) is not None:
                ctx.count('uses excepted by cfg/c20_allow.txt')
                continue
            ctx.viol(rule, f.q, inst, msg, fn=f, node=f.nodes.get(i), P=P)
    registered(ctx)
    ctx.need('functions', 2500, 'functions')
    ctx.need('changes of containers', 2000, 'changes of containers')
    ctx.need('uses of references into containers', 2200, 'uses of references into containers')
    ctx.need('deletions', 140, 'deletions')
    ctx.need('pointers stored in members', 150, 'pointers stored in members')
    ctx.explain.append(__doc__.replace('\n', ' '))

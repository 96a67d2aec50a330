"""Which storage an expression denotes and which storage the statements of a function may modify.

A storage root is a tuple
  ('local', d)            a local variable or by-value parameter of the function
  ('param', d)            what a reference or pointer parameter refers to
  ('static', usr)         a variable with static storage duration (global, static member, static local)
  ('this', field)         a data member of *this (field None: the object itself)
  ('mutable', field)      a mutable data member of *this
  ('ptr', field)          what a pointer (or smart pointer) member of *this refers to
  ('cast', text)          an object whose constness has been cast away
  ('far', text)           what a pointer obtained in some other way refers to
  ('tmp', text)           a temporary
"""
SMART = ('unique_ptr<', 'shared_ptr<', 'weak_ptr<')
ASSIGN = frozenset(['=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='])


def strip(e):
    while e is not None and e.k in ('cast', 'expr', 'paren') and e.kids:
        e = e.c() or e.kids[0]
    return e


def bare(t):
    return t.deref() if t is not None else None


def is_ptr(t):
    t = bare(t)
    return t is not None and t.k == 'ptr'


def is_smart(t):
    t = bare(t)
    return t is not None and t.s.replace('const ', '').startswith('std::') and any(x in t.s.split('(')[0][:30] for x in SMART)


class Storage(object):
    def __init__(self, P, fn):
        self.P = P
        self.fn = fn
        self.init = {}      # local -> initialising expression when the local is a reference, pointer or iterator
        self.static = {}
        for n in fn.walk():
            if n.k == 'rfor':
                lv = n.child('lv')
                for m in (lv.walk() if lv is not None else ()):
                    if m.k == 'vardecl':
                        self.init.setdefault(m.get('d'), []).append(('elem', n.child('rs'), m.t))
            elif n.k == 'vardecl':
                if n.get('_g') is not None:
                    self.static[n.get('d')] = n.get('_g')
                elif n.kids and n.get('d') not in self.init:
                    self.init[n.get('d')] = [('', n.kids[0], n.t)]
            elif n.k == 'assign' and n.op == '=' and strip(n.c(0)) is not None and strip(n.c(0)).k == 'var' and is_ptr(n.c(0).t):
                self.init.setdefault(strip(n.c(0)).get('d'), []).append(('', n.c(1), n.c(0).t))
        self.par = dict((p['d'], p['t']) for p in fn.params)

    def roots(self, e, through=False, depth=0, seen=()):
        """Roots of the storage the lvalue e denotes; with through, of what the pointer e points to."""
        e = strip1(e)
        if e is None or depth > 25:
            return set([('far', '?')])
        k = e.k
        if k == 'cast':
            if constcast(e):
                return set([('cast', text(e))])
            return self.roots(e.c() or e.kids[0], through, depth + 1, seen)
        if k == 'this':
            return set([('this', None)])
        if k == 'var':
            d = e.get('d')
            if d in self.static:
                return set([('static', self.static[d].u)])
            if d in self.par:
                t = self.par[d]
                if t is not None and (t.k in ('ref', 'rref', 'ptr') or through):
                    return set([('param', d)])
                return set([('local', d)])
            ini = self.init.get(d)
            t = e.t if e.t is not None else None
            lt = self.ltype(d)
            isref = lt is not None and lt.k in ('ref', 'rref')
            isp = lt is not None and (is_ptr(lt) or is_smart(lt) or iterator(lt))
            if ini and (isref or (through and isp)) and d not in seen:
                out = set()
                for kind, x, _ in ini:
                    if x is None:
                        continue
                    if kind == 'elem':
                        el = self.roots(x, False, depth + 1, seen + (d,))
                        out |= (set(('ptr', r[1]) if r[0] in ('this',) else ('far', text(x)) if r[0] == 'local' else r for r in el)
                                if through else el)
                    else:
                        out |= self.roots(x, through and not isref or (isp and not isref), depth + 1, seen + (d,))
                return out
            if through:
                return set([('far', e.name)])
            return set([('local', d)])
        if k == 'gvar':
            g = e.get('_g')
            return set([('static', g.u if g is not None else e.name)])
        if k == 'mem':
            if e.get('_g') is not None:
                return set([('static', e.get('_g').u)])
            b = e.c()
            bt = bare(e.t)
            if b is None or strip(b).k == 'this':
                f = self.field(e)
                if through and (is_ptr(e.t) or is_smart(e.t)):
                    return set([('ptr', e.name)])
                if f is not None and f['t'] is not None and f['t'].k in ('ref', 'rref'):
                    return set([('ptr', e.name)])
                if f is not None and f['mut']:
                    return set([('mutable', e.name)])
                return set([('this', e.name)])
            r = self.roots(b, bool(e.get('ar')) or is_ptr(b.t), depth + 1, seen)
            if through and (is_ptr(e.t) or is_smart(e.t)):
                return set([('far', text(e))]) if not any(x[0] in ('cast',) for x in r) else r
            f = self.field(e)
            if f is not None and f['mut'] and all(x[0] in ('this', 'ptr', 'param', 'far') for x in r):
                return set([('mutable', e.name)])
            return r
        if k == 'idx':
            a = e.c(0)
            if a is not None and not (is_ptr(a.t) or (bare(a.t) is not None and bare(a.t).k == 'arr')):
                a = e.c(1) if is_ptr(e.c(1).t) else a
            r = self.roots(a, is_ptr(a.t), depth + 1, seen)
            return self.deref(r, e) if through else r
        if k == 'un' and e.op == '*':
            r = self.roots(e.c(), True, depth + 1, seen)
            return r
        if k == 'un' and e.op == '&':
            return self.roots(e.c(), False, depth + 1, seen)
        if k == 'un':
            return self.roots(e.c(), through, depth + 1, seen)
        if k == 'cond':
            return self.roots(e.kids[-2], through, depth + 1, seen) | self.roots(e.kids[-1], through, depth + 1, seen)
        if k in ('assign', 'bin'):
            if k == 'bin' and through:
                out = set()
                for x in e.kids:
                    if is_ptr(x.t) or iterator(x.t):
                        out |= self.roots(x, True, depth + 1, seen)
                return out or set([('far', text(e))])
            return self.roots(e.c(0), through, depth + 1, seen) if k == 'assign' else set([('tmp', text(e))])
        if k == 'new':
            return set([('tmp', 'new')])
        if k == 'call':
            o = e.obj
            f = e.kids[0] if e.kids and e.kids[0].role == 'f' else None
            if o is None and f is not None and f.k == 'mem' and f.kids:
                o = f.c()
            rt = e.t
            if o is not None and (e.op in ('->', '*') or (e.callee is not None and e.callee.n in ('operator->', 'operator*', 'get')
                                                          and is_smart(o.t))):
                if is_smart(o.t):
                    return self.roots(o, True, depth + 1, seen)
                return self.roots(o, iterator(o.t), depth + 1, seen)
            ref = e.get('lv') or (e.callee is not None and e.callee.r is not None and e.callee.r.k == 'ref')
            ptr = is_ptr(rt) or iterator(rt)
            if o is not None and (ref or ptr):
                nm = e.name or ''
                r = self.roots(o, is_ptr(o.t) or bool(f is not None and f.get('ar')), depth + 1, seen)
                if e.callee is not None and e.callee.in_repo() and e.callee.const and not (rt is not None and const_ref(e.callee.r)):
                    # a const method that hands out something that can be modified
                    return set([('far', text(e))])
                if ptr and not iterator(rt) and not through:
                    return set([('tmp', text(e))])
                if ptr and not iterator(rt) and nm not in ('data', 'ptr', 'begin', 'end', 'c_str', 'c_ptr'):
                    return set([('far', text(e))])
                if through and is_ptr(rt) and ref and not nm in ('data', 'ptr'):
                    return self.deref(r, e)
                return r
            if ref or ptr:
                return set([('far', text(e))])
            return set([('tmp', text(e))])
        if k == 'ctor':
            if len(e.args) == 1 and (iterator(e.t) or is_smart(e.t)):
                return self.roots(e.args[0], through, depth + 1, seen)
            return set([('tmp', text(e))])
        return set([('far' if through else 'tmp', text(e))])

    def deref(self, r, e):
        """What an element that is a pointer points to."""
        out = set()
        for x in r:
            if x[0] == 'this':
                out.add(('ptr', x[1]))
            elif x[0] in ('local',):
                out.add(('far', text(e)))
            else:
                out.add(x)
        return out

    def ltype(self, d):
        try:
            return self.fn.locals[d]['t']
        except (IndexError, KeyError, TypeError):
            return None

    def field(self, e):
        q = e.get('r') or e.get('rec')
        b = e.c()
        if not q:
            t = bare(b.t) if b is not None else None
            if t is not None and t.k == 'ptr':
                t = bare(t.p)
            q = t.r if t is not None else self.fn.decl.rec
        if not q:
            return None
        for R, f in self.P.all_fields(q):
            if f['n'] == e.name:
                return f
        return None

    def writes(self):
        """(node, written expression, roots) of every modification in the function."""
        for n in self.fn.walk():
            for e, thr in targets(self, n):
                for r in self.roots(e, thr):
                    yield n, e, r


def constcast(e):
    """Does the cast take away the constness of what it refers to?"""
    if e.get('w') not in ('const', 'c'):
        return False
    x = e.c() or (e.kids[0] if e.kids else None)
    s, d = (x.t if x is not None else None), e.t
    if s is None or d is None:
        return False
    if d.k in ('ref', 'ptr') and d.p is not None and not d.p.c:
        s = bare(s)
        if d.k == 'ptr':
            s = s.p if s is not None and s.k == 'ptr' else None
        return s is not None and s.c
    return False


def strip1(e):
    while e is not None and e.k in ('expr', 'paren') and e.kids:
        e = e.c() or e.kids[0]
    return e


def iterator(t):
    t = bare(t)
    return t is not None and ('iterator' in t.s)


def const_ref(t):
    return t is not None and (t.k not in ('ref', 'ptr') or t.p is not None and t.p.c)


def text(e):
    from model import expr_str
    return expr_str(e)[:60]


def targets(S, n):
    """(expression, through) pairs for the lvalues modified by node n."""
    if n.k == 'assign':
        yield n.c(0), False
    elif n.k == 'un' and n.op in ('++', '--', 'p++', 'p--'):
        yield n.c(), False
    elif n.k == 'call':
        c = n.callee
        o = n.obj
        f = n.kids[0] if n.kids and n.kids[0].role == 'f' else None
        if o is None and f is not None and f.k == 'mem' and f.kids:
            o = f.c()
        if c is None:
            return
        if c.n in ('make_pair', 'make_unique', 'make_shared', 'make_tuple', 'forward', 'emplace_back', 'emplace', 'emplace_front', 'try_emplace') \
                and not c.in_repo():
            if o is not None:
                yield o, is_ptr(o.t) or (f is not None and bool(f.get('ar')))
            return
        if c.n.startswith('operator ') and not c.p and c.kind == 'conv' or c.n.startswith('operator std::') or c.n.startswith('operator const'):
            return
        if o is not None and c.rec and not c.const and not c.static and c.kind not in ('ctor',) and n.op not in ('->', '*') and \
                not harmless(n, c, o):
            yield o, is_ptr(o.t) or (f is not None and bool(f.get('ar')))
        for a, t in zip(n.args, c.p):
            if t is None or t.p is None:
                continue
            if t.k in ('ref', 'rref') and not t.p.c and t.k == 'ref':
                yield a, False
            elif t.k == 'ptr' and not t.p.c and t.p.k not in ('fn', 'func') and (c.in_repo() or c.n in CWRITE) and not nullish(a):
                yield a, True
    elif n.k == 'ctor' and n.callee is not None and n.callee.in_repo():
        for a, t in zip(n.args, n.callee.p):
            if t is not None and t.p is not None and t.k == 'ref' and not t.p.c:
                yield a, False


CWRITE = frozenset(['memcpy', 'memset', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'strtok', 'fill', 'fill_n',
                    'sort', 'iota', 'reverse', 'generate', 'replace', 'rotate', 'shuffle'])


def nullish(a):
    a = strip(a)
    return a is None or a.k in ('null_p', 'int', 'defarg')


ACCESS = frozenset(['begin', 'end', 'rbegin', 'rend', 'front', 'back', 'at', 'operator[]', 'find', 'data', 'operator()', 'ptr', 'lower_bound',
                    'upper_bound', 'getColumn', 'get', 'equal_range', 'operator->', 'operator*'])


def harmless(n, c, o):
    """A non-const accessor that only hands out a reference or iterator (what is done with it is seen elsewhere)."""
    if c.n in ACCESS and not (c.n == 'operator[]' and 'map<' in (bare(o.t).s if bare(o.t) else '')):
        t = bare(o.t)
        if t is not None and t.k == 'ptr':
            t = bare(t.p)
        if not c.in_repo() or t is not None and t.s.replace('const ', '').startswith('utl::'):
            return True
    return False

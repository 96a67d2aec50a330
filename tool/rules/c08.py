"""C08: an operation on something made of parts reaches every part.

Rule 1 (forward): the operations listed in cfg/c08_forward.txt (class::method | part | operation) are applied to that part - a
sub-simulator, the base class, the object itself (an operation that is made of others), or every element of a container of parts - on every path on which the method does not report
failure. Every listed operation is assumed to succeed and all paths are explored with disjunctive constant propagation,
through helpers, lambdas and standard algorithms.
Rule 2 (partial): a loop over a container of parts that applies an operation to the parts covers all of them: it neither
starts after the first, nor stops before the last, nor steps over parts, nor leaves the method with a success result once an
operation has been applied to some of them.
Rule 3 (siblings): coupled simulators that are handed the same operation are handed the same arguments."""
import re
import flow
import model
import par
from absval import AbsEval, TRUE, FALSE, truth, is_any
from lib import graph, baseline, read_table
from model import expr_str

P = None
FWD = {}
ALG = frozenset(['all_of', 'for_each', 'any_of', 'none_of', 'transform', 'accumulate', 'count_if'])


def strip(e):
    while e is not None and (e.k in ('cast', 'decl', 'expr', 'vardecl') and e.kids):
        e = e.c()
    return e


def recv(n):
    if n.obj is not None:
        return n.obj
    f = n.kids[0] if n.kids else None
    return f.c() if f is not None and f.role == 'f' and f.k == 'mem' and f.kids else None


class Body(object):
    """Parts of *this that the expressions of a function denote."""

    def __init__(self, fn, env=None):
        self.fn = fn
        self.addr = ()              # local pointers to the very part
        self.env = env or {}        # local -> part path (parameters of a helper or lambda)
        self.init = {}
        assigned = set()
        for n in fn.walk():
            if n.k == 'rfor':
                lv = n.child('lv')
                v = [m for m in lv.walk() if m.k == 'vardecl'] if lv is not None else []
                if v and n.child('rs') is not None:
                    self.init[v[0].get('d')] = ('[]', n.child('rs'))
            elif n.k == 'vardecl' and n.kids and n.get('d') not in self.init:
                self.init[n.get('d')] = ('', n.kids[0])

    def part(self, e, depth=0):
        e = strip(e)
        if e is None or depth > 12:
            return None
        if e.k == 'this':
            return ''
        if e.k == 'mem':
            b = self.part(e.c(), depth + 1) if e.kids else ''
            return None if b is None else b + '.' + e.name if b else e.name
        if e.k == 'var':
            d = e.get('d')
            if d in self.env:
                return self.env[d]
            i = self.init.get(d)
            if i is None:
                return None
            b = self.part(i[1], depth + 1)
            return None if b is None else b + i[0]
        if e.k == 'idx':
            for a, b in ((e.c(0), e.c(1)), (e.c(1), e.c(0))):
                x = self.part(a, depth + 1)
                if x:
                    return x + '[]'
            return None
        if e.k == 'un' and e.op in ('*', '&'):
            return self.part(e.c(), depth + 1)
        if e.k == 'call':
            o = recv(e)
            nm = e.name or (e.callee.n if e.callee is not None else '')
            if e.op in ('->', '*') or nm in ('get', 'operator->', 'operator*') or nm.startswith('operator ') and not e.args:
                return self.part(o, depth + 1) if o is not None else None
            if e.op == '[]' or nm in ('operator[]', 'at', 'begin', 'cbegin', 'rbegin', 'front', 'back', 'ptr', 'data') and not (
                    e.callee is not None and e.callee.in_repo() and not (e.callee.rec or '').startswith('utl::')):
                b = self.part(o, depth + 1) if o is not None else None
                return b + '[]' if b else None
        if e.k == 'ctor' and len(e.args) == 1:
            return self.part(e.args[0], depth + 1)
        return None


def op_of(n):
    return n.name or (n.callee.n if n.callee is not None else None)


def hits(B, n, part, op):
    """Does the call n apply the operation to the part?"""
    if n.k != 'call' or op_of(n) != op:
        return False
    if part == 'base':
        return n.callee is not None and n.callee.rec and B.fn.decl.rec and n.callee.rec != B.rec and \
            n.callee.rec in P.all_bases(B.rec) and B.part(recv(n)) == ''
    if part == 'self':
        return (n.callee is None or not n.callee.static) and (recv(n) is None or B.part(recv(n)) == '')
    return B.part(recv(n)) == part


def isalg(n):
    return n.k == 'call' and (n.name or '') in ALG and n.args and not (n.callee is not None and n.callee.in_repo())


KEEPING = frozenset(['push_back', 'emplace_back', 'push_front', 'insert', 'emplace', 'append', 'pop_back', 'reserve', 'add', 'erase',
                     'fillColumn', 'fillRow', 'fillBlock'])


def outarg(n, i):
    """Is the argument a number passed by reference to functions that are known?"""
    if n.callee is None or not n.callee.in_repo() or i >= len(n.callee.p) or n.callee.p[i].k != 'ref' or \
            re.sub(r'[ &]', '', n.callee.p[i].s) not in ('int', 'double', 'bool', 'size_t', 'unsignedint', 'float', 'unsignedlong', 'Real', 'short', 'char'):
        return False
    T = P.targets(n)
    return bool(T) and all(P.by_usr.get(d.u) is not None and P.by_usr[d.u].blocks for d in T)


def written(B, n, part, strong=False):
    """Does the evaluation of n set the part, or some of its elements? (strong: nothing of what it held before is kept)"""
    if strong:
        if n.k == 'un' and n.op.strip('p') in ('++', '--') or n.op and '=' in n.op and n.op != '=' or n.op in ('++', '--'):
            return False
        o = recv(n) if n.k == 'call' else None
        if o is not None and B.part(o) == part:
            if op_of(n) in KEEPING and not (op_of(n) == 'erase' and len(n.args) == 2):
                return False
            if op_of(n) in ('resize', 'redim'):
                a = [strip(x) for x in n.args]
                if not (a and (a[-1].k == 'bool' and a[-1].get('v') or len(a) == 1 and a[0].k == 'int' and not a[0].get('v'))):
                    return False
    def at(e):
        if strong and e is not None and strip(e) is not None and B.part(e) is not None and B.part(e) != part and \
                not (strip(e).k == 'call' and op_of(strip(e)) in ('begin', 'rbegin', 'ptr', 'data')):
            return strip(e).k == 'un' and B.part(e) == ''
        q = B.part(e) if e is not None else None
        if q == '' and (n.k == 'assign' or n.op == '=') and strip(e).k == 'un':
            return True             # *this = ...
        return q is not None and (q == part or q.startswith((part + '[', part + '.')))
    if n.k == 'assign' or n.k == 'un' and n.op.strip('p') in ('++', '--'):
        return at(n.c(0))
    if n.k == 'delete':
        return at(n.c())
    if n.k != 'call':
        return False
    if n.op and ('=' in n.op and n.op not in ('==', '!=', '<=', '>=') or n.op in ('++', '--', '>>')):
        return at(recv(n)) or any(at(a) for a in n.args[:1 if n.op != '>>' else 2])
    o = recv(n)
    if o is not None and at(o) and (not pointer(o) or strip(o).get('d') in B.addr) and not (n.callee is not None and n.callee.const) and not (op_of(n) or '').startswith(
            'operator ') and op_of(n) not in (
            'begin', 'end', 'operator[]', 'operator()', 'at', 'find', 'size', 'front', 'back', 'data', 'ptr', 'get') and not n.op:
        return True
    for i, a in enumerate(n.args):
        if strong and at(a) and outarg(n, i):
            continue        # what the function does with it is looked at
        if at(a) and (n.callee is None or not n.callee.in_repo() and n.callee.n not in (
                'find', 'find_if', 'operator<<', 'accumulate', 'count', 'max_element', 'min_element', 'copy', 'any_of', 'all_of') or i < len(
                n.callee.p) and n.callee.p[i].k in ('ref', 'ptr') and 'const' not in n.callee.p[i].s and n.callee.in_repo()):
            return True
        if n.callee is not None and n.callee.n in ('copy', 'transform') and i >= 2 and at(a):
            return True
    return False


class Must(object):
    """Is the operation applied on every path that does not report failure?"""

    def __init__(self):
        self.memo = {}

    def holds(self, fn, part, op, rec, env=None, depth=0):
        """(True/False, witness node or None)."""
        k = (fn, part, op, rec, tuple(sorted((env or {}).items())))
        if k not in self.memo:
            self.memo[k] = (False, None)
            self.memo[k] = self.compute(fn, part, op, rec, env, depth)
        return self.memo[k]

    def compute(self, fn, part, op, rec, env, depth):
        B = Body(fn, env)
        B.rec = rec
        start = {}
        if '@' in op:
            op, flag = [x.strip() for x in op.split('@')]
            for p in fn.params:
                if p['n'] == flag:
                    start['v%d' % p['d']] = TRUE
        if not fn.blocks:
            return (self.plain(B, part, op), None) if fn.body is not None and depth <= 5 else (False, None)
        if depth > 5:
            return False, None
        done = self.points(B, part, op, rec, depth)
        if not done:
            return False, None
        res, ov = run_fn(fn, B, done, part, [(fn.entry, 0, start)], weak=op == '=set')
        if ov:
            return None, None
        for n, v, e in res:
            if v == frozenset(['THROW']) or 'O' in e or failing(fn, v):
                continue
            return False, n
        return True, None

    def plain(self, B, part, op):
        """Template code the compiler builds no CFG for: the operation is applied outside of any condition."""
        for n in B.fn.walk():
            if hits(B, n, part, op):
                c, ok = n, '[]' not in part
                for p in n.parents():
                    if p.k in ('if', 'cond', 'switch') and c is not p.kids[0] and c.role not in ('cond', 'init'):
                        break
                    if p.k in ('while', 'do', 'lambda', 'for'):
                        break
                    if p.k == 'rfor':
                        ok = '[]' in part
                    c = p
                else:
                    if ok:
                        return True
        return False

    def points(self, B, part, op, rec, depth):
        """{node id: value} of the nodes whose evaluation means that the operation has been applied to (all of) the part."""
        fn = B.fn
        out = {}
        loop = '[]' in part
        for n in fn.walk():
            if op in ('=set', '=reset'):
                w = written(B, n, part)
                if w and (op == '=set' or written(B, n, part, True)):
                    out[n.i] = None
                if w and (op == '=set' or not (n.k == 'un' or n.op and '=' in n.op and n.op != '=' or n.op in ('++', '--') or op_of(n) in KEEPING)):
                    for q in n.parents():       # a loop that sets the elements, or an iteration over a part
                        x = None
                        if q.k == 'rfor':
                            x = [m for m in q.child('rs').walk() if m.k == 'vardecl'][:1]
                        elif q.k in ('for', 'while') and q.child('cond') is not None:
                            x = [q.child('cond')]
                            while x[0].k == 'bin' and x[0].op in ('&&', '||'):
                                x = [x[0].kids[0]]
                        elif q.k == 'lambda':
                            break
                        for m in x or ():
                            if (q.k == 'while' or partial(B, q) is None) and (op == '=set' or self.each(B, q, part)):
                                out[m.i] = None
                elif n.k == 'rfor' and n.child('rs') is not None and n.child('body') is not None:
                    # for (T* x : { &a, &b }) ...
                    lv = [m for m in n.child('lv').walk() if m.k == 'vardecl'] if n.child('lv') is not None else []
                    if lv and any(m.k == 'ilist' and any(B.part(e) == part for e in m.kids) for m in n.child('rs').walk()):
                        sub = Body(fn, dict(B.env))
                        sub.rec = rec
                        sub.env[lv[0].get('d')] = part
                        sub.addr = (lv[0].get('d'),)
                        if any(written(sub, m, part, op == '=reset') for m in n.child('body').walk()) and (
                                op == '=set' or self.each(sub, n, part)):
                            for m in n.child('rs').walk():
                                if m.k == 'vardecl':
                                    out[m.i] = None
                                    break
                elif n.k == 'call':
                    for f, sub in self.helpers(B, n, rec):
                        sub = {} if n.callee is not None and n.callee.rec else sub
                        if self.holds(f, part, op, rec, sub, depth + 1)[0]:
                            out[n.i] = None
                    if op == '=reset' and n.i not in out:
                        for i, a in enumerate(n.args):
                            if a is not None and B.part(a) == part and outarg(n, i):
                                fs = [P.by_usr[d.u] for d in P.targets(n)]
                                if all(i < len(f.params) and self.holds(f, '%arg', op, f.decl.rec, {f.params[i]['d']: '%arg'}, depth + 1)[0] for f in fs):
                                    out[n.i] = None
                continue
            if n.k == 'call':
                if not loop and hits(B, n, part, op):
                    out[n.i] = TRUE
                elif loop and isalg(n) and n.name != 'count_if' and len(n.args) > 2 and whole(B, n, part):
                    for f in self.lambdas(fn, n):
                        sub = dict((p['d'], part[:part.index('[]') + 2]) for p in f.params)
                        if self.holds(f, part, op, rec, sub, depth + 1)[0] or self.elem(f, part, op, rec, sub, depth):
                            out[n.i] = FALSE if n.name in ('any_of', 'none_of') and False else TRUE
                else:
                    for f, sub in self.helpers(B, n, rec):
                        if self.holds(f, part, op, rec, sub, depth + 1)[0]:
                            out[n.i] = TRUE
            elif loop and n.k in ('for', 'rfor', 'while', 'do') and part.count('[]') == 1:
                pt = self.loop(B, n, part, op, rec, depth)
                if pt is not None:
                    out[pt] = None
        return out

    def each(self, B, loop, part):
        """Does every iteration of the loop set something of the part?"""
        body = loop.child('body')
        done = {m.i: None for m in body.walk() if written(B, m, part)}
        for m in body.walk():           # inner loops are assumed to have iterations
            if m.k in ('for', 'rfor', 'while') and any(x.i in done for x in m.walk()):
                for c in ('cond', 'rs'):
                    if m.child(c) is not None:
                        for x in m.child(c).walk():
                            done[x.i] = None
        ends, start = loop_ends(B.fn, loop)
        if start is None:
            return True
        res, ov = run_fn(B.fn, B, done, part, [(start, 0, {})], ends)
        return ov or all('O' in e or v == frozenset(['THROW']) or v != frozenset(['STOP']) and failing(B.fn, v) for r, v, e in res)

    def elem(self, f, part, op, rec, sub, depth):
        B = Body(f, sub)
        B.rec = rec
        return any(hits(B, n, part, op) for n in f.walk()) and self.direct(B, part, op, [(f.entry, 0, {})], None, depth)

    def direct(self, B, part, op, start, stop, depth=0):
        done = {n.i: TRUE for n in B.fn.walk() if hits(B, n, part, op)}
        for n in B.fn.walk():
            if n.k == 'call' and n.i not in done:
                for f, sub in self.helpers(B, n, B.rec):
                    if depth < 4 and any(v == part or v + '[]' == part for v in sub.values()) and self.elem(f, part, op, B.rec, sub, depth + 1):
                        done[n.i] = TRUE
        res, ov = run_fn(B.fn, B, done, part, start, stop)
        if ov:
            return None
        for n, v, e in res:
            if v == frozenset(['THROW']) or 'O' in e and v == frozenset(['STOP']) or v != frozenset(['STOP']) and failing(B.fn, v):
                continue
            if stop is None and 'O' in e:
                continue
            return False
        return True

    def loop(self, B, n, part, op, rec, depth):
        """Node whose evaluation completes the loop n when it applies op to every element of the part."""
        body = n.child('body')
        if body is None:
            return None
        inside = set(m.i for m in body.walk())
        cand = [m for m in body.walk() if m.k == 'call' and (hits(B, m, part, op) or self.helpers(B, m, rec))]
        if not cand or partial(B, n) is not None:
            return None
        ends, start = loop_ends(B.fn, n)
        if start is None:
            return None
        ok = self.direct(B, part, op, [(start, 0, {})], ends, depth)
        if not ok:
            return None
        if n.k == 'rfor':
            for m in n.child('rs').walk():
                if m.k == 'vardecl':
                    return m.i
            return None
        c = n.child('cond')
        while c is not None and c.k == 'bin' and c.op == '&&':
            c = c.kids[0]
        return c.i if c is not None else None

    def lambdas(self, fn, n):
        for a in n.args:
            for m in a.walk():
                f = None
                if m.k == 'lambda':
                    f = lam(m)
                elif m.k == 'var':
                    for x in fn.walk():
                        if x.k == 'vardecl' and x.get('d') == m.get('d') and x.kids:
                            for y in x.kids[0].walk():
                                if y.k == 'lambda':
                                    f = lam(y)
                if f is not None:
                    yield f

    def helpers(self, B, n, rec):
        """Functions of the same object (or lambdas) that the call may enter: [(fn, {param: part})]."""
        out = []
        if n.callee is None:
            f = n.kids[0] if n.kids else None
            if f is not None and f.role == 'f' and f.k == 'mem' and (not f.kids or strip(f.c()).k == 'this') and rec:
                for g in P.fns:
                    if g.decl.rec == rec and g.decl.n == f.name:
                        out.append(g)
        elif n.callee.n == 'operator()' and n.obj is not None and n.obj.k == 'var':
            for x in B.fn.walk():
                if x.k == 'vardecl' and x.get('d') == n.obj.get('d') and x.kids:
                    for y in x.kids[0].walk():
                        if y.k == 'lambda' and lam(y) is not None:
                            out.append(lam(y))
        elif n.callee.rec and rec and (n.callee.rec == rec or n.callee.rec in P.all_bases(rec) or rec in P.all_bases(n.callee.rec)):
            o = recv(n)
            if o is None or B.part(o) == '':
                g = P.by_usr.get(n.callee.u) or (P.by_usr.get(n.callee.pat) if n.callee.pat else None)
                if g is not None:
                    out.append(g)
        elif n.callee.in_repo() and any(B.part(a) for a in n.args):
            g = P.by_usr.get(n.callee.u) or (P.by_usr.get(n.callee.pat) if n.callee.pat else None)
            if g is not None:
                out.append(g)
        r = []
        for g in out:
            sub = {}
            for p, a in zip(g.params, n.args):
                x = B.part(a)
                if x:
                    sub[p['d']] = x
            r.append((g, sub))
        return r


def lam(m):
    d = m.get('_fu') or m.callee
    return P.lam_by_usr.get(d.u) if d is not None else None


def whole(B, n, part):
    """Does the algorithm call range over the whole container of the part?"""
    a, b = strip(n.args[0]), strip(n.args[1])
    if a.k != 'call' or b.k != 'call':
        return False
    return op_of(a) in ('begin', 'cbegin', 'rbegin') and op_of(b) in ('end', 'cend', 'rend') and \
        B.part(recv(a)) == part[:part.index('[]')] and B.part(recv(b)) == part[:part.index('[]')]


def failing(fn, v):
    if v is None or is_any(v):
        return False
    r = fn.decl.r
    if r is not None and r.k == 'bool':
        return v <= FALSE
    if r is not None and r.k in ('int', 'enum'):
        return all(x in ('NEG', 'NERR') or isinstance(x, int) and x < 0 for x in v)
    if r is not None and r.k == 'dep':
        return v <= FALSE
    return False


class Eval(AbsEval):
    def refine(self, n, env, val):
        t = flow.nulltest(strip(n) or n, val)
        if t is not None and t[1]:
            q = self.B.part(t[0])
            if q and (q == self.part or self.part.startswith(q + '.') or self.part.startswith(q + '[')) and pointer(t[0]):
                return False        # there is no such part
        if n.k == 'call' and val and op_of(n) == 'empty':
            if self.weak and recv(n) is not None and root(recv(n)) in [p['d'] for p in self.fn.params]:
                return False        # there is nothing to take over
            q = self.B.part(recv(n)) if recv(n) is not None else None
            if q and q == self.part and getattr(self, 'clears', False):
                return False
            if q and '[]' in self.part and (self.part == q or self.part.startswith((q + '[', q + '.'))):
                return False        # nothing to apply it to
        return AbsEval.refine(self, n, env, val)


def pointer(e):
    e = strip(e)
    t = e.t.deref() if e is not None and e.t is not None else None
    return t is not None and (t.k == 'ptr' or '_ptr<' in t.s)


def root(e):
    e = strip(e)
    while e is not None and e.k in ('mem', 'idx', 'un') and e.kids:
        e = strip(e.c())
    return e.get('d') if e is not None and e.k == 'var' else None


def run_fn(fn, B, done, part, start, ends=None, inside=None, weak=False):

    def on(n, env, ev):
        if n.i in done:
            env['O'] = TRUE

    def ret(ev, n, env):
        return done.get(n.i)

    def stop(n, env, ev):
        if ends is None:
            return None
        return frozenset(['STOP']) if n.i in ends else frozenset(['LEFT']) if inside is not None and n.i not in inside else None
    for learn, lim in ((True, 2500), (False, 20000)):
        ev = Eval(fn, PATHS(fn), callret=ret, maxstates=lim, learn=learn)
        ev.B, ev.part, ev.weak = B, part, weak
        res = ev.run(list(start), stop=stop, on_elem=on)
        if not ev.overflow:
            break
    return res, ev.overflow


_px = {}


def PATHS(fn):
    if fn not in _px:
        _px[fn] = model.Paths(fn)
    return _px[fn]


def loop_ends(fn, n):
    """(ids of the nodes evaluated between two iterations, first block of the body)."""
    c = n.child('cond')
    ends, inside = set(), set()
    for x in (c, n.child('inc')):
        if x is not None:
            ends |= set(m.i for m in x.walk())
    for x in (n.child('lv'), n.child('body')):
        if x is not None:
            inside |= set(m.i for m in x.walk())
    for b in fn.blocks.values():
        if b.tcond is not None and b.tcond in ends:
            for t in b.succs:
                if t is not None:
                    es = [e for e in fn.blocks[t].elems if isinstance(e, int)]
                    if es and es[0] in inside or not es and fn.blocks[t].tcond in inside:
                        return ends, t
    return ends, None


def lit(e):
    e = strip(e)
    return e.get('v') if e is not None and e.k == 'int' else None


def partial(B, n):
    """Text saying why the loop does not visit every element, or None."""
    if n.k == 'rfor':
        return None
    if n.k != 'for':
        return None
    init, c, inc = n.child('init'), n.child('cond'), n.child('inc')
    var = None
    if init is not None:
        for m in init.walk():
            if m.k == 'vardecl' and m.kids:
                var, s = m, strip(m.kids[0])
                v = lit(s)
                if v is not None and v > 0 and upward(inc):
                    return 'starts at %d' % v
                if s is not None and s.k == 'bin' and s.op == '+' and lit(s.kids[1]) and strip(s.kids[0]).k == 'call' and \
                        op_of(strip(s.kids[0])) in ('begin', 'rbegin'):
                    return 'starts after the first'
                break
    if c is not None:
        x = c
        while x.k == 'bin' and x.op == '&&':
            x = x.kids[0]
        if x.k == 'bin' and x.op in ('<', '!=', '<='):
            a, b = strip(x.kids[0]), strip(x.kids[1])
            if a.k == 'bin' and a.op == '+' and lit(a.kids[1]) and x.op == '<' and sized(b):
                return 'stops before the last'
            if b.k == 'bin' and b.op == '-' and lit(b.kids[1]) and (lit(b.kids[1]) > 1 or x.op != '<=') and \
                    (sized(strip(b.kids[0])) or op_of(strip(b.kids[0])) == 'end'):
                return 'stops before the last'
    if inc is not None:
        for m in inc.walk():
            if m.k == 'assign' and m.op == '+=' and (lit(m.kids[1]) or 0) > 1:
                return 'steps over elements'
    return None


def upward(inc):
    return inc is not None and any(m.k == 'un' and '++' in m.op or m.k == 'assign' and m.op == '+=' for m in inc.walk())


def sized(e):
    return e is not None and e.k == 'call' and op_of(e) in ('size', 'end')


# -- rule 2: loops over parts ------------------------------------------------------------------------------------------------
def container_of(B, n):
    """Expression of the container the loop runs over."""
    if n.k == 'rfor':
        return strip(n.child('rs'))
    c = n.child('cond')
    if c is None:
        return None
    for x in c.walk():
        if x.k == 'call' and op_of(x) in ('size', 'end') and recv(x) is not None:
            return strip(recv(x))
    return None


def elem_calls(B, n, part, const=False):
    """Calls in the loop body that apply a (non-const) operation of the repository to the current element."""
    for m in n.child('body').walk():
        if m.k != 'call' or m.callee is not None and (m.callee.const and not const or m.callee.static or not m.callee.in_repo()):
            continue
        if m.callee is None and (op_of(m) or 'get').startswith(('get', 'has', 'is', 'size', 'empty', 'find', 'begin', 'end', 'operator')):
            continue
        o = recv(m)
        if o is None or m.op and m.op != '()':
            continue
        if B.part(o) is not None and B.part(o).startswith(part + '[]'):
            yield m


def separately(B, n, part, call):
    """Is the operation applied to a single element outside the loop?"""
    inside = set(m.i for m in n.walk())
    return any(m.k == 'call' and m.i not in inside and op_of(m) == op_of(call) and recv(m) is not None and
               (B.part(recv(m)) or '').startswith(part + '[]') for m in B.fn.walk())


def loops(fn):
    """[(kind, loop node, op text, why)] of the loops of a function."""
    out, cnt = [], {}
    B = Body(fn)
    B.rec = fn.decl.rec
    for n in fn.walk():
        if n.k not in ('for', 'rfor') or n.child('body') is None:
            continue
        c = container_of(B, n)
        if c is None:
            continue
        if c.k in ('var', 'call') and B.part(c) is None:
            # local or parameter container: give it a name
            if c.k != 'var':
                continue
            B.env[c.get('d')] = 'v:' + c.name
        part = B.part(c)
        if not part:
            continue
        calls = list(elem_calls(B, n, part))
        if not calls:
            calls = list(elem_calls(B, n, part, True))
            why = calls and not separately(B, n, part, calls[0]) and partial(B, n)
            if calls:
                cnt['loops over parts that only query them'] = cnt.get('loops over parts that only query them', 0) + 1
            if why:
                nm = '%s %s' % (part.replace('v:', ''), op_of(calls[0]))
                out.append((n.i, nm + ' ' + why.split()[0], 'the loop over the parts %s that calls %s %s' % (
                    expr_str(c), op_of(calls[0]), why)))
            continue
        cnt['loops over parts that apply an operation'] = cnt.get('loops over parts that apply an operation', 0) + 1
        why = not separately(B, n, part, calls[0]) and partial(B, n)
        nm = '%s %s' % (part.replace('v:', ''), op_of(calls[0]))
        if why:
            out.append((n.i, nm + ' ' + why.split()[0], 'the loop over the parts %s that calls %s %s' % (expr_str(c), op_of(calls[0]), why)))
            continue
        ends, start = loop_ends(fn, n)
        if start is None:
            cnt['loops without CFG'] = cnt.get('loops without CFG', 0) + 1
            continue
        inside = set(m.i for m in n.walk())
        done = {m.i: TRUE for m in calls}
        res, ov = run_fn(fn, B, done, part + '[]', [(start, 0, {})], ends, inside)
        if ov:
            cnt['loops given up'] = cnt.get('loops given up', 0) + 1
            continue
        cont = any(v == frozenset(['STOP']) and 'O' in e for r, v, e in res)
        for r, v, e in res:
            if 'O' in e and cont and v != frozenset(['STOP']) and v != frozenset(['THROW']) and (v == frozenset(['LEFT']) or not failing(fn, v)):
                out.append((n.i, nm + ' left', 'the loop over the parts %s that calls %s may be left%s before the remaining ones got their turn' % (
                    expr_str(c), op_of(calls[0]), ' at line %d' % r.l if r is not None else '')))
                break
    return out, cnt


# -- rule 3: siblings --------------------------------------------------------------------------------------------------------
def siblings(fn, op, parts):
    """Calls of the same operation on different parts with different arguments."""
    B = Body(fn)
    B.rec = fn.decl.rec
    A = {}
    for n in fn.walk():
        if n.k == 'call' and op_of(n) == op:
            q = B.part(recv(n)) if recv(n) is not None else None
            if q in parts:
                A.setdefault(q, []).append((tuple(PATHS(fn).key(a) or expr_str(a) for a in n.args), n))
    ps = sorted(A)
    for i in range(1, len(ps)):
        x, y = sorted(set(a for a, _ in A[ps[0]])), sorted(set(a for a, _ in A[ps[i]]))
        if x != y:
            yield A[ps[i]][0][1], ps[0], ps[i]


def op_of_class(rec, op):
    return any(f.decl.n == op and f.decl.rec and (f.decl.rec == rec or f.decl.rec in P.all_bases(rec)) for f in P.fns)


def job(fn):
    return loops(fn) if fn.blocks else ([], {})


def run(prog, ctx):
    global P
    P = prog
    _px.clear()
    M = Must()
    byq = {}
    for f in P.fns:
        if not f.lam and (f.body is not None or f.blocks):
            byq.setdefault(f.q, []).append(f)
    sib = {}
    for q, part, op, cnt in read_table('c08_forward.txt'):
        fns = [f for f in byq.get(q, []) if f.dep or not any(g.dep and g.file == f.file and g.line == f.line for g in byq[q])]
        if not fns:
            ctx.count('listed operations whose method no longer exists')
            continue
        if part == 'self' and not any(op_of_class(f.decl.rec, op) for f in fns):
            ctx.count('listed operations whose method no longer exists')
            continue
        ctx.count('operations on parts checked')
        if part != 'self':
            sib.setdefault((q, op), set()).add(part)
        res = [(f, M.holds(f, part, op, f.decl.rec)) for f in fns]
        good = [f for f, (r, n) in res if r]
        if any(r is None for f, (r, n) in res):
            ctx.count('operations given up (too many paths)')
            continue
        ctx.sample('operations on parts', '%s: %s of %s on every path' % (q, op, part))
        if len(good) < int(cnt):
            for f, (r, n) in [x for x in res if not x[1][0]][:int(cnt) - len(good)] or [(fns[0], (False, None))]:
                what = 'every element of ' + part[:-2] if part.endswith('[]') else 'the base class part' if part == 'base' else 'the object itself' if part == 'self' else part
                ctx.viol('forward', q, '%s %s' % (part, op), '%s is not applied to %s on every path that does not report failure%s' % (
                    op.replace('@', 'with '), what, ', e.g. not when returning at line %d' % n.l if n is not None else ''), fn=f, node=n, P=P)
    for (q, op), parts in sorted(sib.items()):
        parts = set(x for x in parts if x.isidentifier() and x != 'base')
        if len(parts) < 2:
            continue
        for f in byq[q]:
            ctx.count('operations handed to sibling parts')
            for n, a, b in siblings(f, op, parts):
                ctx.viol('siblings', q, '%s %s %s' % (op, a, b), '%s of %s and %s are given different arguments' % (op, a, b), fn=f, node=n, P=P)
    fns = [f for f in P.fns if f.blocks and '3rdparty' not in f.file and not f.file.startswith('/')]
    for f, (out, cnt) in zip(fns, par.pmap(job, fns, 16)):
        for k, v in cnt.items():
            ctx.count(k, v)
        for i, inst, msg in out:
            if ctx.excepted(P, 'c08_allow.txt', f, inst) is not None:
                ctx.count('loops excepted (cfg/c08_allow.txt)')
                continue
            ctx.viol('partial', f.q, inst, msg, fn=f, node=f.nodes.get(i), P=P)
    ctx.need('operations on parts checked', 170, 'listed operations')
    ctx.need('loops over parts that apply an operation', 70, 'loops over parts')
    ctx.explain.append(__doc__.replace('\n', ' '))

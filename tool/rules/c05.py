"""C05: copies carry the whole state, and no two objects own the same block.

Rule 1: every user-written copy or move constructor and copy or move assignment transfers, on every path, each member
and base of the class from its source: by the initialiser list, assignment, a call that receives both, or a member
function that is given the source. Members that deliberately are not copied are listed with the reason.
Rule 2: what is transferred goes to the same member (no cross-over).
Rule 3: a class whose destructor releases what a raw pointer member refers to is never copied by a compiler-generated
copy operation, directly or as part of an enclosing object."""
import re
import flow
from model import expr_str
from lib import graph


def strip(e):
    while e is not None and (e.k == 'cast' and e.kids or e.k == 'expr' and len(e.kids) == 1):
        e = e.kids[0]
    return e


def isthis(e):
    e = strip(e)
    return e is None or e.k == 'this' or e.k == 'un' and e.op == '*' and strip(e.c()) is not None and strip(e.c()).k == 'this'


def sized(m):
    """Is only the size of the container m asked for?"""
    p = m.p
    while p is not None and p.k in ('cast', 'expr'):
        p = p.p
    return p is not None and p.k == 'call' and p.obj is not None and any(x is m for x in p.obj.walk()) and not p.args and \
        p.callee is not None and p.callee.n in ('size', 'empty', 'length', 'capacity', 'rows', 'cols', 'dim', 'max_size', 'count')


def sameclass(fn):
    d = fn.decl
    t = d.p[0] if d.p else None
    if t is None or t.k not in ('ref', 'rref') or t.p is None:
        return False
    a = t.p.r or t.p.s
    return bool(d.rec) and (a == d.rec or re.sub(r'<.*', '', t.p.s).replace('const ', '').strip() == d.rec.split('@')[0])


class Copy(object):
    def __init__(self, P, ctx):
        self.P = P
        self.ctx = ctx
        self._c = {}
        self._get = {}
        self.may = {}
        graph(P)
        self.al = {}
        for fn in P.fns:
            if fn.decl.kind in ('ctor', 'cctor', 'mctor') and fn.decl.rec:
                for ini in fn.inits:
                    e = strip(ini['e']) if ini['e'] is not None else None
                    if ini.get('fld') and e is not None:
                        m = e
                        while m is not None and m.k == 'idx':
                            m = strip(m.c())
                        if m is not None and m.k == 'mem' and isthis(m.c()):
                            R = P.records.get(fn.decl.rec)
                            ft = [f for f in (R.fields if R else ()) if f['n'] == ini['fld']]
                            if ft and ft[0]['t'].k == 'ref':
                                self.al[fn.decl.rec, ini['fld']] = m.name

    def ops(self):
        for fn in self.P.fns:
            d = fn.decl
            if '3rdparty' in fn.file or d.defaulted and fn.body is None or d.deleted or not d.rec or not fn.params:
                continue
            if (d.kind in ('ctor', 'cctor', 'mctor', 'cassign', 'massign') or d.n == 'operator=') and sameclass(fn):
                yield fn

    def source(self, fn, i):
        """Local variables that stand for the source object: a parameter, a captured variable, and what is bound to it."""
        if isinstance(i, int):
            src = set([fn.params[i]['d']])
        else:
            src = set(n.get('d') for n in fn.walk() if n.k == 'var' and n.name == i and n.get('cap'))
        for n in fn.walk():
            if n.k == 'vardecl' and n.kids and fn.locals[n.get('d')]['t'].k in ('ref', 'rref', 'ptr') and self.issrc(n.kids[0], src):
                src.add(n.get('d'))
        return frozenset(src)

    def getter(self, call):
        """Member returned by a trivial accessor."""
        d = call.callee
        if d is None or not d.rec:
            return None
        if d.u in self._get:
            return self._get[d.u]
        r = None
        b = d.body or (self.P.by_usr.get(d.pat) if d.pat else None)
        if b is not None and b.body is not None and len(b.body.kids) == 1 and b.body.kids[0].k == 'return' and b.body.kids[0].kids:
            e = strip(b.body.kids[0].kids[0])
            if e is not None and e.k == 'un' and e.op in ('&', '*'):
                e = strip(e.c())
            if e is not None and e.k == 'call' and e.obj is not None and (not e.args or e.op in ('[]', '()')):
                e = strip(e.obj)
            elif e is not None and e.k == 'idx':
                e = strip(e.c(0))
            if e is not None and e.k == 'mem' and isthis(e.c()):
                r = e.name
        self._get[d.u] = r
        return r

    def of(self, n, own, src):
        """(is_source, member) when n is a member access of *this or of the source object."""
        if n.k == 'mem' and n.name:
            b = n.c()
            if isthis(b):
                return (False, n.name)
            b = strip(b)
            if b is not None and b.k == 'var' and b.get('d') in src:
                return (True, n.name)
            if b is not None and b.k == 'un' and b.op == '*' and strip(b.c()).k == 'var' and strip(b.c()).get('d') in src:
                return (True, n.name)
        elif n.k == 'call' and n.callee is not None and n.callee.rec:
            g = self.getter(n)
            if g:
                o = strip(n.obj) if n.obj is not None else None
                if o is None or isthis(o):
                    return (False, g)
                if o.k == 'var' and o.get('d') in src:
                    return (True, g)
        return None

    def issrc(self, e, src):
        e = strip(e)
        if e is not None and e.k == 'un' and e.op in ('&', '*'):
            e = strip(e.c())
        if e is not None and e.k == 'call' and e.callee is not None and e.callee.n in ('move', 'forward') and e.args:
            e = strip(e.args[0])
        return e is not None and e.k == 'var' and e.get('d') in src

    def names(self, rq):
        """All members by name of a class, with the alias references mapped."""
        R = self.P.records.get(rq)
        return [f['n'] for f in R.fields if f['n']] if R else []

    def allof(self, rq):
        out = set(self.names(rq))
        R = self.P.records.get(rq)
        for b in (R.bases if R else ()):
            if b['q']:
                out.add('base ' + b['q'])
                out |= self.allof(b['q'])
        return out

    def sets(self, fn, n, src, loc, depth):
        """Members copied by the evaluation of node n."""
        out = set()
        if n.k not in ('assign', 'call', 'ctor', 'bin', 'vardecl'):
            return out
        own, frm = set(), set()
        for m in n.walk():
            if m.k == 'var' and m.get('d') in loc:
                frm |= loc[m.get('d')]
            o = self.of(m, None, src)
            if o and o[0] and sized(m):
                continue
            if o:
                (frm if o[0] else own).add(o[1])
                if o[0]:
                    frm.update(x for (r, x), t in self.al.items() if t == o[1])
                    a = [t for (r, x), t in self.al.items() if x == o[1]]
                    frm.update(a)
                else:
                    own.update(t for (r, x), t in self.al.items() if x == o[1])
        if n.k == 'vardecl':
            if frm and not own:
                loc.setdefault(n.get('d'), set()).update(frm)
                # a reference or pointer to an own member would be in own: nothing is written yet
            return out
        if n.k == 'call' and frm and n.callee is not None and n.callee.rec and not n.callee.const and not n.callee.static \
                and isthis(n.obj) and not any(self.issrc(a, src) for a in n.args):
            own |= self.writes(n.callee, depth)
        out |= own & frm
        if n.k == 'call' and n.callee is not None and n.callee.u in self.P.lam_by_usr and depth < 6:
            lam = self.P.lam_by_usr[n.callee.u]
            for i, a in enumerate(n.args):
                if self.issrc(a, src) and i < len(lam.params):
                    out |= self.copied(lam, i, depth + 1)
            for v in set(x['n'] for x in (fn.locals[d] for d in src)):
                out |= self.copied(lam, v, depth + 1)
            return out
        if n.k in ('call', 'ctor') and n.callee is not None:
            d = n.callee
            for i, a in enumerate(n.args):
                if not self.issrc(a, src):
                    continue
                o = strip(n.obj) if n.k == 'call' and n.obj is not None else None
                if n.k == 'call' and not isthis(o):
                    continue
                if n.k == 'call' and (d.static or not d.rec) and n.obj is None:
                    continue
                b = d.body or (self.P.by_usr.get(d.pat) if d.pat else None)
                if b is not None and i < len(b.params):
                    if depth < 6:
                        out |= self.copied(b, i, depth + 1)
                elif d.implicit or d.defaulted:
                    out |= self.allof(d.rec)
                if d.rec and d.rec != fn.decl.rec and (d.kind in ('cctor', 'mctor') or d.n == 'operator='):
                    out.add('base ' + d.rec.split('@')[0])
        return out

    def writes(self, d, depth):
        """Own members a member function may write."""
        c = self.__dict__.setdefault('_w', {})
        if d.u in c:
            return c[d.u]
        c[d.u] = set()
        b = d.body or (self.P.by_usr.get(d.pat) if d.pat else None)
        out = set()
        if b is not None:
            for n in b.walk():
                if n.k == 'assign':
                    o = self.of(strip(n.c(0)), None, ())
                    if o:
                        out.add(o[1])
                elif n.k == 'call' and n.callee is not None:
                    if n.obj is not None and strip(n.obj).k == 'mem' and isthis(strip(n.obj).c()) and not n.callee.const:
                        out.add(strip(n.obj).name)
                    elif isthis(n.obj) and n.callee.rec and not n.callee.const and not n.callee.static and depth < 5:
                        out |= self.writes(n.callee, depth + 1)
        c[d.u] = out
        return out

    def copied(self, fn, i, depth=0):
        k = (fn, i)
        if k in self._c:
            return self._c[k]
        self._c[k] = frozenset()
        src = self.source(fn, i)
        loc = {}
        start = set()
        for ini in fn.inits:
            e = ini['e']
            if e is None:
                continue
            if ini.get('fld'):
                for m in e.walk():
                    o = self.of(m, None, src)
                    if o and o[0] and (o[1] == ini['fld'] or self.al.get((fn.decl.rec, o[1])) == ini['fld']):
                        start.add(ini['fld'])
                    if o and not o[0] and self.al.get((fn.decl.rec, ini['fld'])) == o[1]:
                        start.add(ini['fld'])       # reference to own member
            else:
                for m in e.walk():
                    start |= self.sets(fn, m, src, loc, depth)
                if ini.get('base') and (any(self.issrc(a, src) for m in e.walk() if m.k in ('ctor', 'call') for a in m.args) or
                                        e.k == 'expr' and e.kids and self.issrc(e.kids[0], src)):
                    start.add('base ' + re.sub(r'<.*', '', ini['base'].s))
        self.may[k] = set(start)
        if fn.body is None:
            return frozenset(start)
        for _ in range(2):              # local variables that stand for members of the source
            for n in fn.walk():
                if n.k in ('vardecl', 'assign'):
                    if n.k == 'vardecl':
                        self.sets(fn, n, src, loc, depth)
                    elif strip(n.c(0)).k == 'var' and strip(n.c(0)).get('d') not in src:
                        fr = set(self.of(m, None, src)[1] for m in n.c(1).walk() if (self.of(m, None, src) or (0,))[0])
                        for m in n.c(1).walk():
                            if m.k == 'var' and m.get('d') in loc:
                                fr |= loc[m.get('d')]
                        if fr:
                            loc.setdefault(strip(n.c(0)).get('d'), set()).update(fr)
                elif n.k == 'rfor':
                    rs = n.child('rs') or n.child('range')
                    lv = n.child('lv')
                    if rs is not None and lv is not None:
                        fr = set(self.of(m, None, src)[1] for m in rs.walk() if (self.of(m, None, src) or (0,))[0])
                        for m in lv.walk():
                            if m.k == 'vardecl' and fr:
                                loc.setdefault(m.get('d'), set()).update(fr)
        cond = {}
        for n in fn.walk():
            if n.k in ('for', 'rfor', 'while', 'do'):
                got = set()
                for m in n.walk():
                    got |= self.sets(fn, m, src, loc, depth)
                for r in ('init', 'cond', 'inc', 'rs', 'bs', 'es'):
                    c = n.child(r)
                    if c is not None:
                        for m in c.walk():
                            cond.setdefault(m.i, set()).update(got)
        memo = {}

        def transfer(n, s):
            g = memo.get(n.i)
            if g is None:
                g = memo[n.i] = self.sets(fn, n, src, loc, depth) | cond.get(n.i, set())
            return s | g if g else s

        def edge(c, tv, s):
            for a, t in flow.implied(c, tv):
                if a.k == 'bin' and a.op in ('==', '!='):
                    x, y = strip(a.kids[0]), strip(a.kids[1])
                    if {x.k, y.k} == {'this', 'un'} and (a.op == '==') == t:
                        return None         # assignment to itself
            return s
        if fn.blocks:
            ins = flow.forward(fn, frozenset(start), transfer, edge, lambda a, b: a & b)
            out = ins.get(fn.exit)
            out = frozenset(out) if out is not None else frozenset(start)
        else:
            out = set(start)
            for n in fn.body.walk():
                if not any(p.k == 'if' for p in n.parents()):
                    out |= self.sets(fn, n, src, loc, depth)
            out = frozenset(out)
        self._c[k] = out
        may = set(start)
        for m in memo.values() if fn.blocks else [out]:
            may |= m
        self.may[k] = may
        return out

    # -- rules -------------------------------------------------------------------------------------------------
    def run(self):
        P, ctx = self.P, self.ctx
        for fn in self.ops():
            R = P.records.get(fn.decl.rec)
            if R is None:
                continue
            ctx.count('copy operations written by hand')
            got = self.copied(fn, 0)
            may = self.may[fn, 0]
            need = [f['n'] for f in R.fields if f['n'] and not (fn.decl.kind not in ('ctor', 'cctor', 'mctor') and f['t'].k == 'ref')]
            for b in R.bases:
                if b['q'] and self.state(b['q']):
                    need.append('base ' + re.sub(r'<.*', '', b['q']).split('@')[0])
            where = '%s(%s)' % (fn.q, ','.join(t.s for t in fn.decl.p))
            suf = ' with ' + ','.join(t.s for t in fn.decl.p[1:]) if fn.decl.kind == 'ctor' else ''
            for f in need:
                ctx.count('members and bases to be transferred')
                if f in got or f.startswith('base ') and self.covered(f[5:], got):
                    continue
                if (f in may or f.startswith('base ') and self.covered(f[5:], may)) and \
                        ctx.excepted(P, 'c05_allow.txt', fn, 'may ' + f + suf) is not None:
                    ctx.count('members copied on request only (cfg/c05_allow.txt)')
                    continue
                if ctx.excepted(P, 'c05_allow.txt', fn, f + suf) is not None:
                    ctx.count('members deliberately not copied (cfg/c05_allow.txt)')
                    continue
                kind = 'constructor' if fn.decl.kind in ('ctor', 'cctor', 'mctor') else 'assignment'
                ctx.viol('not-copied', where, f, 'this copy %s of %s does not transfer %s on every path' %
                         (kind, fn.decl.rec, f if ' ' in f else 'the member ' + f), fn=fn, P=P)
            self.cross(fn, R)

    def covered(self, bq, got):
        """Every member of a base class is in the set."""
        R = self.P.records.get(bq)
        if R is None:
            return False
        return all(f['n'] in got or (bq, f['n']) in self.al for f in R.fields if f['n']) and \
            all('base ' + re.sub(r'<.*', '', b['q']).split('@')[0] in got or self.covered(re.sub(r'<.*', '', b['q']).split('@')[0], got)
                for b in R.bases if b['q'] and self.state(b['q']))

    def state(self, rq):
        R = self.P.records.get(rq) or self.P.records.get(re.sub(r'<.*', '', rq))
        if R is None:
            return True
        return bool([f for f in R.fields if f['n']]) or any(b['q'] and self.state(b['q']) for b in R.bases)

    def pairs(self, fn):
        """(member of the copy, member of the source, node) for plain transfers."""
        pairs = []
        src = self.source(fn, 0)
        for ini in fn.inits:
            if ini.get('fld') and ini['e'] is not None:
                e = strip(ini['e'])
                if e.k == 'ctor' and len(e.args) == 1:
                    e = strip(e.args[0])
                o = self.of(e, None, src)
                if o and o[0]:
                    pairs.append((ini['fld'], o[1], ini['e']))
        for n in fn.walk():
            if n.k == 'assign' and n.op == '=' or n.k == 'call' and n.op == '=' and n.obj is not None and n.args:
                l, r = (n.c(0), n.c(1)) if n.k == 'assign' else (n.obj, n.args[0])
                l, r = strip(l), strip(r)
                a, b = self.of(l, None, src) if l.k == 'mem' else None, self.of(r, None, src)
                if a and b and not a[0] and b[0]:
                    pairs.append((a[1], b[1], n))
        return pairs

    def cross(self, fn, R):
        P, ctx = self.P, self.ctx
        own = set(f['n'] for f in R.fields)
        pairs = self.pairs(fn)
        for x, y, n in pairs:
            ctx.count('members transferred one to one')
            if x == y or y not in own and (fn.decl.rec, y) not in self.al:
                continue
            if self.al.get((fn.decl.rec, y)) == x or self.al.get((fn.decl.rec, x)) == y:
                continue
            if ctx.excepted(P, 'c05_allow.txt', fn, '%s=%s' % (x, y)) is not None:
                continue
            ctx.viol('crossed', '%s(%s)' % (fn.q, ','.join(t.s for t in fn.decl.p)), '%s=%s' % (x, y),
                     'the member %s of the copy receives the member %s of the source' % (x, y), fn=fn, node=n, P=P)


class Owners(object):
    """Classes whose destructor deletes what their raw pointer members (or containers of such) refer to."""

    def __init__(self, P):
        self.P = P
        self.own = {}
        for q, R in P.records.items():
            if '3rdparty' in (R.file or ''):
                continue
            for m in R.methods:
                if m.kind == 'dtor' and m.body is not None:
                    o = self.released(m.body, 0, set())
                    if o:
                        self.own[q] = o

    def released(self, fn, depth, seen):
        out = set()
        if fn in seen or depth > 3:
            return out
        seen.add(fn)
        for n in fn.walk():
            e = None
            if n.k == 'delete':
                e = n.c()
            elif n.k == 'call' and n.callee is not None and n.callee.n in ('free', 'fclose') and n.args:
                e = n.args[0]
            if e is not None:
                while e is not None and e.k in ('cast', 'idx', 'un') and e.kids:
                    e = e.c()
                if e.k == 'var':
                    for m in fn.walk():
                        lv, rs = (m.child('lv'), m.child('rs')) if m.k == 'rfor' else (None, None)
                        if lv is not None and rs is not None and any(x.k == 'vardecl' and x.get('d') == e.get('d') for x in lv.walk()):
                            out.update(x.name for x in rs.walk() if x.k == 'mem' and isthis(x.c()))
                if e.k == 'call' and e.obj is not None:
                    o = strip(e.obj)
                    if o.k == 'mem' and isthis(o.c()):
                        out.add(o.name)
                while e is not None and e.k in ('mem', 'idx', 'cast') and e.kids:
                    if e.k == 'mem' and isthis(e.c()):
                        out.add(e.name)
                        break
                    e = e.c()
            if n.k == 'call' and n.callee is not None and n.callee.rec and isthis(n.obj) and n.callee.body is not None:
                out |= self.released(n.callee.body, depth + 1, seen)
        return out

    def has(self, q, seen=()):
        """Description of the owning part of an object of class q that a member-wise copy would duplicate."""
        R = self.P.records.get(q)
        if q in self.own:
            return '%s::%s' % (q, sorted(self.own[q])[0])
        if R is None or q in seen:
            return None
        for b in R.bases:
            h = b['q'] and self.part(b['q'], seen + (q,))
            if h:
                return h
        for f in R.fields:
            t = f['t']
            while t is not None and t.k == 'arr':
                t = t.p
            h = t is not None and t.k == 'rec' and self.part(t.r or t.s, seen + (q,))
            if h:
                return h
        return None

    def part(self, q, seen):
        R = self.P.records.get(q)
        if R is not None and any(m.kind == 'cctor' and not m.implicit and not m.defaulted for m in R.methods):
            return None         # copied by its own copy constructor
        return self.has(q, seen)

    def run(self, ctx, cp):
        P = self.P
        ctx.count('classes that own raw memory', len(self.own))
        for fn in P.fns:
            if fn.body is None or '3rdparty' in fn.file:
                continue
            for n in fn.walk():
                if n.k == 'vardecl' and n.t is not None and n.t.k == 'rec' and n.t.ta and n.t.s.startswith('std::vector'):
                    self.container(ctx, fn, n, n.t)
                if n.k not in ('ctor', 'call') or n.callee is None or not n.callee.rec or \
                        n.callee.kind not in ('cctor', 'mctor', 'cassign', 'massign'):
                    continue
                ctx.count('copies of class objects')
                d = n.callee
                if not (d.implicit or d.defaulted):
                    continue
                h = self.has(d.rec)
                if h and ctx.excepted(P, 'c05_allow.txt', fn, 'copy ' + d.rec) is None:
                    ctx.viol('shared-block', fn.q, 'copy ' + d.rec, 'this memberwise copy of %s makes two objects own %s' %
                             (d.rec, h), fn=fn, node=n, P=P)
        for fn in cp.ops():
            rec = fn.decl.rec
            if rec not in self.own:
                continue
            for x, y, n in cp.pairs(fn):
                R = P.records.get(rec)
                ft = [f for f in R.fields if f['n'] == x]
                if x == y and x in self.own[rec] and ft and ft[0]['t'].k == 'ptr' and \
                        ctx.excepted(P, 'c05_allow.txt', fn, 'share ' + x) is None:
                    ctx.viol('shared-block', fn.q, 'share ' + x, 'the copy shares %s with its source, and both delete it' % x,
                             fn=fn, node=n, P=P)
        self.shared(ctx)
        for q, R in sorted(P.records.items()):
            for f in R.fields:
                if f['t'].k == 'rec' and f['t'].ta and f['t'].s.startswith('std::vector'):
                    t = f['t'].ta[0]
                    h = t.k == 'rec' and self.part(t.r or t.s, ())
                    if h:
                        ctx.viol('shared-block', q, f['n'], 'the elements of %s are moved by copying when it grows, and own %s' %
                                 (f['n'], h), file=R.file, line=f['l'], P=P)

    def shared(self, ctx):
        """An object that its source owns is not stored in the object that is copied to."""
        P = self.P
        for fn in P.fns:
            own = self.own.get(fn.decl.rec)
            if not own or fn.body is None or fn.decl.static or fn.decl.const or not fn.params:
                continue
            src = set()
            for p in fn.params:
                t = p['t'].p if p['t'].k in ('ref', 'ptr') else None
                if t is not None and t.c and t.k == 'rec' and (t.r or t.s) == fn.decl.rec:
                    src.add(p['d'])
            if not src:
                continue
            ctx.count('operations that copy from an owner')
            for n in fn.walk():
                if n.k == 'assign' and n.op == '=':
                    l, r = n.c(0), n.c(1)
                elif n.k == 'call' and n.callee is not None and n.callee.n in ('push_back', 'emplace_back', 'insert') and n.args and \
                        n.obj is not None:
                    l, r = n.obj, n.args[-1]
                else:
                    continue
                m = self.root(r, src)
                t = strip(r).t
                while t is not None and t.k in ('ref', 'rref'):
                    t = t.p
                if m not in own or t is None or t.k != 'ptr' or not self.inthis(fn, l):
                    continue
                f = [f for f in P.records[fn.decl.rec].fields if f['n'] == m]
                if strip(r).k == 'mem' and strip(l).k == 'mem' and strip(l).name == m and f and f[0]['t'].k == 'ptr':
                    continue        # reported above
                if ctx.excepted(P, 'c05_allow.txt', fn, 'share ' + m) is None:
                    ctx.viol('shared-block', fn.q, 'share ' + m, 'the object that is copied to keeps a pointer to what the '
                             'source owns through %s' % m, fn=fn, node=n, P=P)

    def root(self, e, src):
        """The member of a source object through which e is reached (by selection only)."""
        last = None
        while e is not None:
            e = strip(e)
            if e.k == 'mem' and e.kids:
                last, e = e.name, e.c()
            elif e.k in ('idx', 'un') and e.kids:
                e = e.c()
            elif e.k == 'call' and e.obj is not None and e.callee is not None and \
                    e.callee.n in ('operator[]', 'at', 'front', 'back', 'get'):
                e = e.obj
            elif e.k == 'var':
                return last if e.get('d') in src else None
            else:
                return None
        return None

    def inthis(self, fn, e):
        e = strip(e)
        while e is not None:
            if isthis(e):
                return True
            if e.k in ('mem', 'idx', 'un') and e.kids:
                e = strip(e.c())
            elif e.k == 'call' and e.obj is not None:
                e = strip(e.obj)
            elif e.k == 'var':
                for m in fn.walk():
                    lv, rs = (m.child('lv'), m.child('rs')) if m.k == 'rfor' else (None, None)
                    if lv is not None and rs is not None and any(x.k == 'vardecl' and x.get('d') == e.get('d') for x in lv.walk()):
                        return self.inthis(fn, rs)
                return False
            else:
                return False
        return False

    def container(self, ctx, fn, n, t):
        e = t.ta[0]
        h = e.k == 'rec' and self.part(e.r or e.s, ())
        if h:
            ctx.viol('shared-block', fn.q, fn.locals[n.get('d')]['n'], 'the elements of this vector are moved by copying when it '
                     'grows, and own %s' % h, fn=fn, node=n, P=self.P)


def run(P, ctx):
    cp = Copy(P, ctx)
    cp.run()
    Owners(P).run(ctx, cp)
    ctx.need('copy operations written by hand', 35, 'copy constructors and assignments')
    ctx.need('members and bases to be transferred', 150, 'members to transfer')
    ctx.need('members transferred one to one', 60, 'members transferred one to one')
    ctx.need('classes that own raw memory', 25, 'owning classes')
    ctx.need('copies of class objects', 300, 'copies of objects')
    ctx.explain.append(__doc__.replace('\n', ' '))

"""C22: an object that is used through its base class behaves as the object it is.

Rule 1 (override): no method of a derived class only looks like an override of a virtual method of a base class (same name,
nearly the same parameters) without being one, and none hides a method of a base class that is not virtual: such a method is
silently never called through the base class.
Rule 2 (destructor): no object is deleted through a base class without a virtual destructor.
Rule 3 (sliced): no object of a derived class is copied into an object of its polymorphic base class.
Rule 4 (default): an override has the same default arguments as the method it overrides.
Rule 5 (early): no constructor or destructor calls a virtual method that derived classes override.
Rule 6 (skipped): a method that hands over to the implementation of a base class does not skip one in between.
Rule 7 (extends): the overrides listed in cfg/c22_extends.txt, which are layers of one operation, hand over to the layer
below them on every path on which they succeed (or at all, for the ones that treat only what they know).
Rule 8 (loop): no method calls itself with exactly the arguments it was given.
Rule 9 (extension): the methods listed in cfg/c22_virtual.txt, which applications redefine, are (still) virtual.
Decided for every class, method pair and call of the type-checked program."""
import flow
from lib import read_table
from model import expr_str
from zone import strip


VALUES = frozenset(['Vec3'])     # a point of a space-time point: what it adds is not part of the point


def rec_of(P, t):
    """Record of a class, pointer or reference type."""
    t = t.deref() if t is not None else None
    if t is not None and t.k == 'ptr' and t.p is not None:
        t = t.p
    return P.records.get((t.r or '').split('@')[0]) if t is not None and t.r else None


def plain(t):
    """Type text without const, references and the differences between the integer types."""
    while t is not None and t.k in ('ref', 'rref') and t.p is not None:
        t = t.p
    if t is None:
        return '?'
    if t.k in ('int', 'char', 'bool', 'enum'):
        return 'int'
    if t.k in ('float', 'double'):
        return 'real'
    if t.k == 'ptr' and t.p is not None:
        return plain(t.p) + '*'
    return (t.r or t.s).replace('const ', '').strip()


def exact(m):
    return [t.s for t in m.p]


def roots(P, m):
    out, st = set(), [m.u]
    while st:
        u = st.pop()
        if u in out:
            continue
        out.add(u)
        d = P.funs.get(u)
        if d is not None:
            st += d.ov
    return out


def near(m, b):
    """How the method differs from the virtual method it may be meant to override, or None."""
    a, c = [plain(t) for t in m.p], [plain(t) for t in b.p]
    if a == c:
        if m.const != b.const and exact(m) == exact(b):
            return 'is %sconst' % ('' if m.const else 'not ')
        if exact(m) != exact(b):
            return 'has parameters of other types'
        return None             # the same method of a base class that depends on a template parameter
    if len(a) < len(c) and a == c[:len(a)] and b.dv and all(b.dv[len(a):]):
        return 'lacks the parameter%s %s' % ('s' if len(c) - len(a) > 1 else '', ', '.join(x or '(unnamed)' for x in b.pn[len(a):]))
    if len(a) > len(c) and a[:len(c)] == c and len(c) and m.dv and all(m.dv[len(c):]):
        return 'has more parameters'
    if len(a) < len(c) and len(a) > 2 and a == c[:len(a)] and len(c) == len(a) + 1:
        return 'lacks the parameter %s' % (b.pn[-1] or '(unnamed)')
    return None


def ours(f):
    return f and not f.startswith('/') and '3rdparty' not in f


def success(r):
    """Does the return node hand back anything else than a failure?"""
    e = strip(r.c()) if r.kids else None
    return not (e is not None and (e.k == 'bool' and not e.get('v') or e.k == 'int' and str(e.get('v')).startswith('-')))


def run(P, ctx):
    # ---- 9 extension
    for row in read_table('c22_virtual.txt'):
        q, name = row[0].rsplit('::', 1)
        n, many = int(row[1]), int(row[2])
        r = P.records.get(q)
        if r is None:
            continue
        l = [m for m in r.methods if m.n == name and m.kind == 'method' and not m.static and len(m.p) == n]
        ctx.count('extension points')
        for m in [m for m in l if not m.virtual][:max(0, min(many, len(l)) - sum(1 for m in l if m.virtual))]:
            ctx.viol('extension', row[0], '%d parameters' % n, 'is not virtual: the redefinitions of it in the applications are not '
                     'reached from the library', file=m.f, line=m.l)
    ctx.need('extension points', 450, 'virtual methods that applications redefine')
    # ---- 1 override, 4 default
    told = set()
    for q, r in sorted(P.records.items()):
        if not ours(r.file):
            continue
        ctx.count('classes')
        names = {}
        for m in r.methods:
            if m.kind == 'method' and not m.static and not m.implicit:
                names.setdefault(m.n, []).append(m)
        for b in sorted(P.all_bases(q)):
            br = P.records.get(b)
            if br is None:
                continue
            for bm in br.methods:
                if not bm.virtual and bm.kind == 'method' and not bm.static and br.poly and bm.acc != 'private':
                    for m in names.get(bm.n, ()):
                        if exact(m) != exact(bm) or m.n == 'operator=' or m.u in told:
                            continue
                        ctx.count('methods that hide one of a base class')
                        if not ctx.excepted(P, 'c22_allow.txt', '%s::%s' % (q, m.n), 'hides %s' % bm.q):
                            told.add(m.u)
                            ctx.viol('override', '%s::%s' % (q, m.n), 'hides %s' % bm.q, 'has the same parameters as %s, which is not '
                                     'virtual: a call through %s does not reach it' % (bm.q, br.q), file=m.f, line=m.l)
                if not bm.virtual or bm.kind != 'method':
                    continue
                ctx.count('virtual methods a class inherits')
                l = names.get(bm.n, ())
                if not l or any(bm.u in roots(P, m) for m in l):
                    ctx.count('overrides', 1 if l else 0)
                    continue
                for m in l:
                    if m.ov or m.deleted:
                        continue
                    how = near(m, bm)
                    ctx.count('methods with the name of a virtual method they do not override')
                    if how is None or m.u in told or ctx.excepted(P, 'c22_allow.txt', '%s::%s' % (q, m.n), 'override %s::%s' % (br.q, bm.n)):
                        continue
                    told.add(m.u)
                    ctx.viol('override', '%s::%s' % (q, m.n), '%s::%s' % (br.q, bm.n),
                             'looks like the virtual method %s of %s but %s, so it does not override it and is never called '
                             'through %s' % (bm.n, br.q, how, br.q), file=m.f, line=m.l)
        for m in r.methods:
            for o in m.ov:
                b = P.funs.get(o)
                if b is None or not (m.dv and b.dv):
                    continue
                ctx.count('overrides with default arguments')
                for i, (x, y) in enumerate(zip(m.dv, b.dv)):
                    a = m.pn[i] or b.pn[i] or str(i + 1)
                    if x and y and x != y and not ctx.excepted(P, 'c22_allow.txt', m.q, 'default %s' % a):
                        ctx.viol('default', m.q, a,
                                 'the default value of %s is %s here but %s in %s, so what the call does depends on the class '
                                 'it is made through' % (a, x, y, b.q), file=m.f, line=m.l)
    # ---- expressions
    ext = {}
    for row in read_table('c22_extends.txt'):
        ext[row[0]] = row[1]
    for fn in P.fns:
        if not ours(fn.file):
            continue
        d = fn.decl
        mine = d.rec if d is not None else None
        for n in fn.walk():
            if n.k == 'delete' and n.kids and n.c().t is not None:
                r = rec_of(P, n.c().t)
                ctx.count('deletions')
                if r is not None and not r.dep and not r.vdtor and P.all_derived(r.q) and '<' not in r.q:
                    der = sorted(x for x in P.all_derived(r.q))
                    ctx.viol('destructor', fn.q, 'delete %s' % r.q,
                             'an object is deleted as %s, whose destructor is not virtual: the destructor of a derived class '
                             '(%s) is not called' % (r.q, der[0]), fn=fn, node=n, P=P)
            elif n.k == 'ctor' and n.callee is not None and n.callee.kind in ('cctor', 'mctor') and n.args:
                ctx.count('copied objects')
                a = n.args[0].t
                a = a.deref() if a is not None else None
                to = P.records.get(n.callee.rec or '')
                if a is None or not a.r or to is None or not to.poly or to.q in VALUES or a.r == to.q or not P.is_a(a.r, to.q):
                    continue
                if any(n is i['e'] or n in i['e'].walk() for i in (fn.inits or ()) if i.get('e') is not None):
                    continue            # the base class part of a copy
                ctx.viol('sliced', fn.q, '%s from %s' % (to.q, a.r),
                         'an object of class %s is copied into one of its base class %s: what %s adds or overrides is lost' %
                         (a.r, to.q, a.r), fn=fn, node=n, P=P)
            if n.k != 'call' or n.callee is None or not n.callee.rec:
                continue
            c = n.callee
            onthis = n.obj is None or strip(n.obj).k == 'this'
            if d is not None and d.kind in ('ctor', 'cctor', 'mctor', 'dtor') and c.virtual and onthis and not n.get('nv') and mine:
                ctx.count('virtual methods called in constructors and destructors')
                if c.rec == mine or P.is_a(mine, c.rec):
                    ov = sorted(o.q for o in P.all_overriders(c) if o.rec != mine and P.is_a(o.rec, mine))
                    if c.pure and c.rec == mine:
                        ctx.viol('early', fn.q, c.n, 'the pure virtual method %s is called in the %s' %
                                 (c.n, 'destructor' if d.kind == 'dtor' else 'constructor'), fn=fn, node=n, P=P)
                    elif ov and not ctx.excepted(P, 'c22_allow.txt', fn, 'early %s' % c.n):
                        ctx.viol('early', fn.q, c.n,
                                 'the virtual method %s is called in the %s: the override %s is not used, although the object '
                                 'may be of that class' % (c.n, 'destructor' if d.kind == 'dtor' else 'constructor', ov[0]),
                                 fn=fn, node=n, P=P)
            if d is None or not mine or fn.lam or not onthis:
                continue
            if n.get('nv') and c.rec != mine and P.is_a(mine, c.rec) and c.n == d.n:
                # the layer below
                ctx.count('calls to the implementation of a base class')
                rs = roots(P, d) & roots(P, c)
                if rs:
                    for b in sorted(P.all_bases(mine)):
                        if b == c.rec or not P.is_a(b, c.rec):
                            continue
                        br = P.records.get(b)
                        for x in br.methods if br is not None else ():
                            if x.n == c.n and not x.pure and c.u in roots(P, x) and \
                               not ctx.excepted(P, 'c22_allow.txt', fn, 'skipped %s' % x.q):
                                ctx.viol('skipped', fn.q, x.q,
                                         'hands over to %s, although the class in between has its own %s' % (c.q, x.q),
                                         fn=fn, node=n, P=P)
            if c.u == d.u and len(n.args) == len(fn.params) and (n.get('nv') or not c.virtual or onthis):
                ctx.count('methods that call themselves')
                same = True
                for a, p in zip(n.args, fn.params):
                    a = strip(a)
                    while a is not None and a.k == 'ctor' and len(a.args) == 1:
                        a = strip(a.args[0])
                    if a is None or a.k != 'ref' or a.d.get('d') != p['d']:
                        same = False
                if same and fn.params and not any(changed(fn, p['d']) for p in fn.params):
                    ctx.viol('loop', fn.q, 'itself', 'calls itself with the arguments it was given: it never returns', fn=fn, node=n, P=P)
    # ---- 7 extends
    for root, mode in sorted(ext.items()):
        ds = [x for x in P.funs.values() if x.q == root and x.kind == 'method']
        if not ds:
            ctx.count('layers that no longer exist')
            continue
        base = ds[0].rec
        for fn in P.fns:
            d = fn.decl
            if d is None or fn.lam or not d.rec or d.n != ds[0].n or not ours(fn.file):
                continue
            if not any(x.u in roots(P, d) and x.u != d.u for x in ds):
                continue
            if not below(P, d) or ctx.excepted(P, 'c22_allow.txt', fn, 'extends %s' % root):
                continue
            calls = set()
            for n in fn.walk():
                if n.k == 'call' and n.callee is not None and n.callee.n == d.n and n.callee.u != d.u and n.callee.rec and \
                   (n.obj is None or strip(n.obj).k == 'this') and (P.is_a(d.rec, n.callee.rec) or n.callee.rec != d.rec):
                    calls.add(n)
                elif mode == 'some' and n.k == 'call' and n.callee is not None and n.callee.n == d.n and n.callee.rec and \
                        roots(P, n.callee) & roots(P, d):
                    calls.add(n)        # by another object, which is a layer of the same operation
                elif n.k == 'call' and n.callee is None and n.name == d.n:
                    calls.add(n)        # a base class that is a template parameter
            ctx.count('layers')
            if not calls:
                # by a helper of the same class
                if any(m.k == 'call' and m.callee is not None and m.callee.rec and handing(P, m.callee, d, set()) for m in fn.walk()
                       if m.k == 'call' and (m.obj is None or strip(m.obj).k == 'this')):
                    ctx.count('layers that hand over by a helper')
                    continue
                ctx.viol('extends', fn.q, root, 'does not hand over to the implementation of %s in its base class: that part of '
                         'the operation is lost for objects of class %s' % (d.n, d.rec), fn=fn, P=P)
                continue
            ctx.sample('layers', '%s -> %s' % (fn.q, sorted(c.callee.q if c.callee is not None else c.name for c in calls)[0]))
            if mode != 'all':
                continue
            cids = set(id(c) for c in calls)

            def tr(n, s):
                if id(n) in cids:
                    return frozenset(['done'])
                if n.k == 'call' and n.callee is not None and n.callee.rec and (n.obj is None or strip(n.obj).k == 'this') and \
                   n.callee.u != d.u and n.callee.n != d.n and handing(P, n.callee, d, set()):
                    return frozenset(['done'])
                if n.k == 'return' and 'no' in s and success(n) and not within(n, cids):
                    bad.append(n)
                return s
            bad = []
            ins = flow.forward(fn, frozenset(['no']), tr)
            del bad[:]
            for b in ins:
                flow.through(fn, fn.blocks[b], ins[b], tr)
            if fn.exit in ins and 'no' in ins[fn.exit] and (d.r is None or d.r.k == 'void'):
                bad.append(None)
            seen = False
            for r in bad:
                if not seen:
                    ctx.viol('extends', fn.q, root + ' on every path', 'there is a path that succeeds without handing over to the '
                             'implementation of %s in the base class' % d.n, fn=fn, node=r, P=P)
                seen = True
    ctx.need('overrides', 1100, 'overrides')
    ctx.need('virtual methods a class inherits', 5500, 'inherited virtual methods')
    ctx.need('copied objects', 100, 'copied objects')
    ctx.need('deletions', 150, 'deletions')
    ctx.need('calls to the implementation of a base class', 60, 'calls to base class implementations')
    ctx.need('layers', 20, 'layered operations')
    ctx.assume('classes of applications outside the repository are not seen; the rules decide for the classes of the library, its '
               'utilities and its applications')
    ctx.explain.append(__doc__.replace('\n', ' '))


def below(P, d):
    """Has a base class an implementation of the method that does something?"""
    for u in roots(P, d):
        x = P.funs.get(u)
        if x is None or x.u == d.u or x.pure:
            continue
        if x.body is None or any(m.k not in ('compound', 'return', 'bool', 'int', 'cast', 'nullptr') for m in x.body.body.walk()):
            return True
    return False


def within(r, cids):
    return any(id(x) in cids for x in r.walk())


def handing(P, c, d, seen):
    """Does a helper of the class call the base class implementation of the method?"""
    if c.u in seen or len(seen) > 40 or c.body is None or not d.rec or not (c.rec == d.rec or P.is_a(d.rec, c.rec)):
        return False
    seen.add(c.u)
    for m in c.body.walk():
        if m.k == 'call' and m.callee is not None and m.callee.rec:
            if m.callee.n == d.n and m.get('nv') and m.callee.rec != d.rec and P.is_a(d.rec, m.callee.rec):
                return c.rec == d.rec
            if m.callee.rec == d.rec and m.callee.n != d.n and handing(P, m.callee, d, seen):
                return True
    return False


def changed(fn, v):
    for n in fn.walk():
        if n.k in ('bin', 'un') and n.op and (n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>=') or n.op in ('++', '--', 'p++', 'p--')):
            e = strip(n.c())
            if e is not None and e.k == 'ref' and e.d.get('d') == v:
                return True
    return False

"""C12: an index that is checked, searched or read from input is within range where it is used.

Rule 1 (guard): where a loop condition or range check relates an index to the size of the container it is used in, it
implies that the index is within range at every such use (difference-bound dataflow over every path).
Rule 2 (not found): the result of a function that reports "not found" by a constant outside the index range is tested
before it is used as an index.
Rule 3 (input): an integer read from the input is bounded on both sides before it is used as an index, locally or by a
function it is passed to.
Rule 4 (wrap): an unsigned difference that is compared (loop bounds, range checks) is proven not to be below zero.
Rule 5 (base): an argument that may be zero is not passed for a parameter that counts from one (it is used as an index less
one, directly or by a function it is passed to), and the limit of a loop is not passed for one that counts from zero."""
import re
import flow
import par
import zone
from model import expr_str
from zone import strip

NUM = frozenset(['atoi', 'atol', 'strtol', 'strtoul', 'stoi', 'stol', 'stoul'])
INF = 1 << 40
P = None
LOW = {}
SINK = {}
ORG = {}
ZERO = {}
CHK = 'it returns early otherwise'
RDECL = {}


def body(d):
    return d.body or (P.by_usr.get(d.pat) if d.pat else None)


def extent(t):
    t = t.deref() if t is not None else None
    if t is None:
        return None
    if t.k == 'arr' and t.n:
        return int(t.n)
    s = t.s.replace('const ', '')
    if s.startswith('std::array<'):
        try:
            return int(s.rstrip('> &').rsplit(',', 1)[1].strip().rstrip('UL'))
        except ValueError:
            return None
    if (t.r or s) == 'Vec3':
        return 3
    return None


def accesses(z, n):
    """(container text, (size term, constant), index expression, base)."""
    if n.k == 'idx':
        b = strip(n.c(0))
        e = extent(b.t)
        if e is not None:
            yield expr_str(b), ('0', e), n.c(1), 0
        elif b.t is not None and b.t.k == 'dep' and z.key(b):
            yield expr_str(b), (z.key(b) + '.size()', 0), n.c(1), 0
        elif b.t is not None and b.t.k == 'ptr' and z.key(b):
            yield expr_str(b), (z.key(b) + '.#extent', 0), n.c(1), 0
    elif n.k == 'call' and n.callee is None and n.kids and n.kids[0].role == 'f' and n.kids[0].k in ('var', 'mem') and n.args:
        o = n.kids[0]           # type-dependent x(i,j)
        kd, k = zone.container(o.t), z.key(o)
        if k and kd == 'uvec':
            yield expr_str(o), (k + '.size()', 0), n.args[0], 1
        elif k and kd == 'umat' and len(n.args) == 2:
            yield expr_str(o), (k + '.rows()', 0), n.args[0], 1
            yield expr_str(o), (k + '.cols()', 0), n.args[1], 1
    elif n.k == 'call' and n.obj is not None and n.args:
        o = n.obj
        kd = zone.container(o.t)
        nm = n.callee.n if n.callee is not None else None
        if n.op == '[]' or nm == 'operator[]':
            e = extent(o.t)
            if e is not None:
                yield expr_str(o), ('0', e), n.args[0], 0
                return
        k = z.key(o)
        if k is None or kd is None:
            return
        if n.op == '[]' and kd in ('vec', 'uvec'):
            yield expr_str(o), (k + '.size()', 0), n.args[0], 0
        elif n.op == '()' and kd == 'uvec':
            yield expr_str(o), (k + '.size()', 0), n.args[0], 1
        elif n.op == '()' and kd == 'umat' and len(n.args) >= 2:
            yield expr_str(o), (k + '.rows()', 0), n.args[0], 1
            yield expr_str(o), (k + '.cols()', 0), n.args[1], 1
        elif n.op == '()' and kd in ('mat3', 'mat4'):
            for i, a in enumerate(n.args):
                yield expr_str(o), (k + '.dim(#%d)' % (i + 1), 0), a, 1
        elif kd == 'umat' and nm in ('getColumn', 'fillColumn'):
            yield expr_str(o), (k + '.cols()', 0), n.args[0], 1
        elif kd == 'umat' and nm in ('getRow', 'fillRow'):
            yield expr_str(o), (k + '.rows()', 0), n.args[0], 1


# -- results that may be "not found" ---------------------------------------------------------------------------
def literals(e):
    e = strip(e)
    if e is None:
        return
    if e.k == 'cond':
        for c in e.kids[1:]:
            for x in literals(c):
                yield x
    elif e.k == 'int':
        yield int(e.get('v')), True
    elif e.k == 'un' and e.op == '-' and strip(e.c()).k == 'int':
        yield -int(strip(e.c()).get('v')), True
    else:
        yield None, False


def low_of(d, depth=0):
    if d.u in LOW:
        return LOW[d.u]
    LOW[d.u] = None
    b, r = body(d), None
    if b is not None and b.body is not None and d.in_repo() and zone.isint(d.r):
        vs, L = 0, []
        for n in b.walk():
            if n.k == 'return' and n.kids:
                for v, lit in literals(n.kids[0]):
                    vs += 1
                    if lit:
                        L.append(v)
                e = strip(n.kids[0])
                if e.k == 'call' and depth < 4:
                    x = low(e, depth + 1)
                    if x is not None:
                        L.append(x)
                        vs += 1
        if L and len(L) < vs and min(L) <= 0:
            r = min(L)
    LOW[d.u] = r
    return r


def low(call, depth=0):
    """Least constant a call may return besides its regular results."""
    if call.callee is None:
        return None
    c = [low_of(d, depth) for d in P.targets(call)]
    c = [x for x in c if x is not None]
    return min(c) if c else None


# -- integers read from input ----------------------------------------------------------------------------------
def holds(t):
    """Does an object of this type hold integers?"""
    t = t.deref() if t is not None else None
    return t is not None and (zone.isint(t) or zone.container(t) in ('vec', 'uvec') and t.ta and zone.isint(t.ta[0]) or
                              t.s.replace('const ', '').startswith('std::set<int'))


def tainted(fn, z):
    """{key of a variable: source text}."""
    T = {}
    for n in fn.walk():
        if n.k != 'call' or n.callee is None:
            continue
        d = n.callee
        if d.n in ('getAttribute', 'parseIntegers') or n.op == '>>' or d.n == 'operator>>':
            for a in n.args + ([n.obj] if n.obj is not None else []):
                b = strip(a)
                if b.k in ('var', 'mem') and holds(b.t):
                    k = z.key(b)
                    if k:
                        T[k] = d.n if d.n != 'operator>>' else 'stream input'
    ch = True
    while ch:
        ch = False
        for n in fn.walk():
            if n.k == 'vardecl' and n.kids and holds(fn.locals[n.get('d')]['t']):
                k, e = 'v%d:%s' % (n.get('d'), n.name), n.kids[0]
            elif n.k == 'assign' and zone.isint(n.c(0).t):
                k, e = z.key(n.c(0)), n.c(1)
            elif n.k == 'rfor':
                lv, rs = n.child('lv'), n.child('rs')
                v = [m for m in lv.walk() if m.k == 'vardecl'] if lv is not None else []
                if not v or rs is None or not zone.isint(fn.locals[v[0].get('d')]['t']):
                    continue
                k, e = 'v%d:%s' % (v[0].get('d'), v[0].name), rs
                for m in rs.walk():
                    if m.k == 'vardecl' and m.kids:
                        e = m.kids[0]
                        break
            else:
                continue
            if k and k not in T:
                w = source(z, e, T)
                if w:
                    T[k] = w
                    ch = True
    return T


def source(z, e, T):
    """The source of the value of e, followed through arithmetic and element access only."""
    e = strip(e)
    if e is None:
        return None
    if e.k in ('var', 'mem'):
        return T.get(z.key(e))
    if e.k == 'call' and e.callee is not None:
        if e.callee.n in NUM:
            return e.callee.n
        if e.callee.n in ('abs', 'max', 'min') and e.obj is None:
            for a in e.args:
                w = source(z, a, T)
                if w:
                    return w
        if e.obj is not None and (e.op == '[]' or e.callee.n in ('front', 'back', 'operator[]')) and zone.isint(e.t):
            return source(z, e.obj, T)
        return None
    if e.k == 'ctor' and len(e.args) == 1:
        return source(z, e.args[0], T)
    if e.k in ('bin', 'cond', 'un') and e.op not in ('%', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '!'):
        for c in (e.kids[1:] if e.k == 'cond' else e.kids):
            w = source(z, c, T)
            if w:
                return w
    return None


def sinks(fn):
    """Parameters that are used as an index without being bounded on both sides: {i: text}."""
    out = {}
    if not fn.blocks or not any(zone.isint(p['t']) for p in fn.params):
        return out
    keys = {'v%d:%s' % (p['d'], p['n']): i for i, p in enumerate(fn.params) if p['t'].k == 'int'}
    if not any(n.k == 'idx' or n.k == 'call' and n.op in ('[]', '()') for n in fn.walk()):
        return out
    z = zone.Zone(fn)
    if z.solve() is None:
        return out
    for b, s in z.ins.items():
        for n in flow.elems(fn, fn.blocks[b]):
            for nm, sz, ix, base in accesses(z, n):
                l = z.lin(ix)
                if l is not None and l[0] in keys and not inside(z, s, l, sz, base):
                    out[keys[l[0]]] = '%s[%s]' % (nm, expr_str(ix))
            s = z.transfer(n, s)
    return out


def origin(fn):
    """Least value a parameter must have to be used the way it is: ({i: (least, text)}, [(i, constant, callee, j)])."""
    out, pas, zero = {}, [], {}
    keys = {'v%d:%s' % (p['d'], p['n']): i for i, p in enumerate(fn.params) if p['t'].k == 'int'}
    for n in fn.walk():         # only parameters that keep their value
        if n.k == 'assign' or n.k == 'un' and n.op.strip('p') in ('++', '--', '&'):
            x = strip(n.c(0))
            if x.k == 'var':
                keys.pop('v%d:%s' % (x.get('d'), x.name), None)
    if not keys or not fn.blocks:
        return out, pas, zero
    z = zone.Zone(fn)
    if z.solve() is None:
        return out, pas, zero

    def req(i, r, t):
        if r > out.get(i, (0, ''))[0]:
            out[i] = (r, t)
    for b, s in z.ins.items():
        for n in flow.elems(fn, fn.blocks[b]):
            for nm, sz, ix, base in accesses(z, n):
                l = z.lin(ix)
                if l is not None and l[0] in keys and base - l[1] == 0:
                    zero.setdefault(keys[l[0]], 'the index of %s' % nm)
                if l is not None and l[0] in keys and base - l[1] in (1, 2):
                    lb = z.bound(s, '0', l[0], False)
                    if lb is None or lb > l[1] - base:
                        req(keys[l[0]], base - l[1], 'the index of %s' % nm)
            if n.k in ('call', 'ctor') and n.callee is not None:
                for j, a in enumerate(n.args):
                    if a.k != 'defarg' and zone.isint(a.t):
                        l = z.lin(a)
                        if l is not None and l[0] in keys and z.bound(s, '0', l[0], False) is None:
                            for d in P.targets(n):
                                pas.append((keys[l[0]], l[1], d.u, j, d.q))
            s = z.transfer(n, s)
    for n in fn.walk():         # p < 1 rejected
        if n.k == 'bin' and n.op in ('<', '<=') and n.p is not None:
            a, b = z.lin(n.kids[0]), z.lin(n.kids[1])
            if a and b and a[0] in keys and b[0] == '0' and b[1] - a[1] + (n.op == '<=') == 1:
                q = n
                while q.p is not None and q.p.k == 'bin' and q.p.op == '||':
                    q = q.p
                if q.p is not None and q.p.k == 'if' and q.p.kids and q.p.child('then') is not None and \
                        any(m.k == 'return' and not any(
                        x.k == 'call' for x in m.walk()) for m in q.p.child('then').walk()):
                    req(keys[a[0]], 1, CHK)
    return out, pas, zero


def wrap(z, s, e, n, out, c):
    """Is the unsigned difference e proven not to be below zero?"""
    if e is None or e.k != 'bin' or e.op != '-' or not zone.unsigned(e.t):
        return
    a, b = z.lin(e.kids[0]), z.lin(e.kids[1])
    if a is None or b is None:
        c('unsigned differences of unknown terms')
        return
    c('unsigned differences compared')
    v = z.bound(s, b[0], a[0])
    lo = z.low(s, e.kids[0])
    if b[0] == '0' and lo is not None and lo >= b[1]:
        return
    if v is None or v + b[1] - a[1] > 0:
        out.append(('wrap', n.i, re.sub(r'\d+', '_', name((a[0], 0), '')) + ' wrap', 'the unsigned difference %s wraps to a huge value where %s is less than %s, which no '
                    'check before this comparison excludes' % (expr_str(e), expr_str(e.kids[0]), expr_str(e.kids[1]))))


def inside(z, s, l, sz, base):
    ub = z.bound(s, l[0], sz[0], False)
    lb = z.bound(s, '0', l[0], l[0] in z.uns)
    return ub is not None and ub + l[1] - sz[1] - base <= -1 and lb is not None and -lb + l[1] - base >= 0


def job(fn):
    out, cnt = [], {}

    def c(k):
        cnt[k] = cnt.get(k, 0) + 1
    if not any(n.k == 'idx' or n.k in ('call', 'ctor') for n in fn.walk()):
        return out, cnt
    z = zone.Zone(fn, low)
    if z.solve() is None:
        c('functions given up')
        return out, cnt
    c('functions')
    T = tainted(fn, z)
    lv = set('v%d:%s' % (m.get('d'), m.name) for n in fn.walk() if n.k == 'for' and n.child('init') is not None
             for m in n.child('init').walk() if m.k == 'vardecl' and m.kids and strip(m.kids[0]).k == 'int')
    ov = {}
    for n in fn.walk():
        if n.k == 'for' and n.child('cond') is not None and strip(n.child('cond')).k == 'bin' and strip(n.child('cond')).op in ('<', '<='):
            b = strip(n.child('cond'))
            l, r = z.lin(b.kids[0]), z.lin(b.kids[1])
            ini = [strip(m.kids[0]) for m in n.child('init').walk() if m.k == 'vardecl' and m.kids] if n.child('init') is not None else []
            if l is not None and r is not None and r[0] != '0' and any(m.k == 'int' for m in ini):
                ov[l[0]] = (l[1] + (b.op == '<') - r[1], r[0])
    steps = z.step
    groups = {}
    for b, s in z.ins.items():
        for n in flow.elems(fn, fn.blocks[b]):
            for nm, sz, ix, base in accesses(z, n):
                c('element accesses')
                l = z.lin(ix)
                sx = strip(ix)
                call = low(sx) if sx.k == 'call' else low(strip(sx.kids[0])) if sx.k == 'bin' and strip(sx.kids[0]).k == 'call' else None
                if l is None:
                    if call is not None and sx.k == 'call' and call < base:
                        out.append(('not-found', n.i, name(sz, nm) + ' not found', '%s may return %d ("not found"), which is used as '
                                    'an index of %s without being tested' % (sx.callee.q, call, nm)))
                    continue
                ub = z.bound(s, l[0], sz[0], False)
                if ub is not None:
                    v = ub + l[1] - sz[1] - base
                    st = steps.get(l[0], 1)
                    if v <= -1:
                        c('accesses within the upper bound')
                    elif l[0] == '0' and (z.bound(s, sz[0], '0', False) is None or z.bound(s, sz[0], '0', False) + sz[1] > l[1] - base):
                        c('constant indices of containers of unknown size')
                    elif st > 1 and v < st - 1:
                        c('strided accesses')
                    else:
                        out.append(('guard', n.i, name(sz, nm) + ' high', 'the checks before this use allow %s to be %s '
                                    'the last index of %s' % (expr_str(ix), 'one past' if v == 0 else '%d past' % (v + 1), nm)))
                elif l[0] != '0':
                    k = either(z, n, l[0], sz[0])
                    if k is not None:
                        out.append(('guard', n.i, name(sz, nm) + ' either', 'the condition %s holds also where %s is not below the size of '
                                    '%s' % (expr_str(k), expr_str(ix), nm)))
                lb = z.bound(s, '0', l[0], False)
                if lb is None and call is not None:
                    lb = -call
                if lb is not None:
                    v = -lb + l[1] - base
                    if v >= 0:
                        c('accesses within the lower bound')
                    else:
                        out.append(('guard', n.i, name(sz, nm) + ' low', 'the checks before this use allow %s to be %d, '
                                    'below the first index of %s' % (expr_str(ix), v + base, nm)))
                if lb is None and l[0] != '0' and (ub is not None or any(
                        e[0] == l[0] and e[1][0] != zone.NE and e[1] != '0' and any(True for _ in checks(z, fn, l[0], e[1]))
                        for e in s)):
                    q = z.bound(s, '0', l[0], l[0] in z.uns)
                    if q is None or -q + l[1] - base < 0:
                        c('accesses checked from above only')
                        out.append(('half', n.i, name(sz, nm) + ' below', 'the index %s of %s has an upper limit before '
                                    'this use, but nothing keeps it from being below the first one' % (expr_str(ix), nm)))
                if ub is not None and l[0] != '0':
                    g = groups.setdefault((l[0], sz[0]), [-INF, n.i, nm, expr_str(ix), sz, base])
                    g[0] = max(g[0], ub + l[1] - sz[1] - base)
                if l[0] in T:
                    c('uses of input values as index')
                    if not inside(z, s, l, sz, base):
                        out.append(('input', n.i, name(sz, nm) + ' input', 'the index %s of %s comes from the input (%s) and is '
                                    'not bounded on both sides before this use' % (expr_str(ix), nm, T[l[0]])))
            if n.k == 'bin' and n.op in ('<', '<=', '>', '>='):
                for x in n.kids:
                    wrap(z, s, strip(x), n, out, c)
            if n.k in ('call', 'ctor') and n.callee is not None:
                for i, a in enumerate(n.args):
                    if a.k != 'defarg' and zone.isint(a.t):
                        R = [(ORG[d.u][i], d) for d in P.targets(n) if i in ORG.get(d.u, ())]
                        l = z.lin(a) if R else None
                        if l is None:
                            continue
                        c('arguments that count from one')
                        lb = z.bound(s, '0', l[0], False)
                        for (r, t), d in R:
                            if lb is not None and l[1] - lb < r and (t != CHK or l[0] in lv):
                                out.append(('base', n.i, '%s(%s)' % (d.n, re.sub(r'\w+', '_', expr_str(a))), 'the argument %s may be %d here, but %s counts it '
                                            'from %d (%s)' % (expr_str(a), l[1] - lb, d.q, r, t)))
                                break
                        R = [(ZERO[d.u][i], d) for d in P.targets(n) if i in ZERO.get(d.u, ())]
                        l = z.lin(a) if R else None
                        if l is not None:
                            c('arguments that count from zero')
                            if l[0] in ov and l[1] >= ov[l[0]][0]:
                                t, d = R[0]
                                out.append(('base', n.i, '%s(%s) zero' % (d.n, re.sub(r'\w+', '_', expr_str(a))), 'the argument %s counts up to and including '
                                            'the limit of its loop, but %s counts it from zero (%s)' % (expr_str(a), d.q, t)))
            if T and n.k in ('call', 'ctor') and n.callee is not None:
                for i, a in enumerate(n.args):
                    if a.k == 'defarg' or not zone.isint(a.t):
                        continue
                    l = z.lin(a)
                    if l is None or l[0] not in T:
                        continue
                    for d in P.targets(n):
                        t = SINK.get(d.u, {}).get(i)
                        if t is None:
                            continue
                        c('input values passed as an index')
                        up = any(e[0] == l[0] and e[1][0] != zone.NE and e[1] != '0' or e == (l[0], '0') for e in s)
                        lo = l[0] in z.uns or any(e[1] == l[0] for e in s)
                        if not (up and lo):
                            out.append(('input', n.i, '%s(%s)' % (d.n, expr_str(a)), '%s comes from the input (%s) and is passed '
                                        'unchecked to %s, which uses it as the index %s' % (expr_str(a), T[l[0]], d.q, t)))
            s = z.transfer(n, s)
    for (x, y), (v, i, nm, ix, sz, base) in groups.items():
        if v == -2 and sz[0] != '0':
            for k in checks(z, fn, x, y, True):
                c('range checks with a margin')
                out.append(('last', i, name(sz, nm) + ' last', 'the check %s before this use keeps the index %s from reaching the last '
                            'element of %s' % (expr_str(k), ix, nm)))
    return out, cnt


def either(z, n, x, y):
    """The condition of the innermost statement around n that relates x to y, where it holds for another reason as well."""
    p, q = n, n.p
    while q is not None and q.k not in ('lambda',):
        k = None
        if q.k in ('for', 'while', 'if', 'cond'):
            k = q.child('cond') if q.k != 'cond' else q.kids[0]
            if k is not None and (p is k or q.k in ('if', 'cond') and p is not (q.child('then') if q.k == 'if' else q.kids[1])):
                k = strip(k) if p is not k else None
                if k is not None and mentions(z, k, x):
                    return None
                k = None
        elif q.k == 'bin' and q.op in ('&&', '||') and p is not q.kids[0] and mentions(z, q.kids[0], x):
            return None
        if k is not None and mentions(z, k, x):
            k = strip(k)
            vs = set()
            for m in k.walk():
                if m.k == 'var':
                    vs.add(m.get('d'))
            if k.k != 'bin' or k.op != '||' or q.k not in ('for', 'while'):
                return None
            hit, st = False, [k]
            while st:
                m = strip(st.pop())
                if m.k == 'bin' and m.op in ('||', '&&'):
                    st += m.kids
                elif m.k == 'bin' and m.op in ('<', '<=', '>', '>=', '!=') and m.kids:
                    a, b = z.lin(m.kids[0]), z.lin(m.kids[1])
                    hit |= a is not None and b is not None and set((a[0], b[0])) == set((x, y))
            if not hit:
                return None
            a, b = n, n.p       # any other test of the same variables on the way
            while b is not q:
                c = b.child('cond') if b.k in ('if', 'for', 'while') else b.kids[0] if b.k == 'cond' or b.k == 'bin' and b.op in (
                    '&&', '||') else None
                if c is not None and a is not c and any(m.k == 'var' and m.get('d') in vs for m in c.walk()):
                    return None
                a, b = b, b.p
            return k
        p, q = q, q.p
    return None


def mentions(z, e, x):
    for m in e.walk():
        if m.k == 'bin' and m.op in ('<', '<=', '>', '>=', '!=', '==') and m.kids:
            for c in m.kids:
                l = z.lin(c)
                if l is not None and l[0] == x:
                    return True
    return False


def checks(z, fn, x, y, loops=False):
    """Range checks (not loop conditions) that compare the terms x and y as x < y (+ constant)."""
    for n in fn.walk():
        if n.k == 'bin' and n.op in ('<', '<=', '>', '>=') and n.kids:
            a, b = z.lin(n.kids[0]), z.lin(n.kids[1])
            if a is None or b is None or set((a[0], b[0])) != set((x, y)) or loops and (a[1] or b[1]):
                continue
            p, q = n, n.p
            while q is not None and (q.k in ('bin', 'un', 'cast', 'expr') or q.k == 'cond' and p is not q.kids[0]):
                p, q = q, q.p
            if loops is False and q is not None and q.k in ('for', 'while', 'do', 'rfor'):
                continue
            yield n


def name(sz, nm):
    """Name of the indexed container that does not depend on the names of local variables."""
    m = re.sub(r'v\d+:\w+|#\d+', '_', sz[0] if sz[0] != '0' else 'array of %d' % sz[1])
    return m.replace('this.', '').replace('.#extent', '')


def run(prog, ctx):
    global P
    P = prog
    LOW.clear()
    zone.Zone.mods = zone.Mods(P)
    SINK.clear()
    fns = [f for f in P.fns if f.blocks and '3rdparty' not in f.file and not f.file.startswith('/')]
    for n in (n for f in fns for n in f.walk() if n.k == 'call' and n.callee is not None):
        low(n)
    for f, r in zip(fns, par.pmap(sinks, fns, 16)):
        if r:
            SINK[f.decl.u] = r
    ctx.count('functions that report "not found" by a constant', len([1 for v in LOW.values() if v is not None]))
    ctx.count('functions with unchecked index parameters', len(SINK))
    ORG.clear()
    ZERO.clear()
    pas = []
    for f, (o, q, z) in zip(fns, par.pmap(origin, fns, 16)):
        if o:
            ORG[f.decl.u] = o
        if z:
            ZERO[f.decl.u] = {i: t for i, t in z.items() if i not in o}
        pas += [(f.decl.u,) + x for x in q]
    ch = True
    while ch:
        ch = False
        for u, i, k, v, j, q in pas:
            r = ORG.get(v, {}).get(j)
            if r and r[0] - k in (1, 2) and r[0] - k > ORG.get(u, {}).get(i, (0, ''))[0]:
                ORG.setdefault(u, {})[i] = (r[0] - k, CHK if r[1] == CHK else 'passed to %s' % q)
                ch = True
    ctx.count('functions with parameters that count from one', len(ORG))
    seen = set()
    for f, (out, cnt) in zip(fns, par.pmap(job, fns, 16)):
        for k, v in cnt.items():
            ctx.count(k, v)
        for rule, i, inst, msg in out:
            if (f, inst, rule) in seen:
                continue
            seen.add((f, inst, rule))
            if ctx.excepted(P, 'c12_allow.txt', f, inst) is not None:
                ctx.count('accesses within range by an invariant (cfg/c12_allow.txt)')
                continue
            ctx.viol(rule, f.q, inst, msg, fn=f, node=f.nodes.get(i), P=P)
    ctx.need('element accesses', 4000, 'element accesses')
    ctx.need('accesses within the upper bound', 1800, 'accesses proven to be below the upper bound')
    ctx.need('accesses within the lower bound', 3000, 'accesses proven to be above the lower bound')
    ctx.need('uses of input values as index', 8, 'uses of input values as index')
    ctx.need('functions that report "not found" by a constant', 20, 'functions that may report not found')
    ctx.need('arguments that count from one', 250, 'arguments for parameters that count from one')
    ctx.explain.append(__doc__.replace('\n', ' '))

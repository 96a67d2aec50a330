"""C11: only degrees of freedom, nodes and constraints that exist are addressed.

The equation of a degree of freedom is zero when it is fixed and negative when it is a slave, the node of an element is
negative when it is left out, and the master of a constraint is not positive when it is not free (cfg/c11_tables.txt).
Rule 1 (signed): such a number is found to be positive, on every path, before it (or its negative) is used to address a
matrix, a vector or another table, here or in a function it is passed to (difference bounds over the flow graph; taint of
the numbers through variables, arguments and containers). The equation of a positive master is positive.
Rule 2 (segment): an entry of a compressed table that is addressed relative to the positions of the list of a node, element
or constraint lies between the first and the last entry of that same list.
Rule 3 (whole): a loop over such a list comes to its first (for masters: the one after the slave) and its last entry.
Rule 4 (range): a block that is copied from such a table by two positions is one whole list.
Rule 5 (list): the list of a node, element or constraint number, which counts from one, begins at the entry before.
Rule 7 (counted): the number of an entry found in such a table counts from one where it is compared with positions.
Rule 6 (length): the length of a list is the difference between the positions of two consecutive lists."""
import re
import flow
import par
import zone
from lib import read_table
from model import expr_str
from rules import c12
from zone import strip

P = None
FIELD, OUT, RET, POS = {}, {}, {}, {}
PAR = {}        # (usr, i): kind of the numbers in the array or of the number handed over
ORG = {}
CONT = ('vec', 'uvec')


def tables():
    for d in (FIELD, OUT, RET, POS):
        d.clear()
    for r in read_table('c11_tables.txt'):
        if r[0] == 'number':
            m = re.match(r'(.*)\((\d)\)$', r[1])
            n = r[1].rsplit('::', 1)[1]
            if m:
                OUT.setdefault(m.group(1), {})[int(m.group(2))] = m.group(1).rsplit('::', 1)[1]
            else:
                FIELD[n] = n
                RET[r[1]] = n
        else:
            POS[r[1].rsplit('::', 1)[1]] = r[2].split(',')


class Nums(object):
    """The numbers of one function."""

    def __init__(self, fn, z):
        self.fn, self.z = fn, z
        self.A = {}     # key of an array or variable: kind
        self.pk = {}    # key of parameter: i
        for i, p in enumerate(fn.params):
            k = 'v%d:%s' % (p['d'], p['n'])
            self.pk[k] = i
            if (fn.decl.u, i) in PAR:
                self.A[k] = PAR[fn.decl.u, i]
        ch = True
        while ch:
            ch = False
            for n in fn.walk():
                for k, w in self.flow(n):
                    if k and w and k not in self.A:
                        self.A[k] = w
                        ch = True

    def flow(self, n):
        fn, z = self.fn, self.z
        if n.k == 'vardecl' and n.kids:
            t = fn.locals[n.get('d')]['t']
            k = 'v%d:%s' % (n.get('d'), n.name)
            if zone.isint(t.deref()):
                yield k, self.num(n.kids[0])
            else:
                yield k, self.src(n.kids[0])
        elif n.k == 'assign' and n.op == '=':
            l = strip(n.c(0))
            k = z.key(l)
            if zone.isint(l.t) and l.k == 'var':
                yield k, self.num(n.c(1))
            elif l.k == 'var':
                yield k, self.src(n.c(1))
        elif n.k == 'rfor':
            lv, rs = n.child('lv'), n.child('rs')
            v = [m for m in lv.walk() if m.k == 'vardecl'] if lv is not None else []
            if v and rs is not None and zone.isint(fn.locals[v[0].get('d')]['t'].deref()):
                e = next((m.kids[0] for m in rs.walk() if m.k == 'vardecl' and m.kids), rs)
                yield 'v%d:%s' % (v[0].get('d'), v[0].name), self.arr(e)
        elif n.k == 'call' and n.callee is not None:
            o = OUT.get(n.callee.q) or next((OUT[q] for q in self.roots(n.callee) if q in OUT), None)
            for i, w in (o or {}).items():
                if i < len(n.args):
                    yield z.key(n.args[i]), w
            if n.obj is not None and zone.container(n.obj.t) in CONT and n.callee.n in ('insert', 'push_back', 'emplace_back', 'assign'):
                for a in n.args:
                    w = self.num(a) if zone.isint(a.t) else self.src(a)
                    if w and n.callee.n != 'assign' or w and not zone.isint(a.t):
                        yield z.key(n.obj), w

    def roots(self, d):
        st, out = [d.u], set()
        while st:
            u = st.pop()
            f = P.funs.get(u)
            if f is not None and u not in out:
                out.add(u)
                st += f.ov
        return [P.funs[u].q for u in out]

    def src(self, e):
        """Kind of the array an iterator or pointer goes into."""
        e = strip(e)
        if e is None:
            return None
        if e.k == 'call' and e.callee is not None and e.callee.n in ('begin', 'end', 'cbegin', 'cend', 'data') and e.obj is not None:
            return self.arr(e.obj)
        if e.k == 'bin' and e.op in ('+', '-') and e.t is not None and e.t.k == 'ptr':
            return self.src(e.kids[0])
        return self.arr(e)

    def arr(self, e):
        e = strip(e)
        if e is None:
            return None
        if e.k == 'mem' and e.name in FIELD and e.t is not None and e.t.deref().k == 'ptr':
            return FIELD[e.name]
        if e.k in ('var', 'mem'):
            k = self.z.key(e)
            t = e.t.deref() if e.t is not None else None
            return self.A.get(k) if t is not None and not zone.isint(t) else None
        if e.k == 'call' and e.callee is not None and e.callee.q in RET and e.t is not None and e.t.k == 'ptr':
            return RET[e.callee.q]
        if e.k == 'ctor' and len(e.args) >= 1 and not zone.isint(e.args[0].t):
            return self.src(e.args[0])
        return None

    def num(self, e):
        """Kind of the number e is, or the negative of."""
        e = strip(e)
        if e is None:
            return None
        if e.k == 'un' and e.op == '-':
            return self.num(e.c())
        if e.k == 'var':
            return self.A.get(self.z.key(e)) if zone.isint(e.t) else None
        if e.k == 'idx':
            return self.arr(e.c(0)) if zone.isint(e.t) else None
        if e.k == 'un' and e.op == '*' and zone.isint(e.t):
            return self.src(e.c())
        if e.k == 'call' and e.op == '*' and zone.isint(e.t):
            return self.src(e.obj if e.obj is not None else e.args[0] if e.args else None)
        if e.k == 'call' and e.callee is not None:
            if e.callee.q in RET and zone.isint(e.t):
                return RET[e.callee.q]
            if e.obj is not None and zone.isint(e.t) and (e.op in ('[]', '()') or e.callee.n in ('front', 'back', 'at')):
                return self.arr(e.obj)
            return None
        if e.k == 'bin' and e.op in ('+', '-') and self.z.lin(e.kids[1]) and self.z.lin(e.kids[1])[0] == '0':
            return self.num(e.kids[0])
        if e.k == 'cond':
            return self.num(e.kids[1]) or self.num(e.kids[2])
        return None


def prepare(fn):
    """Arguments of this function that carry numbers: [(callee usr, i, kind)]."""
    out = []
    if not fn.body:
        return out
    z = zone.Zone(fn)
    N = Nums(fn, z)
    for n in fn.walk():
        if n.k in ('call', 'ctor') and n.callee is not None:
            ds = None
            for i, a in enumerate(n.args):
                if a.k == 'defarg' or a.t is None:
                    continue
                w = (N.num(a) if exact(a) else None) if zone.isint(a.t) else N.src(a)
                if w:
                    ds = ds or P.targets(n)
                    out += [(d.u, i, w) for d in ds if i < len(d.p)]
        if n.k == 'call' and n.callee is not None and n.callee.q.startswith('std::') and n.args:
            w = N.src(n.args[0])
            for a in n.args if w else ():
                for x in a.walk():
                    if x.k == 'lambda' and x.get('_fu') is not None:
                        out.append((x.get('_fu').u, 1 if n.callee.n == 'accumulate' else 0, '!' + w))
    return out


def exact(a):
    a = strip(a)
    return not (a.k == 'bin')


def uses(z, n):
    """(text of what is addressed, index, first index)."""
    if n.k == 'idx':
        b = strip(n.c(0))
        if b.t is not None and b.t.deref().k in ('ptr', 'arr', 'dep'):
            yield expr_str(b), n.c(1), 0
    elif n.k == 'call' and n.args and n.op in ('[]', '()'):
        o = n.obj if n.obj is not None else n.kids[0] if n.callee is None and n.kids and n.kids[0].role == 'f' else None
        if o is None or o.t is None:
            return
        t = o.t.deref()
        if t.k == 'ptr' and t.p is not None:
            t = t.p
        kd = zone.container(o.t)
        r = (t.r or '').split('@')[0]
        sysm = r in P.records and any(P.is_a(r, b) for b in ('SystemMatrix', 'SystemVector'))
        if n.op == '[]' and (kd in CONT or kd == 'sarr' or sysm):
            yield expr_str(o), n.args[0], 0
        elif n.op == '()' and (kd in ('uvec', 'umat', 'mat3', 'mat4') or sysm):
            for a in n.args:
                if zone.isint(a.t):
                    yield expr_str(o), a, 1
    elif n.k == 'call' and n.obj is not None and n.callee is not None and n.args and zone.container(n.obj.t) == 'umat' and \
            n.callee.n in ('getColumn', 'fillColumn', 'getRow', 'fillRow'):
        yield expr_str(n.obj), n.args[0], 1
    elif n.k == 'call' and n.obj is not None and n.callee is not None and n.args and n.callee.n == 'at' and zone.container(n.obj.t) in CONT:
        yield expr_str(n.obj), n.args[0], 0


def positions(fn, z):
    """{term: (array, term of index, constant, constant less than the term)} of the entries of the position tables and the
    variables that keep their value."""
    out = {}
    for n in fn.walk():
        b = ix = None
        if n.k == 'idx':
            b, ix = strip(n.c(0)), n.c(1)
        elif n.k == 'call' and n.op == '[]' and n.obj is not None and n.args:
            b, ix = strip(n.obj), n.args[0]
        if b is not None and b.k in ('mem', 'var') and b.name in POS:
            l, k = z.lin(ix), z.key(n)
            if l is not None and k:
                out[k] = (b.name, l[0], l[1], 0)
    if not out:
        return out
    changed = set()
    for n in fn.walk():
        if n.k == 'assign' or n.k == 'un' and n.op.strip('p') in ('++', '--', '&'):
            changed.add(z.key(n.c(0)))
    for n in fn.walk():
        if n.k == 'vardecl' and n.kids and zone.isint(fn.locals[n.get('d')]['t']):
            k, l = 'v%d:%s' % (n.get('d'), n.name), z.lin(n.kids[0])
            if k not in changed and l is not None and l[0] in out:
                a = out[l[0]]
                blk = n.p
                while blk is not None and blk.k in ('decl',):
                    blk = blk.p
                out[k] = (a[0], a[1] + '@%d' % (blk.i if blk is not None else 0), a[2], l[1] + a[3])
    return out


def job(fn):
    out, cnt = [], {}

    def c(k, i=1):
        cnt[k] = cnt.get(k, 0) + i
    z = zone.Zone(fn)
    N = Nums(fn, z)
    pos = positions(fn, z)
    if not N.A and not pos and not any(n.k in ('idx', 'call') and N.num(n) for n in fn.walk()):
        return out, cnt
    if z.solve() is None:
        c('functions given up')
        return out, cnt
    c('functions')
    # what an index term was read from
    kind, read = {}, {}
    for n in fn.walk():
        if n.k in ('var', 'idx', 'call', 'un') and zone.isint(n.t):
            w = N.num(n)
            l = z.lin(n) if w else None
            if l is not None and l[0] != '0':
                kind[l[0]] = w.lstrip('!')
                if n.k == 'idx':
                    read[l[0]] = n
        if n.k == 'vardecl' and n.kids and absolute(z, n.kids[0]) and (N.num(n.kids[0]) or '').endswith('mmnpc'):
            read['|v%d:%s' % (n.get('d'), n.name)] = n      # nodes are never zero
    told = set()
    loops = {}
    offs = offsets(fn, z, pos)
    for b, s in sorted(z.ins.items()):
        for n in flow.elems(fn, fn.blocks[b]):
            for nm, ix, base in uses(z, n):
                l = z.lin(ix)
                if l is None:
                    if N.num(ix):
                        c('indices that are not compared')
                        w = strip(ix)
                        if w.k == 'call' and w.callee is not None and w.callee.q in RET and base >= 0:
                            out.append(('signed', n.i, '%s by %s' % (gen(nm), RET[w.callee.q]), 'the number from %s may be zero or negative, but is '
                                        'used to address %s without being tested' % (w.callee.q, nm)))
                    continue
                t = l[0]
                w = kind.get(t) or kind.get(t.lstrip('-'))
                if w:
                    c('numbers used as index')
                    if positive(z, s, t, base - l[1], kind, read, pos):
                        c('numbers found positive')
                    elif t in N.pk and not PAR.get((fn.decl.u, N.pk[t]), '!').startswith('!') and N.pk[t] in ORG.get(fn.decl.u, ()):
                        c('numbers the callers find positive')
                    else:
                        out.append(('signed', n.i, '%s by %s' % (gen(nm), w), 'the number %s (%s) that addresses %s may be zero or '
                                    'negative here' % (expr_str(ix), w, nm)))
                if pos:
                    segment(z, s, n, nm, ix, l, pos, out, c, loops, kind)
                if offs.get(l[0]):
                    offset(z, s, n, nm, ix, l, pos, out, c, offs[l[0]])
            if pos and n.k in ('call', 'ctor'):
                rng(z, s, n, pos, out, c, kind)
            if pos and n.k == 'bin' and n.op in ('+', '-') and zone.isint(n.t):
                length(z, s, n, pos, out, c, kind)
            if n.k in ('call', 'ctor') and n.callee is not None:
                for i, a in enumerate(n.args):
                    if a.k == 'defarg' or not zone.isint(a.t):
                        continue
                    R = [(ORG[d.u][i], d) for d in P.targets(n) if i in ORG.get(d.u, ())]
                    l = z.lin(a) if R else None
                    if l is None or not (kind.get(l[0]) or kind.get(l[0].lstrip('-'))):
                        continue
                    w = kind.get(l[0]) or kind.get(l[0].lstrip('-'))
                    (r, txt), d = R[0]
                    if txt == c12.CHK:
                        continue
                    c('numbers handed over as index')
                    if not positive(z, s, l[0], r - l[1], kind, read, pos):
                        out.append(('signed', n.i, '%s(%s)' % (d.n, w), 'the number %s (%s) may be zero or negative here, but %s uses it '
                                    'as an index (%s)' % (expr_str(a), w, d.q, txt)))
            s = z.transfer(n, s)
    whole(fn, z, pos, loops, out, c, kind)
    counted(fn, z, pos, out, c)
    return out, cnt


def counted(fn, z, pos, out, c):
    """The number of an entry that was searched for counts from one, as the positions do."""
    found = {}
    for n in fn.walk():
        if n.k == 'vardecl' and n.kids:
            k, e = 'v%d:%s' % (n.get('d'), n.name), n.kids[0]
        elif n.k == 'assign' and n.op == '=':
            k, e = z.key(n.c(0)), n.c(1)
        else:
            continue
        tab, sh = None, 0
        for g, x in terms(e):
            l = z.lin(x)
            if l is not None and l[0] == '0':
                sh += g * l[1]
            elif g > 0 and x.k == 'call' and x.callee is not None and x.callee.q == 'std::distance' and len(x.args) == 2:
                tab = strip(x.args[0])
            elif g < 0 and x.t is not None and x.t.k == 'ptr':
                tab = x
        if tab is not None and tab.k == 'call' and tab.obj is not None and tab.callee is not None and tab.callee.n in ('begin', 'cbegin'):
            tab = strip(tab.obj)
        if k and tab is not None and tab.k in ('var', 'mem'):
            found.setdefault(k, []).append((tab.name, sh, n))
    for n in fn.walk() if found else ():
        if n.k == 'bin' and n.op in ('<', '<=', '>', '>=', '==', '!=', '-'):
            a, b = z.lin(n.kids[0]), z.lin(n.kids[1])
            if a is None or b is None:
                continue
            for x, y in ((a, b), (b, a)):
                if x[0] in pos and y[0] in found:
                    for tab, sh, m in found[y[0]]:
                        if tab in POS[pos[x[0]][0]]:
                            c('numbers of entries searched for')
                            if sh != 1:
                                out.append(('counted', m.i, '%s of %s' % (tab, pos[x[0]][0]), 'the number of the entry found in %s counts from %d, but is '
                                            'compared with the positions in %s, which count from one' % (tab, sh, pos[x[0]][0])))


def absolute(z, e):
    e = strip(e)
    if e.k == 'call' and e.callee is not None and e.callee.n == 'abs':
        return True
    if e.k != 'cond' or strip(e.kids[0]).k != 'bin':
        return False
    b = strip(e.kids[0])
    x, y = z.lin(b.kids[0]), z.lin(b.kids[1])
    p, q = z.lin(e.kids[1]), z.lin(e.kids[2])
    if None in (x, y, p, q) or y != ('0', 0) or x[1]:
        return False
    neg = ('-' + x[0], 0)
    return (p, q) == (x, neg) and b.op in ('>', '>=') or (p, q) == (neg, x) and b.op in ('<', '<=')


def gen(nm):
    return nm.replace('this->', '').replace('sam.', '')


def lower(z, s, t):
    lb = z.bound(s, '0', t, False)
    return -lb if lb is not None else None


def positive(z, s, t, need, kind, read, pos, depth=0):
    lo = lower(z, s, t)
    if lo is not None and lo >= need:
        return True
    if need > 1 or depth > 2:
        return False
    if '|' + t in read:
        return True
    # a master within its list, and its equation (SAM::initSystemEquations rejects others)
    for x, e in read.items():
        if kind.get(x) == 'mmceq' and (x == t or z.bound(s, t, x, False) == 0 and z.bound(s, x, t, False) == 0) and within(z, s, e, pos):
            return True
    for x, e in read.items():
        if kind.get(x) not in ('meqn',) or not (x == t or z.bound(s, t, x, False) == 0 and z.bound(s, x, t, False) == 0):
            continue
        l = z.lin(e.c(1))
        if l is None or l[1] != -1:
            continue
        for y, f in read.items():
            if kind.get(y) == 'mmceq' and (y == l[0] or z.bound(s, l[0], y, False) == 0 and z.bound(s, y, l[0], False) == 0):
                if master(z, s, f, pos) and ((lower(z, s, l[0]) or 0) >= 1 or within(z, s, f, pos)):
                    return True
        if kind.get(l[0]) == 'mmceq' and (lower(z, s, l[0]) or 0) >= 1 and not any(kind.get(y) == 'mmceq' for y in read):
            return True
    return False


def refs(z, s, t, pos):
    """(position entry, least d with entry - t <= d), (position entry, least u with t - entry <= u)."""
    lo, hi = [], []
    for k, p in pos.items():
        d = z.bound(s, k, t, False)
        u = z.bound(s, t, k, False)
        if d is not None:
            lo.append((p, d - p[3]))
        if u is not None and not (d is not None and d == -u):
            hi.append((p, u + p[3]))
    return lo, hi


def master(z, s, f, pos):
    """Is the entry f of mmceq not the first one (the slave)?"""
    l = z.lin(f.c(1))
    if l is None:
        return False
    lo, hi = refs(z, s, l[0], pos)
    return any(d - l[1] <= 0 for p, d in lo) or not lo and not hi


def within(z, s, f, pos):
    l = z.lin(f.c(1))
    if l is None:
        return False
    lo, hi = refs(z, s, l[0], pos)
    return any(p[1] == q[1] and q[2] == p[2] + 1 and d - l[1] <= 1 and u + l[1] <= -2 for p, d in lo for q, u in hi) or \
        any(z.key(f) and d - l[1] <= 1 and l[0] in pos for p, d in lo)


def segment(z, s, n, nm, ix, l, pos, out, c, loops, kind):
    tab = re.sub(r'.*[.>]', '', nm)
    arr = [a for a, ts in POS.items() if tab in ts or '*' in ts]
    if not arr:
        return
    ps = {k: p for k, p in pos.items() if p[0] in arr}
    lo, hi = refs(z, s, l[0], ps)
    lo = [(p, d - l[1]) for p, d in lo]
    hi = [(p, u + l[1]) for p, u in hi]
    if not lo and not hi:
        return
    c('entries addressed by position')
    loops.setdefault(l[0], []).append((tab, l[1], n.i))
    inst = '%s of %s' % (tab, arr[0])
    if lo and hi:
        good = [(p, q, d, u) for p, d in lo for q, u in hi if p[1] == q[1] and q[2] == p[2] + 1]
        if not good:
            same = [(p, q) for p, d in lo for q, u in hi if p[1] == q[1]]
            if same:
                out.append(('segment', n.i, inst + ' list', 'the entry %s of %s is addressed between the positions of two lists that '
                            'do not follow each other' % (expr_str(ix), nm)))
            return
        c('entries within their list')
        own(n, good[0][0], inst, kind, out, c)
        if min(d for p, q, d, u in good) > 1:
            out.append(('segment', n.i, inst + ' first', '%s[%s] may be before the first entry of its list' % (nm, expr_str(ix))))
        if min(u for p, q, d, u in good) > -2:
            out.append(('segment', n.i, inst + ' last', '%s[%s] may be past the last entry of its list' % (nm, expr_str(ix))))
    elif lo:
        if min(d for p, d in lo) > 1:
            out.append(('segment', n.i, inst + ' first', '%s[%s] may be before the first entry of its list' % (nm, expr_str(ix))))


def offsets(fn, z, pos):
    """The local variables that are a position plus a number handed over by the caller (not a degree of freedom of the constraint
    equations of the model itself): {key: position}."""
    out = {}
    changed = set(z.key(n.c(0)) for n in fn.walk() if n.k == 'assign' or n.k == 'un' and n.op.strip('p') in ('++', '--', '&'))
    for n in fn.walk():
        if n.k != 'vardecl' or not n.kids or not zone.isint(fn.locals[n.get('d')]['t']):
            continue
        leaves, st = [], [n.kids[0]]
        while st:
            e = strip(st.pop())
            if e is not None and e.k == 'bin' and e.op in ('+', '-'):
                st += e.kids
            elif e is not None:
                leaves.append(e)
        key = 'v%d:%s' % (n.get('d'), n.name)
        ps = [pos[z.lin(e)[0]] for e in leaves if z.lin(e) is not None and z.lin(e)[0] in pos]
        par = [e for e in leaves if [m for m in e.walk() if m.k == 'var' and fn.is_param(m.get('d')) and not (m.t is not None and 'MPC::DOF' in m.t.s)] and e.k in ('var', 'mem')]
        if len(ps) == 1 and par and key not in changed and not compared(fn, par, ps[0][0]):
            out[key] = ps[0]
    return out


def compared(fn, par, tab):
    """Is the number handed over compared by itself with the length of a list?"""
    name = re.sub(r'.*[.>]', '', tab)
    ini = {m.get('d'): m for m in fn.walk() if m.k == 'vardecl' and m.kids}

    def length(e, depth=0):
        for m in e.walk():
            if m.k == 'mem' and m.name == name or m.k == 'call' and not m.op:
                return True
            if m.k == 'var' and depth < 4 and m.get('d') in ini and length(ini[m.get('d')], depth + 1):
                return True
        return False
    ds = set(m.get('d') for e in par for m in e.walk() if m.k == 'var')
    for n in fn.walk():
        if n.k == 'bin' and n.op in ('<', '<=', '>', '>='):
            for a, b in ((n.kids[0], n.kids[1]), (n.kids[1], n.kids[0])):
                vs = set(m.get('d') for m in a.walk() if m.k == 'var')
                if vs & ds and not any(m.k == 'mem' and m.name == name for m in a.walk()) and length(b):
                    return True
    return False


def offset(z, s, n, nm, ix, l, pos, out, c, p):
    """A position plus a number handed over by the caller is compared with the beginning of the next list."""
    tab = re.sub(r'.*[.>]', '', nm)
    if not (tab in POS.get(p[0], ()) or '*' in POS.get(p[0], ())):
        return
    lo, hi = refs(z, s, l[0], pos)
    c('entries addressed by a position and an offset')
    if not any(q[0] == p[0] and q[1].split('@')[0] == p[1].split('@')[0] and q[2] == p[2] + 1 and u + l[1] <= -2 for q, u in hi):
        out.append(('segment', n.i, '%s of %s offset' % (tab, p[0]), '%s[%s] is addressed by a position in %s and an offset, but may be past the last '
                    'entry of that list' % (nm, expr_str(ix), p[0])))


def own(n, p, inst, kind, out, c):
    """The list of number i (counted from one) begins at entry i-1 of the positions."""
    t = p[1].split('@')[0]
    if kind.get(t) or kind.get(t.lstrip('-')):
        c('lists of a number')
        if p[2] != -1:
            out.append(('list', n.i, inst + ' number', 'the list is not the one of the number %s, which counts from one while the positions of '
                        'its list begin at the entry before' % re.sub(r'v\d+:', '', t)))


def whole(fn, z, pos, loops, out, c, kind):
    for n in fn.walk():
        if n.k != 'for' or n.child('cond') is None or n.child('init') is None:
            continue
        L = conj(strip(n.child('cond')))
        ini = {}
        for m in n.child('init').walk():
            if m.k == 'vardecl' and m.kids:
                ini['v%d:%s' % (m.get('d'), m.name)] = m.kids[0]
            elif m.k == 'assign' and m.op == '=' and z.key(m.c(0)):
                ini[z.key(m.c(0))] = m.c(1)
        for b in L:
            if b.k != 'bin' or b.op not in ('<', '<=', '!=', '>', '>='):
                continue
            x, y = b.kids if b.op not in ('>', '>=') else reversed(b.kids)
            a, e = z.lin(x), z.lin(y)
            if a is None or e is None or a[0] not in ini or e[0] not in pos:
                continue
            st = z.lin(ini[a[0]])
            if st is not None and st[0] in pos and pos[st[0]][:2] == pos[e[0]][:2]:
                p, q = pos[st[0]], pos[e[0]]
                c('loops from one position to another')
                own(n, p, 'loop over %s' % p[0], kind, out, c)
                if q[2] != p[2] + 1:
                    out.append(('segment', n.i, 'loop over %s' % p[0], 'the loop does not begin and end with the same list'))
                else:
                    k = e[1] + q[3] - a[1] + (b.op in ('<=', '>=')) - st[1] - p[3]
                    if k not in (0, -1) or k == -1 and p[0] != 'mpmceq':
                        out.append(('whole', n.i, 'loop over %s' % p[0], 'the loop takes %d steps %s than the list has entries' % (
                            abs(k), 'less' if k < 0 else 'more')))
            if a[0] not in loops:
                continue
            acc = [o for o in loops[a[0]] if n in anc(fn.nodes[o[2]]) and pos[e[0]][0] in [p for p, ts in POS.items() if o[0] in ts or '*' in ts]]
            if not acc:
                continue
            c('loops over a list')
            # the last value of the variable is e + (e1 - a1) - (0 or 1)
            last = e[1] + pos[e[0]][3] - a[1] - (0 if b.op in ('<=', '>=') else 1) + max(o[1] for o in acc)
            if last < -2:
                out.append(('whole', n.i, '%s of %s end' % (acc[0][0], pos[e[0]][0]), 'the loop ends before the last entry of the list in %s' % acc[0][0]))
            if st is not None and st[0] in pos and pos[st[0]][:2] == pos[e[0]][:2]:
                first = st[1] + pos[st[0]][3] + min(o[1] for o in acc)
                if first > (0 if pos[e[0]][0] == 'mpmceq' else -1):
                    out.append(('whole', n.i, '%s of %s begin' % (acc[0][0], pos[e[0]][0]), 'the loop begins after the first entry of the list in %s'
                                % acc[0][0]))


def conj(e):
    if e is not None and e.k == 'bin' and e.op == '&&':
        return conj(strip(e.kids[0])) + conj(strip(e.kids[1]))
    return [e] if e is not None else []


def anc(n):
    out = []
    while n is not None:
        out.append(n)
        n = n.p
    return out


def terms(e, sg=1):
    """The terms of a sum: [(sign, expression)]."""
    e = strip(e)
    if e is None:
        return []
    if e.k == 'bin' and e.op in ('+', '-'):
        return terms(e.kids[0], sg) + terms(e.kids[1], sg if e.op == '+' else -sg)
    return [(sg, e)]


def entry(z, s, e, pos):
    """(position entry, constant) when e is equal to that entry plus the constant."""
    l = z.lin(e)
    if l is None or l[0] == '0':
        return None
    if l[0] in pos and '@' not in pos[l[0]][1]:
        return pos[l[0]], l[1] + pos[l[0]][3]
    for k, p in sorted(pos.items(), key=lambda x: ('@' in x[1][1], x[0])):
        if k == l[0]:
            return p, l[1] + p[3]
        u = z.bound(s, l[0], k, False)
        if u is not None and z.bound(s, k, l[0], False) == -u:
            return p, l[1] + u + p[3]
    return None


def pointer(z, s, e, pos):
    """(array, position entry, constant) of a pointer or iterator into an array."""
    T = terms(e)
    base = [x for g, x in T if g > 0 and x.t is not None and (x.t.deref().k == 'ptr' or x.k == 'call' and x.callee is not None and x.callee.n in (
        'begin', 'cbegin', 'data') and x.obj is not None)]
    if len(base) != 1 or len(T) < 2:
        return None
    b = base[0]
    nm = expr_str(b.obj if b.k == 'call' and b.obj is not None else b)
    p, k = None, 0
    for g, x in T:
        if x is b:
            continue
        l = z.lin(x)
        if l is not None and l[0] == '0':
            k += g * l[1]
            continue
        q = entry(z, s, x, pos)
        if q is None or p is not None or g < 0:
            return None
        p, k = q[0], k + q[1]
    return (nm, p, k) if p is not None else None


def rng(z, s, n, pos, out, c, kind):
    """Blocks given by two pointers into a table."""
    l = [pointer(z, s, a, pos) if a.k != 'defarg' else None for a in n.args]
    for a, b in zip(l, l[1:]):
        if a is None or b is None or a[0] != b[0] or a[1][0] != b[1][0]:
            continue
        arr, tab = a[1][0], re.sub(r'.*[.>]', '', a[0])
        if tab not in POS[arr] and '*' not in POS[arr]:
            continue
        c('blocks of a table')
        own(n, a[1], 'block of %s' % arr, kind, out, c)
        inst = 'block of %s' % arr
        if a[1][1] != b[1][1] or b[1][2] != a[1][2] + 1:
            out.append(('range', n.i, inst, 'the block of %s does not begin and end with the same list' % a[0]))
        elif a[2] != -1 or b[2] != -1:
            out.append(('range', n.i, inst, 'the block of %s is not the whole list: it goes from %+d to %+d relative to the positions, which count from '
                        'one' % (a[0], a[2] + 1, b[2] + 1)))


def length(z, s, n, pos, out, c, kind):
    """The length of a list is the difference between the positions of the next one and its own."""
    if n.p is not None and n.p.k == 'bin' and n.p.op in ('+', '-'):
        return
    p, m, k = None, None, 0
    for g, x in terms(n):
        l = z.lin(x)
        if l is not None and l[0] == '0':
            k += g * l[1]
            continue
        q = entry(z, s, x, pos)
        if q is None:
            continue            # added to something else
        if g > 0 and p is None:
            p = q[0]
        elif g < 0 and m is None:
            m = q[0]
        else:
            return
        k += g * q[1]
    if p is None or m is None or p[0] != m[0] or p[1] != m[1]:
        return
    c('lengths of lists')
    own(n, m, 'length by %s' % m[0], kind, out, c)
    if p[2] - m[2] != 1:
        out.append(('length', n.i, 'length by %s' % p[0], '%s is not the length of one list: the positions are of lists that do not follow each other'
                    % expr_str(n)))
    elif k not in (0, -1) or k == -1 and p[0] != 'mpmceq':
        if all(entry(z, s, x, pos) or z.lin(x) and z.lin(x)[0] == '0' for g, x in terms(n)):
            out.append(('length', n.i, 'length by %s' % p[0], '%s is %d away from the length of the list' % (expr_str(n), k)))


def run(prog, ctx):
    global P
    P = prog
    c12.P = prog
    tables()
    zone.Zone.mods = zone.Mods(P)
    PAR.clear()
    ORG.clear()
    fns = [f for f in P.fns if f.blocks and f.body is not None and '3rdparty' not in f.file and not f.file.startswith('/')]
    todo = fns
    by = {}
    for f in fns:
        by.setdefault(f.decl.u, []).append(f)
    while todo:
        nxt = set()
        for f, r in zip(todo, par.pmap(prepare, todo, 16)):
            for u, i, w in r:
                if (u, i) not in PAR:
                    PAR[u, i] = w
                    nxt.add(u)
        todo = [f for u in sorted(nxt) for f in by.get(u, ())]
    ctx.count('parameters that hand over numbers', len(PAR))
    need = [f for f in fns if any((f.decl.u, i) in PAR and zone.isint(p['t']) for i, p in enumerate(f.params))]
    for f, (o, q, zr) in zip(need, par.pmap(c12.origin, need, 16)):
        if o:
            ORG[f.decl.u] = o
    seen = set()
    for f, (out, cnt) in zip(fns, par.pmap(job, fns, 16)):
        for k, v in cnt.items():
            ctx.count(k, v)
        for rule, i, inst, msg in out:
            if (f, inst, rule) in seen:
                continue
            seen.add((f, inst, rule))
            if ctx.excepted(P, 'c11_allow.txt', f, inst) is not None:
                ctx.count('numbers positive by an invariant (cfg/c11_allow.txt)')
                continue
            ctx.viol(rule, f.q, inst, msg, fn=f, node=f.nodes.get(i), P=P)
    ctx.explain.append(__doc__.replace('\n', ' '))
    ctx.need('numbers used as index', 90, 'indices that are numbers of equations, nodes or masters')
    ctx.need('numbers found positive', 90, 'indices found positive')
    ctx.need('entries within their list', 45, 'entries addressed by the positions of their list')
    ctx.need('loops from one position to another', 18, 'loops over a list')
    ctx.need('lists of a number', 45, 'lists of a node, element or constraint')
    ctx.need('lengths of lists', 10, 'lengths of lists')

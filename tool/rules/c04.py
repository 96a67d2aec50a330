"""C04: what an operation acquires for its own use is released on every exit.

Rule 1 (locals): from every acquisition (HDF5 handle, C file, heap block, or the result of a function that
hands out a fresh one) all CFG paths are explored with the set of local names that own it; a path that
reaches an exit, or overwrites the last owner, without releasing it or handing it on is a leak.
Rule 2 (members): a member that receives an acquired block is released by the destructor of its class, and
is not overwritten while it may still own one. All elements of a container are released. A member that may refer
to an object it does not own is compared with that before it is released."""
from absval import AbsEval, explore, elem_index, const_in, run_block, seed, FALSE, TRUE, is_any
from model import Paths, expr_str
from lib import graph, baseline, read_table
from par import pmap
import flow

POS = frozenset(['POS'])
H5 = {'H5Fopen': 'H5Fclose', 'H5Fcreate': 'H5Fclose', 'H5Gopen1': 'H5Gclose', 'H5Gopen2': 'H5Gclose',
      'H5Gcreate1': 'H5Gclose', 'H5Gcreate2': 'H5Gclose', 'H5Gcreate_anon': 'H5Gclose',
      'H5Dopen1': 'H5Dclose', 'H5Dopen2': 'H5Dclose', 'H5Dcreate1': 'H5Dclose', 'H5Dcreate2': 'H5Dclose',
      'H5Screate': 'H5Sclose', 'H5Screate_simple': 'H5Sclose', 'H5Scopy': 'H5Sclose', 'H5Dget_space': 'H5Sclose',
      'H5Aget_space': 'H5Sclose', 'H5Pcreate': 'H5Pclose', 'H5Pcopy': 'H5Pclose', 'H5Dget_create_plist': 'H5Pclose',
      'H5Fget_create_plist': 'H5Pclose', 'H5Fget_access_plist': 'H5Pclose', 'H5Dget_type': 'H5Tclose',
      'H5Aget_type': 'H5Tclose', 'H5Tcopy': 'H5Tclose', 'H5Tcreate': 'H5Tclose', 'H5Tarray_create2': 'H5Tclose',
      'H5Aopen': 'H5Aclose', 'H5Aopen_name': 'H5Aclose', 'H5Aopen_by_name': 'H5Aclose', 'H5Acreate1': 'H5Aclose',
      'H5Acreate2': 'H5Aclose', 'H5Oopen': 'H5Oclose', 'H5Topen2': 'H5Tclose'}
CLIB = {'fopen': 'fclose', 'fdopen': 'fclose', 'tmpfile': 'fclose', 'popen': 'pclose', 'opendir': 'closedir',
        'strdup': 'free', 'strndup': 'free', 'malloc': 'free', 'calloc': 'free', 'realloc': 'free', 'getcwd': 'free',
        'realpath': 'free'}
ANYH5 = {'H5Oclose', 'H5Idec_ref'}
OWN = '@own'
NEGS = frozenset(['NEG'])


class Leak(object):
    def __init__(self, P):
        self.P = P
        self.base = baseline(P)
        graph(P)
        self._px = {}
        self._fac = {}
        self._takes = {}

        def cr(ev, n, env):
            return None
        self.cr = cr

    def px(self, fn):
        r = self._px.get(fn)
        if r is None:
            p = Paths(fn)
            r = self._px[fn] = (p, elem_index(fn), const_in(fn, p, self.cr))
        return r

    # -- acquisitions
    def kind(self, n):
        """Release needed for the value of node n, or None."""
        if n.k == 'new':
            if n.children('pl'):
                return None
            return 'delete[]' if n.children('size') or n.get('arr') or n.get('isarr') else 'delete'
        if n.k == 'call' and n.callee is not None:
            q = n.callee.q
            if q in H5:
                return H5[q]
            if q in CLIB:
                if q in ('getcwd', 'realpath') and not (len(n.args) == 2 and self.isnull(n.args[0 if q == 'getcwd' else 1])):
                    return None
                return CLIB[q]
            if n.callee.in_repo() or n.callee.q.startswith('utl::'):
                return self.factory(n.callee, n)
        return None

    def isnull(self, a):
        while a.k == 'cast' and a.kids:
            a = a.c()
        return a.k in ('null_p', 'int') and not a.get('v')

    def factory(self, decl, call=None, depth=0):
        """Kind of fresh resource every non-null return of the function hands to its caller."""
        if decl.r is None or decl.r.k not in ('ptr',) and not (decl.r.k == 'int' and ('hid_t' in decl.r.s or decl.r.s in ('long', 'long long'))):
            return None
        if call is not None and decl.virtual and not call.get('nv'):
            ks = set()
            for d in self.P.targets(call):
                if d.body is not None:
                    ks.add(self.fac1(d, depth))
            return ks.pop() if len(ks) == 1 else None
        return self.fac1(decl, depth)

    def fac1(self, decl, depth):
        if decl.u in self._fac:
            return self._fac[decl.u]
        self._fac[decl.u] = None
        fn = decl.body
        if fn is None or fn.body is None or depth > 6:
            return None
        kinds = set()
        for n in fn.body.walk():
            if n.k == 'return' and n.kids and self.encl(n, fn):
                for t in tails(n.kids[0]):
                    kinds |= self.tailkinds(fn, t, depth)
        kinds.discard('null')
        r = kinds.pop() if len(kinds) == 1 else None
        self._fac[decl.u] = r if r != '?' else None
        return self._fac[decl.u]

    def encl(self, n, fn):
        for p in n.parents():
            if p.k == 'lambda':
                return False
        return True

    def tailkinds(self, fn, t, depth):
        if t.k in ('null_p', 'zinit') or t.k == 'int' and not t.get('v'):
            return {'null'}
        if t.k == 'un' and t.op == '-':
            return {'null'}
        k = self.kind(t) if not (t.k == 'call' and t.callee is not None and t.callee.in_repo()) else \
            self.factory(t.callee, t, depth + 1)
        if k is not None:
            return {k}
        if t.k == 'var':
            d = t.get('d')
            if fn.is_param(d) or fn.locals[d].get('sl'):
                return {'?'}
            ks = set()
            for m in fn.walk():
                src = None
                if m.k == 'vardecl' and m.get('d') == d:
                    src = m.kids[0] if m.kids else None
                elif m.k == 'assign' and m.c(0).k == 'var' and m.c(0).get('d') == d:
                    src = m.c(1)
                elif m.k == 'var' and m.get('d') == d and m.role == 'a' and self.escaping_arg(m):
                    return {'?'}
                if src is not None:
                    for s in tails(src):
                        if s.k == 'var' and s.get('d') == d:
                            continue
                        if s.k == 'var':
                            return {'?'}
                        ks |= self.tailkinds(fn, s, depth)
            return ks or {'?'}
        return {'?'}

    def escaping_arg(self, m):
        """A pointer returned later that is also stored somewhere by a call is not fresh."""
        c = m.p
        while c is not None and c.k == 'cast':
            c = c.p
        if c is None or c.k not in ('call', 'ctor'):
            return False
        a = m
        while a.p is not c:
            a = a.p
        t = c.p                     # p = new Wrapper(p) hands on the new owner
        while t is not None and t.k in ('cast', 'new'):
            t = t.p
        if t is not None and t.k == 'assign' and t.c(0).k == 'var' and t.c(0).get('d') == m.get('d'):
            return False
        return a in c.args and self.takes_arg(c, c.args.index(a)) in ('take', 'mixed')

    # -- what a call does with its i'th argument
    def takes_arg(self, c, i, kind=None):
        """'take' (stores/deletes it), 'borrow'."""
        ce = c.callee
        if ce is None:
            return 'take'
        q = ce.q
        if not ce.in_repo():
            if q in H5 or q in CLIB or (ce.f or '').startswith('<') and q.startswith('H5'):
                return 'release:' + q if q in RELEASES else 'borrow'
            if q in RELEASES:
                return 'release:' + q
            if c.k == 'ctor' or q.startswith('std::') and ce.kind == 'ctor':
                return 'borrow' if ce.rec and ('basic_string' in ce.rec or 'stream' in ce.rec) else 'take'
            if ce.n in ('push_back', 'emplace_back', 'insert', 'emplace', 'reset', 'push_front', 'push', 'operator=',
                        'assign', 'make_pair', 'swap', 'insert_or_assign'):
                if ce.rec and 'basic_string' in ce.rec:
                    return 'borrow'
                return 'take'
            if ce.n in ('make_shared', 'make_unique'):
                return 'take'
            return 'borrow'
        rs = set()
        for d in self.P.targets(c):
            b = d.body
            if b is None:
                if d.rec is None and (d.n.endswith('_') or d.n.startswith(('cblas_', 'LAPACKE_'))):
                    rs.add('borrow')    # Fortran/BLAS/LAPACK entry points never keep their arguments
                elif not d.pure:
                    rs.add('take')
                continue
            if i >= len(b.params):
                rs.add('take')
                continue
            rs.add(self.takes(b, i))
        if not rs or rs == {'take'}:
            return 'take'
        if 'take' in rs or 'mixed' in rs:
            return 'mixed' if 'mixed' in rs or not (c.callee.virtual and c.callee.pure) else 'take'
        return rs.pop()

    def takes(self, fn, i, depth=0):
        """Disposition of the i'th parameter of fn: does any/every path consume it?"""
        k = (fn, i)
        r = self._takes.get(k)
        if r is not None:
            return r
        self._takes[k] = 'borrow'
        p = fn.params[i]
        if p['t'] is not None and p['t'].k in ('ref', 'rref') and not (p['t'].p and p['t'].p.c):
            r = 'take'
        elif not fn.blocks:
            # template pattern: look for a consuming use of the parameter
            r = 'take' if self.syntactic_take(fn, p['d']) else 'borrow'
        else:
            if p['d'] in self.initialised_from(fn):
                r = 'take'
            else:
                paths, ix, ci = self.px(fn)
                env = {'v%d' % p['d']: POS, OWN: frozenset(['v%d' % p['d']])}
                leaks, done = self.track(fn, [(fn.entry, 0, env)], None)
                r = 'borrow' if not done else 'take' if not leaks else 'mixed' if not self.base.is_new(fn) else 'borrow'
        self._takes[k] = r
        return r

    def initialised_from(self, fn):
        """Parameters stored by the member initialisers of a constructor."""
        out = set()
        for ini in fn.inits:
            if ini['e'] is not None:
                for m in ini['e'].walk():
                    if m.k == 'var':
                        if ini.get('fld'):
                            top = m
                            while top.p is not None and top.p.k in ('cast', 'ilist', 'ctor', 'cond', 'expr'):
                                top = top.p
                            if top.p is None:
                                out.add(m.get('d'))
                            elif top.p.k in ('call', 'ctor') and top in top.p.args and \
                                    self.takes_arg(top.p, top.p.args.index(top)) in ('take', 'mixed'):
                                out.add(m.get('d'))
                        else:
                            c = m.p
                            while c is not None and c.k == 'cast':
                                c = c.p
                            a = m
                            while a.p is not c:
                                a = a.p
                            if c is None or c.k not in ('call', 'ctor') or a not in c.args or \
                                    self.takes_arg(c, c.args.index(a)) in ('take', 'mixed'):
                                out.add(m.get('d'))
        return out

    def syntactic_take(self, fn, d):
        for m in fn.walk():
            if m.k == 'var' and m.get('d') == d:
                p, x = m.p, m
                while p is not None and p.k == 'cast':
                    p, x = p.p, p
                if p is None or p.k in ('delete', 'return') or p.k == 'assign' and p.c(1) is x or p.k == 'ilist' or \
                        p.k == 'vardecl' or p.k == 'call' and p.callee is None and x.role == 'a' or p.k == 'ctor':
                    return True
                if p.k == 'call' and x in p.args and p.callee is not None and self.takes_arg(p, p.args.index(x)) in ('take', 'mixed'):
                    return True
        return False

    # -- exploring
    def track(self, fn, starts, need):
        """Returns (list of leaks (node or None, text), number of paths that disposed of the resource)."""
        paths = self.px(fn)[0]
        leaks = []
        done = [0]

        def names(env):
            return env.get(OWN)

        def holds(n, env):
            """Does the value of expression n carry the tracked resource?"""
            own = names(env)
            if not own:
                return False
            for t in tails(n):
                if t.k == 'assign' and t.op == '=':
                    t = t.c(0)
                if 'n%d' % t.i in own:
                    return True
                if t.k == 'var' and self.vkey(fn, t, paths) in own:
                    return True
            return False

        def dispose(env):
            done[0] += 1
            env.pop(OWN, None)
            return frozenset(['DONE'])

        def stop(n, env, ev):
            own = names(env)
            if own is None:
                return None
            k = n.k
            if k == 'delete':
                if n.kids and holds(n.c(), env):
                    arr = bool(n.get('arr') or n.get('a[]') or n.get('isarr'))
                    if need in ('delete', 'delete[]') and (need == 'delete[]') != arr:
                        leaks.append((n, 'released by %s although it needs %s' % ('delete[]' if arr else 'delete', need)))
                    elif need is not None and need not in ('delete', 'delete[]'):
                        leaks.append((n, 'released by delete although it needs %s' % need))
                    return dispose(env)
                return None
            if k in ('call', 'ctor'):
                for i, a in enumerate(n.args):
                    if a.k == 'un' and a.op == '&' and a.c().k == 'var' and self.vkey(fn, a.c(), paths) in own:
                        return dispose(env)
                    if holds(a, env):
                        ce = n.callee
                        if ce is not None and i < len(ce.p) and ce.p[i] is not None and ce.p[i].k in ('ref', 'rref') and \
                                not ce.p[i].p.c and not (ce.in_repo()):
                            return dispose(env)
                        r = self.takes_arg(n, i)
                        if r == 'take' or r == 'mixed' and need is None:
                            return dispose(env)
                        if r == 'mixed':
                            leaks.append((n, 'handed to %s, which does not take it over in every case' % ce.q))
                            return dispose(env)
                        if r.startswith('release:'):
                            rel = r[8:]
                            if need is not None and rel != need and not (rel in ANYH5 and need.startswith('H5')):
                                leaks.append((n, 'released by %s although it needs %s' % (rel, need)))
                            return dispose(env)
                    elif a.k == 'lambda':
                        if self.lambda_disposes(fn, a, own):
                            return dispose(env)
                # method call on the block itself: p->destruct() etc.
                if k == 'call' and n.obj is not None and holds(n.obj, env) and n.callee is not None and \
                        n.callee.in_repo() and self.self_destructs(n):
                    return dispose(env)
                f = n.child('f')
                o = n.obj
                lv = o if (n.callee is not None and n.callee.n == 'operator()') else f
                while lv is not None and lv.k == 'cast' and lv.kids:
                    lv = lv.c()
                if lv is not None and lv.k == 'var':
                    for m in fn.walk():
                        if m.k == 'vardecl' and m.get('d') == lv.get('d') and m.kids:
                            for l in m.walk():
                                if l.k == 'lambda' and self.lambda_disposes(fn, l, own):
                                    return dispose(env)
                return None
            if k == 'return':
                if n.kids and (holds(n.kids[0], env) or any(
                        m.k in ('ilist',) and any(holds(x, env) for x in m.kids) for m in n.kids[0].walk())):
                    return dispose(env)
                return None
            if k in ('expr', 'uctor') and any(holds(x, env) for x in n.kids):
                return dispose(env)         # construction of a type-dependent object
            if k == 'ilist' and any(holds(x, env) for x in n.kids) and not (n.p is not None and n.p.k == 'vardecl' and
                                                                            len(n.kids) == 1):
                return dispose(env)
            if k == 'throw':
                return None
            if k == 'vardecl' or k == 'assign' and n.op == '=':
                rhs = (n.kids[0] if n.kids else None) if k == 'vardecl' else n.c(1)
                lhs = None if k == 'vardecl' else n.c(0)
                if k == 'vardecl':
                    key = 'v%d' % n.get('d')
                    if n.t is not None and n.t.k in ('ref', 'rref'):
                        return None
                    if fn.locals[n.get('d')].get('sl'):
                        if rhs is not None and holds(rhs, env):
                            return dispose(env)
                        return None
                    if rhs is not None and rhs.k not in ('ctor',) and n.t is not None and n.t.k == 'rec' and holds(rhs, env):
                        return dispose(env)
                else:
                    l = lhs
                    key = self.vkey(fn, l, paths) if l.k == 'var' else None
                    if l.k == 'var' and fn.locals[l.get('d')]['t'] is not None and \
                            fn.locals[l.get('d')]['t'].k in ('ref', 'rref') and key == 'v%d' % l.get('d'):
                        key = None          # assigned through a reference: escapes
                h = rhs is not None and holds(rhs, env)
                if h and key is None:
                    return dispose(env)
                own2 = set(own)
                if h:
                    own2.add(key)
                elif key is not None:
                    own2.discard(key)
                # the temporary is only an owner until the full expression ends
                env[OWN] = frozenset(own2)
                if not own2:
                    leaks.append((n, 'overwritten'))
                    env.pop(OWN, None)
                    done[0] += 0
                    return frozenset(['LEAK'])
                return None
            return None

        def on(n, env, ev):
            # drop temporaries when their full expression is over
            own = env.get(OWN)
            if own and ev.is_top(n):
                t = [x for x in own if x[0] == 'n']
                if t and n.k not in ('vardecl', 'return'):
                    keep = own - frozenset(t)
                    sub = set('n%d' % m.i for m in n.walk())
                    if any(x in sub for x in t):
                        if not keep:
                            if n.k == 'assign' or n.k == 'expr':
                                return
                            leaks.append((n, 'dropped'))
                            env.pop(OWN, None)
                        else:
                            env[OWN] = keep
        res, ov = explore(fn, paths, starts, callret=self.cr, stop=stop, on_elem=on)
        for n, v, env in res:
            if v == frozenset(['DONE']) or v == frozenset(['LEAK']) or v == frozenset(['THROW']):
                continue
            if OWN in env:
                # null on this path: nothing to release
                if any(env.get(x) == FALSE or (x in env and env[x] == frozenset(['NEG'])) for x in env[OWN]):
                    continue
                leaks.append((n, 'not released'))
        return leaks, done[0]

    def vkey(self, fn, v, paths):
        t = fn.locals[v.get('d')]['t']
        if t is not None and t.k in ('ref', 'rref'):
            b = paths.bind.get(v.get('d'))
            if b is not None and b[1].k == 'var':
                return self.vkey(fn, b[1], paths)
        return 'v%d' % v.get('d')

    def lambda_disposes(self, fn, lam, own):
        caps = set()
        for c in lam.get('cap') or []:
            if 'd' in c and 'v%d' % c['d'] in own:
                caps.add(fn.locals[c['d']]['n'])
        if not caps:
            return False
        for l in self.P.fns:
            if l.lam and l.file == fn.file and l.parent is fn.decl or l.lam and l.file == fn.file and \
                    fn.line <= l.line and l.endline <= fn.endline:
                for m in l.walk():
                    if m.k == 'var' and m.name in caps or m.k in ('mem', 'ref', 'capvar') and m.name in caps:
                        p, x = m.p, m
                        while p is not None and p.k == 'cast':
                            p, x = p.p, p
                        if p is None:
                            continue
                        if p.k in ('delete', 'return') or p.k == 'assign' and p.c(1) is x:
                            return True
                        if p.k in ('call', 'ctor') and x in p.args and self.takes_arg(p, p.args.index(x)) != 'borrow':
                            return True
        return False

    def self_destructs(self, call):
        r = False
        for d in self.P.targets(call):
            if d.body is not None and d.body.body is not None:
                for m in d.body.body.walk():
                    if m.k == 'delete' and m.kids and m.c().k == 'this':
                        r = True
        return r


RELEASES = set(H5.values()) | set(CLIB.values()) | ANYH5


def tails(e):
    while e is not None:
        if e.k == 'cast':
            e = e.kids[0] if e.kids else None
        elif e.k == 'ilist' and len(e.kids) == 1:
            e = e.kids[0]
        elif e.k == 'cond' and len(e.kids) == 3:
            return tails(e.kids[1]) + tails(e.kids[2])
        elif e.k == 'bin' and e.op == ',':
            e = e.c(1)
        else:
            break
    return [e] if e is not None else []


def run(P, ctx):
    lk = Leak(P)

    def job(fn):
        out = []
        for n in fn.walk():
            k = lk.kind(n)
            if k is None:
                continue
            paths, ix, ci = lk.px(fn)
            if n.i not in ix:
                # constructor initialisers and unreachable code
                out.append((n.i, k, 'init' if any(ini['e'] is not None and n in list(ini['e'].walk()) for ini in fn.inits)
                            else 'nocfg', None, ''))
                continue
            b, i = ix[n.i]
            env = dict(ci.get(b, {}))
            run_block(fn, AbsEval(fn, paths, callret=lk.cr), fn.blocks[b], env, i + 1)
            env = seed(fn, paths, n, env, lk.cr)
            env[n.i] = POS
            env[OWN] = frozenset(['n%d' % n.i])
            # a discarded value
            leaks, done = lk.track(fn, [(b, i + 1, env)], k)
            if leaks:
                m, t = leaks[0]
                out.append((n.i, k, 'bad', m.l if m is not None else fn.endline, t))
            else:
                out.append((n.i, k, 'ok', None, ''))
        return out

    fns = [f for f in P.fns if f.blocks]
    for fn, rs in zip(fns, pmap(job, fns, 4)):
        for i, k, v, l, t in rs:
            n = fn.nodes[i]
            ctx.count('acquisitions')
            ctx.count('acquisitions needing %s' % k)
            if v in ('nocfg', 'init'):
                ctx.count('acquisitions in member initialisers' if v == 'init' else 'acquisitions in unreachable code')
                continue
            if v == 'ok':
                ctx.count('acquisitions released or handed on along every path')
                continue
            inst = acq_name(n)
            if ctx.excepted(P, 'c04_allow.txt', fn, inst) is not None:
                ctx.count('acquisitions excepted by cfg/c04_allow.txt')
                continue
            ctx.viol('leak', fn.q, inst, '%s (needs %s) is %s%s' % (expr_str(n), k, t, ' on line %d' % l if l else ''),
                     fn=fn, node=n, P=P)
    ctx.need('acquisitions released or handed on along every path', 250, 'acquisitions')
    mb = Members(lk)
    mb.run(ctx)
    mb.locals(ctx)


def acq_name(n):
    if n.k == 'new':
        return 'new ' + str(n.get('_at'))
    s = n.callee.q
    for a in n.args:
        while a.k == 'cast' and a.kids:
            a = a.c()
        if a.k == 'str':
            s += ' "%s"' % a.get('v')
            break
    return s


def climb(n):
    """The construct that receives the value of n, and n's direct sub-expression of it."""
    p, x = n.p, n
    while p is not None and (p.k == 'cast' or p.k == 'cond' and x is not p.kids[0] or p.k == 'ilist' and len(p.kids) == 1):
        p, x = p.p, p
    return p, x


def chain(fn, paths, e, depth=0):
    """Field declarations an lvalue expression goes through, innermost first."""
    out = []
    while e is not None and depth < 40:
        depth += 1
        if e.k == 'mem':
            out.append((e.get('r') or '', e.name))
            e = e.c()
        elif e.k in ('index', 'cast', 'un', 'subscript'):
            e = e.kids[0] if e.kids else None
        elif e.k == 'call':
            e = e.obj if e.obj is not None else (e.args[0] if e.args and e.callee is not None and
                                                 e.callee.n in ('operator[]', 'operator*', 'operator->') else None)
        elif e.k == 'var':
            b = paths.bind.get(e.get('d'))
            nx = b[1] if b is not None else None
            if nx is None:
                for m in fn.walk():
                    if m.k == 'vardecl' and m.get('d') == e.get('d'):
                        if m.p is not None and m.p.k == 'rfor' or m.role == 'var':
                            q = m.p
                            while q is not None and q.k != 'rfor':
                                q = q.p
                            if q is not None:
                                nx = q.child('range') or next((x for x in q.kids if x is not m and x.k != 'block'), None)
                        elif m.kids:
                            nx = m.kids[0]
                        break
            e = nx
        else:
            break
    return out


class Members(object):
    def __init__(self, lk):
        self.lk = lk
        self.P = lk.P

    def fieldkey(self, fn, l):
        """(field name, owning record q) of the innermost field of lvalue l."""
        c = chain(fn, self.lk.px(fn)[0] if fn.blocks else Paths(fn), l)
        return c[0] if c else None

    def run(self, ctx):
        P, lk = self.P, self.lk
        g = graph(P)
        stores = {}             # field -> [(fn, node, kind, how)]
        for fn in P.fns:
            for n in fn.walk():
                k = lk.kind(n)
                if k is None:
                    continue
                p, x = climb(n)
                if p is None:
                    for ini in fn.inits:
                        if ini['e'] is not None and ini.get('fld') and any(m is n for m in ini['e'].walk()) and \
                                not any(m.k in ('call', 'ctor') and m is not n and any(y is n for y in m.walk())
                                        for m in ini['e'].walk()):
                            stores.setdefault((fn.decl.rec, ini['fld']), []).append((fn, n, k, 'init'))
                elif p.k == 'assign' and p.c(1) is x and p.c(0).k != 'var':
                    fk = self.fieldkey(fn, p.c(0))
                    if fk is not None:
                        stores.setdefault(fk, []).append((fn, n, k, 'assign'))
                elif p.k == 'call' and x in p.args and p.obj is not None and p.callee is not None and \
                        p.callee.n in ('push_back', 'emplace_back', 'insert', 'push_front'):
                    fk = self.fieldkey(fn, p.obj)
                    if fk is not None and p.obj.t is not None and 'unique_ptr' not in str(p.obj.t.s) and \
                            'shared_ptr' not in str(p.obj.t.s):
                        stores.setdefault(fk, []).append((fn, n, k, 'push'))
        # releases: field -> functions with a delete of it
        rel = {}
        for fn in P.fns:
            paths = None
            for n in fn.walk():
                e = None
                if n.k == 'delete' and n.kids:
                    e = n.c()
                elif n.k == 'call' and n.callee is not None and n.callee.q in RELEASES and n.args:
                    e = n.args[0]
                elif n.k == 'call' and n.callee is not None and n.obj is not None and n.callee.in_repo() and lk.self_destructs(n):
                    e = n.obj
                elif n.k == 'call':
                    e = self.sweeper(n)
                if e is not None:
                    if paths is None:
                        paths = Paths(fn)
                    for c in chain(fn, paths, e)[:1]:
                        rel.setdefault(c, set()).add(fn)
        self.relfns = rel
        self.destroyed(ctx, g, stores, rel)
        self.overwrites(ctx, stores, rel)
        self.foreign(ctx)
        return stores, rel

    def sweeper(self, n):
        """The container all elements of which std::for_each releases, or None."""
        if n.k != 'call' or n.callee is None or n.callee.q != 'std::for_each' or len(n.args) != 3:
            return None

        def bare(e):
            while e is not None and e.k in ('cast', 'ctor') and len(e.kids) == 1:
                e = e.kids[0]
            return e
        a, b = bare(n.args[0]), bare(n.args[1])
        if not (a.k == 'call' and b.k == 'call' and a.callee is not None and b.callee is not None and a.obj is not None and b.obj is not None and
                (a.callee.n, b.callee.n) in (('begin', 'end'), ('cbegin', 'cend'), ('rbegin', 'rend')) and expr_str(a.obj) == expr_str(b.obj)):
            return None
        for m in n.args[2].walk():
            f = self.P.lam_by_usr.get(m.get('_fu').u) if m.k == 'lambda' and m.get('_fu') is not None else None
            if f is not None and len(f.params) == 1:
                for x in f.walk():
                    if x.k == 'delete' and x.kids:
                        e = bare(x.c())
                        cond = [q for q in x.parents() if q.k not in ('block', 'decl')]
                        if e.k == 'var' and e.get('d') == f.params[0]['d'] and not cond:
                            return a.obj
        return None

    def destroyed(self, ctx, g, stores, rel):
        """Every owning member is released from a destructor (of its class, a base or derived class, or the class
        that holds the plain structure it lives in)."""
        P = self.P
        live = set()
        st = [f for f in P.fns if f.decl.kind == 'dtor']
        while st:
            f = st.pop()
            if f in live:
                continue
            live.add(f)
            for n, d in g.callees.get(f, ()):
                if d.body is not None:
                    st.append(d.body)
            if f.decl.pat and f.decl.pat in P.by_usr:
                st.append(P.by_usr[f.decl.pat])
        for fld, sites in sorted(stores.items(), key=str):
            ctx.count('members that own an acquired resource')
            fns = [f for f in rel.get(fld, ()) if f in live]
            fn, n, k, how = sites[0]
            if not fns:
                if ctx.excepted(P, 'c04_allow.txt', fn, 'member ' + fld[1]) is not None:
                    continue
                ctx.viol('member', fld[0], fld[1], 'member %s::%s receives %s (needs %s) but no destructor releases it' %
                         (fld[0], fld[1], expr_str(n), k), fn=fn, node=n, P=P)
                continue
            if any(x[3] == 'push' for x in sites):
                ctx.count('containers of owned objects')
                self.swept(ctx, fld, fns)
            # kinds
            ks = set(x[2] for x in sites)
            for f in sorted(rel.get(fld, ()), key=lambda x: (x.q, x.line)):
                for m, kk in self.relnodes(f, fld):
                    ctx.count('release statements of members')
                    if m.k == 'delete' and kk not in ks and ks <= {'delete', 'delete[]'}:
                        ctx.viol('mismatch', f.q, fld[1], '%s::%s is released by %s although it was acquired for %s in %s' %
                                 (fld[0], fld[1], kk, '/'.join(sorted(ks)), fn.q), fn=f, node=m, P=P)

    def swept(self, ctx, fld, fns):
        """The destructor releases all elements of a container."""
        one, loops = False, []
        for f in fns:
            for n in f.walk():
                e = n.c() if n.k == 'delete' and n.kids else n.args[0] if n.k == 'call' and n.callee is not None and \
                    n.callee.q in RELEASES and n.args else n.obj if n.k == 'call' and n.callee is not None and n.obj is not None and \
                    n.callee.in_repo() and self.lk.self_destructs(n) else None
                if e is None and n.k == 'call':
                    e = self.sweeper(n)
                    if e is not None and chain(f, Paths(f), e)[:1] == [fld]:
                        return
                if e is None or chain(f, Paths(f), e)[:1] != [fld]:
                    continue
                q = n.p
                while q is not None and q.k not in ('rfor', 'for', 'while', 'do', 'lambda'):
                    q = q.p
                if q is None:
                    one = True
                else:
                    loops.append((f, n, q))
        ok = any(q.k != 'for' or whole(q) or q.child('init') is None or one or
                 not any(v.k == 'int' for m in q.kids if m.role == 'init' for v in m.walk()) for f, n, q in loops)
        if not ok:
            f = sorted(fns, key=lambda x: (x.q, x.line))[0]
            ctx.viol('member', fld[0], 'elements of ' + fld[1], 'only some of the objects in %s::%s are released by %s' % (
                fld[0], fld[1], f.q), fn=f, node=loops[0][1] if loops else None, P=self.P)

    def foreign(self, ctx):
        """A member that may refer to an object it does not own is not released before it was compared with that."""
        P, lk = self.P, self.lk
        alien = {}
        for fn in P.fns:
            for n in fn.walk():
                if n.k == 'assign' and n.op == '=' and n.c(0).k == 'mem' and n.c(0).t is not None and n.c(0).t.k == 'ptr':
                    for t in tails(n.c(1)):
                        if t.k == 'un' and t.op == '&' and t.c().k in ('mem', 'gvar') and t.c().t is not None:
                            fk = self.fieldkey(fn, n.c(0))
                            if fk is not None:
                                alien.setdefault(fk, set()).add(t.c().name)
        for fld, names in sorted(alien.items(), key=str):
            for f in sorted(self.relfns.get(fld, ()), key=lambda x: (x.q, x.line)):
                paths = lk.px(f)[0] if f.blocks else None
                if paths is None:
                    continue

                def same(e):
                    while e is not None and e.k == 'cast' and e.kids:
                        e = e.c()
                    return e is not None and chain(f, paths, e)[:1] == [fld]

                def transfer(n, st):
                    if n.k == 'assign' and n.op == '=' and same(n.c(0)):
                        st = frozenset(t.c().name for t in tails(n.c(1)) if t.k == 'un' and t.op == '&' and t.c().k in ('mem', 'gvar'))
                    return st

                def edge(c, tv, st):
                    for a, v in flow.implied(c, tv):
                        if a.k == 'bin' and a.op in ('==', '!='):
                            for x, y in ((a.c(0), a.c(1)), (a.c(1), a.c(0))):
                                while y.k == 'cast' and y.kids:
                                    y = y.c()
                                if same(x) and y.k == 'un' and y.op == '&' and y.c().k in ('mem', 'gvar'):
                                    st = st - {y.c().name} if (a.op == '!=') == v else frozenset([y.c().name])
                        t = flow.nulltest(a, v)
                        if t is not None and t[1] and same(t[0]):
                            st = frozenset()
                    return st
                ins = flow.forward(f, frozenset(names), transfer, edge)
                for m, kk in self.relnodes(f, fld):
                    ctx.count('releases of members that may refer to other objects')
                    if m.i not in lk.px(f)[1]:
                        continue
                    st = flow.at(f, ins, m, lk.px(f)[1], transfer)
                    if st and ctx.excepted(P, 'c04_allow.txt', f, 'foreign ' + fld[1]) is None:
                        ctx.viol('foreign', f.q, fld[1], '%s::%s may refer to %s here, which it does not own' % (
                            fld[0], fld[1], ', '.join(sorted(st))), fn=f, node=m, P=P)

    def relnodes(self, f, fld):
        paths = Paths(f)
        for n in f.walk():
            if n.k == 'delete' and n.kids:
                if chain(f, paths, n.c())[:1] == [fld]:
                    yield n, 'delete[]' if n.get('arr') or n.get('isarr') else 'delete'

    def releasing_calls(self, fld, rel):
        r = getattr(self, '_rc', None)
        if r is None:
            r = self._rc = {}
        if fld not in r:
            fns = set(rel.get(fld, ()))
            g = graph(self.P)
            for f in list(fns):     # one level of indirection
                for c in g.callers.get(f.decl.u, ()):
                    if c.decl.rec == f.decl.rec:
                        fns.add(c)
            r[fld] = set(f.decl.u for f in fns)
        return r[fld]

    def overwrites(self, ctx, stores, rel):
        """An assignment of an acquired resource to a member never overwrites one it still owns."""
        P, lk = self.P, self.lk
        emptied = []
        dtor = set(f for f, fs in rel.items() if any(x.decl.kind == 'dtor' for x in fs))
        plain = {}              # other assignments to the members that own something
        for fn in P.fns:
            for n in fn.walk():
                if n.k == 'assign' and n.op == '=' and n.c(0).k != 'var' and n.c(0).t is not None and n.c(0).t.k == 'ptr':
                    fk = self.fieldkey(fn, n.c(0))
                    if fk in stores and not any(x[0] is fn and climb(x[1])[0] is n for x in stores[fk]):
                        plain.setdefault(fk, []).append((fn, n.c(1), None, 'assign'))
                elif n.k == 'call' and n.obj is not None and n.callee is not None and n.callee.n in ('clear', 'operator=') \
                        and n.callee.rec and n.callee.rec.startswith('std::'):
                    fk = self.fieldkey(fn, n.obj)
                    if (fk in stores or fk in dtor) and n.obj.t is not None and '*' in str(n.obj.t.s) and \
                            chain(fn, lk.px(fn)[0] if fn.blocks else Paths(fn), n.obj)[:1] == [fk]:
                        emptied.append((fk, fn, n))
        for fk, fn, n in emptied:
            if (fn.decl.kind or '').endswith('ctor') or not fn.blocks or n.i not in lk.px(fn)[1]:
                continue
            ctx.count('containers of owned objects emptied')
            if self.overwrite(fn, lk.px(fn)[0], n, n.obj, None, fk, rel):
                for f2, nd in self.origins(fn, n, n.obj, fk, rel):
                    if ctx.excepted(P, 'c04_allow.txt', f2, 'empty ' + fk[1]) is None:
                        ctx.viol('overwrite', f2.q, fk[1], 'the objects in %s::%s are not released before the container is emptied%s' % (
                            fk[0], fk[1], '' if f2 is fn else ' by ' + fn.q), fn=f2, node=nd, P=P)
        for fld, sites in sorted(stores.items(), key=str):
            # other sites which make the member owning do not matter: any non-null value may be owned
            for fn, n, k, how in sites + plain.get(fld, []):
                if how != 'assign' or not fn.blocks or (fn.decl.kind or '').endswith('ctor'):
                    continue
                p, x = climb(n)
                paths, ix, ci = lk.px(fn)
                if p.i not in ix:
                    continue
                lhs = p.c(0)
                key = paths.key(lhs)
                ctx.count('assignments of acquired resources to members')
                if not self.overwrite(fn, paths, p, lhs, key, fld, rel):
                    continue
                # a helper may rely on its callers
                for f2, nd in self.origins(fn, p, lhs, fld, rel):
                    if ctx.excepted(P, 'c04_allow.txt', f2, 'overwrite ' + fld[1]) is not None:
                        ctx.count('acquisitions excepted by cfg/c04_allow.txt')
                        continue
                    ctx.viol('overwrite', f2.q, fld[1], '%s::%s may still own a resource when it is assigned %s%s' %
                             (fld[0], fld[1], expr_str(n), '' if f2 is fn else ' by ' + fn.q), fn=f2, node=nd, P=P)

    def origins(self, fn, node, lhs, fld, rel, depth=0):
        """The functions from whose entry the assignment can be reached without releasing the member."""
        if fn.decl.kind in ('ctor', 'cctor'):
            return []
        out = []
        callers = set(graph(self.P).callers.get(fn.decl.u, ())) if lhs.k == 'mem' and depth < 4 and not fn.decl.virtual else ()
        callers = [c for c in callers if '/Test/' not in c.file]
        if not callers:
            return [(fn, node)]
        for c in sorted(callers, key=lambda x: (x.q, x.line)):
            if c.decl.kind in ('ctor', 'cctor') or not c.blocks or c is fn:
                continue
            paths, ix, ci = self.lk.px(c)
            for n in c.walk():
                if n.k == 'call' and n.i in ix and any(d.u == fn.decl.u for d in self.P.targets(n)):
                    if n.obj is not None and n.obj.k != 'this':
                        out.append((fn, node))  # called for another object: its state is unknown
                    elif self.overwrite(c, paths, n, lhs, None, fld, rel):
                        out += self.origins(c, n, lhs, fld, rel, depth + 1)
        seen, res = set(), []
        for f, n in out:
            if f not in seen:
                seen.add(f)
                res.append((f, n))
        return res

    def overwrite(self, fn, paths, asg, lhs, key, fld, rel):
        P, lk = self.P, self.lk
        lchain = chain(fn, paths, lhs) if key is not None or lhs.fn is fn else [fld]
        rc = self.releasing_calls(fld, rel)

        def same(e):
            while e is not None and e.k == 'cast' and e.kids:
                e = e.c()
            if e is None or e.k == 'call' and e.callee is not None and e.callee.n in ('size', 'empty', 'capacity', 'count', 'max_size', 'length'):
                return False
            if key is not None and paths.key(e) == key:
                return True
            return chain(fn, paths, e)[:1] == [fld]

        def transfer(n, own):
            if not own:
                return own
            if n.k == 'delete' and n.kids and same(n.c()):
                return False
            if n.k == 'assign' and n is not asg and n.op == '=' and (
                    any(same(t) for t in tails(n.c(1))) or any(same(t) for t in tails(n.c(0)))):
                return False        # handed on, or set to another value (judged at that site)
            if n.k == 'vardecl' and n.kids and n.t is not None and n.t.k == 'ptr' and any(same(t) for t in tails(n.kids[0])):
                return False
            if n.k == 'call' and self.sweeper(n) is not None and chain(fn, paths, self.sweeper(n))[:1] == [fld]:
                return False
            if n.k in ('call', 'ctor'):
                if any(same(a) and lk.takes_arg(n, i) != 'borrow' for i, a in enumerate(n.args)):
                    return False
                if n.callee is not None and any(d.u in rc for d in P.targets(n)):
                    return False
                if n.obj is not None and n.callee is not None and n.callee.n in ('clear', 'resize', 'assign') and \
                        lhs.k != 'mem' and chain(fn, paths, n.obj)[:1] == [fld]:
                    return False    # the container is refilled
            if n.k in ('assign', 'vardecl') and n.kids and tails(n.kids[-1])[:1] and tails(n.kids[-1])[0].k == 'new' and len(lchain) > 1:
                if n.k == 'assign' and chain(fn, paths, n.c(0))[:1] == lchain[1:2]:
                    return False    # the object the member belongs to has just been created
            return own

        sweeps = {}
        for n in fn.walk():
            if n.k == 'delete' and n.kids and same(n.c()):
                for q in n.parents():
                    if q.k == 'rfor' or q.k == 'for' and whole(q):
                        sweeps[q.i] = True

        def edge(c, tv, own):
            if not tv and own and sweeps:
                q = c
                while q is not None and q.k not in ('for', 'rfor', 'block', 'if'):
                    q = q.p
                if q is not None and q.i in sweeps:
                    return False        # every element has been released
            for a, v in flow.implied(c, tv):
                t = flow.nulltest(a, v)
                if t is not None and t[1] and same(t[0]):
                    return False
                if a.k == 'bin' and a.op in ('==', '!=') and (a.op == '==') == v and any(
                        same(x) and y is not None and y.k == 'un' and y.op == '&' for x, y in ((a.c(0), a.c(1)), (a.c(1), a.c(0)))):
                    return False        # refers to another object
                if a.k == 'bin' and a.op in ('<', '<=', '==', '>', '>=', '!=') and same(a.c(0)) and handle_unset(a, v):
                    return False
            return own
        ins = flow.forward(fn, True, transfer, edge)
        return bool(flow.at(fn, ins, asg, lk.px(fn)[1], transfer))

    def locals(self, ctx):
        """Rule 3: what is stored in a local container of raw pointers or handles is released by a sweep over the
        container, or the container is handed on, before the function returns."""
        P, lk = self.P, self.lk
        for fn in P.fns:
            if not fn.blocks:
                continue
            for n in fn.walk():
                k = lk.kind(n)
                if k is None:
                    continue
                p, x = climb(n)
                c = None
                if p is not None and p.k == 'call' and x in p.args and p.obj is not None and p.callee is not None and \
                        p.callee.q.startswith('std::'):
                    c = p.obj
                elif p is not None and p.k == 'assign' and p.c(1) is x and p.c(0).k not in ('var', 'mem', 'gvar'):
                    c = p.c(0)
                while c is not None and c.k not in ('var', 'mem', 'gvar'):
                    c = c.obj if c.k == 'call' and c.obj is not None else (c.kids[0] if c.kids else None)
                if c is None or c.k != 'var' or fn.is_param(c.get('d')) or fn.locals[c.get('d')].get('sl'):
                    continue
                t = fn.locals[c.get('d')]['t']
                if t is None or t.k in ('ref', 'ptr') or 'unique_ptr' in t.s or 'shared_ptr' in t.s:
                    continue
                d = c.get('d')
                if not any(m.k == 'vardecl' and m.get('d') == d for m in fn.walk()):
                    continue        # captured by a lambda
                ctx.count('acquisitions stored in local containers')
                paths, ix, ci = lk.px(fn)
                if n.i not in ix:
                    continue
                leak = self.unswept(fn, paths, ix, p, d)
                if leak is None:
                    continue
                if ctx.excepted(P, 'c04_allow.txt', fn, 'container ' + c.name) is not None:
                    continue
                ctx.viol('container', fn.q, c.name, '%s (needs %s) is stored in %s, which is not released%s' %
                         (expr_str(n), k, c.name, ' on the exit at line %d' % leak if leak else ''), fn=fn, node=n, P=P)

    def unswept(self, fn, paths, ix, start, d):
        lk = self.lk

        def root(e):
            """The variable an expression finally refers to an element of."""
            seen = 0
            while e is not None and seen < 40:
                seen += 1
                if e.k == 'var':
                    if e.get('d') == d:
                        return True
                    b = paths.bind.get(e.get('d'))
                    nx = b[1] if b is not None else None
                    if nx is None:
                        for m in fn.walk():
                            if m.k == 'vardecl' and m.get('d') == e.get('d'):
                                q = m.p
                                while q is not None and q.k not in ('rfor', 'block', 'for'):
                                    q = q.p
                                if q is not None and q.k == 'rfor' and any(m is y for x in q.kids if x.role == 'lv' for y in x.walk()):
                                    for x in q.kids:
                                        if x.role == 'rs':
                                            for y in x.walk():
                                                if y.k == 'vardecl' and y.kids:
                                                    nx = y.kids[0]
                                                    break
                                elif m.kids:
                                    nx = m.kids[0]
                                break
                    e = nx
                elif e.k == 'call':
                    e = e.obj if e.obj is not None else (e.args[0] if e.args else None)
                else:
                    e = e.kids[0] if e.kids else None
            return False
        sweeps = set()

        def releases(n):
            if n.k == 'delete' and n.kids:
                return root(n.c())
            return n.k == 'call' and n.callee is not None and n.callee.q in RELEASES and n.args and root(n.args[0])
        for n in fn.walk():
            if releases(n):
                for q in n.parents():
                    if q.k == 'rfor' or q.k == 'for' and whole(q):
                        sweeps.add(q.i)

        def escapes(n):
            if n.k == 'return' and n.kids:
                return any(t.k == 'var' and t.get('d') == d or t.k == 'ctor' and t.args and t.args[0].k == 'var' and
                           t.args[0].get('d') == d for t in tails(n.kids[0]))
            if n.k == 'call':
                if n.callee is not None and n.callee.n == 'swap' and (n.obj is not None and n.obj.k == 'var' and n.obj.get('d') == d):
                    return True
                for i, a in enumerate(n.args):
                    if a.k == 'var' and a.get('d') == d and not (n.callee is not None and n.callee.n in ('move', 'forward')):
                        if n.callee is None or i >= len(n.callee.p) or n.callee.p[i] is None or n.callee.p[i].k not in ('ref', 'rref') \
                                or not n.callee.p[i].p.c:
                            return True
                        if n.callee.in_repo() and self.takes_container(n.callee, i):
                            return True
                    if a.k == 'call' and a.callee is not None and a.callee.n == 'move' and a.args and a.args[0].k == 'var' and \
                            a.args[0].get('d') == d:
                        return True
                if n.callee is not None and n.callee.q == 'std::for_each' and n.args and root(n.args[0]):
                    return True
            if n.k in ('assign', 'vardecl') and n.kids and n.kids[-1].k == 'call' and n.kids[-1].callee is not None and \
                    n.kids[-1].callee.n == 'move' and n.kids[-1].args and root(n.kids[-1].args[0]):
                return True
            return False

        def transfer(n, own):
            if n is start:
                return True
            return own and not escapes(n)

        def edge(c, tv, own):
            if own and not tv and sweeps:
                q = c
                while q is not None and q.k not in ('for', 'rfor', 'block', 'if'):
                    q = q.p
                if q is not None and q.i in sweeps:
                    return False
            return own
        ins = flow.forward(fn, False, transfer, edge)
        if ins.get(fn.exit):
            for B in fn.blocks.values():
                if fn.exit in B.succs and B.id in ins and flow.through(fn, B, ins[B.id], transfer):
                    for n in flow.elems(fn, B):
                        if n.k == 'return':
                            return n.l
            return 0
        return None

    def takes_container(self, decl, i):
        """The callee stores the pointers found in its container argument (const reference)."""
        b = decl.body
        if b is None or i >= len(b.params):
            return False
        d = b.params[i]['d']
        for m in b.walk():
            if m.k == 'var' and m.get('d') == d and m.p is not None and m.p.k in ('assign', 'ctor') and m.p.kids[-1] is m:
                return True
        return any(ini['e'] is not None and ini.get('fld') and any(m.k == 'var' and m.get('d') == d for m in ini['e'].walk())
                   for ini in b.inits)


def handle_unset(a, v):
    """The test says that a handle (>= 0 when open) is not open."""
    b = a.c(1)
    while b is not None and b.k == 'cast' and b.kids:
        b = b.c()
    if b is None:
        return False
    neg = b.k == 'un' and b.op == '-'
    zero = b.k == 'int' and not b.get('v')
    return neg and (a.op == '==' and v or a.op == '!=' and not v or a.op == '>' and not v or a.op == '<=' and v) or \
        zero and (a.op == '<' and v or a.op == '>=' and not v)


def whole(q):
    """A for loop that starts with the first element."""
    for m in q.kids:
        if m.role in ('init',):
            for v in m.walk():
                if v.k == 'int' and v.get('v') == 0 or v.k == 'call' and v.callee is not None and v.callee.n in ('begin', 'rbegin'):
                    return True
    return False

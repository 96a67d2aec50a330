"""C01: a failure reported by one step is reported by every enclosing operation.

Obligation per call site of a status-returning function (cfg/c01_status.txt, closed over overriding
families): assume the call reported failure; explore every path of the caller from there with the
value propagation of absval.py; every value the caller may then return must be one of its own
failure values."""
import model
from absval import ANY, FALSE, TRUE, AbsEval, explore, seed, elem_index, is_any, const_in, run_block
from lib import read_table, graph, baseline
from par import pmap
from facts import AnalysisError

CONV_FAIL = frozenset([0, 1])
FAILV = {'false': [FALSE], 'null': [FALSE], 'zero': [FALSE], 'neg': [frozenset(['NEG'])],
         'conv': [frozenset([0])]}


class Tables(object):
    def __init__(self, P):
        self.status = {}
        self.dep = {}
        for r in read_table('c01_status.txt'):
            q, kind = r[0], (r[1] if len(r) > 1 else 'false')
            if q.startswith('dep:'):
                self.dep[q[4:]] = kind
            else:
                self.status[q] = kind
        self.intconv = dict((r[0], r[1]) for r in read_table('c01_int.txt'))
        # close over overriding families
        self.kind = {}
        byu = P.funs
        roots = {}

        def root(u):
            seen = set()
            st = [u]
            out = set()
            while st:
                x = st.pop()
                if x in seen or x not in byu:
                    continue
                seen.add(x)
                ov = byu[x].ov
                if not ov:
                    out.add(x)
                st += ov
            return out
        fam = {}
        for f in P.funs.values():
            k = self.status.get(f.q)
            if k is None and f.q.split('<')[0] != f.q:
                k = self.status.get(f.q.split('<')[0])
            for r in root(f.u):
                roots.setdefault(f.u, set()).add(r)
                if k is not None and okret(f, k):
                    fam[r] = k
        for u, rs in roots.items():
            for r in rs:
                if r in fam:
                    self.kind[u] = fam[r]
        for f in P.funs.values():
            k = self.status.get(f.q)
            if k is not None and okret(f, k):
                self.kind[f.u] = k


def okret(f, kind):
    if f.r is None:
        return False
    if kind == 'false':
        return f.r.k == 'bool'
    if kind == 'conv':
        return f.r.k == 'enum'
    if kind == 'null':
        return f.r.k == 'ptr'
    return f.r.k == 'int'


def conv_of(fn, T):
    """How fn reports failure: a predicate name or None."""
    r = fn.decl.r
    if r is None:
        return None
    if r.k == 'bool':
        return 'false'
    if r.k == 'enum' and r.s.endswith('ConvStatus'):
        return 'conv'
    if r.k == 'ptr':
        return 'null'
    if r.k == 'int':
        return T.intconv.get(fn.q)
    return None


def is_failing(vals, conv):
    if conv in ('false', 'null', 'zero'):
        return vals <= {0}
    if conv == 'conv':
        return vals <= CONV_FAIL
    if conv == 'neg':
        return all(v in ('NEG', 'NERR') or (isinstance(v, int) and v < 0) for v in vals)
    if conv == 'nonzero':
        return all(v in ('NEG', 'POS', 'ERR', 'NERR') or (isinstance(v, int) and v != 0) for v in vals)
    return False


class Prover(object):
    def __init__(self, P, T):
        self.P, self.T = P, T
        self._px = {}
        self._ci = {}
        self.nofail = {}
        self.alwaysf = {}

    def px(self, fn):
        r = self._px.get(fn)
        if r is None:
            paths = model.Paths(fn)
            r = self._px[fn] = (paths, elem_index(fn))
            self._ci[fn] = const_in(fn, paths, self.callret)
        return r

    def cannot_fail(self, decl):
        """A non-virtual function whose every return is the literal success value."""
        r = self.nofail.get(decl.u)
        if r is None:
            self.nofail[decl.u] = False
            r = False
            body = decl.body
            if body is not None and body.body is not None and not decl.virtual and decl.r is not None and decl.r.k == 'bool':
                rets = [n for n in body.body.walk() if n.k == 'return' and n.kids]
                rets = [n for n in rets if not any(p.k == 'lambda' for p in n.parents())]
                if rets and all((n.kids[0].k == 'bool' and n.kids[0].get('v')) or
                                (n.kids[0].k == 'call' and n.kids[0].callee is not None and
                                 self.cannot_fail(n.kids[0].callee)) for n in rets):
                    r = True
            self.nofail[decl.u] = r
        return r

    def always_false(self, decl):
        """Does the function return failure (false) on every path?"""
        if decl.r is None or decl.r.k != 'bool':
            return False
        r = self.alwaysf.get(decl.u)
        if r is None:
            self.alwaysf[decl.u] = False
            body = decl.body or self.P.lam_by_usr.get(decl.u)
            r = False
            if body is not None and body.body is not None and not (decl.virtual):
                rets = [n for n in body.body.walk() if n.k == 'return' and n.kids]
                rets = [n for n in rets if not any(p.k == 'lambda' for p in n.parents())]
                if rets and all(self.ret_false(n.kids[0]) for n in rets):
                    r = True
            self.alwaysf[decl.u] = r
        return r

    def ret_false(self, e):
        if e.k == 'bool':
            return not e.get('v')
        if e.k == 'call' and e.callee is not None:
            return self.always_false(e.callee)
        return False

    def lam_of(self, fn, n):
        """The lambda body called by n (operator() on a local closure)."""
        o = n.obj
        if o is None or o.k != 'var':
            return None
        for m in fn.walk():
            if m.k == 'vardecl' and m.get('d') == o.get('d') and m.kids:
                for x in m.kids[0].walk():
                    if x.k == 'lambda':
                        return x.get('_fu') or x.callee
        return None

    def callret(self, ev, n, env):
        ce = n.callee
        if ce is not None and ce.r is not None and ce.r.k == 'bool':
            if self.always_false(ce):
                return FALSE
        return None

    def explore_from(self, fn, c, val, extra=None):
        """Values fn may return when call c evaluated to val. Returns (set, overflow, results)."""
        paths, ix = self.px(fn)
        if c.i not in ix:
            return None, True, []
        b, i = ix[c.i]
        env = dict(self._ci[fn].get(b, {}))
        run_block(fn, AbsEval(fn, paths, callret=self.callret), fn.blocks[b], env, i + 1)
        env = seed(fn, paths, c, env)
        if val is not None:
            env[c.i] = val
        if extra:
            env.update(extra)
        res, ov = explore(fn, paths, [(b, i + 1, env)], callret=self.callret)
        vals = set()
        for n, v, e in res:
            vals |= set(v)
        vals.discard('THROW')
        return vals, ov, res


def witness(fn, res, conv):
    for n, v, e in res:
        vv = set(v) - {'THROW'}
        if vv and not is_failing(vv, conv):
            return n
    return None


def call_name(c):
    if c.callee is not None:
        return c.callee.q
    f = c.child('f')
    return (f.name if f is not None else None) or '?'


def sites_of(fn, T):
    out = []
    for n in fn.walk():
        if n.k != 'call':
            continue
        ce = n.callee
        if ce is not None:
            k = T.kind.get(ce.u)
            if k is None and ce.pat:
                k = T.kind.get(ce.pat)
            if k is not None:
                out.append((n, k))
        else:
            f = n.child('f')
            if f is None or f.k not in ('mem', 'ref', 'expr'):
                continue
            own = 'this.' + (f.name or '')
            if own in T.dep and f.k == 'mem' and (not f.kids or f.kids[0].k == 'this'):
                out.append((n, T.dep[own]))
            elif fn.decl.q.split('<')[0].rsplit('::', 1)[0] + '.' + (f.name or '') in T.dep:
                out.append((n, T.dep[fn.decl.q.split('<')[0].rsplit('::', 1)[0] + '.' + f.name]))
            elif f.name in T.dep:
                out.append((n, T.dep[f.name]))
    return out


def check_site(pr, fn, c, vals, depth=0):
    """Returns (verdict, witness line, detail): verdict in prop/bad/na."""
    conv = conv_of(fn, pr.T)
    base = baseline(pr.P)
    if conv is not None and not (base.is_new(fn) and fn.decl.r.k == 'int'):
        for v in vals:
            rv, ov, res = pr.explore_from(fn, c, v)
            if rv is None:
                return 'nocfg', None, ''
            if not is_failing(rv, conv):
                w = witness(fn, res, conv)
                if base.is_new(fn) and depth < 3:
                    # a helper with its own convention: judge it by what its callers make of it
                    r = push_up(pr, fn, rv, res, depth)
                    if r is not None:
                        if r[0] == 'bad':
                            return r
                        continue
                return 'bad', w, 'may return %s' % fmt(rv)
        return 'prop', None, ''
    if base.is_new(fn) and depth < 3:
        verdict = 'na'
        for v in vals:
            rv, ov, res = pr.explore_from(fn, c, v)
            if rv is None:
                return 'nocfg', None, ''
            r = push_up(pr, fn, rv, res, depth)
            if r is not None:
                if r[0] == 'bad':
                    return r
                verdict = r[0]
        return verdict, None, ''
    return 'na', None, ''


def push_up(pr, fn, rv, res, depth):
    """Judges a new helper (or lambda) by its call sites. None when there are none."""
    P = pr.P
    # values left in status parameters passed by reference
    refs = {}
    for i, p in enumerate(fn.params):
        t = p['t']
        if t is not None and t.k == 'ref' and not t.p.c and t.p.k in ('bool', 'int', 'enum'):
            vals = set()
            for n, v, e in res:
                vals |= set(e.get('r%d' % p['d'], ANY))
            if 'ANY' not in vals:
                refs[i] = frozenset(vals)
    sites = []
    if fn.lam:
        par = P.by_usr.get(fn.parent.u) if fn.parent is not None else None
        if par is None:
            return None
        for n in par.walk():
            if n.k == 'call' and n.callee is not None and n.callee.n == 'operator()' and pr.lam_of(par, n) is not None \
                    and pr.lam_of(par, n).u == fn.decl.u:
                sites.append((par, n))
    else:
        for cf in graph(P).callers.get(fn.decl.u, ()):
            for n in cf.walk():
                if n.k == 'call' and n.callee is not None and any(d.u == fn.decl.u for d in P.targets(n)):
                    sites.append((cf, n))
    if not sites:
        return None
    out = None
    for cf, n in sites:
        extra = {}
        paths, ix = pr.px(cf)
        from absval import AbsEval
        ev = AbsEval(cf, paths)
        for i, v in refs.items():
            if i < len(n.args):
                k = ev.trackable(n.args[i])
                if k is not None:
                    extra[k] = v
        val = frozenset(rv) if rv and 'ANY' not in rv and fn.decl.r is not None and fn.decl.r.k != 'void' else None
        if val is None and not extra:
            r = ('na', None, '')
            if conv_of(cf, pr.T) is not None and fn.decl.r is not None and fn.decl.r.k == 'bool':
                r = ('bad', None, 'the helper %s may return success' % fn.q)
        else:
            conv = conv_of(cf, pr.T)
            if conv is None:
                r = ('na', None, '')
            else:
                rv2, ov, res2 = pr.explore_from(cf, n, val, extra)
                if rv2 is None:
                    r = ('na', None, '')
                elif is_failing(rv2, conv):
                    r = ('prop', None, '')
                elif baseline(P).is_new(cf) and depth < 3:
                    r = push_up(pr, cf, rv2, res2, depth + 1) or ('bad', None, 'via helper %s' % fn.q)
                else:
                    r = ('bad', None, 'via %s: %s may return %s' % (fn.q if not fn.lam else 'a lambda', cf.q, fmt(rv2)))
        if r[0] == 'bad':
            return r
        if out is None or r[0] == 'prop':
            out = r
    return out


def fmt(vals):
    names = {0: '0/false', 1: '1/true', 'NEG': 'a negative value', 'POS': 'a positive value', 'ANY': 'an unrelated value'}
    return ', '.join(sorted(names.get(v, str(v)) for v in vals)) if vals else 'nothing'


def run(P, ctx):
    T = Tables(P)
    pr = Prover(P, T)
    graph(P)
    baseline(P)

    def job(fn):
        out = []
        if not fn.blocks:
            return out
        for c, kind in sites_of(fn, T):
            if c.callee is not None and pr.cannot_fail(c.callee):
                out.append((c.i, kind, 'never', None, ''))
                continue
            v, w, detail = check_site(pr, fn, c, FAILV[kind])
            out.append((c.i, kind, v, w.l if w is not None else None, detail))
        return out

    fns = [f for f in P.fns if f.blocks]
    res = pmap(job, fns, 4)
    named = set()
    for fn, rs in zip(fns, res):
        for ci, kind, v, wl, detail in rs:
            c = fn.nodes[ci]
            nm = call_name(c)
            named.add(nm)
            if v == 'never':
                ctx.count('call sites of functions that cannot fail (every return is the literal success value)')
                continue
            if v == 'na' or v == 'nocfg':
                ctx.count('call sites in functions without a status result (not obligations)')
                continue
            ctx.count('call sites of status-returning functions checked')
            if v == 'prop':
                ctx.count('call sites where every continuation reports the failure')
                continue
            short = nm.split('::')[-1]
            r = ctx.excepted(P, 'c01_allow.txt', fn, short)
            if r is not None:
                ctx.count('call sites excepted by cfg/c01_allow.txt')
                continue
            ctx.viol('unpropagated-status', fn.q, nm,
                     'a failure of %s can end in success: %s%s' %
                     (nm, detail, ', e.g. at the return on line %d' % wl if wl else ' (falls off the end)'),
                     fn=fn, node=c, P=P,
                     trace=['%s:%d call %s assumed to report failure' % (fn.file, c.l, model.expr_str(c))] +
                     (['%s:%d return reached with a success value' % (fn.file, wl)] if wl else []))
    ctx.need('call sites where every continuation reports the failure', 500, 'propagating call sites')
    ctx.explain.append(
        'Rule: for every call of a status-returning function (frozen list cfg/c01_status.txt, closed over '
        'overriding families) the call is assumed to have failed and all CFG paths of the caller are explored '
        'with disjunctive constant propagation; each value the caller may return must be one of its failure values.')
    ctx.assume('functions outside the compiled configuration (GoTools, LR-splines, PETSc, MPI code paths) are not analysed')

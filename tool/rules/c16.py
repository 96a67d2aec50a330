"""C16: parallel loops are free of data races.

From every OpenMP parallel loop the calls are followed (virtual calls to all overriding functions) together with which objects are
shared between the threads: the object itself, reference and pointer arguments, variables declared outside the loop, static
variables, and what can be reached from these through members and pointers. A modification of a shared object must be
 - to an element selected by the loop variable (or the element/point number derived from it) or by the thread number, or
 - inside an omp critical or atomic construct, or of a variable in a reduction or private clause, or
 - setting a status flag of the loop to the same literal value everywhere, or
 - listed in cfg/c16_shared.txt, e.g., the assembly which relies on the colouring of the elements."""
import effects
import flow
import par
from effects import strip, strip1, bare, is_ptr, is_smart, iterator
from model import expr_str

P = None
LOCALTYPE = ('LocalIntegral',)
NUMBERS = ('iel', 'idx', 'iGP')
THREADNUM = ('omp_get_thread_num',)
# The methods called from the parallel element loops (also of the patch types that are not compiled here), for all objects
ROOTS = (('Integrand', ('getLocalIntegral', 'initElement', 'initElementBou', 'reducedInt', 'evalInt', 'evalIntMx', 'evalPoint',
                        'finalizeElement', 'finalizeElementBou', 'evalBou', 'evalBouMx', 'getReducedIntegration',
                        'getBouIntegrationPoints', 'getIntegrandType', 'getMode')),
         ('FunctionBase', ('getValue', 'getScalarValue', 'inDomain', 'gradient', 'hessian', 'timeDerivative')),
         ('FunctionBase|ScalarFunc', ('evaluate', 'operator()', 'deriv', 'dderiv', 'evalGradient', 'evalHessian', 'evalTimeDerivative')),
         ('BasisFunctionCache', ('getVals',)))


def isstream(t):
    return t is not None and any(x in t.s for x in ('stream', 'LogStream', 'std::ios'))


def rec_of(t):
    t = bare(t)
    while t is not None and t.k in ('ptr', 'arr', 'ref'):
        t = bare(t.p)
    return t.r if t is not None else None


def thread_type(t):
    r = rec_of(t)
    return r is not None and any(P.is_a(r, b) for b in LOCALTYPE)


class Origin(object):
    """Where the storage an expression refers to comes from, through any number of members and pointers."""

    def __init__(self, fn, parts=(), ivs=()):
        self.fn = fn
        self.S = effects.Storage(P, fn)
        self.parts = set(parts)     # variables holding a different value in each thread
        self.ivs = set(ivs)         # loop variables which are containers of such values
        self.par = self.S.par
        asg = {}
        for n in fn.walk():
            if n.k == 'assign' and strip(n.c(0)) is not None and strip(n.c(0)).k == 'var':
                asg.setdefault(strip(n.c(0)).get('d'), []).append(n.c(1) if n.op == '=' else None)
        ch = True
        while ch:
            ch = False
            for d, vs in asg.items():
                if d not in self.parts and d not in self.ivs and all(v is not None and self.part(v) for v in vs) and \
                        all(kind == '' and (x is None or strip(x).k == 'int' or self.part(x)) for kind, x, _ in self.S.init.get(d, ())):
                    self.parts.add(d)
                    ch = True
            for d, ini in self.S.init.items():
                if d in self.parts or d in self.ivs or len(ini) != 1 or ini[0][1] is None or reassigned(fn, d):
                    continue
                kind, x, t = ini[0]
                if kind == '' and self.part(x) or kind == 'elem' and strip(x) is not None and strip(x).k == 'var' and \
                        strip(x).get('d') in self.ivs:
                    self.parts.add(d)
                    ch = True

    def part(self, e):
        """Is the value of e different in each iteration (or thread)?"""
        e = strip(e)
        if e is None:
            return False
        if e.k == 'var':
            return e.get('d') in self.parts
        if e.k == 'call' and (e.name or '') in THREADNUM:
            return True
        if e.k == 'call' and e.callee is not None and e.callee.in_repo() and e.callee.const and not e.op and e.callee.r is not None and \
                e.callee.r.k in ('int', 'enum', 'num') and any(self.part(a) for a in e.args):
            return True
        if e.k == 'call' and e.callee is None and self.fn.dep and not e.op and objof(e) is not None and strip(objof(e)) is not None and \
                strip(objof(e)).k == 'this':
            c = [g.decl for g in P.fns if g.decl.rec == self.fn.decl.rec and g.decl.n == objof_name(e)]
            return bool(c) and all(d.const and d.r is not None and d.r.k in ('int', 'enum', 'num') for d in c) and \
                any(self.part(a) for a in e.args)
        if e.k == 'bin' and e.op in ('+', '-'):
            return self.part(e.kids[0]) != self.part(e.kids[1])
        if e.k == 'un' and e.op in ('p++', 'p--', '+', '-'):
            return self.part(e.c())
        if e.k == 'idx' or e.k == 'call' and e.op == '[]':
            a, i = (e.c(0), e.c(1)) if e.k == 'idx' else (e.obj, e.args[0] if e.args else None)
            a = strip(a)
            if a is not None and a.k == 'var' and a.get('d') in self.ivs:
                return True
            return self.part(i)
        if e.k == 'mem' and e.name in NUMBERS:
            r = rec_of(e.c().t) if e.c() is not None else None
            return r is not None and P.is_a(r, 'FiniteElement')
        return False

    def of(self, e, depth=0, seen=()):
        e = strip1(e)
        if e is None or depth > 30 or thread_type(e.t):
            return set()
        k = e.k
        if k == 'cast':
            return self.of(e.c() or e.kids[0], depth + 1, seen)
        if k == 'this':
            return set([('this', '')])
        if k == 'var':
            d = e.get('d')
            if d in self.S.static:
                return set([('s', self.S.static[d].u)])
            if d in self.par:
                t = self.par[d]
                if t.k in ('ref', 'rref', 'ptr'):
                    return set([('p', d)])
                return set([('l', d)])
            lt = self.S.ltype(d)
            if lt is None and self.S.init.get(d):
                lt = self.S.init[d][0][2]
            if lt is not None and (lt.k in ('ref', 'rref') or is_ptr(lt) or is_smart(lt) or iterator(lt)) and d not in seen:
                out = set()
                for kind, x, _ in self.S.init.get(d, ()):
                    if x is not None:
                        out |= self.of(x, depth + 1, seen + (d,))
                return out
            return set([('l', d)])
        if k == 'gvar':
            g = e.get('_g')
            return set([('s', g.u)]) if g is not None else set()
        if k == 'mem':
            if e.get('_g') is not None:
                return set([('s', e.get('_g').u)])
            b = e.c()
            if b is None or strip(b).k == 'this':
                return set([('this', e.name)])
            return self.of(b, depth + 1, seen)
        if k == 'idx':
            a, i = e.c(0), e.c(1)
            if self.part(i):
                return set()
            return self.of(a, depth + 1, seen)
        if k == 'un':
            return self.of(e.c(), depth + 1, seen)
        if k == 'cond':
            return self.of(e.kids[-2], depth + 1, seen) | self.of(e.kids[-1], depth + 1, seen)
        if k == 'assign':
            return self.of(e.c(0), depth + 1, seen)
        if k == 'bin':
            return set().union(*[self.of(x, depth + 1, seen) for x in e.kids if is_ptr(x.t) or iterator(x.t)] or [set()])
        if k == 'call':
            rt = e.t
            ref = e.get('lv') or is_ptr(rt) or iterator(rt) or is_smart(rt) or \
                e.callee is not None and e.callee.r is not None and e.callee.r.k == 'ref'
            if not ref:
                return set()
            o = objof(e)
            if any(self.part(a) for a in e.args):
                return set()
            if o is not None:
                return self.of(o, depth + 1, seen)
            out = set()
            for a in e.args:
                if a.get('lv') or is_ptr(a.t) or iterator(a.t):
                    out |= self.of(a, depth + 1, seen)
            return out if e.callee is None or not e.callee.in_repo() else set()
        if k == 'ctor' and len(e.args) == 1:
            return self.of(e.args[0], depth + 1, seen) if iterator(e.t) or is_smart(e.t) else set()
        return set()


def objof(e):
    o = e.obj
    f = e.kids[0] if e.kids and e.kids[0].role == 'f' else None
    if o is None and f is not None and f.k == 'mem' and f.kids:
        o = f.c()
    return o


def objof_name(e):
    f = e.kids[0] if e.kids and e.kids[0].role == 'f' else None
    return e.name or (f.name if f is not None else None)


def reassigned(fn, d):
    for n in fn.walk():
        if n.k == 'assign' and strip(n.c(0)) is not None and strip(n.c(0)).k == 'var' and strip(n.c(0)).get('d') == d:
            return True
        if n.k == 'un' and n.op in ('++', '--', 'p++', 'p--') and strip(n.c()) is not None and strip(n.c()).k == 'var' and \
                strip(n.c()).get('d') == d:
            return True
    return False


def guarded(n, stop=None):
    for a in n.parents():
        if a is stop:
            return False
        if a.k == 'omp' and any(x in (a.get('dk') or '') for x in ('critical', 'atomic', 'single', 'master', 'ordered')):
            return True
    return False


def what(O, e, o):
    """Name of the shared thing: the first member of this, else the parameter, variable or static."""
    if o[0] == 'this':
        return o[1] or '*this'
    if o[0] == 's':
        g = P.globals.get(o[1])
        return g.n if g is not None else '?'
    for p in O.fn.params:
        if p['d'] == o[1]:
            return p['n']
    return O.fn.locals[o[1]]['n'] if o[1] is not None and o[1] < len(O.fn.locals) and O.fn.locals[o[1]] else expr_str(e)[:30]


def analyse(fn, nodes, shared, parts, ivs, top=None):
    """Modifications of shared objects by the given nodes, and the calls to follow.
    shared: predicate on origins. Returns ([(node, origin, what, text)], [(callee Fn, shared frozenset, parts frozenset, node)])."""
    O = Origin(fn, parts, ivs)
    hits, calls = [], []
    for n in nodes:
        if guarded(n, top):
            continue
        if n.k in ('call', 'ctor') and n.callee is not None and n.callee.in_repo():
            todo = []
            for d in P.targets(n):
                f = P.by_usr.get(d.u) or P.by_usr.get(d.pat)
                if f is not None and f.decl is not fn.decl:
                    todo.append(f)
            o = objof(n) if n.k == 'call' else None
            for f in todo:
                sh, pt = set(), set()
                if n.k == 'call' and f.decl.rec and not f.decl.static:
                    if o is None:
                        os = set([('this', '')])
                    else:
                        os = O.of(o)
                    if any(shared(x) for x in os):
                        sh.add('this')
                for a, p in zip(n.args, f.params):
                    t = p['t']
                    if t is not None and t.k in ('ref', 'rref', 'ptr') and any(shared(x) for x in O.of(a)):
                        sh.add(p['d'])
                    if O.part(a):
                        pt.add(p['d'])
                calls.append((f, frozenset(sh), frozenset(pt), n))
            # the operands are modified, if at all, by the callee (which may be in a source that is not compiled here)
            continue
        for e, thr in effects.targets(O.S, n):
            if isstream(e.t) or e.t is not None and isstream(bare(e.t)):
                continue
            x = strip(e)
            if x is not None and x.k == 'var' and not thr and (n.k in ('assign', 'un') or iterator(x.t) and n.op in ('++', '--', 'p++', 'p--',
                                                                                                                '+=', '-=', '=')):
                d = x.get('d')
                t = O.par.get(d) or O.S.ltype(d)
                if t is None or t.k not in ('ref', 'rref'):
                    os = set([('l', d)]) if d not in O.S.static else set([('s', O.S.static[d].u)])
                else:
                    os = O.of(x)
            else:
                os = O.of(e)
            for o in sorted(os, key=str):
                if shared(o):
                    hits.append((n, o, what(O, e, o), expr_str(e)[:60]))
    return hits, calls


def regions():
    for fn in P.fns:
        for n in fn.walk():
            if n.k == 'omp' and 'parallel' in (n.get('dk') or ''):
                yield fn, n


def clause_vars(n):
    pr, red = set(), set()
    for c in n.get('cl') or ():
        if 'reduction' in c['k'] or c['k'] in ('private', 'firstprivate', 'lastprivate', 'linear'):
            for v in c['v']:
                if v.get('d') is not None:
                    pr.add(v['d'])
            if not c['v']:
                red.add(c['k'])
    return pr, red


def run(prog, ctx):
    global P
    P = prog
    work, done = [], {}
    for fn, reg in regions():
        ctx.count('parallel loops')
        inner = set(m.get('d') for m in reg.walk() if m.k == 'vardecl')
        inner |= set(p['d'] for m in reg.walk() if m.k == 'lambda' for p in (m.get('params') or ()))
        priv, whole = clause_vars(reg)
        loop = next((m for m in reg.walk() if m.k in ('for', 'rfor')), None)
        ivs, parts = set(), set()
        if loop is not None and 'for' in reg.get('dk'):
            if loop.k == 'rfor':
                d = [m.get('d') for m in loop.child('lv').walk() if m.k == 'vardecl']
                t = [m.t for m in loop.child('lv').walk() if m.k == 'vardecl']
                (parts if t and bare(t[0]) is not None and bare(t[0]).k not in ('rec', 'record') and rec_of(t[0]) is None else ivs).update(d)
            else:
                ini = loop.child('init')
                parts.update(m.get('d') for m in (ini.walk() if ini is not None else ()) if m.k == 'vardecl')
                if ini is not None and not parts:
                    parts.update(strip(m.c(0)).get('d') for m in ini.walk() if m.k == 'assign')
        skip = set(parts) | ivs | priv | inner
        # array reductions y[0:n] name no plain variable in the clause: take the pointers declared just outside and used in it
        red = [c for c in reg.get('cl') or () if 'reduction' in c['k']]

        def shared(o, skip=skip):
            return o[0] in ('this', 's', 'p') and not (o[0] == 'p' and o[1] in skip) or o[0] == 'l' and o[1] not in skip
        body = [m for m in reg.walk() if m is not reg]
        hits, calls = analyse(fn, body, shared, parts, ivs, reg)
        flags = {}
        for n, o, w, txt in hits:
            if o[0] == 'l':
                flags.setdefault(o[1], []).append(n)
        for n, o, w, txt in hits:
            ctx.count('modifications examined')
            if o[0] == 'l' and sameconst(flags[o[1]]):
                continue
            if red and any(txt.startswith(v + '[') for v in arr_reduced(fn, reg)):
                continue
            if ctx.excepted(P, 'c16_shared.txt', fn, w) is not None:
                continue
            ctx.viol('race', fn.q, w, 'the parallel loop at line %d modifies %s (%s), which is shared by the threads' % (reg.l, w, txt),
                     fn=fn, node=n, P=P)
        for f, sh, pt, n in calls:
            work.append((f, sh, pt, ((fn, n),)))
    for base, names in ROOTS:
        for f in P.fns:
            if f.decl.rec and f.decl.n in names and any(root(f, b) for b in base.split('|')):
                ctx.count('integrand and function methods taken as called from parallel loops')
                work.append((f, frozenset(['this']), frozenset(p['d'] for p in f.params if p['n'] in ('gp', 'iEl', 'el')), ()))
    while work:
        f, sh, pt, tr = work.pop()
        old = done.get(f)
        if old is not None and any(sh <= a and pt >= b for a, b in old):
            continue
        done.setdefault(f, []).append((sh, pt))
        if '3rdparty' in f.file or f.file.startswith('/'):
            continue
        ctx.count('functions followed (per combination of shared arguments)')

        def shared(o, sh=sh):
            return o[0] == 's' or o[0] == 'this' and 'this' in sh or o[0] == 'p' and o[1] in sh
        hits, calls = analyse(f, list(f.walk()), shared, pt, ())
        for n, o, w, txt in hits:
            ctx.count('modifications examined')
            if f.decl.kind in ('ctor', 'cctor', 'mctor') and o[0] == 'this':
                continue
            if ctx.excepted(P, 'c16_shared.txt', f, w) is not None:
                continue
            ctx.viol('race', f.q, w, 'modifies %s (%s), which is shared by the threads of the parallel loop in %s' % (
                w, txt, tr[0][0].q) if tr else 'modifies %s (%s), and may be called for the same object by several threads' % (w, txt), fn=f, node=n, P=P, trace=['%s:%d %s' % (a.file, b.l, a.q) for a, b in tr])
        if len(tr) < 25:
            for g, s2, p2, n in calls:
                work.append((g, s2, p2, tr + ((f, n),)))
    premises(ctx)
    ctx.count('functions reached from parallel loops', len(done))
    ctx.need('parallel loops', 5, 'OpenMP parallel loops')
    ctx.need('functions reached from parallel loops', 150, 'functions reached from parallel loops')
    ctx.explain.append(__doc__.replace('\n', ' '))


def premises(ctx):
    """What two rows of cfg/c16_shared.txt rely on."""
    from absval import explore
    from model import Paths
    for fn in P.fns:
        if '3rdparty' in fn.file:
            continue
        for l in fn.locals:
            if l and l['t'] is not None and l['t'].k != 'ref' and rec_of(l['t']) == 'GlbNorm' and fn.blocks:
                ctx.count('norm integrals')
                d = l['d'] if 'd' in l else fn.locals.index(l)

                def stop(n, env, ev, d=d):
                    if n.k != 'call':
                        return None
                    o = strip(objof(n)) if objof(n) is not None else None
                    if o is not None and o.k == 'var' and o.get('d') == d:
                        return frozenset(['OK']) if n.name == 'delayAssembly' else None
                    if any(strip(a) is not None and strip(a).k == 'var' and strip(a).get('d') == d for a in n.args):
                        return frozenset(['USE'])
                    return None
                res, ov = explore(fn, Paths(fn), [(fn.entry, 0, {})], stop=stop)
                bad = [r for r, v, e in res if v == frozenset(['USE'])]
                if bad or ov:
                    ctx.viol('premise', fn.q, l['n'], 'the norm integral %s may be passed on to the parallel element loops without delaying '
                             'the assembly (the threads then add to the same norm values)' % l['n'], fn=fn, node=bad[0] if bad else None, P=P)
    for fn in P.fns:
        if fn.decl.q == 'SparseMatrix::initAssembly' and fn.blocks:
            ctx.count('sparse matrix initialisation')

            def on(n, env, ev):
                if n.k == 'call' and (n.name or '') == 'omp_get_max_threads' and morethanone(n):
                    env['T'] = frozenset(['T'])
            res, ov = explore(fn, Paths(fn), [(fn.entry, 0, {})], on_elem=on, stop=lambda n, env, ev: frozenset(['OK'])
                              if n.k == 'call' and n.name == 'preAssemble' else None)
            bad = [r for r, v, e in res if v not in (frozenset(['OK']), frozenset(['THROW'])) and 'T' not in e]
            if bad or ov:
                ctx.viol('premise', fn.q, 'preAssemble', 'may leave the sparsity pattern open without testing for more than one thread; '
                         'the threads of the element loops then insert into the same map', fn=fn, node=bad[0], P=P)
    ctx.need('norm integrals', 1, 'norm integrals')
    ctx.need('sparse matrix initialisation', 1, 'SparseMatrix::initAssembly')


def morethanone(n):
    """Is n the operand of a test that takes its branch, which calls preAssemble, for two threads or more?"""
    c = n
    while c.p is not None and c.p.k in ('cast', 'paren'):
        c = c.p
    b = c.p
    if b is None or b.k != 'bin':
        return False
    left = strip(b.kids[0]) is strip(n)
    v = strip(b.kids[1] if left else b.kids[0])
    if v is None or v.k != 'int':
        return False
    op = b.op if left else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(b.op, b.op)
    yes = (op, v.get('v')) in (('>', 1), ('>=', 2), ('!=', 1))
    no = (op, v.get('v')) in (('<=', 1), ('<', 2), ('==', 1))
    s = b
    for s in b.parents():
        if s.k == 'if':
            break
        if s.k not in ('cast', 'paren'):
            return False
    else:
        return False
    br = s.child('then') if yes else s.child('else') if no else None
    if no and br is None:
        return True     # an early exit for one thread
    return br is not None and any(m.k == 'call' and m.name == 'preAssemble' for m in br.walk())


def root(f, base):
    return any(r == base or r.split('::')[-1].split('<')[0] == base for r in [f.decl.rec] + list(P.all_bases(f.decl.rec)))


def arr_reduced(fn, reg):
    out = []
    for c in reg.get('cl') or ():
        if 'reduction' in c['k']:
            out += [v.get('n') for v in c['v'] if v.get('n')]
            if not c['v']:
                out += [l['n'] for l in fn.locals if l and l['t'] is not None and l['t'].k == 'ptr']
    return out


def sameconst(nodes):
    vals = set()
    for n in nodes:
        if n.k != 'assign' or n.op != '=':
            return False
        v = strip(n.c(1))
        if v is None or v.k not in ('bool', 'int', 'enum', 'float'):
            return False
        vals.add(expr_str(v))
    return len(vals) == 1

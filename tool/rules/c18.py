"""C18: the numerical integration rules satisfy the order conditions of the accuracy they are documented to have.

The coefficients are found by constant propagation through the code that sets them up, for every rule that can be selected,
and compared in rational arithmetic with the conditions of the rule:
 - n-point Gauss rule, n=1..10: integrates 1, x, .., x^(2n-1) over [-1,1] exactly (to rounding error),
 - triangle rules: integrate the polynomials of degree 1 (1 point), 2 (3 points) and 3 (4 points) exactly,
 - Runge-Kutta methods: explicit, c(i) = sum_j a(ij), all order conditions of the order TimeIntegration::Order (or RK.order)
   states, and one order higher for the error estimator of the embedded pairs,
 - Adams-Bashforth/-Moulton: the load vectors and factors actually combined in step 1, 2, .. give the order allowed by the
   number of available load vectors, up to the order of the method,
 - BDF (also with variable step size) and BDF for second order problems: the coefficients of step 1, 2, .. are consistent
   with the order of that step."""
import math
from fractions import Fraction
import ceval
from rules import newmark
from ceval import Eval, List, Mat, Obj, Undecided, UNKNOWN

P = None
TOL = Fraction(1, 10 ** 13)
RKORDER = {'EULER': 1, 'HEUN': 2, 'RK3': 3, 'RK4': 4, 'HEUNEULER': 1, 'BOGACKISHAMPINE': 2, 'FEHLBERG': 4}
NAMES = {'be': 'BE', 'bdf2': 'BDF2', 'cn': 'THETA', 'euler': 'EULER', 'heun': 'HEUN', 'heuneuler': 'HEUNEULER', 'bs': 'BOGACKISHAMPINE',
         'fehlberg': 'FEHLBERG', 'rk3': 'RK3', 'rk4': 'RK4', 'ab1': 'AB1', 'ab2': 'AB2', 'ab3': 'AB3', 'ab4': 'AB4', 'ab5': 'AB5',
         'am1': 'AM1', 'am2': 'AM2', 'am3': 'AM3', 'am4': 'AM4'}
LMM = {'AB1': 1, 'AB2': 2, 'AB3': 3, 'AB4': 4, 'AB5': 5, 'AM1': 1, 'AM2': 2, 'AM3': 3, 'AM4': 4}


def constglobs():
    out = set(g.u for g in P.globals.values() if g.cv is not None)
    for fn in P.fns:
        for n in fn.walk():
            if n.k == 'gvar' and n.get('_g') is not None and n.get('_g').u in out:
                c = n
                while c.p is not None and (c.p.k in ('cast', 'paren', 'mem') or c.p.k == 'idx' and c.p.kids[0] is c):
                    c = c.p
                p = c.p
                if p is None:
                    continue
                if p.k == 'assign' and p.kids[0] is c or p.k == 'un' and p.op in ('++', '--', 'p++', 'p--', '&') or \
                        p.k == 'call' and c in p.args and p.callee is not None and p.args.index(c) < len(p.callee.p) and \
                        p.callee.p[p.args.index(c)].k in ('ref', 'ptr') and not (p.callee.p[p.args.index(c)].p is not None and
                                                                               p.callee.p[p.args.index(c)].p.c):
                    out.discard(n.get('_g').u)
    return out


def numbers(v, n):
    """n numbers the returned pointer points at (or the array has), None if not known."""
    if isinstance(v, ceval.Ref):
        v = ceval.load(v.c, v.k)
    l, o = (v.l, v.i) if isinstance(v, ceval.Ptr) else (v, 0)
    if not isinstance(l, List):
        return None
    r = l.v[o:o + n]
    if len(r) < n or any(not isinstance(x, (int, Fraction)) for x in r):
        return r if len(r) < n and all(isinstance(x, (int, Fraction)) for x in r) else None
    return [Fraction(x) for x in r]


def fun(q):
    fs = [f for f in P.fns if f.q == q and f.body is not None]
    return fs[0] if len(fs) == 1 else None


def enums():
    out = {}
    for E in P.enums.values():
        vals = E.vals if hasattr(E, 'vals') else E['vals']
        for x in vals:
            out[x[0] if isinstance(x, (tuple, list)) else x['n']] = x[1] if isinstance(x, (tuple, list)) else x['v']
    return out


def methods():
    """Enumerators of TimeIntegration::Method, from their uses."""
    out = {}
    for fn in P.fns:
        for n in fn.walk():
            if n.k == 'enum' and (n.name or '').startswith('TimeIntegration::'):
                out[n.name.split('::')[-1]] = n.get('v')
    return out


class Ctx(object):
    def __init__(self, ctx):
        self.c = ctx
        self.und = []

    def bad(self, fn, inst, msg):
        self.c.viol('order', fn.q, inst, msg, fn=fn, P=P)

    def undecided(self, what, why):
        self.und.append('%s: %s' % (what, why))
        self.c.count('rules not decided (built by code the constant propagation does not follow)')


def gauss(K):
    fc, fw = fun('GaussQuadrature::getCoord'), fun('GaussQuadrature::getWeight')
    if fc is None or fw is None:
        return K.undecided('GaussQuadrature', 'not found')
    for n in range(1, 11):
        try:
            x, w = numbers(Eval(P).call(fc, None, [n]), n), numbers(Eval(P).call(fw, None, [n]), n)
        except Undecided as e:
            K.undecided('%d-point Gauss rule' % n, e)
            continue
        if x is None or w is None:
            K.undecided('%d-point Gauss rule' % n, 'unknown values')
            continue
        K.c.count('quadrature rules')
        if len(x) < n or len(w) < n:
            K.bad(fc if len(x) < n else fw, '%d-point' % n, 'the %d-point Gauss rule refers to an array of less than %d values' % (n, n))
            continue
        for d in range(0, 2 * n):
            K.c.count('order conditions')
            s = sum(a * b ** d for a, b in zip(w, x)) - (Fraction(2, d + 1) if d % 2 == 0 else 0)
            if abs(s) > TOL:
                K.bad(fc, '%d-point' % n, 'the %d-point Gauss rule integrates x^%d over [-1,1] with the error %.2g (it should be exact up to '
                      'degree %d)' % (n, d, float(s), 2 * n - 1))
                break


def triangle(K):
    fc, fw = fun('TriangleQuadrature::getCoord'), fun('TriangleQuadrature::getWeight')
    if fc is None or fw is None:
        return K.undecided('TriangleQuadrature', 'not found')
    for n, deg in ((1, 1), (3, 2), (4, 3)):
        try:
            x, w = numbers(Eval(P).call(fc, None, [n]), 2 * n), numbers(Eval(P).call(fw, None, [n]), n)
        except Undecided as e:
            K.undecided('%d-point triangle rule' % n, e)
            continue
        if x is None or w is None:
            K.undecided('%d-point triangle rule' % n, 'unknown values')
            continue
        K.c.count('quadrature rules')
        if len(x) < 2 * n or len(w) < n:
            K.bad(fc, '%d-point' % n, 'the %d-point triangle rule refers to too short an array' % n)
            continue
        for i in range(deg + 1):
            for j in range(deg + 1 - i):
                K.c.count('order conditions')
                s = sum(w[k] * x[2 * k] ** i * x[2 * k + 1] ** j for k in range(n))
                e = 2 * Fraction(math.factorial(i) * math.factorial(j), math.factorial(i + j + 2))
                if abs(s - e) > TOL:
                    K.bad(fc, '%d-point' % n, 'the %d-point triangle rule gives %.6g for the mean value of xi^%d*eta^%d, which is %.6g' % (
                        n, float(s), i, j, float(e)))
                    break
            else:
                continue
            break


def rk_conditions(A, b, c, p):
    """(name, residual) of the order conditions up to order p."""
    n = range(len(b))
    s1 = lambda f: sum(b[i] * f(i) for i in n)
    Ac = [sum(A[i][j] * c[j] for j in n) for i in n]
    Ac2 = [sum(A[i][j] * c[j] ** 2 for j in n) for i in n]
    AAc = [sum(A[i][j] * Ac[j] for j in n) for i in n]
    conds = [(1, 'sum b', s1(lambda i: 1) - 1),
             (2, 'sum b*c', s1(lambda i: c[i]) - Fraction(1, 2)),
             (3, 'sum b*c^2', s1(lambda i: c[i] ** 2) - Fraction(1, 3)),
             (3, 'sum b*A*c', s1(lambda i: Ac[i]) - Fraction(1, 6)),
             (4, 'sum b*c^3', s1(lambda i: c[i] ** 3) - Fraction(1, 4)),
             (4, 'sum b*c*A*c', s1(lambda i: c[i] * Ac[i]) - Fraction(1, 8)),
             (4, 'sum b*A*c^2', s1(lambda i: Ac2[i]) - Fraction(1, 12)),
             (4, 'sum b*A*A*c', s1(lambda i: AAc[i]) - Fraction(1, 24)),
             (5, 'sum b*c^4', s1(lambda i: c[i] ** 4) - Fraction(1, 5)),
             (5, 'sum b*c^2*A*c', s1(lambda i: c[i] ** 2 * Ac[i]) - Fraction(1, 10)),
             (5, 'sum b*c*A*c^2', s1(lambda i: c[i] * Ac2[i]) - Fraction(1, 15)),
             (5, 'sum b*(A*c)^2', s1(lambda i: Ac[i] ** 2) - Fraction(1, 20)),
             (5, 'sum b*c*A*A*c', s1(lambda i: c[i] * AAc[i]) - Fraction(1, 30)),
             (5, 'sum b*A*c^3', sum(b[i] * A[i][j] * c[j] ** 3 for i in n for j in n) - Fraction(1, 20)),
             (5, 'sum b*A*(c*A*c)', sum(b[i] * A[i][j] * c[j] * Ac[j] for i in n for j in n) - Fraction(1, 40)),
             (5, 'sum b*A*A*c^2', sum(b[i] * A[i][j] * Ac2[j] for i in n for j in n) - Fraction(1, 60)),
             (5, 'sum b*A*A*A*c', sum(b[i] * A[i][j] * AAc[j] for i in n for j in n) - Fraction(1, 120))]
    return [(q, t, r) for q, t, r in conds if q <= p]


def runge_kutta(K, E):
    order = fun('TimeIntegration::Order')
    for cls, names in (('TimeIntegration::SIMExplicitRK', ('EULER', 'HEUN', 'RK3', 'RK4')),
                       ('TimeIntegration::SIMExplicitRKE', ('HEUNEULER', 'BOGACKISHAMPINE', 'FEHLBERG'))):
        cs = [f for f in P.fns if f.decl.rec == cls and f.decl.kind == 'ctor' and len(f.params) == 3]
        if len(cs) != 1:
            K.undecided(cls, 'constructor not found')
            continue
        fn = cs[0]
        for m in names:
            if m not in E:
                K.undecided(m, 'no such method')
                continue
            try:
                o = Obj(cls, {'RK': Obj('TimeIntegration::RKTableaux', {'A': Mat(), 'b': List(), 'c': List(), 'order': UNKNOWN}),
                              'bs': List()})
                Eval(P).call(fn, o, [UNKNOWN, E[m], UNKNOWN])
                RK = o.f['RK']
                b, c = numbers(RK.f['b'], len(RK.f['b'].v)), numbers(RK.f['c'], len(RK.f['c'].v))
                n = len(b)
                A = [[Fraction(RK.f['A'].get(i + 1, j + 1)) for j in range(n)] for i in range(n)]
                p = RK.f['order']
                bs = numbers(o.f['bs'], len(o.f['bs'].v)) if cls.endswith('RKE') else None
                doc = Eval(P).call(order, None, [E[m]]) if order is not None else 0
            except (Undecided, TypeError, AttributeError, KeyError) as e:
                K.undecided(m, e)
                continue
            K.c.count('Runge-Kutta methods')
            if not n or p is UNKNOWN:
                K.bad(fn, m, 'no coefficients are set for %s' % m)
                continue
            if len(c) != n or RK.f['A'].r < n or RK.f['A'].c < n or bs is not None and len(bs) != n:
                K.bad(fn, m, 'the number of stages of %s is not the same in all of its coefficients' % m)
                continue
            if p != RKORDER[m] or doc and doc != p:
                K.bad(fn, m, 'the order of %s is %d, but it is set to %s (TimeIntegration::Order: %s)' % (m, RKORDER[m], p, doc))
                continue
            bad = [(i, j) for i in range(n) for j in range(n) if j >= i and A[i][j]]
            if bad:
                K.bad(fn, m, 'coefficient A(%d,%d) of the explicit method %s is not zero' % (bad[0][0] + 1, bad[0][1] + 1, m))
                continue
            for i in range(n):
                K.c.count('order conditions')
                if abs(sum(A[i]) - c[i]) > TOL:
                    K.bad(fn, m, '%s: c(%d)=%.6g, but the sum of A(%d,*) is %.6g' % (m, i + 1, float(c[i]), i + 1, float(sum(A[i]))))
                    break
            else:
                for w, q, t in ((b, p, 'order'), (bs, p + 1, 'the error estimate of order')):
                    for o_, cn, r in rk_conditions(A, w, c, q) if w is not None else ():
                        K.c.count('order conditions')
                        if abs(r) > TOL:
                            K.bad(fn, m, '%s: the condition on %s for %s %d is violated (error %.3g)' % (m, cn, t, q, float(r)))
                            break
                    else:
                        continue
                    break


def rk_step(K, E):
    """The stages, their times and the new solution the step function computes are those of the coefficients."""
    t, dt, tol = Fraction(11, 5), Fraction(3, 7), Fraction(1, 1000)
    rk = [f for f in P.fns if f.decl.rec == 'TimeIntegration::SIMExplicitRK' and f.decl.n == 'solveRK']
    rke = [f for f in P.fns if f.decl.rec == 'TimeIntegration::SIMExplicitRKE' and f.decl.n == 'solveStep']
    if len(rk) != 1 or len(rke) != 1:
        return K.undecided('solveRK', 'not found')
    n = 3
    A = {(i, j): Fraction(1, 2 * i + j + 1) if j < i else Fraction(0) for i in range(1, n + 1) for j in range(1, n + 1)}
    b, c = [Fraction(1, i + 7) for i in range(n)], [Fraction(i, i + 5) for i in range(n)]
    bs = [Fraction(2, i + 9) for i in range(n)]

    for fn, cuts, linear in ((rk[0], 0, False), (rk[0], 0, True), (rke[0], 0, False), (rke[0], 1, False), (rke[0], 2, True)):
        cell = {'u': ceval.Lin({'u': Fraction(1)})}
        asm, errs, pows, cutn = [], [], [], [0]

        def add(ev, e, on, a, env):
            lv = ev.lval(on, env)
            x, f = ev.ev(a[0], env), ev.ev(a[1], env) if len(a) > 1 and a[1].k != 'defarg' else Fraction(1)
            v = ceval.load(*lv) if lv is not None else None
            if not isinstance(v, ceval.Lin) or not isinstance(x, ceval.Lin) or not isinstance(f, (int, Fraction)):
                raise Undecided('vector update at line %d' % e.l)
            ceval.store(lv[0], lv[1], v.plus(x, f))
            return UNKNOWN

        def assemble(ev, e, on, a, env):
            d, v = ev.ev(a[0], env), ev.ev(a[1], env)
            d = ceval.load(d.c, d.k) if isinstance(d, ceval.Ref) else d
            if not isinstance(d, Obj) or not isinstance(v, List) or not v.v or not isinstance(v.v[0], ceval.Lin):
                raise Undecided('assembly at line %d' % e.l)
            asm.append((d.f.get('t'), ceval.copy(v.v[0])))
            return UNKNOWN

        def solve(ev, e, on, a, env):
            lv = ev.lval(a[0], env)
            if lv is None:
                raise Undecided('solution at line %d' % e.l)
            ceval.store(lv[0], lv[1], ceval.Lin({('K', len(asm)): Fraction(1)}))
            return UNKNOWN

        def norms(ev, e, on, a, env):
            v = ev.ev(a[0], env)
            if not isinstance(v, ceval.Lin):
                raise Undecided('error estimate at line %d' % e.l)
            errs.append((ceval.copy(v), ceval.copy(cell['u']), tp.f['time'].f['dt']))
            return tol * 3 if len(errs) <= cuts else tol / 5

        def power(ev, e, on, a, env):
            pows.append((ev.ev(a[0], env), ev.ev(a[1], env)))
            return Fraction(13, 11)

        def cutback(ev, e, on, a, env):
            tp.f['time'].f['dt'] = tp.f['time'].f['dt'] / 2
            tp.f['time'].f['t'] -= tp.f['time'].f['dt']
            cutn[0] += 1
            return True

        tp = Obj('TimeStep', {'step': 2, 'time': Obj('TimeDomain', {'t': t, 'dt': dt})})
        M = Mat(n, n)
        M.d = dict(A)
        o = Obj(fn.decl.rec, {'RK': Obj('TimeIntegration::RKTableaux', {'A': M, 'b': List(b), 'c': List(c), 'order': 3}),
                              'bs': List(bs), 'errTol': tol, 'alone': False, 'linear': linear, 'assemble': UNKNOWN})
        hooks = {'add': add, 'assembleSystem': assemble, 'solveSystem': solve, 'solutionNorms': norms, 'pow': power,
                 'getSolution': ceval.Ref(cell, 'u'), 'cutback': cutback, 'updateDirichlet': UNKNOWN,
                 'applyDirichlet': UNKNOWN, 'initDirichlet': UNKNOWN}
        inst = fn.q.split('::')[-1]
        try:
            Eval(P, hooks, within=('TimeIntegration::SIMExplicitRK', 'TimeIntegration::SIMExplicitRKE')).call(
                fn, o, [List(), tp] if fn is rk[0] else [tp])
        except (Undecided, TypeError, AttributeError, KeyError) as e:
            K.undecided(inst, e)
            continue
        K.c.count('time step functions')
        if len(asm) != n * (1 + cuts):
            K.bad(fn, inst, '%s evaluates the right-hand side %d times, the method has %d stages' % (inst, len(asm), n))
            continue
        tt, d = t, dt
        for r in range(1 + cuts):
            if r:
                d = d / 2
                tt -= d
            ok = True
            for i in range(n):
                K.c.count('stages')
                ti, u = asm[r * n + i]
                want = {'u': Fraction(1)}
                want.update({('K', r * n + j + 1): d * A[(i + 1, j + 1)] for j in range(i)})
                if ti != tt - d + c[i] * d:
                    K.bad(fn, inst, 'stage %d is evaluated at the time t_n + %s*dt, not t_n + c(%d)*dt, c(%d)=%s' % (
                        i + 1, (ti - tt + d) / d if isinstance(ti, (int, Fraction)) else ti, i + 1, i + 1, c[i]))
                    ok = False
                elif {k: v for k, v in u.f.items() if v} != want:
                    K.bad(fn, inst, 'the solution of stage %d is not that of the previous step plus dt*A(%d,j) times the earlier stages' % (
                        i + 1, i + 1))
                    ok = False
            if not ok:
                break
            want = {'u': Fraction(1)}
            want.update({('K', r * n + j + 1): d * b[j] for j in range(n)})
            got = errs[r][1] if fn is rke[0] and r < len(errs) else cell['u']
            if {k: v for k, v in got.f.items() if v} != want:
                K.bad(fn, inst, 'the new solution is not the previous one plus dt*b(j) times the stages%s' % (
                    ' when the step is repeated' if r else ''))
                break
            if fn is rke[0]:
                e = {('K', r * n + j + 1): d * (bs[j] - b[j]) for j in range(n)}
                if len(errs) <= r or {k: v for k, v in errs[r][0].f.items() if v} != e:
                    K.bad(fn, inst, 'the error estimate is not dt*(bs(j)-b(j)) times the stages')
                    break
        else:
            if fn is rke[0]:
                if len(pows) != 1 or pows[0][1] is UNKNOWN or pows[0][0] is UNKNOWN:
                    K.undecided(inst, 'step size update')
                elif pows[0] != (5, Fraction(1, 4)):
                    K.bad(fn, inst, 'the step size is not scaled by (tolerance/estimate)^(1/(order+1)): base %s*tolerance/estimate, order 3, '
                          'exponent %s' % (Fraction(pows[0][0]) / 5, pows[0][1]))
                elif tp.f['time'].f['dt'] != d * Fraction(13, 11):
                    K.bad(fn, inst, 'the new step size is not the old one times the scaling factor')


def history(K, E):
    """The load vectors are moved one place in each step."""
    for cls in ('TimeIntegration::SIMExplicitLMM', 'TimeIntegration::SIMImplicitLMM'):
        fs = [f for f in P.fns if f.decl.rec == cls and f.decl.n == 'advanceStep']
        if len(fs) != 1:
            K.undecided(cls + '::advanceStep', 'not found')
            continue
        fn = fs[0]
        for order in (1, 2, 3, 4, 5):
            for step in (1, 4):
                for ics in (False, True) if step == 1 else (False,):
                    loads = List([('load', i) for i in range(order)])
                    t, dt = Fraction(11, 5), Fraction(3, 7)
                    asm = []

                    def reset(ev, e, on, a, env):
                        lv = ev.lval(on, env)
                        if lv is None:
                            raise Undecided('reset at line %d' % e.l)
                        ceval.store(lv[0], lv[1], ev.ev(a[0], env) if a and a[0].k != 'defarg' else None)
                        return None

                    def getsol(ev, e, on, a, env):
                        return ('sol', ev.ev(a[0], env) if a else 0)

                    def assemble(ev, e, on, a, env):
                        d, v = ev.ev(a[0], env), ev.ev(a[1], env)
                        d = ceval.load(d.c, d.k) if isinstance(d, ceval.Ref) else d
                        if not isinstance(d, Obj) or not isinstance(v, List) or len(v.v) != 1:
                            raise Undecided('assembly at line %d' % e.l)
                        asm.append((d.f.get('t'), v.v[0]))
                        return UNKNOWN

                    def rhs(ev, e, on, a, env):
                        return ('rhs',) + asm[-1] if asm else UNKNOWN

                    o = Obj(cls, {'loads': loads, 'order': order, 'hasICs': UNKNOWN, 'fieldName': UNKNOWN, 'linear': UNKNOWN})
                    tp = Obj('TimeStep', {'step': step, 'time': Obj('TimeDomain', {'t': t, 'dt': dt})})
                    try:
                        Eval(P, {'reset': reset, 'hasIC': ics, 'getSolution': getsol, 'assembleSystem': assemble, 'getRHSvector': rhs,
                                 'str': UNKNOWN, 'to_string': UNKNOWN, 'updateDirichlet': UNKNOWN, 'advanceStep': UNKNOWN},
                             within=(cls,)).call(fn, o, [tp])
                    except (Undecided, TypeError, AttributeError, KeyError) as e:
                        K.undecided('%s of order %d' % (fn.q, order), e)
                        continue
                    K.c.count('load vector histories')
                    inst = 'order %d%s' % (order, ' with initial history' if ics else '')
                    old = [('load', i) for i in range(order)]
                    if ics:
                        old[:order - 1] = [('rhs', t - (j + 2) * dt, ('sol', j + 1)) for j in range(order - 1)]
                    got = list(loads.v)
                    if got[1:] != old[:-1]:
                        bad = next((i for i in range(1, order) if got[i] != old[i - 1]), 0)
                        K.bad(fn, inst, '%s: load vector %d of the new step is not load vector %d of the previous one%s (%s)' % (
                            inst, bad, bad - 1, ', evaluated from the initial fields at their times' if ics else '', got))


def selection(K, E):
    """The method names of the input select the method of that name."""
    fn = fun('TimeIntegration::get')
    if fn is None:
        return K.undecided('TimeIntegration::get', 'not found')
    found = 0
    for n in fn.walk():
        if n.k != 'if':
            continue
        ss = [m.get('v') for m in n.child('cond').walk() if m.k == 'str']
        rs = [m for m in n.child('then').walk() if m.k == 'return' and m.kids]
        es = [m.name.split('::')[-1] for r in rs for m in r.walk() if m.k == 'enum']
        if len(ss) != 1 or len(es) != 1 or ss[0] not in NAMES:
            continue
        found += 1
        K.c.count('method names')
        if es[0] != NAMES[ss[0]]:
            K.bad(fn, ss[0], 'the name "%s" selects the method %s instead of %s' % (ss[0], es[0], NAMES[ss[0]]))
    if not found:
        K.undecided('TimeIntegration::get', 'no chain of comparisons')
    st = fun('TimeIntegration::Steps')
    for m in sorted(LMM):
        if st is None or m not in E:
            continue
        try:
            d = Eval(P).call(st, None, [E[m]])
            K.c.count('order conditions')
            if d != LMM[m]:
                K.bad(st, m, 'the number of steps of %s is %d, not %s' % (m, LMM[m], d))
        except Undecided as e:
            K.undecided('steps of ' + m, e)


def extrapolation(K):
    fs = [f for f in P.fns if f.decl.rec == 'TimeIntegration::BDF' and f.decl.n == 'extrapolate']
    ctor = [f for f in P.fns if f.decl.rec == 'TimeIntegration::BDF' and f.decl.kind == 'ctor' and f.params and f.params[0]['n']]
    adv = fun('TimeIntegration::BDF::advanceStep')
    if len(fs) != 1 or len(ctor) != 1 or adv is None:
        return K.undecided('BDF::extrapolate', 'not found')
    for p in (1, 2):
        try:
            o = Obj('TimeIntegration::BDF', {x: List() for x in ('coefs', 'coefs1')})
            Eval(P).call(ctor[0], o, [p])
            for step in range(1, 5):
                Eval(P).call(adv, o, [Fraction(0), Fraction(0)])
                # values at t = 0, -1, -2: extrapolated to t = 1
                got = [Eval(P).call(fs[0], o, [List([Fraction(-i) ** q if q else Fraction(1) for i in range(3)])]) for q in (0, 1)]
                if any(not isinstance(g, (int, Fraction)) for g in got):
                    raise Undecided('unknown value')
                K.c.count('extrapolations')
                if got[0] != 1 or p == 2 and step >= 2 and got[1] != 1:
                    K.bad(fs[0], 'BDF(%d) step %d' % (p, step), 'the extrapolation of BDF(%d) in step %d is not exact for %s functions' % (
                        p, step, 'constant' if got[0] != 1 else 'linear'))
        except (Undecided, TypeError, AttributeError, KeyError) as e:
            K.undecided('BDF::extrapolate', e)


def multistep(K, E):
    order = fun('TimeIntegration::Order')
    for cls, names, first in (('TimeIntegration::SIMExplicitLMM', ('AB1', 'AB2', 'AB3', 'AB4', 'AB5'), 0),
                              ('TimeIntegration::SIMImplicitLMM', ('AM1', 'AM2', 'AM3', 'AM4'), 1)):
        cs = [f for f in P.fns if f.decl.rec == cls and f.decl.kind == 'ctor' and len(f.params) == 4]
        ss = [f for f in P.fns if f.decl.rec == cls and f.decl.n == 'solveStep']
        asm = [f for f in P.fns if f.decl.rec == cls + '::LMMNonLinSIM' and f.decl.n == 'assembleSystem']
        if len(cs) != 1 or len(ss) != 1 or first and len(asm) != 1:
            K.undecided(cls, 'constructor or solveStep not found')
            continue
        for m in names:
            for step in range(1, LMM[m] + 2):
                for ics in (False, True):
                    comb, cur = {}, []

                    def add(ev, e, on, a, env):
                        l, f = ev.ev(a[1], env), ev.ev(a[2], env)
                        if not isinstance(l, tuple) or not isinstance(f, (int, Fraction)):
                            raise Undecided('load vector or factor at line %d' % e.l)
                        comb[l[1]] = comb.get(l[1], 0) + Fraction(f)
                        return True

                    def mult(ev, e, on, a, env):
                        f = ev.ev(a[0], env)
                        if not isinstance(f, (int, Fraction)):
                            raise Undecided('factor at line %d' % e.l)
                        cur.append(Fraction(f))
                        return None

                    def scale(ev, e, on, a, env):
                        f = ev.ev(a[0], env)
                        if isinstance(f, (int, Fraction)) and not cur:
                            cur.append(Fraction(f))
                        return None

                    sols = List([ceval.Lin({'u%d' % i: Fraction(1)}) for i in range(7)])
                    evals = []
                    t, dt = Fraction(11, 5), Fraction(1)

                    def getsol(ev, e, on, a, env):
                        i = ev.ev(a[0], env) if a and a[0].k != 'defarg' else 0
                        return ceval.Ref(sols, i) if isinstance(i, int) and 0 <= i < len(sols.v) else UNKNOWN

                    def assemble(ev, e, on, a, env):
                        d, v = ev.ev(a[0], env), ev.ev(a[1], env)
                        d = ceval.load(d.c, d.k) if isinstance(d, ceval.Ref) else d
                        if isinstance(d, Obj) and isinstance(v, List) and v.v and isinstance(v.v[0], ceval.Lin):
                            evals.append((d.f.get('t'), {k: x for k, x in v.v[0].f.items() if x}))
                        return UNKNOWN

                    def solve(ev, e, on, a, env):
                        lv = ev.lval(a[0], env)
                        if lv is not None:
                            ceval.store(lv[0], lv[1], ceval.Lin({'inc': Fraction(1)}))
                        return UNKNOWN

                    try:
                        n0 = 6
                        loads = List([('load', i) for i in range(n0)])
                        o = Obj(cls, {'loads': loads, 'hasICs': ics, 'linear': False, 'alone': False, 'order': UNKNOWN})
                        keep = ceval.Ref({'l': loads}, 'l')
                        hooks = {'addToRHSvector': add, 'assembleSystem': assemble, 'reset': None,
                                 'solveSystem': solve, 'getSolution': getsol, 'updateDirichlet': UNKNOWN}
                        if first == 0:
                            hooks['mult'] = mult
                        else:
                            hooks['setTimeScale'] = scale
                        nl = Obj(cls + '::LMMNonLinSIM', {'loads': keep, 'coefs': List()})
                        Eval(P, {'resize': lambda *a: None}).call(cs[0], Obj(cls, o.f), [UNKNOWN, E[m], UNKNOWN, UNKNOWN])
                        o.f['loads'] = loads
                        o.f['nSim'] = nl
                        o.f.update(hasICs=ics, alone=False, linear=step % 2 == 0)
                        tp = Obj('TimeStep', {'step': step, 'time': Obj('TimeDomain', {'t': t, 'dt': dt})})
                        hooks['solveStep'] = UNKNOWN
                        Eval(P, hooks, within=(cls, cls + '::LMMNonLinSIM')).call(ss[0], o, [tp])
                        if first:
                            h2 = dict(hooks, assembleSystem=UNKNOWN)
                            Eval(P, h2, within=(cls, cls + '::LMMNonLinSIM')).call(asm[0], nl, [tp.f['time'], UNKNOWN, UNKNOWN, UNKNOWN])
                    except (Undecided, TypeError, AttributeError, KeyError) as e:
                        K.undecided('%s step %d' % (m, step), e)
                        continue
                    if not cur:
                        K.undecided('%s step %d' % (m, step), 'the current load vector is not found')
                        continue
                    K.c.count('multistep combinations')
                    inst = '%s step %d' % (m, step)
                    if first == 0 and evals:
                        if evals[-1] != (t - dt, {'u1': 1}):
                            K.bad(ss[0], inst, '%s: the newest load vector is evaluated at the time t_n%+g*dt from %s, not at t_n from the '
                                  'previous solution' % (inst, float(evals[-1][0] - t + dt), evals[-1][1]))
                            continue
                        got = {k: x for k, x in sols.v[0].f.items() if x}
                        if got != {'u1': 1, 'inc': 1}:
                            K.bad(ss[0], inst, '%s: the new solution is not the previous one plus the increment, but %s' % (inst, got))
                            continue
                    elif first and evals and evals[-1][0] != t:
                        K.bad(ss[0], inst, '%s: the newest load vector is evaluated at another time than that of the solution' % inst)
                        continue
                    elif not evals:
                        K.undecided(inst, 'no assembly is seen')
                    # load vector i is the one at t(n-i) (explicit) and t(n+1-i) (implicit)
                    w = dict(comb)
                    w[0] = w.get(0, 0) + cur[0]
                    p = LMM[m] if ics else min(LMM[m], step)
                    hist = LMM[m] if ics else min(LMM[m], step)
                    inst = '%s step %d%s' % (m, step, ' with initial history' if ics else '')
                    fn = ss[0]
                    if max(w) > hist - 1:
                        K.bad(fn, inst, '%s uses load vector %d, but only %d are available' % (inst, max(w), hist))
                        continue
                    for q in range(p):
                        K.c.count('order conditions')
                        r = sum(f * (Fraction(first - i) ** q if q else 1) for i, f in w.items()) - Fraction(1, q + 1)
                        if abs(r) > TOL:
                            K.bad(fn, inst, '%s: the order condition %d of %d is violated (error %.3g); the factors of the load vectors '
                                  'are %s' % (inst, q + 1, p, float(r), ', '.join('%s: %s' % (i, f) for i, f in sorted(w.items()))))
                            break
            if order is not None:
                try:
                    d = Eval(P).call(order, None, [E[m]])
                    K.c.count('order conditions')
                    if d != LMM[m]:
                        K.bad(order, m, 'the order of %s is %d, not %s' % (m, LMM[m], d))
                except Undecided as e:
                    K.undecided('order of ' + m, e)


def bdf(K):
    adv, get, ordr = (fun('TimeIntegration::BDF::' + x) for x in ('advanceStep', 'getCoefs', 'getOrder'))
    for cls, orders, deg in (('TimeIntegration::BDF', (0, 1, 2), 1), ('TimeIntegration::BDFD2', (1, 2), 2)):
        cs = [f for f in P.fns if f.decl.rec == cls and f.decl.kind == 'ctor' and f.params and f.params[0]['n']]
        g = fun(cls + '::getCoefs')
        if len(cs) != 1 or adv is None or g is None or ordr is None:
            K.undecided(cls, 'functions not found')
            continue
        fn = cs[0]
        for p in orders:
            for tau in (None, Fraction(1), Fraction(1, 2), Fraction(2), Fraction(3), Fraction(5, 3), Fraction(1, 7)):
                if tau is not None and (deg == 2 or p == 0):
                    continue
                try:
                    o = Obj(cls, {x: List() for x in ('coefs', 'coefs1', 'coefs2')})
                    Eval(P).call(fn, o, [p, 0][:len(fn.params)])
                    for step in range(1, 6):
                        if p:
                            a = [Fraction(0), Fraction(0)] if tau is None else [tau, Fraction(1)]
                            Eval(P).call(adv, o, a)
                        v = Eval(P).call(g, o, [])
                        if isinstance(v, ceval.Ref):
                            v = ceval.load(v.c, v.k)
                        c = numbers(v, len(v.v))
                        q = Eval(P).call(ordr, o, [])
                        if c is None or not isinstance(q, int):
                            raise Undecided('unknown coefficients')
                        K.c.count('BDF coefficient sets')
                        inst = '%s(%d) step %d%s' % (cls.split('::')[-1], p, step, '' if tau is None else ' variable step size')
                        r = bdf_error(K, c, q, deg, step, tau, p)
                        if r:
                            K.bad(g, inst, '%s: %s; the coefficients are %s' % (inst, r, ', '.join(str(x) for x in c)))
                except (Undecided, TypeError, AttributeError, KeyError) as e:
                    K.undecided('%s of order %d' % (cls, p), e)


def bdf_error(K, c, q, deg, step, tau, p):
    if p == 0:
        return None if c == [1] else 'a stationary problem has the coefficient 1 only'
    if len(c) > step + 1:
        return '%d coefficients are used, but there are only %d earlier solutions' % (len(c), step)
    want = min(p, step)
    if q != want and not (deg == 2 and 1 <= q <= want):
        return 'the order is %d, it should be %d' % (q, want)
    # Solutions at t = 0, -dt, -dt-dtn, ... with dt as the unit; the first step size is only used between step 1 and 2
    t = [Fraction(0), Fraction(-1)]
    while len(t) < len(c):
        t.append(t[-1] - (Fraction(1) if tau is None or step < 3 else 1 / tau))
    if tau is not None and step < 3 and len(c) > 2:
        t = t[:2] + [t[1] - 1] + t[3:]
    for k in range(0, (want + deg)):
        K.c.count('order conditions')
        if deg == 1:
            d = 1 if k == 1 else 0
            s = sum(a * x ** k for a, x in zip(c, t)) if k else sum(c)
        else:
            # while the start is within reach the derivative there is zero: measured from the start, t^1 is left out
            at = [x - t[-1] for x in t] if step < 3 and len(c) == step + 1 else t
            if at is not t and k == 1:
                continue
            d = {0: 0, 1: 0}.get(k, k * (k - 1) * at[0] ** (k - 2) if k > 2 else 2)
            s = sum(a * x ** k for a, x in zip(c, at)) if k else sum(c)
        if abs(s - d) > TOL:
            return 'the derivative of t^%d is %s, it should be %s' % (k, s, d)
    return None


def run(prog, ctx):
    global P
    P = prog
    P.constglobs = constglobs()
    E = methods()
    K = Ctx(ctx)
    gauss(K)
    triangle(K)
    runge_kutta(K, E)
    rk_step(K, E)
    multistep(K, E)
    history(K, E)
    selection(K, E)
    bdf(K)
    extrapolation(K)
    newmark.run(P, K)
    for u in sorted(set(K.und)):
        ctx.sample('not decided', u)
    ctx.explain.append(__doc__.replace('\n', ' '))
    if not ctx.counts.get('order conditions'):
        ctx.need('order conditions', 1, 'order conditions')

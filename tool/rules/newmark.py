"""Part of C18: the Newmark family of time integration drivers and the element matrices they combine."""
from fractions import Fraction as F
import ceval
from ceval import Eval, Lin, List, Obj, Undecided, UNKNOWN

H, ALPHA1, ALPHA2 = F(3, 7), F(2, 11), F(5, 13)
FAIL = (Undecided, TypeError, AttributeError, KeyError, IndexError, ValueError)


def lin(k):
    return Lin({k: F(1)})


def nz(v):
    return {k: x for k, x in v.f.items() if x}


def obj(rec, **f):
    return Obj(rec, f)


def step():
    return obj('TimeStep', step=2, iter=0, time=obj('TimeDomain', t=F(11, 5), dt=H, first=False))


def words(d):
    return ' + '.join('%s*%s' % (v, k if isinstance(k, str) else '.'.join(str(x) for x in k)) for k, v in sorted(d.items(), key=str)) or '0'


class Driver(object):
    """One driver object of the given class, with symbolic solution vectors."""

    def __init__(self, P, cls, beta, gamma, pred, disp, extra=()):
        self.P, self.cls = P, cls
        self.n = 0
        self.o = obj(cls, beta=beta, gamma=gamma, predictor=ord(pred), solveDisp=disp, rotUpd=0, alpha1=ALPHA1, alpha2=ALPHA2,
                     model=UNKNOWN, linsol=lin(('d', 0)), Finert=None, Fext=None, nRHSvec=1, nupdat=20, maxit=20)
        self.o.f.update(extra)
        # non-symbolic members of the class itself get the values of its constructor
        cs = [f for f in P.fns if f.decl.rec == cls and f.decl.kind == 'ctor' and f.decl.kind != 'cctor' and f.params]
        for c in cs[:1]:
            for ini in c.inits:
                if ini.get('fld') and ini['fld'] not in self.o.f and ini['e'] is not None:
                    v = Eval(P).ev(ini['e'], {'this': self.o})
                    self.o.f[ini['fld']] = v
            tmp = Obj(cls, {})
            try:
                Eval(P, {}, within=()).stmt(c.body, {'this': tmp})
            except FAIL:
                pass
            for k, v in tmp.f.items():
                if k not in self.o.f and isinstance(v, (bool, int, F)):
                    self.o.f[k] = v
        self.tp = step()

    def method(self, name, n):
        P = self.P
        for r in [self.cls] + list(P.all_bases(self.cls)):
            fs = [f for f in P.fns if f.decl.rec == r and f.decl.n == name and f.body is not None and len(f.params) == n]
            if fs:
                return fs[0]
        return None

    def run(self, name, *args):
        fn = self.method(name, len(args))
        if fn is None:
            raise Undecided('%s::%s not found' % (self.cls, name))
        within = set([self.cls]) | set(self.P.all_bases(self.cls))
        # the model is no part of the state checked here; configuration updates succeed
        hooks = dict(copyhooks())
        for h in ('updateConfiguration', 'updateRotations', 'debugPrint', 'pushSolution'):
            hooks[h] = UNKNOWN
        hooks['getRHSvector'] = lambda ev, e, on, a, env: ('R%s' % ev.ev(a[0], env), len(a) > 1 and a[1].k != 'defarg' and ev.ev(a[1], env))
        if name == 'advanceStep':
            within -= set(['MultiStepSIM', 'SIMsolution', 'SIMbase'])
            hooks['advanceStep'] = lambda ev, e, on, a, env: True if e.callee is not None and e.callee.rec == 'MultiStepSIM' else NotImplemented
        hooks['printStep'] = None
        # the vectors pushed back between the steps are compared elsewhere
        return fn, Eval(self.P, hooks, within=within).call(fn, self.o, list(args))

    def increment(self):
        self.n += 1
        self.o.f['linsol'] = lin(('d', self.n))

    def state(self, i):
        v = self.o.f['solution'].v[i]
        if not isinstance(v, Lin):
            raise Undecided('solution vector %d' % i)
        return v


def copyhooks():
    def place(ev, it, env):
        it = ceval.strip(it)
        while it is not None and it.k == 'ctor' and len(it.args) == 1:
            it = ceval.strip(it.args[0])
        if it is None or it.k != 'call' or (it.name or '') not in ('begin', 'cbegin', 'end', 'cend', 'data', 'ptr'):
            return None
        return ev.lval(it.obj, env)

    def cp(ev, e, on, a, env):
        if on is not None or len(a) != 3:
            return NotImplemented
        s, t = place(ev, a[0], env), place(ev, a[2], env)
        if s is None or t is None:
            return NotImplemented
        v = ceval.load(*s)
        if not isinstance(v, Lin):
            return NotImplemented
        ceval.store(t[0], t[1], ceval.copy(v))
        return None
    return {'copy': cp}


def predicted(pred, b, g):
    """Coefficients of (u0,v0,a0) in the predicted displacement, velocity and acceleration."""
    if pred == 'a':
        return [{'u': F(1), 'v': H, 'a': H * H * (F(1, 2) - b)}, {'v': F(1), 'a': H * (1 - g)}, {}]
    if pred == 'v':
        return [{'u': F(1), 'v': H, 'a': H * H * (F(1, 2) - b / g)}, {'v': F(1)}, {'a': 1 - 1 / g}]
    return [{'u': F(1)}, {'v': 1 - g / b, 'a': H * (1 - g / (2 * b))}, {'a': 1 - 1 / (2 * b), 'v': -1 / (b * H)}]


def expected(pred, b, g, disp, n, w=(1, 1, 1)):
    """The solution after n increments; w are the weights of the new solution in the intermediate state."""
    scale = (F(1), g / (b * H), 1 / (b * H * H)) if disp else (b * H * H, g * H, F(1))
    out = []
    for i, (p, s, name) in enumerate(zip(predicted(pred, b, g), scale, 'uva')):
        r = {k: v * w[i] for k, v in p.items()}
        r[name] = r.get(name, F(0)) + 1 - w[i]
        for k in range(1, n + 1):
            r[('d', k)] = s * w[i]
        out.append({k: v for k, v in r.items() if v})
    return out


def compare(K, d, fn, inst, want, what):
    for i, name in ((0, 'displacement'), (1, 'velocity'), (2, 'acceleration')):
        K.c.count('Newmark states')
        got = nz(d.state(i))
        if got != want[i]:
            bad = [k for k in sorted(set(got) | set(want[i]), key=str) if got.get(k) != want[i].get(k)]
            K.bad(fn, inst, '%s: the %s %s is not the one of the Newmark relations: it contains %s of %s, not %s' % (
                inst, what, name, got.get(bad[0], 0), {'u': 'the displacement', 'v': 'the velocity', 'a': 'the acceleration'}.get(
                    bad[0], 'solution increment %s' % (bad[0][1] if isinstance(bad[0], tuple) else bad[0])), want[i].get(bad[0], 0)))
            return False
    return True


SEQ = [('no iterations', 'P!'), ('one iteration', 'PC!'), ('three iterations', 'PCCC!'), ('sub-iterations', 'PCC.CC.C!'),
       ('sub-iterations without corrections', 'P..!'), ('displacements changed between sub-iterations', 'PC.SC.SC!'),
       ('a step and the next', 'PC!APC!'), ('the first step', 'APC!')]


def drivers(P, K):
    for cls, preds, disps, weighted in (('NewmarkSIM', 'avd', (False, True), False), ('GenAlphaSIM', 'avd', (False, True), True),
                                        ('NewmarkNLSIM', 'd', (True,), False), ('HHTSIM', 'd', (True,), False)):
        if cls not in P.records:
            K.undecided(cls, 'class not found')
            continue
        for pred in preds:
            for disp in disps:
                for b, g in ((F(3, 10), F(4, 7)), (F(1, 4), F(1, 2))):
                    for sname, seq in SEQ:
                        inst = '%s, predictor %s%s, %s' % (cls, pred, ', displacement increments' if disp and len(disps) > 1 else '', sname)
                        am, af = F(7, 6), F(8, 9)
                        extra = {'solution': List([lin('u'), lin('v'), lin('a')])}
                        if cls == 'HHTSIM':
                            extra['solution'].v += [lin('x'), lin('y')]
                            extra.update(pV=3, pA=4, incDis=lin('z'))
                        elif cls == 'NewmarkNLSIM':
                            extra.update(incDis=lin('z'), predVel=lin('x'), predAcc=lin('y'))
                        elif cls == 'GenAlphaSIM':
                            extra.update(prevSol=List([lin('u'), lin('v'), lin('a')]), tempSol=List([lin('x'), lin('y'), lin('z')]),
                                         alpha_m=am, alpha_f=af)
                        d = Driver(P, cls, b, g, pred, disp, extra)
                        try:
                            it = 0
                            ok = True
                            sub = []
                            if weighted and 'S' in seq:
                                seq = 'PCSCS!'
                            for op in seq:
                                d.tp.f['iter'] = it
                                if op == 'A':
                                    fn, r = d.run('advanceStep', d.tp, True)
                                    cur = [nz(d.state(i)) for i in range(3)]
                                    for f, v in sorted(d.o.f.items()):
                                        if f == 'prevSol' and any(nz(v.v[i]) != cur[i] for i in range(3)):
                                            K.bad(fn, inst, '%s: the solution vectors kept for the next step are not those of the end of the step'
                                                  % inst)
                                            ok = False
                                        if f == 'prevSol':
                                            v.v[:3] = [lin('u'), lin('v'), lin('a')]
                                    d.o.f['solution'].v[:3] = [lin('u'), lin('v'), lin('a')]
                                    d.n = it = 0
                                elif op == 'S':
                                    # the new displacement differs by s from the current one
                                    ns = nz(d.state(0)) if not weighted else {}
                                    for w in ('s1', 's2'):
                                        if w not in ns:
                                            ns[w] = F(1)
                                            break
                                    fn, r = d.run('setSolution', Lin(dict(ns)), 0)
                                    sub.append(w)
                                    if nz(d.state(0)) != ns:
                                        K.bad(fn, inst, '%s: the displacement is not the one set' % inst)
                                        ok = False
                                elif op == 'P':
                                    fn, r = d.run('predictStep', d.tp)
                                    if cls in ('NewmarkSIM', 'GenAlphaSIM'):
                                        ok = compare(K, d, fn, inst, expected(pred, b, g, disp, 0, (af, af, am) if weighted else (1, 1, 1)),
                                                     'predicted')
                                else:
                                    d.increment()
                                    it += op == 'C'
                                    d.tp.f['iter'] = it
                                    fn, r = d.run('correctStep', d.tp, op == '!')
                                    w = (1, 1, 1) if op == '!' or not weighted else (af, af, am)
                                    want = expected(pred, b, g, disp, d.n, w)
                                    if sub and weighted:
                                        want[0] = {sub[-1]: w[0], ('d', d.n): want[0][('d', d.n)]}
                                        if w[0] != 1:
                                            want[0]['u'] = 1 - w[0]
                                    for x in sub if not weighted else ():
                                        # drivers that keep the total increment stay consistent, the others change the displacement only
                                        want[0][x] = w[0]
                                        if cls in ('HHTSIM', 'NewmarkNLSIM'):
                                            want[1][x], want[2][x] = g / (b * H), 1 / (b * H * H)
                                    ok = compare(K, d, fn, inst, want, 'converged' if op == '!' else 'corrected')
                                    if ok and cls == 'HHTSIM' and op == '!' and d.o.f['Fext'] != ('R2', True):
                                        K.bad(fn, inst, '%s: the external load vector of the step is not kept for the next one (%s is)' % (
                                            inst, d.o.f['Fext'],))
                                        ok = False
                                    if op == '.':
                                        it = 0
                                if not ok:
                                    break
                            if ok:
                                K.c.count('Newmark step sequences')
                        except FAIL as e:
                            K.undecided(inst, e)


def parameters(P, K):
    """The integration parameters read from the input, and those handed over to the element matrices."""
    for cls in ('HHTSIM', 'GenAlphaSIM', 'NewmarkNLSIM'):
        fn = next((f for f in P.fns if f.decl.rec == cls and f.decl.n == 'parse' and f.body is not None), None)
        if fn is None:
            K.undecided(cls, 'parse not found')
            continue
        for attr, val in (('alpha', F(-3, 20)), ('rho_inf', F(3, 4)), (None, None)):
            def attribute(ev, e, on, a, env):
                s = [m.get('v') for m in a[0].walk() if m.k == 'str']
                return ('attr', s[0]) if s and s[0] == attr else None
            hooks = {'Attribute': attribute, 'atof': lambda ev, e, on, a, env: val, 'parse': True, 'strcasecmp': 0, 'FirstChildElement': None,
                     'Value': UNKNOWN}
            o = obj(cls, beta=UNKNOWN, gamma=UNKNOWN, alpha_m=UNKNOWN, alpha_f=UNKNOWN)
            inst = '%s, %s' % (cls, attr or 'default')
            try:
                if attr is None and cls == 'GenAlphaSIM':
                    o.f.update(alpha_m=F(1), alpha_f=F(9, 10))
                Eval(P, hooks, within=()).call(fn, o, [UNKNOWN])
            except FAIL as e:
                K.undecided(inst, e)
                continue
            if attr == 'rho_inf':
                af, am = 1 / (1 + val), (2 - val) / (1 + val)
            else:
                am, af = F(1), 1 + (val if attr else F(-1, 10))
            al = af - am
            want = {'beta': (1 - al) ** 2 / 4, 'gamma': F(1, 2) - al}
            if cls == 'GenAlphaSIM':
                want.update(alpha_f=af, alpha_m=am)
            K.c.count('parameter sets')
            for k, v in sorted(want.items()):
                if o.f.get(k) is UNKNOWN:
                    K.undecided(inst, '%s is not known' % k)
                elif abs(o.f.get(k) - v) > F(1, 10 ** 12):
                    K.bad(fn, inst, '%s: %s is %s, it should be %s' % (inst, k, o.f.get(k), v))
                    break
    # default values satisfy the relation that makes the algorithm unconditionally stable
    for cls in ('NewmarkSIM', 'HHTSIM', 'GenAlphaSIM', 'NewmarkNLSIM'):
        c = [f for f in P.fns if f.decl.rec == cls and f.decl.kind == 'ctor' and len(f.params) == 1]
        if len(c) != 1:
            K.undecided(cls, 'constructor not found')
            continue
        try:
            o = obj(cls)
            Eval(P, {}, within=()).stmt(c[0].body, {'this': o})
            b, g = o.f['beta'], o.f['gamma']
            K.c.count('parameter sets')
            if abs(b - (F(1, 2) + g) ** 2 / 4) > F(1, 10 ** 12) or g < F(1, 2):
                K.bad(c[0], 'default', 'the default parameters beta=%s gamma=%s are not those of an unconditionally stable method' % (b, g))
        except FAIL as e:
            K.undecided(cls, e)


def handover(P, K):
    mats = {}
    for r, n in (('NewmarkMats', 5), ('HHTMats', 4)):
        c = [f for f in P.fns if f.decl.rec == r and f.decl.kind == 'ctor' and len(f.params) == n]
        if len(c) != 1:
            return K.undecided(r, 'constructor not found')
        mats[r] = c[0]
    for cls in ('NewmarkSIM', 'GenAlphaSIM', 'HHTSIM', 'NewmarkNLSIM'):
        fn = next((f for f in P.fns if f.decl.rec == cls and f.decl.n == 'initPrm' and f.body is not None), None)
        if fn is None:
            K.undecided(cls, 'initPrm not found')
            continue
        for disp in (False, True):
            if disp and cls not in ('NewmarkSIM', 'GenAlphaSIM'):
                continue
            inst = '%s%s' % (cls, ', displacement increments' if disp else '')
            al = F(-3, 20)
            am, af = (F(5, 7), F(4, 7)) if cls == 'GenAlphaSIM' else (F(1), F(1))
            if cls == 'GenAlphaSIM':
                al = af - am
            b, g = (1 - al) ** 2 / 4, F(1, 2) - al
            prm = {}

            def setp(ev, e, on, a, env):
                prm[ev.ev(a[0], env)] = ev.ev(a[1], env)
                return None
            o = obj(cls, beta=b, gamma=g, alpha1=ALPHA1, alpha2=ALPHA2, solveDisp=disp, alpha_m=am, alpha_f=af, nRHSvec=1, nupdat=20,
                    maxit=20, model=UNKNOWN)
            try:
                Eval(P, {'setIntegrationPrm': setp, 'initForMultiStep': None, 'initLHSbuffers': None}, within=(cls,)).call(fn, o, [])
                if cls in ('HHTSIM', 'NewmarkNLSIM'):
                    m = obj('HHTMats')
                    Eval(P, {}, within=()).call(mats['HHTMats'], m, [prm[2], prm[0], prm[1], cls == 'NewmarkNLSIM'])
                    want = dict(beta=b, gamma=g, alpha1=ALPHA1, alpha2=ALPHA2)
                else:
                    m = obj('NewmarkMats')
                    Eval(P, {}, within=()).call(mats['NewmarkMats'], m, [prm[0], prm[1], prm[2], prm[3], prm.get(4) == 2])
                    want = dict(beta=b, gamma=g, alpha1=ALPHA1, alpha2=ALPHA2, alpha_m=am, alpha_f=af, slvDisp=disp)
            except FAIL as e:
                K.undecided(inst, e)
                continue
            K.c.count('parameter sets')
            for k, v in sorted(want.items()):
                if k not in m.f or m.f[k] is UNKNOWN:
                    K.undecided(inst, '%s is not known' % k)
                elif m.f[k] != v:
                    K.bad(fn, inst, '%s: the element matrices get %s=%s from the integration parameters, the driver has %s' % (
                        inst, k, m.f[k], v))
                    break


class Matrices(object):
    def __init__(self, P, cls, nA, nb, nv, **f):
        self.P, self.cls = P, cls
        self.o = obj(cls, A=List([lin('A%d' % i) for i in range(nA)]), b=List([lin('b%d' % i) for i in range(nb)]),
                     vec=List([lin('v%d' % i) for i in range(nv)]), h=H, alpha1=ALPHA1, alpha2=ALPHA2, **f)

    def get(self, name):
        fn = next((f for f in self.P.fns if f.decl.rec == self.cls and f.decl.n == name and f.body is not None), None)
        if fn is None:
            raise Undecided('%s::%s not found' % (self.cls, name))
        v = Eval(self.P, {'debugPrint': UNKNOWN}, within=set([self.cls]) | set(self.P.all_bases(self.cls))).call(fn, self.o, [])
        v = ceval.load(v.c, v.k) if isinstance(v, ceval.Ref) else v
        # the result is the first matrix or vector of the object
        first = self.o.f['A' if 'Newton' in name else 'b'].v[0]
        v = v if isinstance(v, Lin) else first
        if not isinstance(v, Lin):
            raise Undecided('%s::%s' % (self.cls, name))
        return fn, nz(v)


def check(K, fn, inst, got, want, what):
    K.c.count('element matrix combinations')
    want = {k: v for k, v in want.items() if v}
    if got == want:
        return
    k = next(k for k in sorted(set(got) | set(want), key=str) if got.get(k) != want.get(k))
    K.bad(fn, inst, '%s: %s contains %s times %s, not %s' % (
        inst, what, got.get(k, 0), '*'.join(k) if isinstance(k, tuple) else k, want.get(k, 0)))


def matrices(P, K):
    b, g, am, af = F(3, 10), F(4, 7), F(7, 6), F(8, 9)
    for nA in (2, 3, 4):
        for disp in (False, True):
            inst = 'NewmarkMats with %d matrices%s' % (nA, ', displacement increments' if disp else '')
            try:
                fn, got = Matrices(P, 'NewmarkMats', nA, 1, 3, beta=b, gamma=g, alpha_m=am, alpha_f=af, slvDisp=disp,
                                   isPredictor=False).get('getNewtonMatrix')
                s = 1 / (b * H * H) if disp else F(1)
                want = {'A1': s * (am + af * ALPHA1 * g * H)}
                if nA > 2:
                    want['A2'] = s * af * (ALPHA2 * g + b * H) * H
                if nA > 3:
                    want['A3'] = s * af * g * H
                check(K, fn, inst, got, want, 'the Newton matrix')
            except FAIL as e:
                K.undecided(inst, e)
        for nb in (1, 2):
            inst = 'NewmarkMats with %d matrices and %d vectors' % (nA, nb)
            try:
                fn, got = Matrices(P, 'NewmarkMats', nA, nb, 3, beta=b, gamma=g, alpha_m=am, alpha_f=af, slvDisp=False,
                                   isPredictor=False).get('getRHSVector')
                want = {'b0': F(1), ('A1', 'v2'): F(-1), ('A1', 'v1'): -ALPHA1}
                if nA > 2:
                    want[('A2', 'v1')] = -ALPHA2
                if nb > 1:
                    want['b1'] = F(-1)
                elif nA > 3:
                    want[('A3', 'v1')] = F(-1)
                check(K, fn, inst, got, want, 'the right-hand side')
            except FAIL as e:
                K.undecided(inst, e)
    for nA in (2, 3, 4, 5):
        inst = 'HHTMats with %d matrices' % nA
        ap = F(3, 2) - g
        try:
            fn, got = Matrices(P, 'HHTMats', nA, 1, 5, beta=b, gamma=g, isPredictor=False, oldHHT=False).get('getNewtonMatrix')
            want = {'A1': 1 / (b * H * H) + ap * ALPHA1 * g / (b * H)}
            if nA > 2:
                want['A2'] = ap * (1 + ALPHA2 * g / (b * H))
            if nA > 3:
                want['A3'] = ap
            if nA > 4:
                want['A4'] = ap * g / (b * H)
            check(K, fn, inst, got, want, 'the Newton matrix')
        except FAIL as e:
            K.undecided(inst, e)
        for nb in (1, 2, 3, 4):
            for pr, old in ((True, False), (False, False), (True, True), (False, True)):
                inst = 'HHTMats with %d matrices and %d vectors%s%s' % (nA, nb, ', predictor' if pr else ', corrector',
                                                                       ' (old form)' if old else '')
                try:
                    m = Matrices(P, 'HHTMats', nA, nb, 5, beta=b, gamma=g, isPredictor=pr, oldHHT=old)
                    fn, got = m.get('getRHSVector')
                    newp = pr and not old
                    v = 'v3' if newp else 'v1'
                    s = ap if pr else -ap
                    want = {('A1', v): s * ALPHA1}
                    if newp:
                        want.update({('A1', 'v4'): F(1), ('A1', 'v2'): F(-1)})
                    else:
                        want.update({'b0': ap, ('A1', 'v2'): F(1) if pr else F(-1)})
                    if old and nb > 2:
                        want['b2'] = ap
                    if nA > 2:
                        want[('A2', v)] = s * ALPHA2
                    if nb > 3:
                        want['b3'] = s
                    elif nA > 4:
                        want[('A4', v)] = s
                    check(K, fn, inst, got, want, 'the right-hand side')
                    if (pr or old) and nb > 1:
                        want = {'b0': F(1), ('A1', 'v1'): -ALPHA1}
                        if nb > 2:
                            want['b2'] = F(1)
                        if nA > 2:
                            want[('A2', 'v1')] = -ALPHA2
                        if nA > 4:
                            want[('A4', 'v1')] = F(-1)
                        check(K, fn, inst + ', inertia force', nz(m.o.f['b'].v[1]), want, 'the inertia force')
                except FAIL as e:
                    K.undecided(inst, e)
    for deg in (1, 2):
        for nc in (2, 3, 4):
            inst = 'BDFMats of degree %d with %d coefficients' % (deg, nc)
            c = [F(1, i + 3) for i in range(nc)]
            dt = H if deg == 1 else H * H

            def hooks():
                cell = List(list(c))
                return {'getDegree': deg, 'getCoefs': ceval.Ref({'c': cell}, 'c')}
            for name in ('getNewtonMatrix', 'getRHSVector'):
                try:
                    fn = next((f for f in P.fns if f.decl.rec == 'BDFMats' and f.decl.n == name and f.body is not None), None)
                    if fn is None:
                        raise Undecided('not found')
                    m = Matrices(P, 'BDFMats', 3, 1, 5, bdf=List(list(c)))
                    Eval(P, hooks(), within=()).call(fn, m.o, [])
                    if name == 'getNewtonMatrix':
                        check(K, fn, inst, nz(m.o.f['A'].v[0]), {'A1': c[0] / dt, 'A2': F(1)}, 'the Newton matrix')
                    else:
                        want = {('A1', 'v%d' % i): -c[i] / dt for i in range(nc)}
                        want['b0'] = F(1)
                        check(K, fn, inst, nz(m.o.f['b'].v[0]), want, 'the right-hand side')
                except FAIL as e:
                    K.undecided('%s, %s' % (inst, name), e)


def loads(P, K):
    """The right-hand side vectors the HHT driver adds to the residual."""
    g = F(4, 7)
    for cls, first in (('HHTSIM', True), ('HHTSIM', False), ('NewmarkNLSIM', False), ('NewmarkSIM', False)):
        fn = next((f for f in P.fns if f.decl.rec == cls and f.decl.n == 'finalizeRHSvector' and f.body is not None), None)
        if fn is None:
            K.undecided(cls, 'finalizeRHSvector not found')
            continue
        for have in (True, False):
            inst = '%s, %s%s' % (cls, 'predictor' if first else 'corrector', '' if have else ' without earlier loads')
            add = {}

            def addto(ev, e, on, a, env):
                i, v = ev.ev(a[0], env), ev.ev(a[1], env)
                f = ev.ev(a[2], env) if len(a) > 2 and a[2].k != 'defarg' else F(1)
                if not isinstance(v, tuple) or not isinstance(f, (int, F)):
                    raise Undecided('vector or factor at line %d' % e.l)
                add[(i, v[0])] = add.get((i, v[0]), 0) + f
                return True

            def rhs(ev, e, on, a, env):
                return ('R%s' % ev.ev(a[0], env),)
            o = obj(cls, gamma=g, beta=F(3, 10), nRHSvec=3, Finert=('Finert',) if have else None, Fext=('Fext',) if have else None,
                    model=UNKNOWN)
            try:
                Eval(P, {'addToRHSvector': addto, 'getRHSvector': rhs, 'L1norm': F(1), 'debugPrint': UNKNOWN, 'vec': UNKNOWN},
                     within=(cls,)).call(fn, o, [first])
            except FAIL as e:
                K.undecided(inst, e)
                continue
            ap = F(3, 2) - g
            if cls == 'HHTSIM':
                want = {(0, 'R2'): ap}
                if first:
                    want[(0, 'R1')] = F(1)
                    if have:
                        want.update({(1, 'Fext'): F(1), (0, 'Fext'): -ap})
                elif have:
                    want[(0, 'Finert')] = g - F(1, 2)
            elif cls == 'NewmarkNLSIM':
                want = {(0, 'Finert'): g - F(1, 2)} if have else {}
            else:
                want = {(0, 'R2'): F(1)}
            K.c.count('load combinations')
            add = {k: v for k, v in add.items() if v}
            if add != want:
                k = next(k for k in sorted(set(add) | set(want)) if add.get(k) != want.get(k))
                K.bad(fn, inst, '%s: %s is added to right-hand side %s with the factor %s, not %s' % (
                    inst, k[1], k[0], add.get(k, 0), want.get(k, 0)))


def run(P, K):
    drivers(P, K)
    parameters(P, K)
    handover(P, K)
    matrices(P, K)
    loads(P, K)

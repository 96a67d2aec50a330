"""Disjunctive constant/sign propagation over the CFG.

Abstract value of an expression: a frozenset of tokens out of exact small ints
(-1,0,1 and enum values), 'NEG', 'POS', or the single token ANY (= unknown).
Used to answer: "assume this expression evaluated to V; which values can the
function return afterwards?"."""

ANY = frozenset(['ANY'])
TRUE = frozenset([1])
FALSE = frozenset([0])
BOOLS = frozenset([0, 1])
LOW = frozenset(['LOW'])    # a count below every non-literal value it is compared with
NERR = frozenset(['NERR'])  # a negative status that differs likewise
ERR = frozenset(['ERR'])    # a positive status that differs from every non-literal value it is compared with
SMALL = 12


def is_any(v):
    return v is None or 'ANY' in v


def truth(v):
    """None if unknown, else True/False; a mixed set gives None."""
    if is_any(v):
        return None
    r = set()
    for x in v:
        r.add(False if x == 0 else True)
    return r.pop() if len(r) == 1 else None


def _cmp(op, a, b):
    """Compares two tokens; returns True/False/None."""
    if a == 'ANY' or b == 'ANY':
        return None
    if isinstance(a, int) and isinstance(b, int):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def rng(x):
        if x == 'NEG' or x == 'NERR':
            return (-10**9, -1)
        if x == 'POS' or x == 'ERR':
            return (1, 10**9)
        if x == 'LOW':
            return (0, 10**9)
        return (x, x)
    (al, ah), (bl, bh) = rng(a), rng(b)
    if op == '<':
        return True if ah < bl else False if al >= bh else None
    if op == '<=':
        return True if ah <= bl else False if al > bh else None
    if op == '>':
        return True if al > bh else False if ah <= bl else None
    if op == '>=':
        return True if al >= bh else False if ah < bl else None
    if op == '==':
        return False if ah < bl or bh < al else None
    if op == '!=':
        return True if ah < bl or bh < al else None
    return None


def compare(op, va, vb):
    if op in ('==', '!=') and (va in (ERR, NERR) and is_any(vb) or vb in (ERR, NERR) and is_any(va)):
        return FALSE if op == '==' else TRUE
    if va == LOW and is_any(vb):
        return TRUE if op in ('<', '<=', '!=') else FALSE
    if vb == LOW and is_any(va):
        return TRUE if op in ('>', '>=', '!=') else FALSE
    if is_any(va) or is_any(vb):
        return BOOLS
    r = set()
    for a in va:
        for b in vb:
            c = _cmp(op, a, b)
            if c is None:
                return BOOLS
            r.add(1 if c else 0)
    return frozenset(r)


def norm(v):
    """Limits the size of value sets."""
    if v is None or is_any(v) or len(v) > 6:
        return ANY
    for x in v:
        if isinstance(x, int) and abs(x) > SMALL:
            return frozenset('POS' if (isinstance(y, int) and y > SMALL) else
                             'NEG' if (isinstance(y, int) and y < -SMALL) else y for y in v)
    return v


class AbsEval(object):
    def __init__(self, fn, paths, callret=None, maxstates=2500, learn=True):
        self.fn = fn
        self.paths = paths
        self.maxstates = maxstates
        self.learn = learn          # may branch conditions create new facts?
        self.purekey = getattr(callret, 'purekey', None)
        self.mods = getattr(callret, 'mods', None)      # callable(call) -> members of *this it may change (None: any)
        self.callret = callret      # callable(node, env) -> value set or None
        self.overflow = False
        self.project = None
        self._addr = None
        self._top = {}
        self._counters = {}

    # -- local integers that are only ever set to a non-negative literal or incremented
    def counters(self, up=True):
        r = self._counters.get(up)
        if r is None:
            sg = 1 if up else -1
            ok, bad = set(), set()
            for m in self.fn.walk():
                if m.k == 'vardecl' and m.t is not None and m.t.k == 'int' and m.kids:
                    i = m.kids[0]
                    while i.k == 'cast':
                        i = i.c()
                    if i.k == 'int' and i.get('v') is not None and i.get('v') * sg >= 0:
                        ok.add(m.get('d'))
                elif m.k == 'var' and m.p is not None:
                    p = m.p
                    if p.k == 'cast' or (p.k == 'un' and p.op in (('++', 'p++') if up else ('--', 'p--')) + ('!', '-')):
                        continue
                    if p.k == 'bin' and p.op != ',':
                        continue
                    if p.k in ('if', 'while', 'for', 'cond', 'idx'):
                        continue
                    if p.k == 'return':
                        continue
                    if p.k == 'assign':
                        if p.kids[1] is m:
                            continue
                        x = p.kids[1]
                        while x.k == 'cast':
                            x = x.c()
                        if p.op in ('=', '+=' if up else '-=') and x.k == 'int' and x.get('v') is not None and \
                                x.get('v') * (1 if p.op != '=' else sg) >= 0:
                            continue
                    if p.k == 'call' and m.role == 'a' and p.callee is not None and m.t is not None:
                        ps = p.callee.p
                        j = p.args.index(m)
                        if ps is not None and j < len(ps) and ps[j] is not None and \
                                (ps[j].k not in ('ref', 'rref') or ps[j].p.c):
                            continue
                    bad.add(m.get('d'))
            r = self._counters[up] = set('v%d' % d for d in ok - bad)
        return r

    # -- which nodes are full expressions
    def is_top(self, n):
        r = self._top.get(n.i)
        if r is None:
            p = n.p
            if n.k in ('vardecl', 'return', 'decl'):
                r = True
            elif p is None:
                r = True
            else:
                r = p.k in ('block', 'if', 'for', 'while', 'do', 'rfor', 'switch', 'case', 'default', 'label', 'omp',
                            'try', 'catch')
            self._top[n.i] = r
        return r

    def trackable(self, n):
        """Key of a tracked lvalue or None."""
        if n.k == 'var':
            t = self.fn.locals[n.get('d')]['t']
            if t is None:
                return None
            if t.k in ('ref', 'rref'):
                b = self.paths.bind.get(n.get('d'))
                if b is not None and b[1].k == 'var':
                    return self.trackable(b[1])
                return 'r%d' % n.get('d')
            return 'v%d' % n.get('d')
        if n.k == 'idx' and len(n.kids) == 2 and n.kids[0].k in ('var', 'cast') and n.kids[1].k == 'int':
            b = n.kids[0].c() if n.kids[0].k == 'cast' else n.kids[0]
            if b.k == 'var':
                t = self.fn.locals[b.get('d')]['t']
                if t is not None and t.k == 'arr':
                    return 'a%d[%d]' % (b.get('d'), n.kids[1].get('v'))
            return None
        if n.k == 'mem' or n.k == 'gvar':
            t = n.t
            if t is not None and (t.k in ('bool', 'int', 'enum', 'ptr') or 'iterator' in t.s):
                k = self.paths.key(n)
                if k is not None:
                    return 'm' + k
        return None

    def val(self, n, env):
        """Value of an expression given env (node temporaries preferred)."""
        v = env.get(n.i)
        if v is not None:
            return v
        k = n.k
        if k == 'bool':
            return TRUE if n.get('v') else FALSE
        if k in ('int', 'char'):
            v = n.get('v')
            return frozenset([v]) if isinstance(v, int) and abs(v) <= SMALL else \
                (frozenset(['POS']) if isinstance(v, int) and v > 0 else ANY)
        if k == 'enum':
            return norm(frozenset([n.get('v')]))
        if k == 'null_p':
            return FALSE
        if k in ('new', 'this', 'str', 'lambda'):
            return frozenset(['POS'])
        if k in ('var', 'mem', 'gvar', 'idx'):
            key = self.trackable(n)
            if key is not None:
                return env.get(key, ANY)
            return ANY
        if k == 'bin':
            op = n.op
            if op == ',':
                return self.val(n.c(1), env)
            a = self.val(n.c(0), env)
            if op == '&&':
                t = truth(a)
                if t is False:
                    return FALSE
                b = self.val(n.c(1), env)
                tb = truth(b)
                if t is True:
                    return TRUE if tb is True else FALSE if tb is False else BOOLS
                return FALSE if tb is False else BOOLS
            if op == '||':
                t = truth(a)
                if t is True:
                    return TRUE
                b = self.val(n.c(1), env)
                tb = truth(b)
                if t is False:
                    return TRUE if tb is True else FALSE if tb is False else BOOLS
                return TRUE if tb is True else BOOLS
            b = self.val(n.c(1), env)
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return compare(op, a, b)
            if is_any(a) or is_any(b):
                if op == '*' and (a == FALSE or b == FALSE):
                    return FALSE
                if op == '&' and (a == FALSE or b == FALSE):
                    return FALSE
                return ANY
            if op == '&':
                if a <= BOOLS and b <= BOOLS:
                    return frozenset(x & y for x in a for y in b)
                return ANY
            if op == '|':
                if a <= BOOLS and b <= BOOLS:
                    return frozenset(x | y for x in a for y in b)
                return ANY
            if op in ('+', '-') and all(isinstance(x, int) for x in a | b):
                return norm(frozenset((x + y if op == '+' else x - y) for x in a for y in b))
            if op == '-' and b == frozenset([1]) and a == frozenset(['NEG']):
                return a
            return ANY
        if k == 'un':
            op = n.op
            a = self.val(n.c(), env)
            if op == '!':
                t = truth(a)
                return BOOLS if t is None else (FALSE if t else TRUE)
            if op == '-':
                if is_any(a):
                    return ANY
                return frozenset({'NEG': 'POS', 'POS': 'NEG'}.get(x, -x if isinstance(x, int) else x) for x in a)
            if op == '+':
                return a
            if op == '&':
                return frozenset(['POS'])
            return ANY
        if k == 'assign':
            if n.op == '=':
                key = self.trackable(n.c(0))
                if key is not None:
                    return env.get(key, ANY)
                return self.val(n.c(1), env)
            key = self.trackable(n.c(0))
            return env.get(key, ANY) if key else ANY
        if k == 'cond':
            if n.get('elvis'):
                return ANY
            c = truth(self.val(n.c(0), env))
            if c is True:
                return self.val(n.c(1), env)
            if c is False:
                return self.val(n.c(2), env)
            a, b = self.val(n.c(1), env), self.val(n.c(2), env)
            return ANY if is_any(a) or is_any(b) else norm(a | b)
        if k == 'cast':
            v = self.val(n.c(), env)
            if n.t is not None and n.t.k == 'bool':
                t = truth(v)
                return BOOLS if t is None else (TRUE if t else FALSE)
            if n.t is not None and n.t.k in ('int', 'enum', 'ptr', 'ref'):
                return v
            return ANY
        if k == 'ctor' and len(n.args) == 1:
            return self.val(n.args[0], env)
        if k == 'ilist':
            if len(n.kids) == 1:
                return self.val(n.kids[0], env)
            return ANY
        if k in ('zinit',):
            return FALSE
        if k == 'defarg' and n.get('v') is not None:
            return norm(frozenset([n.get('v')]))
        if k == 'call':
            if self.callret is not None:
                r = self.callret(self, n, env)
                if r is not None:
                    return r
            # std::min/max, smart-pointer bool etc. are unknown
            return ANY
        return ANY

    def killpure(self, env, key):
        pat = key + ':'
        for x in [x for x in env if isinstance(x, str) and x[0] == 'p' and pat in x]:
            del env[x]

    def kill_key(self, env, key):
        if key in env:
            del env[key]

    def set(self, env, key, v):
        if key is None:
            return
        if self.purekey is not None and key[0] == 'v':
            self.killpure(env, key)
        v = norm(v)
        if is_any(v):
            env.pop(key, None)
        else:
            env[key] = v

    def exec_node(self, n, env):
        """Transfer for one CFG element (mutates env)."""
        k = n.k
        if k == 'vardecl':
            t = n.t
            if t is not None and t.k in ('ref', 'rref'):
                return
            key = 'v%d' % n.get('d')
            if n.kids and t is not None and t.k in ('bool', 'int', 'enum', 'ptr', 'float', 'dep', 'other', 'rec'):
                self.set(env, key, self.conv(t, self.val(n.kids[0], env)))
            else:
                env.pop(key, None)
                if self.purekey is not None:
                    self.killpure(env, key)
        elif k == 'assign':
            lhs, rhs = n.c(0), n.c(1)
            key = self.trackable(lhs)
            if key is not None:
                op = n.op
                v = self.val(rhs, env)
                old = env.get(key, ANY)
                if op == '=':
                    nv = self.conv(lhs.t, v)
                elif op == '&=':
                    if old == FALSE or v == FALSE:
                        nv = FALSE
                    elif not is_any(old) and not is_any(v) and old <= BOOLS and v <= BOOLS:
                        nv = frozenset(x & y for x in old for y in v)
                    else:
                        nv = ANY
                elif op == '|=':
                    if not is_any(old) and not is_any(v) and old <= BOOLS and v <= BOOLS:
                        nv = frozenset(x | y for x in old for y in v)
                    elif old == TRUE or v == TRUE:
                        nv = TRUE if (lhs.t is not None and lhs.t.k == 'bool') else ANY
                    else:
                        nv = ANY
                elif op == '*=' and (old == FALSE or v == FALSE):
                    nv = FALSE
                elif op == '+=' and v == FALSE:
                    nv = old
                else:
                    nv = ANY
                self.set(env, key, nv)
                if not is_any(nv):
                    env[n.i] = nv
        elif k == 'un' and n.op in ('++', '--', 'p++', 'p--'):
            key = self.trackable(n.c())
            if key is not None:
                old = env.get(key, ANY)
                up = '+' in n.op
                if (is_any(old) or 'NEG' in old) and key in self.counters(up):
                    self.set(env, key, frozenset(['POS' if up else 'NEG']))
                    if n.op in ('++', '--'):
                        env[n.i] = frozenset(['POS' if up else 'NEG'])
                    return
                if not is_any(old):
                    if n.op in ('p++', 'p--'):
                        env[n.i] = old
                    if old <= frozenset([0, 'POS', 1, 2]) and '+' in n.op:
                        self.set(env, key, frozenset(['POS']))
                    else:
                        self.set(env, key, ANY)
        elif k in ('call', 'ctor', 'new'):
            v = self.val_call_effect(n, env)
            if v is not None and not is_any(v):
                env[n.i] = v
            else:
                env.pop(n.i, None)
        elif k == 'bin' or k == 'cond' or k == 'un' or k == 'cast':
            env.pop(n.i, None)
            v = self.val(n, env)
            if not is_any(v) and v != BOOLS:
                env[n.i] = v

    def conv(self, t, v):
        if t is not None and t.k == 'bool':
            tv = truth(v)
            if tv is None:
                return BOOLS if not is_any(v) else ANY
            return TRUE if tv else FALSE
        return v

    def val_call_effect(self, n, env):
        ce = n.callee
        # arguments passed by non-const reference/pointer become unknown
        args = n.args
        ps = ce.p if ce is not None else []
        for i, a in enumerate(args):
            pt = ps[i] if i < len(ps) else None
            if pt is not None and pt.k in ('ref', 'rref') and pt.p is not None and not pt.p.c or ce is None:
                key = self.trackable(a)
                if key is not None:
                    env.pop(key, None)
            b = a.c() if a.k == 'cast' and a.kids else a
            if b.k == 'var':
                pre = 'a%d[' % b.get('d')
                for key in [x for x in env if isinstance(x, str) and x.startswith(pre)]:
                    del env[key]
            if a.k == 'un' and a.op == '&':
                key = self.trackable(a.c())
                if key is not None:
                    env.pop(key, None)
        if n.k == 'call':
            # a call may change any tracked member/global unless it is const on its object
            if not (ce is not None and (ce.const or not ce.in_repo())):
                own = self.mods(n) if self.mods is not None else None
                for key in [x for x in env if isinstance(x, str) and x[0] == 'm']:
                    if own is None or not key.startswith('mthis.') or key.split('.')[1] in own:
                        del env[key]
            f = n.child('f')
            o = n.obj
            lam = o if (ce is not None and ce.n == 'operator()') else None
            if lam is not None or (f is not None and f.k in ('var', 'lambda')):
                for cl in self.captured():
                    env.pop(cl, None)
        # the stale value of a re-executed call must not survive
        env.pop(n.i, None)
        if n.k == 'call' and n.op == '=' and n.obj is not None and len(n.args) == 1 and n.obj.k == 'var':
            key = self.trackable(n.obj)
            if key is not None:
                self.set(env, key, self.val(n.args[0], env))
        if self.callret is not None:
            return self.callret(self, n, env)
        return None

    def captured(self):
        if self._addr is None:
            s = set()
            for m in self.fn.nodes.values():
                if m.k == 'lambda':
                    for c in m.get('cap') or []:
                        if c.get('ref') and 'd' in c:
                            s.add('v%d' % c['d'])
            self._addr = s
        return self._addr

    def refine(self, n, env, val):
        """Refines env assuming node n evaluates to truth value val. Returns False if infeasible."""
        k = n.k
        v = self.val(n, env)
        t = truth(v)
        if t is not None and t != val:
            return False
        if k in ('var', 'mem', 'gvar'):
            key = self.trackable(n)
            if key is not None:
                old = env.get(key, ANY)
                if is_any(old):
                    if not self.learn:
                        pass
                    elif not val:
                        env[key] = FALSE
                    elif n.t is not None and n.t.deref().k == 'bool':
                        env[key] = TRUE
                    elif n.t is not None and n.t.k == 'ptr':
                        env[key] = frozenset(['POS'])
                else:
                    nv = frozenset(x for x in old if (x != 0) == val)
                    if not nv:
                        return False
                    env[key] = nv
        elif k == 'un' and n.op == '!':
            return self.refine(n.c(), env, not val)
        elif k == 'call' and self.purekey is not None:
            pk = self.purekey(self, n)
            if pk is not None:
                env[pk] = frozenset(['POS']) if val else FALSE
        elif k == 'cast' or (k == 'ctor' and len(n.args) == 1):
            c = n.c() if k == 'cast' else n.args[0]
            if k == 'cast' and self.purekey is not None:
                pk = self.purekey(self, n)
                if pk is not None:
                    env[pk] = frozenset(['POS']) if val else FALSE
                    if not val:
                        c = None
            if c is not None:
                return self.refine(c, env, val)
        elif k == 'assign' and n.op == '=':
            return self.refine(n.c(0), env, val)
        elif k == 'bin' and n.op in ('==', '!=', '<', '<=', '>', '>='):
            op = n.op
            if not val:
                op = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
            for a, b, o in ((n.c(0), n.c(1), op), (n.c(1), n.c(0), {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                if a.k == 'assign':
                    a = a.c(0)
                key = self.trackable(a) if a.k in ('var', 'mem', 'gvar', 'idx') else None
                vb = self.val(b, env)
                if key is None or is_any(vb):
                    continue
                old = env.get(key, ANY)
                if is_any(old):
                    if len(vb) == 1 and self.learn:
                        x = next(iter(vb))
                        if o == '==':
                            env[key] = vb
                        elif o == '<' and isinstance(x, int) and x <= 0:
                            env[key] = frozenset(['NEG'])
                        elif o == '>' and (x == 'POS' or isinstance(x, int) and x >= 0):
                            env[key] = frozenset(['POS'])
                        elif o == '>=' and (x == 'POS' or isinstance(x, int) and x >= 1):
                            env[key] = frozenset(['POS'])
                        elif x == 0 and o == '>=' :
                            env[key] = frozenset([0, 'POS'])
                        elif x == 0 and o == '<=':
                            env[key] = frozenset([0, 'NEG'])
                        elif x == 1 and o == '<':
                            env[key] = frozenset([0, 'NEG'])
                        elif x == 0 and o == '!=' and a.t is not None and (a.t.k == 'ptr' or a.t.u):
                            env[key] = frozenset(['POS'])
                else:
                    nv = set()
                    for x in old:
                        if any(_cmp(o, x, y) is not False for y in vb):
                            nv.add(x)
                    if not nv:
                        return False
                    env[key] = frozenset(nv)
        elif k == 'bin' and n.op in ('&&', '||'):
            # whole logical expression as a condition: operands handled by the CFG
            if n.op == '&&' and val:
                return self.refine(n.c(0), env, True) and self.refine(n.c(1), env, True)
            if n.op == '||' and not val:
                return self.refine(n.c(0), env, False) and self.refine(n.c(1), env, False)
        if self.learn or not self.is_top(n):
            env[n.i] = (TRUE if val else FALSE) if not (v is not None and not is_any(v) and t == val) else v
        return True

    def run(self, starts, stop=None, on_elem=None, alive=None):
        """starts: list of (block id, element index, env). Explores all paths; returns list of
        (return node or None for falling off the end, value set, env)."""
        fn = self.fn
        results = []
        seen = set()
        work = list(starts)
        nst = 0
        while work:
            bid, ei, env = work.pop()
            if alive is not None:
                if not alive(env):
                    continue
                if self.project is not None:
                    env = self.project(env)
            key = (bid, ei, frozenset(env.items()))
            if key in seen:
                continue
            seen.add(key)
            nst += 1
            if nst > self.maxstates:
                self.overflow = True
                break
            B = fn.blocks[bid]
            env = dict(env)
            dead = False
            prev = None
            for idx in range(ei, len(B.elems)):
                e = B.elems[idx]
                if not isinstance(e, int):
                    continue
                if e == prev:
                    continue
                prev = e
                n = fn.nodes.get(e)
                if n is None:
                    continue
                if stop is not None:
                    s = stop(n, env, self)
                    if s is not None:
                        results.append((n, s, env))
                        dead = True
                        break
                if on_elem is not None:
                    on_elem(n, env, self)
                if n.k == 'return':
                    v = self.val(n.kids[0], env) if n.kids else ANY
                    if fn.decl.r is not None:
                        v = self.conv(fn.decl.r, v)
                    results.append((n, v, env))
                    dead = True
                    break
                if n.k == 'throw':
                    results.append((n, frozenset(['THROW']), env))
                    dead = True
                    break
                self.exec_node(n, env)
                if self.is_top(n) and n.i != B.tcond:
                    for x in [x for x in env if isinstance(x, int)]:
                        del env[x]
            if dead:
                continue
            if B.noret:
                results.append((None, frozenset(['THROW']), env))
                continue
            if bid == fn.exit:
                results.append((None, ANY, env))
                continue
            succs = B.succs
            tk = B.tk
            if tk == 'SwitchStmt':
                c = fn.nodes.get(B.tcond)
                cv = self.val(c, env) if c is not None else ANY
                ckey = self.trackable(c) if c is not None and c.k in ('var', 'mem') else None
                labs = []
                for s in succs:
                    if s is None:
                        continue
                    lb = fn.nodes.get(fn.blocks[s].label) if fn.blocks[s].label is not None else None
                    if lb is not None and lb.k == 'case':
                        lv = self.val(lb.child('lhs'), env)
                        labs.append((s, lv))
                    else:
                        labs.append((s, None))
                allc = set()
                for s, lv in labs:
                    if lv is not None and not is_any(lv):
                        allc |= lv
                for s, lv in labs:
                    e2 = {x: y for x, y in env.items() if not isinstance(x, int)}
                    if not is_any(cv):
                        if lv is not None and not is_any(lv):
                            if not (lv & cv) and not any(isinstance(x, str) for x in cv):
                                continue
                        elif lv is None:
                            if all(isinstance(x, int) and x in allc for x in cv):
                                continue
                    if lv is not None and ckey is not None and not is_any(lv):
                        e2[ckey] = lv
                    work.append((s, 0, e2))
                continue
            if len(succs) == 2 and B.tcond is not None and tk not in ('CXXTryStmt', None):
                c = fn.nodes.get(B.tcond)
                if c is not None and tk in ('IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'BinaryOperator',
                                            'ConditionalOperator', 'CXXForRangeStmt'):
                    # for `a && b` terminators the condition is the left operand
                    for s, tv in ((succs[0], True), (succs[1], False)):
                        if s is None:
                            continue
                        e2 = dict(env)
                        if not self.refine(c, e2, tv):
                            continue
                        if self.is_top(c):
                            for x in [x for x in e2 if isinstance(x, int)]:
                                del e2[x]
                        work.append((s, 0, e2))
                    continue
            for s in succs:
                if s is not None:
                    work.append((s, 0, dict(env)))
        return results


def elem_index(fn):
    """node id -> (block id, index of the element)."""
    ix = {}
    for B in fn.blocks.values():
        for i, e in enumerate(B.elems):
            if isinstance(e, int) and e not in ix:
                ix[e] = (B.id, i)
            elif isinstance(e, int):
                # last occurrence within the same block is the complete evaluation
                if ix[e][0] == B.id:
                    ix[e] = (B.id, i)
    return ix


class Found(Exception):
    """Raised by on_elem: nothing more needs to be explored."""


def explore(fn, paths, starts, callret=None, stop=None, on_elem=None, alive=None):
    """Runs AbsEval; falls back to the coarser mode when the state space is too large.
    Returns (results, overflow)."""
    try:
        ev = AbsEval(fn, paths, callret=callret)
        res = ev.run(list(starts), stop=stop, on_elem=on_elem, alive=alive)
        if ev.overflow and alive is not None and alive.project is not None:
            # coarse but cheap; only if that finds something the expensive run has to decide
            ev = AbsEval(fn, paths, callret=callret, learn=False, maxstates=20000)
            ev.project = alive.project
            f0 = alive.found()
            try:
                ev.run(list(starts), stop=stop, on_elem=on_elem, alive=alive)
                if not ev.overflow:
                    return [], False
            except Found:
                pass
            alive.reset(f0)
            ev.overflow = True
        if ev.overflow:
            ev = AbsEval(fn, paths, callret=callret, learn=False, maxstates=20000)
            res = ev.run(list(starts), stop=stop, on_elem=on_elem, alive=alive)
    except Found:
        return [], False
    return res, ev.overflow


def seed(fn, paths, c, env, callret=None):
    """Adds to env what must hold for the sub-expression c to be evaluated at all: the outcomes of
    the left operands of the enclosing && || ?: operators."""
    ev = AbsEval(fn, paths, callret=callret)
    n = c
    pending = []
    while n.p is not None and n.p.k not in ('block', 'lambda'):
        p = n.p
        if p.k == 'bin' and p.op in ('&&', '||') and len(p.kids) == 2 and n is p.kids[1]:
            pending.append((p.kids[0], p.op == '&&'))
        elif p.k == 'cond' and len(p.kids) == 3 and n is not p.kids[0]:
            pending.append((p.kids[0], n is p.kids[1]))
        if p.k in ('if', 'for', 'while', 'do', 'switch', 'return', 'vardecl', 'rfor', 'omp', 'case', 'default'):
            break
        n = p
    for cond, tv in reversed(pending):
        ev.refine(cond, env, tv)
        if not ev.trackable(cond) and cond.i not in env:
            env[cond.i] = TRUE if tv else FALSE
    return env


def const_in(fn, paths, callret=None, env0=None):
    """Forward must-constant propagation: block id -> env valid at block entry on every path from the
    function entry."""
    ev = AbsEval(fn, paths, callret=callret)
    ins = {fn.entry: dict(env0 or {})}
    work = [fn.entry]
    n = 0
    while work:
        b = work.pop()
        n += 1
        if n > 20000:
            return {}
        B = fn.blocks[b]
        env = dict(ins[b])
        run_block(fn, ev, B, env, len(B.elems))
        c = fn.nodes.get(B.tcond) if B.tcond is not None and len(B.succs) == 2 and \
            B.tk in ('IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'BinaryOperator', 'ConditionalOperator') else None
        for si, s in enumerate(B.succs):
            if s is None:
                continue
            out = dict(env)
            if c is not None and not ev.refine(c, out, si == 0):
                continue
            out = {k: v for k, v in out.items() if not isinstance(k, int)}
            if s not in ins:
                ins[s] = dict(out)
                work.append(s)
            else:
                old = ins[s]
                new = {}
                for k, v in old.items():
                    w = out.get(k)
                    if w is None:
                        continue
                    if w != v:
                        v = norm(v | w)
                        if is_any(v):
                            continue
                    new[k] = v
                if new != old:
                    ins[s] = new
                    work.append(s)
    return ins


def run_block(fn, ev, B, env, upto):
    prev = None
    for e in B.elems[:upto]:
        if not isinstance(e, int) or e == prev:
            continue
        prev = e
        n = fn.nodes.get(e)
        if n is None or n.k in ('return', 'throw'):
            continue
        ev.exec_node(n, env)
        if ev.is_top(n) and n.i != B.tcond:
            for x in [x for x in env if isinstance(x, int)]:
                del env[x]

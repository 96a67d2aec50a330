"""C03: a lookup that found nothing is never used as if it had.

For every call that yields "not found" as a null pointer or an end iterator (XML lookups, string
tokenising, patch/field/vector lookups, failed downcasts, container searches) the result is assumed to
be null; every CFG path is explored with disjunctive constant propagation, and no dereference of a
null value may be reached.
The same is required of a pointer that the function itself compares with null, from the comparison on and (for parameters and
members) from the beginning of the function, and of a parameter that a caller passes a literal null or leaves at such a default."""
from absval import AbsEval, Found, explore, elem_index, const_in, run_block, seed, ANY, FALSE, TRUE, BOOLS, compare, is_any
from model import Paths, expr_str
from lib import read_table, baseline, graph
from par import pmap
from zone import Mods

EXT_NULL = {
    'tinyxml2::XMLElement::Attribute', 'tinyxml2::XMLElement::GetText', 'tinyxml2::XMLElement::FindAttribute',
    'tinyxml2::XMLElement::FirstAttribute', 'tinyxml2::XMLAttribute::Next',
    'tinyxml2::XMLNode::FirstChild', 'tinyxml2::XMLNode::FirstChildElement', 'tinyxml2::XMLNode::LastChildElement',
    'tinyxml2::XMLNode::NextSiblingElement', 'tinyxml2::XMLNode::NextSibling', 'tinyxml2::XMLNode::ToElement',
    'tinyxml2::XMLNode::PreviousSiblingElement', 'tinyxml2::XMLDocument::RootElement', 'tinyxml2::XMLNode::Parent',
    'strtok', 'strtok_r', 'strchr', 'strrchr', 'strstr', 'strcasestr', 'strpbrk', 'fopen', 'getenv', 'realpath',
}
# external function -> indices of pointer arguments it dereferences
EXT_DEREF = {'atoi': [0], 'atof': [0], 'atol': [0], 'strtol': [0], 'strtod': [0], 'strlen': [0], 'strdup': [0],
             'strcmp': [0, 1], 'strcasecmp': [0, 1], 'strncmp': [0, 1], 'strncasecmp': [0, 1], 'strcpy': [0, 1],
             'strcat': [0, 1], 'strstr': [0, 1], 'strchr': [0], 'strrchr': [0], 'strcasestr': [0, 1],
             'strncpy': [0, 1], 'memcpy': [0, 1], 'fclose': [0], 'fread': [3], 'fwrite': [3], 'fprintf': [0],
             'std::stoi': [0], 'std::stod': [0], 'isdigit': [], 'isspace': []}
FINDS = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound'}
PURE = {'SIMbase::getPatch', 'AnaSol::getScalarSol', 'AnaSol::getScalarSecSol', 'VTF::getBlock',
        'IntegrandBase::getNamedVector', 'SIMbase::getReactionForces', 'AlgEqSystem::getReactions',
        'SIMdependency::getField', 'IntegrandBase::getExtractionField'}


def nullable(P):
    names = set(r[0] for r in read_table('c03_null.txt'))
    return names


class Null(object):
    def __init__(self, P):
        self.P = P
        self.names = nullable(P)
        self.base = baseline(P)
        self._px = {}
        self._ci = {}
        self._pd = {}
        self._mayn = {}
        self._cp = {}
        self._bl = {}

        def cr(ev, n, env):
            return self.callret(ev, n, env)
        cr.purekey = self.purekey
        zm = Mods(P)

        def mods(n):
            if any(a.k == 'this' or a.k == 'un' and a.op == '*' and a.c().k == 'this' for a in n.args):
                return None
            if n.callee is None:
                return None
            o = n.obj
            if n.callee.rec and not n.callee.static and (o is None or o.k == 'this' or o.k == 'un' and o.op == '*' and o.c().k == 'this'):
                return zm(n)
            return ()
        cr.mods = mods
        self.cr = cr

    def purekey(self, ev, n):
        if n.k == 'cast' and n.get('w') == 'dynamic' or n.k == 'call' and n.callee is not None and \
                (n.callee.q in EXT_NULL and n.callee.q.startswith('tinyxml2') or n.callee.q in PURE):
            k = ev.paths.key(n)
            if k is not None:
                return 'p' + ('dyn %s ' % n.t.s if n.k == 'cast' else '') + k
        return None

    def px(self, fn):
        r = self._px.get(fn)
        if r is None:
            r = self._px[fn] = (Paths(fn), elem_index(fn))
            self._ci[fn] = const_in(fn, r[0], self.cr)
        return r

    def may_null(self, decl, depth=0):
        """A function outside the baseline whose tail expression can be null."""
        r = self._mayn.get(decl.u)
        if r is None:
            self._mayn[decl.u] = False
            body = decl.body or self.P.lam_by_usr.get(decl.u)
            if body is not None and body.body is not None and self.base.is_new(body) and depth < 4:
                for n in body.body.walk():
                    if n.k == 'return' and n.kids and any(self.null_tail(t, depth) for t in tails(n.kids[0])):
                        self._mayn[decl.u] = True
            r = self._mayn[decl.u]
        return r

    def null_tail(self, t, depth):
        return t.k == 'null_p' or self.source(t, depth + 1) is not None

    def source(self, n, depth=0):
        """Name of the nullable source or None."""
        if n.k == 'cast':
            return 'dynamic_cast' if n.get('w') == 'dynamic' and n.t is not None and n.t.k == 'ptr' else None
        if n.k != 'call' or n.callee is None:
            return None
        q = n.callee.q
        if q in EXT_NULL or q in self.names:
            return q
        if n.callee.n in FINDS and not n.callee.in_repo() and n.callee.r is not None and \
                (n.callee.r.k != 'int') and ('iterator' in n.callee.r.s or n.callee.q.startswith('std::')):
            if n.callee.rec and 'basic_string' in n.callee.rec:
                return None
            return n.callee.n
        if n.callee.r is not None and n.callee.r.k == 'ptr' and n.callee.in_repo() and self.may_null(n.callee, depth):
            return q
        return None

    def callret(self, ev, n, env):
        ce = n.callee
        if ce is None:
            return None
        pk = self.purekey(ev, n)
        if pk is not None:
            return env.get(pk)
        if ce.n in ('end', 'cend') and not ce.in_repo():
            return FALSE
        if n.op in ('==', '!=') and not ce.in_repo():
            xs = ([n.obj] if n.obj is not None else []) + n.args
            if len(xs) == 2:
                a, b = ev.val(xs[0], env), ev.val(xs[1], env)
                r = compare(n.op, a, b)
                if r != BOOLS:
                    return r
        if n.op == '=' and n.obj is not None and len(n.args) == 1 and not ce.in_repo():
            v = ev.val(n.args[0], env)
            return v
        return None

    # -- dereference of a null value at node n?
    def deref(self, fn, n, env, ev, depth=0, only=None, focus=None):
        """Text of the dereference or None."""
        def isnull(x):
            if x is None or ev.val(x, env) != FALSE or literal_null(x):
                return False
            k = self.purekey(ev, x)     # a repeated lookup is an obligation of its own
            if not (k is None or only is None or k == only):
                return False
            if focus is None:
                return True
            for m in x.walk():
                if m.i == focus[0] or ev.trackable(m) in focus[1] or self.purekey(ev, m) in focus[1]:
                    return True
            return False

        def strip(x):
            return x
        if n.k == 'mem' and n.get('ar') and n.c() is not None and n.c().k != 'this':
            # `&p->x` style offset computations do not occur; a call's callee node is not emitted
            if isnull(n.c()):
                return expr_str(n)
        elif n.k == 'un' and n.op == '*':
            if isnull(n.c()):
                return expr_str(n)
        elif n.k == 'idx':
            b = n.c(0)
            if b is not None and b.t is not None and b.t.k == 'ptr' and isnull(b):
                return expr_str(n)
        elif n.k in ('call', 'ctor'):
            ce = n.callee
            if n.k == 'call' and n.obj is not None:
                if n.get('ar') and n.obj.k != 'this' and isnull(n.obj):
                    return expr_str(n)
                if n.op in ('*', '->') and not n.args and ce is not None and not ce.in_repo() and isnull(n.obj) and \
                        'iterator' in (ce.q or ''):
                    return expr_str(n)
            if ce is None:
                return None
            for i, a in enumerate(n.args):
                if not isnull(a):
                    continue
                at = a.t.deref() if a.t is not None else None
                pt = ce.p[i] if i < len(ce.p) else None
                if not ce.in_repo():
                    if i in EXT_DEREF.get(ce.q, ()):
                        return expr_str(n)
                    if n.k == 'ctor' and i == 0 and ce.rec and 'basic_string' in ce.rec and at is not None and at.k == 'ptr':
                        return '%s as a string' % expr_str(a)
                    if n.op == '<<' and at is not None and at.k == 'ptr' and pt is not None and \
                            pt.k == 'ptr' and 'char' in pt.s:
                        return '%s printed' % expr_str(a)
                    if n.op in ('=', '==', '!=', '+', '+=') and at is not None and at.k == 'ptr' and ce.rec and \
                            'basic_string' in ce.rec:
                        return '%s as a string' % expr_str(a)
                elif pt is not None and pt.k == 'ptr' and depth < 3:
                    for d in ([ce] if ce.virtual else [ce]):
                        body = d.body
                        if body is not None and body.blocks and i < len(body.params):
                            r = self.param_deref(body, i, depth + 1)
                            if r:
                                return '%s, where %s' % (expr_str(n), r)
        return None

    def param_deref(self, fn, i, depth):
        """Does fn dereference its i'th parameter (assumed null) on some path?"""
        k = (fn, i)
        if k in self._pd:
            return self._pd[k]
        self._pd[k] = None
        paths, ix = self.px(fn)
        hit = []

        def on(n, env, ev):
            if not hit:
                r = self.deref(fn, n, env, ev, depth)
                if r:
                    hit.append('%s (%s:%d) uses it as %s' % (fn.q, fn.file, n.l, r))
                    raise Found
        pk = 'v%d' % fn.params[i]['d']
        explore(fn, paths, [(fn.entry, 0, {pk: FALSE})], callret=self.cr, on_elem=on, alive=alive(self, fn, None, None, pk, hit))
        self._pd[k] = hit[0] if hit else None
        return self._pd[k]


def alive(nl, fn, c, pk, key, hits):
    """Predicate for states in which the null value in question (of the expression c, the repeated lookup pk or the
    variable key) is still around, possibly in a variable it was copied to."""
    ev = AbsEval(fn, nl.px(fn)[0], callret=nl.cr)
    keys = set(k for k in (pk, key) if k)
    cp = nl._cp.get(fn)
    if cp is None:
        cp = nl._cp[fn] = []
        for n in fn.walk():
            if n.k == 'vardecl' and n.kids:
                t = n.t
                l = 'r%d' % n.get('d') if t is not None and t.k in ('ref', 'rref') else 'v%d' % n.get('d')
                r = n.kids[0]
            elif n.k == 'assign' and n.op == '=':
                l, r = ev.trackable(n.c(0)), n.c(1)
            elif n.k == 'call' and n.op == '=' and n.obj is not None and n.args:
                l, r = ev.trackable(n.obj), n.args[0]
            else:
                continue
            if l is None:
                continue
            ids, ks = set(), set()
            for m in r.walk():
                ids.add(m.i)
                k = ev.trackable(m)
                if k:
                    ks.add(k)
                k = nl.purekey(ev, m)
                if k:
                    ks.add(k)
            cp.append((l, ids, ks))
    ch = True
    while ch:
        ch = False
        for l, ids, ks in cp:
            if l not in keys and (c is not None and c.i in ids or ks & keys):
                keys.add(l)
                ch = True
    ci = c.i if c is not None else None
    bools = nl._bl.get(fn)
    if bools is None:
        bools = nl._bl[fn] = set('v%d' % n.get('d') for n in fn.walk() if n.k == 'vardecl' and n.t is not None and n.t.k == 'bool')

    def project(env):
        return {k: v for k, v in env.items() if isinstance(k, int) or k in keys or k in bools or k[0] == 'a'}

    def f(env):
        if ci is not None and ci in env:
            return True
        for k in keys:
            if env.get(k) == FALSE:
                return True
        return False
    f.project = project
    f.focus = (ci, keys)
    f.found = lambda: len(hits)
    f.reset = lambda n: hits.__delitem__(slice(n, None))
    return f


def literal_null(n):
    while n.k in ('cast',) and n.kids:
        n = n.c()
    return n.k in ('null_p', 'int', 'defarg', 'zinit') or \
        n.k == 'call' and n.callee is not None and n.callee.n in ('end', 'cend')


def tested(fn):
    """Pointer-valued variables and members that are compared with null in a condition."""
    for n in fn.walk():
        if n.k not in ('var', 'mem') or n.t is None:
            continue
        t = n.t.p if n.t.k == 'ref' else n.t
        if t is not None and 'iterator' in t.s and iterated(n):
            yield n
            continue
        if t is None or t.k != 'ptr':
            continue
        x, p = n, n.p
        while p is not None and p.k in ('cast', 'expr'):
            x, p = p, p.p
        if p is None:
            continue
        if p.k == 'bin' and p.op in ('==', '!='):
            o = [c for c in p.kids if c is not x]
            if o and literal_null(o[0]):
                yield n
        elif p.k == 'bin' and p.op in ('&&', '||') or p.k == 'un' and p.op == '!' or p.k == 'cond' and x is p.kids[0] or \
                x.role == 'cond' and p.k in ('if', 'for', 'while', 'do'):
            yield n


def iterated(n):
    """Is the iterator n compared with the end of its container?"""
    p = n.p
    while p is not None and p.k in ('cast', 'expr', 'ctor'):
        n, p = p, p.p
    if p is None or p.op not in ('==', '!='):
        return None
    for c in p.kids:
        if c is not n and c.role != 'f' and literal_null(unwrap(c)):
            e = unwrap(c)
            return 'element of ' + expr_str(e.obj) if e.k == 'call' and e.obj is not None else expr_str(n)
    return None


def unwrap(e):
    while e.k in ('cast', 'expr', 'ctor') and len(e.kids) == 1:
        e = e.kids[0]
    return e


def nulltests(nl, fn):
    """[(node, verdict, expression, line, text)] for the pointers that fn compares with null."""
    out, seen = [], set()
    paths, ix = nl.px(fn)
    pr = set('v%d' % p['d'] for p in fn.params)
    ev = AbsEval(fn, paths, callret=nl.cr)
    tn = list(tested(fn))
    if not tn:
        return out
    changed = set()
    for n in fn.walk():
        if n.k == 'assign':
            changed.add(ev.trackable(n.c(0)))
        elif n.k == 'un' and n.op in ('&', '++', '--', 'p++', 'p--'):
            changed.add(ev.trackable(n.c()))
        elif n.k == 'call':
            changed.update(ev.trackable(a) for a in n.args)
    for n in tn:
        k = ev.trackable(n)
        if n.i not in ix or k is None or k in seen and k not in changed:
            continue
        b, i = ix[n.i]
        env = dict(nl._ci[fn].get(b, {}))
        run_block(fn, AbsEval(fn, paths, callret=nl.cr), fn.blocks[b], env, i + 1)
        env = seed(fn, paths, n, env, nl.cr)
        starts = []
        if k not in seen and (k in pr or k.startswith('mthis.') and k.count('.') == 1) and fn.decl.kind not in ('ctor', 'cctor', 'mctor'):
            seen.add(k)
            starts.append((fn.entry, 0, {k: FALSE}))
        if (not starts or k in changed) and (env.get(k) is None or 0 in env[k]):
            env[k] = env[n.i] = FALSE
            starts.append((b, i + 1, env))
        hit = []
        al = alive(nl, fn, n, None, k, hit)

        def on(m, e, ev):
            if not hit:
                r = nl.deref(fn, m, e, ev, 0, 'none', al.focus)
                if r:
                    hit.append((m.l, r))
                    raise Found
        for s in starts:
            if not hit:
                explore(fn, paths, [s], callret=nl.cr, on_elem=on, alive=al)
        out.append((n.i, 'bad' if hit else 'ok', iterated(n) or expr_str(n), hit[0][0] if hit else None, hit[0][1] if hit else ''))
    return out


class Members(object):
    """Members that may be null (cfg/c03_members.txt) are not dereferenced without a test by the functions of their class."""

    def __init__(self, nl):
        self.nl = nl
        P = nl.P
        self.own = {}
        self.memo = {}
        for r in read_table('c03_members.txt'):
            q, m = r[0], r[1]
            if q in P.records and any(f['n'] == m for f in P.records[q].fields):
                for c in [q] + list(P.all_derived(q)):
                    self.own.setdefault(c, set()).add(m)

    def of(self, fn):
        """Members to be followed through fn."""
        own = self.own.get(fn.decl.rec)
        if not own or not fn.blocks or fn.decl.kind in ('ctor', 'cctor', 'mctor'):
            return []
        ms = set(n.name for n in fn.walk() if n.k == 'mem' and n.name in own and (n.c() is None or n.c().k == 'this'))
        if any(self.helper(n) for n in fn.walk()):
            ms = own
        return sorted(ms)

    def helper(self, n):
        """A member function outside the baseline that is called on this object."""
        if n.k != 'call' or n.callee is None or not n.callee.rec or n.callee.virtual or n.callee.body is None or \
                n.obj is not None and n.obj.k != 'this' or not self.nl.base.is_new(n.callee.body):
            return None
        return n.callee.body

    def hit(self, fn, m, depth=0):
        k = (fn, m)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        nl = self.nl
        paths, ix = nl.px(fn)
        out = []
        al = alive(nl, fn, None, None, 'mthis.' + m, out)

        def on(n, env, ev):
            if out:
                return
            r = nl.deref(fn, n, env, ev, 0, 'none', al.focus)
            if r:
                out.append((fn, n.l, r))
                raise Found
            h = self.helper(n) if depth < 3 else None
            if h is not None and h.blocks and env.get('mthis.' + m) == FALSE:
                r = self.hit(h, m, depth + 1)
                if r:
                    out.append(r)
                    raise Found
        explore(fn, paths, [(fn.entry, 0, {'mthis.' + m: FALSE})], callret=nl.cr, on_elem=on, alive=al)
        self.memo[k] = out[0] if out else None
        return self.memo[k]


def nullargs(nl, fn):
    """(call, callee, parameter) where a literal null is handed over."""
    out = []
    for c in fn.walk():
        if c.k not in ('call', 'ctor') or c.callee is None or not c.callee.in_repo():
            continue
        for i, a in enumerate(c.args):
            pt = c.callee.p[i] if i < len(c.callee.p) else None
            if pt is None or pt.k != 'ptr':
                continue
            while a is not None and a.k in ('cast', 'expr', 'defarg') and a.kids:
                a = a.kids[0]
            if a is None or not (a.k in ('null_p', 'zinit') or a.k == 'int' and a.get('v') in ('0', 0)):
                continue
            out.append((c.i, i))
    return out


def tails(e):
    while e is not None:
        if e.k == 'cast':
            if e.get('w') == 'dynamic':
                break
            e = e.kids[0] if e.kids else None
        elif e.k == 'cond' and len(e.kids) == 3:
            return tails(e.kids[1]) + tails(e.kids[2])
        else:
            break
    return [e] if e is not None else []


def run(P, ctx):
    nl = Null(P)
    graph(P)

    def job(fn):
        out = []
        for c in fn.walk():
            s = nl.source(c)
            if s is None:
                continue
            paths, ix = nl.px(fn)
            ii = c.i
            if ii not in ix:
                out.append((c.i, s, 'nocfg', None, ''))
                continue
            b, i = ix[ii]
            env = dict(nl._ci[fn].get(b, {}))
            run_block(fn, AbsEval(fn, paths, callret=nl.cr), fn.blocks[b], env, i + 1)
            env = seed(fn, paths, c, env, nl.cr)
            pk = nl.purekey(AbsEval(fn, paths, callret=nl.cr), c)
            if pk is not None:
                if env.get(pk) is not None and 0 not in env[pk]:
                    out.append((c.i, s, 'tested', None, ''))
                    continue
                env[pk] = FALSE
            env[c.i] = FALSE
            hit = []
            al = alive(nl, fn, c, pk, None, hit)

            def on(n, e, ev):
                if not hit:
                    r = nl.deref(fn, n, e, ev, 0, pk or 'none', al.focus)
                    if r:
                        hit.append((n.l, r))
                        raise Found
            explore(fn, paths, [(b, i + 1, env)], callret=nl.cr, on_elem=on, alive=al)
            if hit:
                out.append((c.i, s, 'bad', hit[0][0], hit[0][1]))
            else:
                out.append((c.i, s, 'ok', None, ''))
        return out

    fns = [f for f in P.fns if f.blocks]
    for fn, rs in zip(fns, pmap(job, fns, 4)):
        for ci, s, v, l, what in rs:
            c = fn.nodes[ci]
            if v == 'nocfg':
                ctx.count('lookups outside the CFG (unevaluated or unreachable)')
                continue
            ctx.count('lookups whose result may be null or end')
            if v == 'tested':
                ctx.count('repeated lookups tested before on every path')
                continue
            if v == 'ok':
                ctx.count('lookups never used when nothing was found')
                continue
            short = s.split('::')[-1]
            arg = ''
            for a in c.args:
                if a.k == 'str':
                    arg = '("%s")' % a.get('v')
                    break
            inst = short + arg
            if c.k == 'call' and c.obj is not None and c.obj.k == 'var' and not arg:
                inst = c.obj.name + '.' + short
            if ctx.excepted(P, 'c03_allow.txt', fn, inst) is not None or \
                    ctx.excepted(P, 'c03_allow.txt', fn, short) is not None:
                ctx.count('lookups excepted by cfg/c03_allow.txt')
                continue
            ctx.viol('null-use', fn.q, inst, 'the result of %s is used when nothing was found: %s on line %d' %
                     (expr_str(c), what, l), fn=fn, node=c, P=P)
    for fn, rs in zip(fns, pmap(lambda f: nulltests(nl, f) if '3rdparty' not in f.file else [], fns, 4)):
        for ci, v, what, l, text in rs:
            ctx.count('pointers that are compared with null')
            if v == 'ok':
                continue
            if ctx.excepted(P, 'c03_allow.txt', fn, 'tested ' + what) is not None:
                ctx.count('lookups excepted by cfg/c03_allow.txt')
                continue
            ctx.viol('null-tested', fn.q, 'tested ' + what, '%s may be null according to the test of it, but is used regardless: %s '
                     'on line %d' % (what, text, l), fn=fn, node=fn.nodes[ci], P=P)
    for fn in fns:
        if '3rdparty' in fn.file:
            continue
        for ci, i in nullargs(nl, fn):
            c = fn.nodes[ci]
            for d in P.targets(c) if c.k == 'call' else [c.callee]:
                b = d.body or (P.by_usr.get(d.pat) if d.pat else None)
                if b is None or not b.blocks or i >= len(b.params):
                    continue
                ctx.count('null arguments')
                r = nl.param_deref(b, i, 0)
                if r is None:
                    continue
                inst = '%s(null %s)' % (d.q.split('::')[-1], b.params[i]['n'])
                if ctx.excepted(P, 'c03_allow.txt', fn, inst) is not None:
                    ctx.count('lookups excepted by cfg/c03_allow.txt')
                    continue
                ctx.viol('null-argument', fn.q, inst, 'the null argument of %s is used: %s' % (expr_str(c), r), fn=fn, node=c, P=P)
    ctx.need('lookups never used when nothing was found', 400, 'lookups')
    mb = Members(nl)
    mf = [f for f in fns if not nl.base.is_new(f) and mb.of(f)]
    for fn, rs in zip(mf, pmap(lambda f: [(m, mb.hit(f, m)) for m in mb.of(f)], mf, 4)):
        for m, h in rs:
            ctx.count('uses of members that may be null (function and member)')
            if h is None:
                continue
            g, l, text = h
            if ctx.excepted(P, 'c03_allow.txt', fn, 'member ' + m) is not None:
                ctx.count('lookups excepted by cfg/c03_allow.txt')
                continue
            ctx.viol('null-member', fn.q, 'member ' + m, 'the member %s may be null and is used without a test of it: %s (%s:%d)' %
                     (m, text, g.file, l), fn=fn, P=P, node=None)
    ctx.need('uses of members that may be null (function and member)', 150, 'functions using members that may be null')
    ctx.need('pointers that are compared with null', 600, 'null tests')
    ctx.explain.append(__doc__.replace('\n', ' '))

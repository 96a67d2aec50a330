"""C14: no hidden state.

Rule 1 (static): a variable with static storage duration is modified after its initialisation only if it is one of the program-wide
settings, counters and registries of cfg/c14_static.txt, and only by the functions listed there.
Rule 2 (once): the initial value of a function-local static variable does not depend on the parameters, the local variables or the
object of its first call.
Rule 3 (query): a const method changes a mutable member, casts constness away to modify something, or modifies through a member
pointer only where cfg/c14_query.txt says so.
Rule 4 (restore): a setting (variable, member or set-method of an object) that a function saves in a local variable and puts back
again, is put back on every path on which it was changed, except when an exception is thrown."""
import itertools

import effects
import flow
import model
import par
from absval import AbsEval, explore, elem_index, const_in, run_block, TRUE
from effects import strip
from lib import read_table, baseline
from model import expr_str

P = None
STREAM = ('stream', 'LogStream', 'std::ios')


def thirdparty(fn):
    return '3rdparty' in fn.file or fn.file.startswith('/')


def isstream(t):
    return t is not None and any(x in t.s for x in STREAM)


def gname(g):
    return (g.fn.q + '::' + g.n) if g.sl and g.fn is not None else g.q


def isconst(fn):
    if not fn.lam:
        return fn.decl.const
    p = fn.parent
    return p is not None and p.const


# -- rules 1 and 3 -----------------------------------------------------------------------------------------------------------
def job_writes(fn):
    st, q = [], []
    S = effects.Storage(P, fn)
    for n, e, r in S.writes():
        if r[0] == 'static':
            g = P.globals.get(r[1])
            if g is None or not g.f or g.f[0] == '<' or '3rdparty' in g.f or isstream(g.t):
                continue
            st.append((n.i, r[1]))
        elif r[0] in ('mutable', 'cast') or r[0] == 'ptr' and isconst(fn):
            if isstream(e.t) or n.k == 'call' and (n.name or '').startswith('get'):
                continue
            if fn.decl.kind in ('ctor', 'cctor', 'mctor', 'dtor') and r[0] == 'mutable':
                continue
            if not isconst(fn) and r[0] == 'mutable':
                continue
            nm = n.name if n.k == 'call' and not n.op else ''
            what = r[1] if r[0] != 'cast' else casted(S, e)
            q.append((n.i, r[0], what, nm or '', expr_str(e)[:60]))
    return st, q


def cast_in(e):
    for m in e.walk():
        if m.k == 'cast' and effects.constcast(m):
            return m.t
    return None


def casted(S, e):
    t = cast_in(e)
    for m in e.walk():
        if t is None and m.k == 'var' and m.get('d') is not None:
            for kind, x, _ in S.init.get(m.get('d'), ()):
                t = t or (cast_in(x) if x is not None else None)
    return t.s.replace('const ', '').replace(' *', '').replace(' &', '') if t is not None else '?'


# -- rule 2 ------------------------------------------------------------------------------------------------------------------
def job_once(fn):
    out, cnt = [], 0
    for n in fn.walk():
        if n.k == 'vardecl' and n.get('_g') is not None and n.kids:
            cnt += 1
            inner = set()
            for m in n.kids[0].walk():
                if m.k == 'vardecl':
                    inner.add(m.get('d'))
            for m in n.kids[0].walk():
                if m.k == 'var' and m.get('d') not in inner and not static_local(fn, m.get('d')) or m.k == 'this':
                    if m.k == 'this' or not constvar(fn, m):
                        out.append((n.i, n.name, expr_str(m)))
                        break
    return out, cnt


def static_local(fn, d):
    return any(n.k == 'vardecl' and n.get('d') == d and n.get('_g') is not None for n in fn.walk())


def constvar(fn, m):
    """A local constant initialised by a literal."""
    for n in fn.walk():
        if n.k == 'vardecl' and n.get('d') == m.get('d'):
            i = strip(n.kids[0]) if n.kids else None
            return i is not None and i.k in ('int', 'float', 'str', 'bool', 'char', 'enum') and n.t is not None and n.t.c
    return False


# -- rule 4 ------------------------------------------------------------------------------------------------------------------
def setter(n):
    """(object node, bare property name, value) when the call looks like a setter with one essential argument."""
    if n.k != 'call' or n.obj is None or n.op or not n.args:
        return None
    nm = n.name or ''
    a = n.args
    if any(x.k != 'defarg' for x in a[1:]):
        return None
    if nm.startswith('set') and len(nm) > 3:
        return n.obj, nm[3:].lower(), a[0]
    if nm in ('precision', 'flags', 'fill', 'width'):
        return n.obj, nm, a[0]
    return None


def getter(n):
    if n.k != 'call' or n.obj is None or n.op or any(x.k != 'defarg' for x in n.args):
        return None
    nm = n.name or ''
    if nm.startswith('get') and len(nm) > 3:
        return n.obj, nm[3:].lower()
    return (n.obj, nm.lower()) if not nm.startswith('set') else None


def okey(paths, o):
    k = paths.key(strip(o) or o)
    if k is None:
        return None
    if k.startswith('&'):
        k = k[1:]
    elif k.endswith('.*'):
        k = k[:-2]
    return k


def read_key(paths, e):
    """Keys of the setting whose old value the expression e yields."""
    e = strip(e)
    if e is None:
        return []
    if e.k == 'cond':
        return read_key(paths, e.kids[1]) + read_key(paths, e.kids[2])
    if e.k in ('gvar', 'mem'):
        k = paths.key(e)
        return [('v', k)] if k is not None and not (e.k == 'mem' and e.t is not None and e.t.deref() is not None and
                                                    e.t.deref().k == 'fn') else []
    if e.k == 'call':
        s = setter(e)
        if s is not None:
            return [('m', okey(paths, s[0]), s[1])]
        g = getter(e)
        if g is not None:
            return [('m', okey(paths, g[0]), g[1])]
        if e.callee is not None and e.callee.n == 'exchange' and e.args:
            return [('v', paths.key(e.args[0]))]
    if e.k == 'ctor' and len(e.args) == 1:
        return read_key(paths, e.args[0])
    return []


def write_of(paths, n):
    """(key, value expression) when the node changes a setting."""
    if n.k == 'assign' and n.op == '=':
        a = strip(n.c(0))
        if a is not None and a.k in ('gvar', 'mem'):
            k = paths.key(a)
            return (('v', k), n.c(1)) if k is not None else None
    s = setter(n)
    if s is not None:
        k = okey(paths, s[0])
        return (('m', k, s[1]), s[2]) if k is not None else None
    return None


def holds(saved, d, k):
    """Does the variable d hold an old value of the setting k (the getter may belong to a part of the object)?"""
    return any(x == k or x[0] == 'm' == k[0] and x[2] == k[2] for x in saved.get(d, ()))


def splits(fn, paths, ch):
    """Assumptions on unmodified parameters that decide whether the setting is changed."""
    par = dict((p['d'], p['t']) for p in fn.params if p['t'].k == 'ptr' or p['t'].s == 'bool')
    for n in fn.walk():
        if n.k == 'assign' and strip(n.c(0)) is not None and strip(n.c(0)).k == 'var':
            par.pop(strip(n.c(0)).get('d'), None)
    vs = {}
    for i in ch:
        for a in fn.nodes[i].parents():
            c = a.child('cond') if a.k == 'if' else None
            for m in (c.walk() if c is not None else ()):
                if m.k == 'var' and m.get('d') in par:
                    vs.setdefault(m.get('d'), m)
    ev, out = AbsEval(fn, paths), []
    vs = [vs[d] for d in sorted(vs)][:3]
    for tv in itertools.product((True, False), repeat=len(vs)):
        env = {}
        if all(ev.refine(m, env, t) for m, t in zip(vs, tv)):
            out.append(env)
    return out


def job_restore(fn):
    paths = model.Paths(fn)
    W = []
    for n in fn.walk():
        w = write_of(paths, n)
        if w is not None:
            W.append((n, w[0], w[1]))
    if len(W) < 2:
        return [], 0
    saved, nset = {}, {}
    for n in fn.walk():
        if n.k == 'vardecl' and n.kids:
            for k in read_key(paths, n.kids[0]):
                saved.setdefault(n.get('d'), set()).add(k)
            nset[n.get('d')] = nset.get(n.get('d'), 0)
        elif n.k == 'assign' and strip(n.c(0)) is not None and strip(n.c(0)).k == 'var':
            d = strip(n.c(0)).get('d')
            ks = read_key(paths, n.c(1)) if n.op == '=' else []
            nset[d] = nset.get(d, 0) + (0 if ks else 1)
            for k in ks:
                saved.setdefault(d, set()).add(k)
        elif n.k == 'un' and n.op in ('++', '--', 'p++', 'p--') and n.c().k == 'var':
            nset[n.c().get('d')] = nset.get(n.c().get('d'), 0) + 1
    params = set(p['d'] for p in fn.params)
    out, cnt = [], 0
    restores = {}
    for n, k, v in W:
        x = strip(v)
        while x is not None and x.k == 'ctor' and len(x.args) == 1:
            x = strip(x.args[0])
        if x is not None and x.k == 'var' and x.get('d') not in params and holds(saved, x.get('d'), k) and not nset.get(x.get('d')):
            restores.setdefault(k, set()).add(n.i)
    for k, rs in restores.items():
        ch = set(n.i for n, kk, v in W if kk == k and n.i not in rs)
        if not ch:
            continue
        cnt += 1

        guards = set()
        for n in fn.walk():
            if n.k == 'if' and n.child('cond') is not None and n.child('then') is not None:
                vs = [m for m in n.child('cond').walk() if m.k in ('var', 'gvar', 'mem', 'call', 'this')]
                if vs and all(m.k == 'var' and holds(saved, m.get('d'), k) for m in vs) and \
                        any(m.i in rs for m in n.child('then').walk()):
                    guards.update(m.i for m in n.child('cond').walk())

        def on(n, env, ev):
            if n.i in guards:
                env.pop('CHANGED', None)
            if n.i in ch:
                env['CHANGED'] = TRUE
                env['AT'] = frozenset([n.i])
            elif n.i in rs:
                env.pop('CHANGED', None)
                env.pop('AT', None)
        res, ov = explore(fn, paths, [(fn.entry, 0, {})], on_elem=on)
        if ov:
            # too many paths from the function entry: from each change to the first point where it is put back
            ix, starts = elem_index(fn), []
            cis = [const_in(fn, paths, env0=e0) for e0 in splits(fn, paths, ch)]
            for i, ci in itertools.product(sorted(ch), cis):
                if i in ix and ix[i][0] in ci:
                    b, j = ix[i]
                    env = dict(ci.get(b, {}))
                    run_block(fn, AbsEval(fn, paths), fn.blocks[b], env, j + 1)
                    env['CHANGED'] = TRUE
                    starts.append((b, j + 1, env))
            res, ov = explore(fn, paths, starts, stop=lambda n, env, ev: frozenset(['BACK']) if n.i in rs or n.i in guards else None)
            res = [x for x in res if x[1] != frozenset(['BACK'])]
        if ov:
            out.append(('?', k, None, None))
            continue
        for r, v, env in res:
            if env.get('CHANGED') == TRUE and v != frozenset(['THROW']):
                out.append(('!', k, r.i if r is not None else None, sorted(rs)[0]))
                break
    return out, cnt


def ktext(k):
    return k[1].split(':')[-1] if k[0] == 'v' else '%s.%s' % (k[1].split(':')[-1], k[2])


def job(fn):
    return job_writes(fn), job_once(fn), job_restore(fn) if fn.blocks else ([], 0)


def run(prog, ctx):
    global P
    P = prog
    tab = {}
    for name, fns, why in read_table('c14_static.txt'):
        tab[name] = (set(fns.split()), why)
    used = set()
    B = baseline(P)
    fns = [f for f in P.fns if not thirdparty(f)]
    ctx.count('functions analysed', len(fns))
    for g in P.globals.values():
        if g.f and g.f[0] != '<' and '3rdparty' not in g.f and not g.cx and not g.t.c and not isstream(g.t):
            ctx.count('modifiable variables with static storage')
    for f, ((st, q), (once, no), (rst, nr)) in zip(fns, par.pmap(job, fns, 32)):
        for i, u in st:
            g = P.globals[u]
            nm = gname(g)
            ctx.count('modifications of static variables')
            row = tab.get(nm)
            if row is None and g.sl and g.fn is not None:
                # a static local which moved together with its code into a new helper
                for o in sorted(B.owners(f)):
                    row = row or tab.get(o + '::' + g.n)
            if row is not None and ('*' in row[0] or row[0] & B.owners(f)):
                used.add(nm)
                continue
            ctx.viol('static', f.q, nm, 'changes the variable %s, which has static storage duration%s' % (
                nm, ': it is shared by all objects and keeps its value between calls' if row is None else
                ', but is not one of the functions that maintain it'), fn=f, node=f.nodes.get(i), P=P)
        for i, kind, what, nm, txt in q:
            ctx.count('changes made by queries (const methods) examined')
            inst = ('%s %s %s' % (kind, what, nm)).strip()
            if ctx.excepted(P, 'c14_query.txt', f, inst) is not None:
                continue
            ctx.viol('query', f.q, inst, {
                'mutable': 'the const method changes the mutable member %s',
                'cast': 'casts the constness of a %s away and changes it',
                'ptr': 'the const method changes what its member %s refers to'}[kind] % what + ' (%s%s)' % (
                    txt, '.' + nm if nm and kind == 'ptr' else ''), fn=f, node=f.nodes.get(i), P=P)
        ctx.count('initialisers of static local variables', no)
        for i, nm, txt in once:
            if ctx.excepted(P, 'c14_once.txt', f, nm) is not None:
                continue
            ctx.viol('once', f.q, nm, 'the static variable %s gets its value from %s of the first call, for all later calls' % (nm, txt),
                     fn=f, node=f.nodes.get(i), P=P)
        ctx.count('settings saved and restored', nr)
        for flag, k, ri, ra in rst:
            if flag == '?':
                ctx.count('functions given up (too many paths)')
                continue
            inst = ktext(k)
            if ctx.excepted(P, 'c14_restore.txt', f, inst) is not None:
                continue
            r = f.nodes.get(ri) if ri is not None else None
            ctx.viol('restore', f.q, inst, 'the setting %s is changed and put back at line %d, but not when the function ends %s' % (
                inst, f.nodes[ra].l, 'at line %d' % r.l if r is not None else 'at its end'), fn=f, node=r, P=P)
    ctx.need('modifications of static variables', 40, 'modifications of static variables')
    ctx.need('changes made by queries (const methods) examined', 30, 'changes made by const methods')
    ctx.need('settings saved and restored', 8, 'settings saved and restored')
    ctx.explain.append(__doc__.replace('\n', ' '))

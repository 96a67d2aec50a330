"""C02: a diagnosed error is a reported error.

Obligation per error message (a string literal containing ' *** ' sent to a stream) in a function with a
status result: from the message on, every path returns one of the function's failure values."""
import re
import model
from rules.c01 import Tables, Prover, conv_of, is_failing, witness, fmt, push_up
from absval import AbsEval, explore, run_block, FALSE
from lib import graph, baseline, read_table
from par import pmap


NAMED = re.compile(r'(?!WARN)([A-Z]\w*(::[\w+=~-]+)*(\([^)]*\))?( const)?: |[A-Z]\w* exception )')


def oncerr(n):
    """Is this the first text sent to std::cerr by the statement?"""
    for p in n.parents():
        if p.k in ('call', 'bin') and (p.op == '<<' or p.name == 'operator<<'):
            return any(m.k in ('gvar', 'var', 'ref', 'mem') and (m.name or '').endswith('cerr') for m in (p.obj if p.k == 'call' and p.obj is not None else p.kids[0]).walk()) or \
                p.k == 'call' and any((m.name or '').endswith('cerr') for a in p.args[:1] for m in a.walk())
        if p.k not in ('cast', 'expr'):
            return False
    return False


def messages(fn):
    for n in fn.walk():
        if n.k == 'str' and (' *** ' in (n.get('v') or '') or (n.get('v') or '').startswith('*** ') or NAMED.match(n.get('v') or '')):
            if '***' not in n.get('v') and not oncerr(n):
                continue
            # the outermost << chain
            top = n
            ok = False
            for p in n.parents():
                if p.k == 'call' and p.callee is not None and p.callee.n == 'operator<<':
                    top = p
                    ok = True
                    break
                if p.k == 'call' and p.callee is None:
                    top, ok = p, True
                    break
                if p.k == 'bin' and p.op == '<<':
                    top, ok = p, True
                    break
                if p.k not in ('cast', 'bin'):
                    break
            if ok:
                yield n, top


def run(P, ctx):
    T = Tables(P)
    pr = Prover(P, T)
    graph(P)
    base = baseline(P)

    def job(fn):
        out = []
        for s, c in messages(fn):
            conv = conv_of(fn, T)
            if conv is None and not base.is_new(fn):
                out.append((s.i, 'na', None, ''))
                continue
            rv, ov, res = pr.explore_from(fn, c, None)
            if rv is None:
                out.append((s.i, 'nocfg', None, ''))
                continue
            if conv is not None and is_failing(rv, conv):
                out.append((s.i, 'ok', None, ''))
                continue
            if base.is_new(fn):
                r = push_up(pr, fn, rv, res, 0)
                if r is not None and r[0] != 'bad':
                    out.append((s.i, 'ok', None, ''))
                    continue
            w = witness(fn, res, conv)
            out.append((s.i, 'bad', w.l if w is not None else None, fmt(rv)))
        return out

    fns = [f for f in P.fns if f.blocks]
    for fn, rs in zip(fns, pmap(job, fns, 4)):
        for i, v, wl, d in rs:
            s = fn.nodes[i]
            txt = ' '.join((s.get('v') or '').split())[:60]
            ctx.count('error messages found')
            if v in ('na', 'nocfg'):
                ctx.count('error messages in functions without a status result (%s)' % v)
                continue
            ctx.count('error messages checked')
            if v == 'ok':
                ctx.count('error messages after which every path returns failure')
                continue
            if ctx.excepted(P, 'c02_allow.txt', fn, txt[:40].strip()) is not None:
                ctx.count('error messages excepted by cfg/c02_allow.txt')
                continue
            ctx.viol('diagnosed-not-reported', fn.q, txt, 'after the error message "%s" the function may return %s%s' %
                     (txt, d, ' (return on line %d)' % wl if wl else ''), fn=fn, node=s, P=P)
    ctx.need('error messages after which every path returns failure', 150, 'error messages')
    ext_rule(P, ctx, T, pr, base)
    stream_rule(P, ctx, T, pr, base)
    read_rule(P, ctx, T, pr, base)
    ctx.need('extractions whose failure is reported', 20, 'extractions')
    ctx.explain.append(
        'Rule 1: from every error message (string literal starting with " *** " sent to a stream) in a function '
        'with a status result, all CFG paths (disjunctive constant propagation) return a failure value. '
        'Rule 2: for every call of a library routine with an error status (cfg/c02_ext.txt: LAPACK, SuperLU, '
        'UMFPACK, ARPACK, HDF5, stdio) the status is assumed to signal an error and all paths return failure.')


def ext_rule(P, ctx, T, pr, base):
    tab = {}
    for r in read_table('c02_ext.txt'):
        tab[r[0]] = (r[1], frozenset(0 if x == '0' else x for x in r[2].split()))

    def job(fn):
        out = []
        for n in fn.walk():
            if n.k != 'call' or n.callee is None or n.callee.q not in tab:
                continue
            where, vals = tab[n.callee.q]
            if where == 'arg' and any(a.k == 'int' and a.get('v') == -1 or a.k == 'un' and a.op == '-' and
                                      a.c().k == 'int' and a.c().get('v') == 1 for a in
                                      [x.c() if x.k == 'cast' else x for x in n.args]):
                continue  # work space query
            conv = conv_of(fn, T)
            if conv is None and not base.is_new(fn):
                out.append((n.i, 'void', None, ''))
                continue
            paths, ix = pr.px(fn)
            ev = AbsEval(fn, paths)
            verdict, wl, det = 'ok', None, ''
            for v in vals:
                v = frozenset([v])
                if where == 'ret':
                    rv, ov, res = pr.explore_from(fn, n, v)
                else:
                    if not n.args:
                        continue
                    a = n.args[-1]
                    while a.k == 'cast' or (a.k == 'un' and a.op == '&'):
                        a = a.c()
                    key = ev.trackable(a) if where == 'arg' else ('a%d[0]' % a.get('d') if a.k == 'var' else None)
                    if key is None:
                        verdict, det = 'bad', 'its status is discarded'
                        break
                    rv, ov, res = pr.explore_from(fn, n, None, {key: v})
                if rv is None:
                    verdict = 'nocfg'
                    break
                if conv is not None and is_failing(rv, conv):
                    continue
                if base.is_new(fn):
                    r = push_up(pr, fn, rv, res, 0)
                    if r is not None and r[0] == 'prop':
                        continue
                w = witness(fn, res, conv) if conv is not None else None
                verdict, wl, det = 'bad', w.l if w is not None else None, 'the function may return ' + fmt(rv)
                break
            out.append((n.i, verdict, wl, det))
        return out

    fns = [f for f in P.fns if f.blocks]
    for fn, rs in zip(fns, pmap(job, fns, 4)):
        for i, v, wl, d in rs:
            n = fn.nodes[i]
            nm = n.callee.q
            for a in n.args:
                while a.k == 'cast' and a.kids:
                    a = a.c()
                if a.k == 'str' and tab[nm][0] == 'ret':
                    nm += ' "%s"' % a.get('v')
                    break
            ctx.count('library status results checked')
            if v == 'ok':
                ctx.count('library status results reported as failure')
                continue
            if ctx.excepted(P, 'c02_allow.txt', fn, nm) is not None:
                ctx.count('library status results excepted')
                continue
            ctx.viol('library-error-dropped', fn.q, nm, 'a failure of %s is not reported: %s%s' %
                     (nm, d if v == 'bad' else 'the function has no status result',
                      ' (return on line %d)' % wl if wl else ''), fn=fn, node=n, P=P)
    ctx.need('library status results reported as failure', 15, 'library status results')


BADTEST = {'good': 0, 'is_open': 0, 'operator bool': 0, 'operator!': 1, 'fail': 1, 'bad': 1, 'eof': None}


def stream_rule(P, ctx, T, pr, base):
    def job(fn):
        out = []
        for n in fn.walk():
            if n.k != 'vardecl' or n.t is None or n.t.k != 'rec' or 'ifstream' not in n.t.s:
                continue
            if not any(m.k == 'ctor' and m.args for m in n.walk()):
                continue
            conv = conv_of(fn, T)
            if conv is None and not base.is_new(fn):
                out.append((n.i, 'void', None, ''))
                continue
            d = n.get('d')

            def cr(ev, c, env):
                o = c.obj
                if o is None and c.args:
                    o = c.args[0]
                while o is not None and o.k == 'cast' and o.kids:
                    o = o.c()
                if o is not None and o.k == 'var' and o.get('d') == d:
                    nm = c.callee.n if c.callee is not None else (c.child('f').name if c.child('f') else None)
                    v = BADTEST.get(nm)
                    if v is not None:
                        return frozenset([v])
                    if nm in ('operator>>', 'getline'):
                        return None
                return pr.callret(ev, c, env)
            paths, ix = pr.px(fn)
            if n.i not in ix:
                out.append((n.i, 'nocfg', None, ''))
                continue
            b, i = ix[n.i]
            env = dict(pr._ci[fn].get(b, {}))
            run_block(fn, AbsEval(fn, paths, callret=cr), fn.blocks[b], env, i + 1)
            res, ov = explore(fn, paths, [(b, i + 1, env)], callret=cr)
            vals = set()
            for m, v, e in res:
                vals |= set(v)
            vals.discard('THROW')
            if conv is not None and is_failing(vals, conv):
                out.append((n.i, 'ok', None, ''))
                continue
            if base.is_new(fn):
                r = push_up(pr, fn, vals, res, 0)
                if r is not None and r[0] == 'prop':
                    out.append((n.i, 'ok', None, ''))
                    continue
            w = witness(fn, res, conv) if conv is not None else None
            out.append((n.i, 'bad', w.l if w is not None else None, fmt(vals)))
        return out

    fns = [f for f in P.fns if f.blocks]
    for fn, rs in zip(fns, pmap(job, fns, 4)):
        for i, v, wl, d in rs:
            n = fn.nodes[i]
            nm = 'ifstream ' + (fn.locals[n.get('d')]['n'])
            if v == 'void':
                ctx.count('input file streams in functions without status result (no obligation)')
                continue
            ctx.count('input file streams checked')
            if v == 'ok':
                ctx.count('input file streams whose failure to open is reported')
                continue
            if ctx.excepted(P, 'c02_allow.txt', fn, nm) is not None:
                ctx.count('input file streams excepted')
                continue
            ctx.viol('unopened-file', fn.q, nm, 'a file that cannot be opened is not reported: the function may '
                     'return ' + d + (' (return on line %d)' % wl if wl else ''), fn=fn, node=n, P=P)
    ctx.need('input file streams whose failure to open is reported', 2, 'input file streams')


READS = frozenset(['operator>>', 'read', 'getline', 'get'])


def rootvar(e):
    """The stream variable of a chain of extractions."""
    while e is not None:
        if e.k == 'cast' and e.kids:
            e = e.c()
        elif e.k == 'call' and e.callee is not None and e.callee.n in READS and (e.obj is not None or e.args):
            e = e.obj if e.obj is not None else e.args[0]
        else:
            return e if e.k == 'var' else None
    return None


def extraction(n):
    return n.k == 'call' and n.callee is not None and n.callee.n in READS and rootvar(n) is not None


def read_rule(P, ctx, T, pr, base):
    """Every path from a failed extraction (from a stream parameter or an input file) tests the stream or returns failure."""
    def job(fn):
        out = []
        S = {}
        for n in fn.walk():
            if extraction(n):
                v = rootvar(n)
                if n.callee.n == 'getline':         # the rest of a line
                    continue
                t = fn.locals[v.get('d')]['t']
                if v.get('cap') or t is None or 'istream' not in t.s and 'ifstream' not in t.s or 'string' in t.s.split('<')[0]:
                    continue
                S.setdefault(v.get('d'), []).append(n)
            elif n.k == 'call' and n.callee is not None and n.callee.u in P.lam_by_usr:
                lam = P.lam_by_usr[n.callee.u]
                if any(m.k == 'call' and m.callee is not None and m.callee.n in BADTEST for m in lam.walk()):
                    continue
                for m in lam.walk():
                    if extraction(m) and rootvar(m).get('cap'):
                        for d, l in enumerate(fn.locals):
                            if l['n'] == rootvar(m).name and l['t'] is not None and ('istream' in l['t'].s or 'ifstream' in l['t'].s):
                                S.setdefault(d, []).append(n)
        if not S:
            return out
        conv = conv_of(fn, T)
        if conv is None or base.is_new(fn):
            return out
        paths, ix = pr.px(fn)
        for d, ns in sorted(S.items()):
            done = set()

            def cr(ev, c, env):
                v = rootvar(c.obj if c.obj is not None else c.args[0] if c.args else None) if c.obj is not None or c.args else None
                if v is not None and v.get('d') == d:
                    nm = c.callee.n if c.callee is not None else (c.child('f').name if c.child('f') else None)
                    r = BADTEST.get(nm)
                    if nm in BADTEST:
                        env['#tested'] = FALSE
                    if r is not None:
                        return frozenset([r])
                    if nm in READS:
                        return None
                return pr.callret(ev, c, env)
            for n in ns:
                p = n
                while p.p is not None and (p.p.k == 'cast' or extraction(p.p) and rootvar(p.p).get('d') == d):
                    p = p.p
                if p.i in done or p.i not in ix:
                    continue
                done.add(p.i)
                q, r = p, p.p
                while r is not None and (r.k in ('cast', 'bin', 'un', 'expr') or r.k == 'call' and r.callee is not None and r.callee.n in BADTEST):
                    q, r = r, r.p
                if r is not None and r.k in ('while', 'for', 'do') and q.role == 'cond':
                    out.append((p.i, 'loop', None, ''))
                    continue
                b, i = ix[p.i]
                env = dict(pr._ci[fn].get(b, {}))
                run_block(fn, AbsEval(fn, paths, callret=cr), fn.blocks[b], env, i + 1)
                res, ov = explore(fn, paths, [(b, i + 1, env)], callret=cr)
                vals = set()
                res = [x for x in res if '#tested' not in x[2]]
                for m, v, e in res:
                    vals |= set(v)
                vals.discard('THROW')
                if is_failing(vals, conv):
                    out.append((p.i, 'ok', None, ''))
                    continue
                w = witness(fn, res, conv)
                out.append((p.i, 'bad', w.l if w is not None else None, fmt(vals)))
        return out

    fns = [f for f in P.fns if f.blocks and '3rdparty' not in f.file]
    for fn, rs in zip(fns, pmap(job, fns, 4)):
        for i, v, wl, d in rs:
            n = fn.nodes[i]
            nm = 'read ' + (rootvar(n).name if rootvar(n) is not None else n.callee.q.split('::')[-1])
            if v == 'loop':
                ctx.count('extractions until the end of the input (no obligation)')
                continue
            ctx.count('extractions checked')
            if v == 'ok':
                ctx.count('extractions whose failure is reported')
                continue
            if ctx.excepted(P, 'c02_allow.txt', fn, 'read') is not None:
                ctx.count('extractions excepted')
                continue
            ctx.viol('failed-read', fn.q, nm, 'a failed read is not reported: the function may return ' + d +
                     (' (return on line %d)' % wl if wl else ''), fn=fn, node=n, P=P)

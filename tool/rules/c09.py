"""C09: no part of an object's state is left behind.

Rule 1 (reset): an operation that clears, (re)initialises, resizes, restores, advances, corrects or extends an object sets every
member that belongs to the state it changes (the obligations method | member in cfg/c09_reset.txt), on every path on which it
does not report failure; where the operation starts over (reset), nothing of the old contents is kept: resizing without
clearing, appending and compound assignments do not count. All paths are explored with disjunctive constant propagation, through helpers, base class
versions, lambdas, aliases (references, iterators, range loops) and standard algorithms; replacing the contents in any way
(assignment, clear, resize, swap, fill, a loop over the elements, *this = ...) counts. A loop that sets the elements has to
cover all of them."""
import rules.c08 as c08
from lib import read_table


def run(P, ctx):
    c08.P = P
    c08._px.clear()
    M = c08.Must()
    byq = {}
    for f in P.fns:
        if not f.lam and (f.body is not None or f.blocks) and f.decl.rec:
            byq.setdefault(f.q, []).append(f)
    meth = set()
    for q, mem, op, cnt in read_table('c09_reset.txt'):
        fns = byq.get(q, [])
        if not fns:
            ctx.count('listed operations that no longer exist')
            continue
        recs = set(f.decl.rec for f in fns)
        if not any(mem in fields(P, r) for r in recs):
            ctx.count('listed members that no longer exist')
            continue
        meth.add(q)
        ctx.count('members to be set by an operation that starts over')
        res = [(f, M.holds(f, mem, '=' + op, f.decl.rec)) for f in fns]
        if any(r is None for f, (r, n) in res):
            ctx.count('obligations given up (too many paths)')
            continue
        good = [f for f, (r, n) in res if r]
        ctx.sample('members set by the operation', '%s: %s %s' % (q, op, mem))
        if len(good) < int(cnt):
            for f, (r, n) in [x for x in res if not x[1][0]][:int(cnt) - len(good)] or [(fns[0], (False, None))]:
                if ctx.excepted(P, 'c09_allow.txt', f, mem) is not None:
                    continue
                ctx.viol('reset', q, mem, '%s is not %s on every path that does not report failure%s%s' % (
                    mem, 'set' if op == 'set' else 'replaced', ': what it held before stays', ', e.g. not when returning at line %d' % n.l if n is not None else ''), fn=f, node=n, P=P)
    ctx.count('operations that start over', len(meth))
    ctx.need('members to be set by an operation that starts over', 250, 'listed members')
    ctx.explain.append(__doc__.replace('\n', ' '))


def fields(P, r):
    out = set()
    for b in [r] + sorted(P.all_bases(r)):
        R = P.records.get(b)
        if R:
            out |= set(x['n'] for x in R.fields if x['n'])
    return out

"""C21: real numbers keep their value: they are not truncated, wrapped or narrowed on the way.

Rule 1 (truncated): a real value is not converted to an integer (initialisation, assignment, argument, return value or cast)
unless it was rounded on purpose (floor, ceil, round, ...) or is the size of something.
Rule 2 (quotient): the quotient of two integers is not used as a real number.
Rule 3 (unsigned): a difference of unsigned numbers, or a negated one, is not used as a real number.
Rule 4 (read): a real quantity is not read from text as an integer, and sums of reals are not accumulated in an integer.
Rule 5 (narrowed): a double is not stored in a float implicitly, and an integer absolute value is not taken of a real number.
Decided for every expression of the type-checked program."""
import par
from model import expr_str
from zone import strip

ROUND = frozenset(['floor', 'ceil', 'round', 'rint', 'nearbyint', 'trunc', 'lround', 'lrint', 'llround', 'llrint'])
PARSE = frozenset(['atoi', 'atol', 'stoi', 'stol', 'strtol', 'stoul', 'strtoul'])
SINGLE = frozenset(['VTF', 'ElementBlock'])
P = None


def base(t):
    t = t.deref() if t is not None else None
    return t


def real(t):
    t = base(t)
    return t is not None and (t.k in ('float', 'double') or t.s.replace('const ', '') in ('double', 'float', 'long double', 'Real'))


def single(t):
    t = base(t)
    return t is not None and t.s.replace('const ', '') == 'float'


def integer(t):
    t = base(t)
    return t is not None and t.k in ('int', 'char')


def uns(t):
    t = base(t)
    return t is not None and t.k == 'int' and (t.u or t.s.replace('const ', '').startswith('unsigned') or
                                               t.s.replace('const ', '') in ('size_t', 'std::size_t'))


def rounded(e):
    """Is the real value a whole number on purpose?"""
    e = strip(e)
    if e is None:
        return True
    if e.k == 'call' and e.callee is not None:
        if e.callee.n in ROUND:
            return True
        if e.callee.n in ('sqrt', 'cbrt') and e.args and integer(strip(e.args[0]).t):
            return True     # the dimension of a square array
        if e.callee.n in ('max', 'min', 'fmax', 'fmin', 'abs', 'fabs'):
            return all(rounded(a) for a in e.args)
    if e.k == 'float':
        try:
            return float(e.get('v')) == int(float(e.get('v')))
        except (ValueError, OverflowError):
            return False
    if e.k in ('bin',) and e.op in ('+', '-', '*'):
        return all(rounded(k) or integer(strip(k).t) for k in e.kids)
    if e.k == 'un':
        return rounded(e.c())
    if e.k == 'cond':
        return all(rounded(k) or integer(strip(k).t) for k in e.kids[1:])
    return integer(e.t)


def what(n):
    """How the value of a node is used."""
    p = n.p
    while p is not None and p.k == 'expr':
        p = p.p
    if p is None:
        return 'used', 'used'
    if p.k == 'assign':
        return 'assigned to %s' % expr_str(p.c(0)), 'assigned'
    if p.k == 'vardecl':
        return 'the initial value of %s' % p.name, 'initial value'
    if p.k == 'return':
        return 'returned', 'returned'
    if p.k in ('call', 'ctor') and p.callee is not None:
        return 'passed to %s' % p.callee.q, 'passed to %s' % p.callee.n
    if p.k == 'bin':
        return 'an operand of %s' % expr_str(p), 'operand'
    return 'used here', 'used'


def conversions(n):
    """(kind, from expression, to type) of the arithmetic conversions applied to the value of a node."""
    for k in () if n.p is not None and n.p.k == 'cast' and real(n.p.t) != real(n.t) else n.get('ic') or ():
        if k in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'FloatingToBoolean'):
            yield k, n
    if n.k == 'cast' and n.kids and n.c() is not None:
        if integer(n.t) and real(n.c().t):
            yield 'FloatingToIntegral', n.c()
        elif real(n.t) and integer(n.c().t):
            yield 'IntegralToFloating', n.c()
    elif n.k == 'assign' and n.op in ('+=', '-=', '*=', '/=') and integer(n.c(0).t) and real(n.c(1).t):
        yield 'FloatingToIntegral', n.c(1)
    elif n.k == 'assign' and n.op in ('+=', '-=', '*=', '/=') and real(n.c(0).t) and integer(n.c(1).t) and not n.c(1).get('ic'):
        yield 'IntegralToFloating', n.c(1)


def parts(e, cast=True):
    """The operands of integer arithmetic that make up the value of e (not arguments and indices)."""
    e = strip(e) if cast else e
    if e is None:
        return
    yield e
    if e.k in ('bin',) and e.op in ('+', '-', '*', '/', '%') or e.k == 'un' and e.op in ('-', '+'):
        for c in e.kids:
            for x in parts(c):
                yield x
    elif e.k == 'cond':
        for c in e.kids[1:]:
            for x in parts(c):
                yield x


def job(fn):
    out, cnt = [], {}

    def c(k):
        cnt[k] = cnt.get(k, 0) + 1

    def rep(rule, n, inst, msg):
        out.append((rule, n.i, inst, msg))
    for n in fn.walk():
        for k, e in conversions(n):
            w, wi = what(e)
            if k == 'FloatingToIntegral':
                c('conversions of reals to integers')
                if not rounded(e):
                    rep('truncated', n, 'truncated %s' % ('cast' if n.k == 'cast' and e is n.c() else wi), 'the real value %s is %s as an integer '
                        'and loses its fraction' % (expr_str(e), w))
            elif k == 'FloatingCast':
                c('conversions between precisions')
                if single(n.get('_it')) and not single(e.t) and strip(e).k != 'float':
                    rep('narrowed', n, 'narrowed', 'the double %s is %s as a float' % (expr_str(e), w))
                elif single(e.t) and not single(n.get('_it')):
                    c('single precision numbers used as double ones')
                    if strip(e).k in ('var', 'mem', 'idx', 'call') and fn.decl.rec not in SINGLE:
                        rep('narrowed', n, 'single', 'the value %s that is %s as a double was kept as a float only' % (expr_str(e), w))
            elif k == 'IntegralToFloating':
                c('integers used as reals')
                for m in parts(e):
                    if m.k == 'bin' and m.op == '/' and integer(m.kids[0].t) and integer(m.kids[1].t):
                        rep('quotient', m, 'quotient', 'the integer quotient %s is %s as a real number: its fraction is lost' % (
                            expr_str(m), w))
                    elif m.k == 'bin' and m.op == '-' and uns(m.t) and not (strip(m.kids[0]).k == 'int' and strip(m.kids[1]).k == 'int'):
                        rep('unsigned', m, 'difference', 'the unsigned difference %s is %s as a real number: it is huge where the '
                            'result should be negative' % (expr_str(m), w))
                    elif m.k == 'un' and m.op == '-' and uns(m.t) and strip(m.c()).k != 'int':
                        rep('unsigned', m, 'negated', 'the negated unsigned number %s is %s as a real number' % (expr_str(m), w))
                    elif m.k == 'call' and m.callee is not None and m.callee.n in PARSE:
                        rep('read', m, 'read', '%s reads a number that is %s as a real number: its fraction is not read' % (expr_str(m), w))
        if n.k == 'call' and n.callee is not None:
            f = n.callee
            if f.n == 'abs' and n.args and f.p and integer(f.p[0]) and real(n.args[0].t):
                rep('narrowed', n, 'abs', 'the integer function abs is used for the real number %s' % expr_str(n.args[0]))
            if f.n in ('accumulate', 'inner_product', 'reduce') and f.q.startswith('std::') and len(n.args) >= 3:
                i = n.args[3 if f.n == 'inner_product' and len(n.args) > 3 else 2]
                it = n.args[0].t
                s = it.s + ' ' + (it.r or '') if it is not None else ''
                c('sums over containers')
                if integer(i.t) and ('double' in s or 'float' in s) and len(n.args) <= (4 if f.n == 'inner_product' else 3):
                    rep('read', n, 'sum', 'the sum of reals %s is accumulated in an integer, because its initial value is one' % expr_str(n)[:60])
    return out, cnt


def run(prog, ctx):
    global P
    P = prog
    fns = [f for f in P.fns if '3rdparty' not in f.file and not f.file.startswith('/')]
    seen = set()
    for f, (out, cnt) in zip(fns, par.pmap(job, fns, 16)):
        for k, v in cnt.items():
            ctx.count(k, v)
        for rule, i, inst, msg in out:
            if (f, i, rule) in seen:
                continue
            seen.add((f, i, rule))
            if ctx.excepted(P, 'c21_allow.txt', f, inst) is not None:
                ctx.count('conversions on purpose (cfg/c21_allow.txt)')
                continue
            ctx.viol(rule, f.q, inst, msg, fn=f, node=f.nodes.get(i), P=P)
    ctx.need('integers used as reals', 300, 'integers used as reals')
    ctx.need('conversions of reals to integers', 18, 'conversions of reals to integers')
    ctx.explain.append(__doc__.replace('\n', ' '))

"""Plain (path-insensitive) forward/backward dataflow over the CFG, and the facts implied by branch conditions."""

BR = ('IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'BinaryOperator', 'ConditionalOperator', 'CXXForRangeStmt')


def implied(c, tv):
    """Atomic (condition, truth value) facts that hold when condition c evaluates to tv."""
    while c is not None and (c.k == 'cast' and c.kids or c.k == 'un' and c.op == '!'):
        if c.k == 'un':
            tv = not tv
        c = c.c()
    if c is None:
        return []
    if c.k == 'bin' and c.op in ('&&', '||') and len(c.kids) == 2:
        if (c.op == '&&') == tv:
            return implied(c.kids[0], tv) + implied(c.kids[1], tv)
        return []
    return [(c, tv)]


def isnull(e):
    while e is not None and e.k == 'cast' and e.kids:
        e = e.c()
    return e is not None and (e.k in ('null_p', 'zinit') or e.k == 'int' and not e.get('v'))


def nulltest(c, tv):
    """(pointer expression, is_null) when the atomic fact tests a pointer, else None."""
    if c.k == 'bin' and c.op in ('==', '!='):
        a, b = c.kids
        if isnull(b):
            return a, (c.op == '==') == tv
        if isnull(a):
            return b, (c.op == '==') == tv
        return None
    if c.k == 'vardecl':
        return c, not tv
    return c, not tv


def forward(fn, init, transfer, edge=None, join=lambda a, b: a | b, limit=50000):
    """Returns {block id: state at entry}; transfer(node, state) -> state for every evaluated node in order,
    edge(condition node, truth, state) -> state or None when the edge is impossible."""
    ins = {fn.entry: init}
    work = [fn.entry]
    n = 0
    while work:
        b = work.pop()
        n += 1
        if n > limit:
            break
        s = through(fn, fn.blocks[b], ins[b], transfer)
        for t, st in outs(fn, fn.blocks[b], s, edge):
            if t not in ins:
                ins[t] = st
                work.append(t)
            else:
                j = join(ins[t], st)
                if j != ins[t]:
                    ins[t] = j
                    work.append(t)
    return ins


def elems(fn, B):
    es = [e for e in B.elems if isinstance(e, int)]
    last = {e: i for i, e in enumerate(es)}         # the member expression of a call carries the number of the call
    for i, e in enumerate(es):
        if last[e] != i:
            continue
        n = fn.nodes.get(e)
        if n is not None:
            yield n


def through(fn, B, s, transfer, upto=None):
    for n in elems(fn, B):
        if n is upto:
            return s
        s = transfer(n, s)
    return s


def outs(fn, B, s, edge=None):
    if B.noret:
        return
    c = fn.nodes.get(B.tcond) if B.tcond is not None and len(B.succs) == 2 and B.tk in BR else None
    for i, t in enumerate(B.succs):
        if t is None:
            continue
        st = s
        if c is not None and edge is not None:
            st = edge(c, i == 0, s)
            q = last(c)
            if st is not None and q is not c:
                st = edge(q, i == 0, st)    # the operands before the last one were decided in the blocks before
            if st is None:
                continue
        yield t, st


def last(c):
    """The operand that is evaluated in the block that c terminates."""
    x = c
    while x is not None and (x.k == 'cast' and x.kids or x.k == 'bin' and x.op in ('&&', '||') and len(x.kids) == 2):
        x = x.c() if x.k == 'cast' else x.kids[1]
    return c if x is None or x is c or x.k == 'un' and x.op == '!' and x.c().k == 'bin' and x.c().op in ('&&', '||') else x


def at(fn, ins, node, index, transfer):
    """State just before the given node (index = elem_index(fn))."""
    b, i = index[node.i]
    if b not in ins:
        return None
    return through(fn, fn.blocks[b], ins[b], transfer, node)


def notself(c, tv, s):
    """Edge function that drops the paths on which an object under construction is compared equal to another one."""
    def st(e):
        while e is not None and e.k == 'cast' and e.kids:
            e = e.c()
        return e
    for a, t in implied(c, tv):
        if a.k == 'bin' and a.op in ('==', '!='):
            x, y = st(a.kids[0]), st(a.kids[1])
            if x is not None and y is not None and {x.k, y.k} == {'this', 'un'} and (a.op == '==') == t:
                return None
    return s

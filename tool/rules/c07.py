"""C07: what is saved for restart is what is restored.

Every writer/reader of a string-keyed restart container is executed abstractly into a script of archive events
(keys, the data members archived under them in order, and the objects the operation is forwarded to); helpers are
inlined and local aliases resolved, so the script does not depend on how the code is arranged. The scripts of each
save/restore pair are then compared."""
import model
from lib import baseline

PAIRS = (('serialize', 'deSerialize'), ('save', 'restore'))
STRIP = ('getPtr', 'ptr', 'data', 'vec', 'get', 'c_str')


def ismap(t):
    if t is None:
        return False
    s = t.deref().s if t.k in ('ref', 'rref') else t.s
    s = s.replace('const ', '')
    return s.startswith('std::map<std::basic_string<char') and s.count('basic_string') >= 2 or \
        s in ('std::map<std::string, std::string>', 'HDF5Restart::SerializeData', 'SerializeMap')


def isconst(t):
    return bool(t.deref().c if t.k in ('ref', 'rref') else t.c)


def mate(name):
    for w, r in PAIRS:
        if name == w:
            return r
        if w == 'save' and name.startswith('save'):
            return 'restore' + name[4:]
    return None


class Script(object):
    def __init__(self):
        self.ev = []        # ('w'|'r', key, node, fn, optional) and ('fwd', receiver, op, node, fn)
        self.streams = {}   # '@ws:n' -> items
        self.reads = {}     # key -> items
        self.at = []        # (node in the function itself, member restored)
        self.payload = {}   # key -> stream token or None


class Interp(object):
    def __init__(self, P):
        self.P = P
        self.n = 0

    def script(self, fn):
        self.S = Script()
        env = {}
        for i, p in enumerate(fn.params):
            t = p['t'] if isinstance(p.get('t'), model.Type) else fn.decl.p[i] if i < len(fn.decl.p) else None
            env[p['d']] = '@map' if ismap(t) else '%' + p['n']
        self.run(fn, env, 'this', [fn], False)
        return self.S

    # -- expressions
    def canon(self, n, env, this, depth=0):
        c = lambda x: self.canon(x, env, this, depth)
        if n is None or depth > 12:
            return '?'
        k = n.k
        if k == 'defarg':
            return c(n.c()) if n.kids else '#%s' % n.get('v') if n.get('v') is not None else '#0'
        if k in ('cast', 'paren', 'temp'):
            return c(n.c()) if n.kids else '?'
        if k == 'this':
            return this
        if k == 'var':
            v = env.get(n.get('d'))
            return v if v is not None else '%' + n.name
        if k == 'gvar':
            return '::' + n.name
        if k == 'mem':
            b = c(n.c()) if n.kids else this
            if b.startswith('@iter:') and n.name in ('second', 'first'):
                return '@val:' + b[6:] if n.name == 'second' else '?'
            return ('%' if b.startswith('@') else '') + b + '.' + n.name
        if k == 'str':
            return '"' + (n.get('v') or '')
        if k in ('int', 'bool', 'float', 'char', 'enum'):
            return '#%s' % (n.get('v') if k != 'enum' else n.name)
        if k == 'un':
            if n.op in ('*', '&'):
                return c(n.c())
            return n.op + c(n.c())
        if k == 'idx':
            return c(n.c(0)) + self.index(c(n.c(1)))
        if k == 'bin':
            a, b = c(n.c(0)), c(n.c(1))
            if n.op == '+' and (a.startswith('"') or b.startswith('"') or '<name>' in a):
                return '"' + a.lstrip('"') + b.lstrip('"')
            return '(%s%s%s)' % (a, n.op, b)
        if k in ('ctor', 'initlist', 'fcast'):
            args = [a for a in n.args if a.k != 'defarg'] if k == 'ctor' else list(n.kids)
            if len(args) == 1:
                return c(args[0])
            return '?'
        if k == 'call':
            o = n.obj
            f = n.child('f')
            if n.name == 'getName':
                return '<name>'
            if n.name == 'to_string':
                return '@text'
            if n.op == '+' and len(n.args) + (o is not None) == 2:
                a, b = [c(x) for x in ([o] if o is not None else []) + list(n.args)]
                return '"' + a.lstrip('"') + b.lstrip('"')
            if n.op == '[]':
                return c(o) + self.index(c(n.args[0]))
            if n.op in ('*', '->') and o is not None:
                return c(o)
            if o is None and f is not None and f.k == 'mem':
                o = f.c() if f.kids else None
            name = n.name or (f.name if f is not None else '')
            ob = c(o) if o is not None else None
            if ob is not None:
                if ob == '@map' and name == 'find' and n.args:
                    return '@iter:' + self.key(n.args[0], env, this)
                if ob == '@map' and name in ('at',) and n.args:
                    return '@val:' + self.key(n.args[0], env, this)
                if name == 'str' and ob.startswith('@ws:'):
                    return ob
                if name == 'front':
                    return ob + '[0]'
                if name == 'at' and n.args:
                    return ob + self.index(c(n.args[0]))
                if name in ('begin', 'cbegin', 'end', 'cend', 'back'):
                    return ob + '[]'
                if name in STRIP and not n.args or name == 'c_str':
                    return ob
            ce = n.callee
            cf = self.P.by_usr.get(ce.u) if ce is not None else None
            if cf is not None and cf.body is not None and len(n.args) == len(cf.params) and ce.in_repo():
                st = [x for x in cf.body.kids if x is not None]
                av = [c(a) for a in n.args]
                if len(st) == 1 and st[0].k == 'return' and st[0].kids and not any(a.startswith('@') for a in av):
                    e2 = dict((p['d'], a) for p, a in zip(cf.params, av))
                    r = self.canon(st[0].c(), e2, ob if ob is not None else this, depth + 1)
                    if r.startswith((ob or this) + '.') and '(' not in r:
                        return r
            r = self.inline(n, env, this, False)
            if r is not None:
                return r
            return ('%' if ob and ob.startswith('@') else '') + '%s%s(%s)' % (ob + '.' if ob else '', name, ','.join(c(a) for a in n.args if a.k != 'defarg'))
        return '?'

    @staticmethod
    def index(i):
        return '[%s]' % i[1:] if i.startswith('#') else '[]'

    def key(self, n, env, this):
        k = self.canon(n, env, this)
        return k.lstrip('"').replace('%name', '<name>')

    # -- calls that touch the container, a stream or an archive
    def inline(self, n, env, this, opt):
        """Runs a called function on the current script; None when the call is irrelevant or not inlinable."""
        key = (n.fn, n.i, id(env))
        if key in self.memo:
            return self.memo[key]
        args = [self.canon(a, env, this) if a.k != 'lambda' else '?' for a in n.args]
        if not any(a.startswith('@') for a in args) and not self.returns_string(n):
            return None
        ce = n.callee
        o = n.obj
        f = n.child('f')
        if o is None and f is not None and f.k == 'mem':
            o = f.c() if f.kids else None
        ob = self.canon(o, env, this) if o is not None else None
        cf = None
        if ce is not None:
            cf = self.P.by_usr.get(ce.u) or (self.P.by_usr.get(ce.pat) if ce.pat else None)
        if cf is not None and cf.body is None:
            cf = None
        name = n.name or (f.name if f is not None else '')
        if '@map' in args and (cf is None or ob is not None and ob != this):
            if name not in ('find', 'insert', 'end', 'operator=='):
                self.memo[key] = '?'
                rec = self.recname(o)
                self.S.ev.append(('fwd', ob or '', name, n, self.stack[-1], opt))
                return '?'
            return None
        if cf is None or cf in self.stack or len(self.stack) > 6:
            return None
        e2 = {}
        for p, a in zip(cf.params, args):
            e2[p['d']] = a
        if len(self.stack) == 1:
            self.top = n
        self.memo[key] = r = self.run(cf, e2, ob if ob is not None else this, self.stack + [cf], opt)
        return r

    def recname(self, o):
        return o.t.deref().r if o is not None and o.t is not None else None

    def returns_string(self, n):
        ce = n.callee
        return ce is not None and ce.in_repo() and ce.r is not None and 'basic_string' in (ce.r.s or '')

    # -- statements
    def run(self, fn, env, this, stack, opt):
        save = getattr(self, 'stack', None), getattr(self, 'memo', None)
        self.stack, self.memo = stack, {} if save[1] is None or len(stack) == 1 else save[1]
        self.ret = None
        ret = [None]
        self.stmt(fn, fn.body, env, this, opt, ret)
        if save[0] is not None and len(stack) > 1:
            self.stack, self.memo = save
        return ret[0] if ret[0] is not None else '?'

    def stmt(self, fn, n, env, this, opt, ret):
        if n is None or n.k == 'lambda':
            return
        k = n.k
        if k == 'if':
            cond = n.child('cond')
            for x in n.kids:
                if x is not None and x.role not in ('then', 'else'):
                    self.stmt(fn, x, env, this, opt, ret)
            st = cond is not None and any(y.k in ('call',) and self.touches(y, env, this) for y in cond.walk())
            for r in ('then', 'else'):
                x = n.child(r)
                if x is not None:
                    self.stmt(fn, x, env, this, opt or not st, ret)
            return
        if k == 'vardecl':
            init = n.kids[0] if n.kids else None
            t = n.t.s if n.t is not None else ''
            d = n.get('d')
            if 'stringstream' in t:
                arg = self.canon(init, env, this) if init is not None and init.k == 'ctor' and init.args else ''
                if arg.startswith('@val:'):
                    env[d] = '@rs:' + arg[5:]
                else:
                    self.n += 1
                    env[d] = '@ws:%d' % self.n
                    self.S.streams[env[d]] = []
                return
            if 'Archive' in t and init is not None and init.k == 'ctor' and init.args:
                env[d] = '@arc' + self.canon(init.args[0], env, this)
                return
            if ismap(n.t) and n.t.k not in ('ref', 'rref'):
                env[d] = '@map'
                return
            if init is None:
                env[d] = '%' + n.name
                return
            self.stmt(fn, init, env, this, opt, ret)
            v = self.canon(init, env, this)
            tk = n.t.k if n.t is not None else ''
            if v.startswith('@') or tk in ('ref', 'rref', 'ptr') or v.startswith('"') or 'iterator' in t or \
                    n.name.startswith('__'):
                env[d] = v
            else:
                env[d] = '%' + n.name if '#' in v or '?' in v else v
            return
        if k == 'assign' and n.c(0).k == 'var' or k == 'call' and n.op == '=' and n.obj is not None and n.obj.k == 'var':
            l, r = (n.c(0), n.c(1)) if k == 'assign' else (n.obj, n.args[0])
            self.stmt(fn, r, env, this, opt, ret)
            v = self.canon(r, env, this)
            if v.startswith('@'):
                env[l.get('d')] = v
            return
        if k == 'assign' and n.c(0).k == 'idx':
            a, b = n.c(0).kids[:2]
            ca, cb = self.canon(a, env, this), self.canon(b, env, this)
            if '@map' in (ca, cb):
                self.store(n, self.key(b if ca == '@map' else a, env, this), n.c(1), env, this, opt)
                return
        if k == 'return':
            for x in n.kids:
                self.stmt(fn, x, env, this, opt, ret)
                v = self.canon(x, env, this)
                if ret[0] is None or v.startswith('@'):
                    ret[0] = v
            return
        if k == 'call':
            o = n.obj
            f = n.child('f')
            name = n.name or (f.name if f is not None else '')
            # map[key] = value
            if n.op == '=' and o is not None and o.k == 'call' and o.op == '[]' and self.canon(o.obj, env, this) == '@map':
                self.store(n, self.key(o.args[0], env, this), n.args[0], env, this, opt)
                return
            ob = self.canon(o, env, this) if o is not None else None
            if ob is None and f is not None:
                if f.k == 'var':
                    ob, name = self.canon(f, env, this), 'operator()'
                elif f.k == 'mem' and f.kids:
                    ob = self.canon(f.c(), env, this)
            if ob == '@map' and name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and n.args:
                a = list(n.args)
                if len(a) == 1:
                    x = a[0]
                    while x.k in ('cast', 'temp') or x.k == 'ctor' and len(x.args) == 1:
                        x = x.c() if x.k != 'ctor' else x.args[0]
                    a = list(x.args) if x.k in ('ctor', 'call') else list(x.kids)
                if len(a) >= 2:
                    self.store(n, self.key(a[0], env, this), a[1], env, this, opt)
                return
            if ob is not None and ob.startswith('@arc') and (n.op == '()' or name in (
                    'operator()', 'saveBinary', 'loadBinary', 'operator&', 'operator<<', 'operator>>')):
                tgt = ob[4:]
                args = list(n.args)
                raw = name in ('saveBinary', 'loadBinary')
                if raw:
                    args = args[:1]
                for a in args:
                    it = (self.canon(a, env, this), 'raw' if raw else a.t.deref().s.replace('const ', '') if a.t else '?')
                    if tgt.startswith('@ws:'):
                        self.S.streams[tgt].append(it)
                    elif tgt.startswith('@rs:'):
                        self.S.reads.setdefault(tgt[4:], []).append(it)
                        self.S.at.append((n if len(self.stack) == 1 else self.top, it[0]))
                        self.note_read(tgt[4:], n, opt)
                return
            if ob == '@map' and name in ('find', 'at', 'count') and n.args:
                self.note_read(self.key(n.args[0], env, this), n, opt)
                return
            if n.op in ('<<', '>>'):
                l = self.chain(n)
                t = self.canon(l[0], env, this)
                if t.startswith('@ws:') or t.startswith('@rs:'):
                    for a in l[1:]:
                        self.text(t, a, self.canon(a, env, this), n, opt)
                    return
            for x in n.kids:
                self.stmt(fn, x, env, this, opt, ret)
            for a in n.args:
                t = self.canon(a, env, this) if a.k == 'var' else ''
                if (t.startswith('@ws:') or t.startswith('@rs:')) and self.inline(n, env, this, opt) is None and \
                        name not in ('operator>>', 'operator<<'):
                    self.text(t, None, '%stream', n, opt)
                    return
            self.inline(n, env, this, opt)
            return
        for x in n.kids:
            self.stmt(fn, x, env, this, opt, ret)

    def chain(self, n):
        ks = ([n.obj] if n.obj is not None else []) + list(n.args)
        if len(ks) != 2:
            return [n]
        h = ks[0]
        while h.k == 'cast':
            h = h.c()
        return (self.chain(h) if h.k == 'call' and h.op == n.op else [h]) + ks[1:]

    def text(self, t, a, c, n, opt):
        if a is not None and (a.k in ('str', 'char', 'ref') or a.t is not None and a.t.deref().k == 'func'):
            return
        while a is not None and a.k == 'cast' and a.kids:
            a = a.c()
        if a is not None and a.k in ('str', 'char', 'ref'):
            return
        if t.startswith('@ws:'):
            self.S.streams[t].append((c, 'text' if a is not None else 'stream'))
        else:
            self.S.reads.setdefault(t[4:], []).append((c, 'text' if a is not None else 'stream'))
            self.note_read(t[4:], n, opt)

    def touches(self, call, env, this):
        return any(a.k == 'var' and env.get(a.get('d'), '').startswith('@') for a in call.walk())

    def note_read(self, key, n, opt):
        if not any(e[0] == 'r' and e[1] == key for e in self.S.ev):
            self.S.ev.append(('r', key, n, self.stack[-1], opt))

    def store(self, n, key, val, env, this, opt):
        v = self.canon(val, env, this)
        self.S.ev.append(('w', key, n, self.stack[-1], opt))
        self.S.payload[key] = v if v.startswith('@ws:') else None


def items(l):
    return [('' if p.startswith('%') or '(' in p else p, t) for p, t in l]


def fails_when_absent(fn, node):
    """True when every path on which the lookup at node finds nothing returns false."""
    it = None
    for p in node.parents():
        if p.k == 'vardecl' or p.k == 'assign' or p.k == 'call' and p.op == '=':
            it = p.get('d') if p.k == 'vardecl' else (p.c(0) if p.k == 'assign' else p.obj).get('d')
            break
        if p.k in ('block', 'decl', 'if'):
            break
    if it is None or not fn.blocks:
        return False
    from flow import implied, outs, elems
    start = next((b for b in fn.blocks.values() for e in elems(fn, b) if e is node), None)
    if start is None:
        return False

    def edge(c, tv, st):
        for a, v in implied(c, tv):
            if a.k in ('call', 'bin') and (a.op in ('==', '!=')):
                ks = list(a.args) + ([a.obj] if a.k == 'call' and a.obj is not None else []) if a.k == 'call' else a.kids
                vs = [x for x in ks if x is not None and x.k == 'var' and x.get('d') == it]
                es = [x for x in ks if x is not None and x.k == 'call' and x.name in ('end', 'cend')]
                if vs and es and (a.op == '==') != v:
                    return None
        return st

    seen, work, ok, first = set(), [start], True, True
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        els = list(elems(fn, b))
        stop = False
        if b is start and first:
            els = els[[e is node for e in els].index(True):]
            first = False
        for e in els:
            if e is not node and e.k == 'call' and e.op == '=' and e.obj is not None and e.obj.k == 'var' and \
                    e.obj.get('d') == it and not any(x is e for x in node.parents()):
                stop = True         # the iterator is used for another lookup from here on
                ok = False
                break
            if e.k == 'return':
                v = e.c() if e.kids else None
                while v is not None and v.k == 'cast':
                    v = v.c()
                if v is None or v.k != 'bool' or v.get('v'):
                    return False
                stop = True
        if stop:
            continue
        for t, st in outs(fn, b, True, edge):
            work.append(fn.blocks[t])
    return ok


def run(P, ctx):
    I = Interp(P)
    base = baseline(P)
    scripts = {}
    for fn in P.fns:
        if fn.body is None or fn.lam:
            continue
        if any(ismap(n.t) for n in fn.walk() if n.k in ('var', 'vardecl')) or any(ismap(t) for t in fn.decl.p):
            if fn.file.startswith(('src/', 'Apps/')):
                S = I.script(fn)
                if S.ev:
                    scripts[fn] = S
    ctx.count('functions using a restart container', len(scripts))

    # what is written and read anywhere
    W, R = {}, {}
    for fn, S in scripts.items():
        for e in S.ev:
            if e[0] == 'w':
                W.setdefault(e[1], []).append((fn, S, e))
            elif e[0] == 'r':
                R.setdefault(e[1], []).append((fn, S, e))
    ctx.count('restart keys written', len(W))
    ctx.count('restart keys read', len(R))

    def where(e):
        return e[3].q if e[0] != 'fwd' else e[4].q

    def exc(fn, inst):
        r = ctx.excepted(P, 'c07_allow.txt', fn, inst)
        if r is not None:
            ctx.count('exceptions used (cfg/c07_allow.txt)')
        return r is not None

    for k, l in sorted(W.items()):
        if k not in R:
            fn, S, e = l[0]
            if not exc(e[3], k):
                ctx.viol('key-not-restored', e[3].q, k, 'the restart data saved under the key "%s" is not looked up by any '
                         'restore function' % k, fn=e[3], node=e[2], P=P)
        ctx.sample('restart keys', k)
    for k, l in sorted(R.items()):
        if k not in W:
            fn, S, e = l[0]
            if not exc(e[3], k):
                ctx.viol('key-not-saved', e[3].q, k, 'the restart data key "%s" is looked up but no save function writes it' %
                         k, fn=e[3], node=e[2], P=P)
    # payloads
    for k in sorted(set(W) & set(R)):
        for wf, ws, we in W[k]:
            tok = ws.payload.get(k)
            wi = ws.streams.get(tok) if tok else None
            if not wi:
                continue
            for rf, rs, re_ in R[k]:
                ri = rs.reads.get(k)
                if not ri or not same_class(P, wf, rf):
                    continue
                ctx.count('archived sequences compared')
                a, b = items(wi), items(ri)
                ctx.count('archived items compared', max(len(a), len(b)))
                bad = None
                for i in range(max(len(a), len(b))):
                    if i >= len(b):
                        bad = 'item %d saved (%s) is not restored' % (i + 1, a[i][0] or a[i][1])
                    elif i >= len(a):
                        bad = 'item %d restored (%s) is not saved' % (i + 1, b[i][0] or b[i][1])
                    elif a[i][0] and b[i][0] and a[i][0] != b[i][0]:
                        bad = 'item %d: %s is saved but %s is restored' % (i + 1, a[i][0], b[i][0])
                    elif a[i][1] != b[i][1] and '?' not in (a[i][1], b[i][1]) and 'type-parameter' not in a[i][1] + b[i][1]:
                        bad = 'item %d is saved as %s but restored as %s' % (i + 1, a[i][1], b[i][1])
                    if bad:
                        break
                if bad:
                    ctx.viol('archive-mismatch', wf.q, k, 'key "%s": %s (by %s)' % (k, bad, rf.q), fn=we[3], node=we[2], P=P)
    # class pairs
    for fn, S in sorted(scripts.items(), key=lambda x: (x[0].file, x[0].line)):
        m = mate(fn.decl.n)
        if m is None or not fn.decl.rec or not any(ismap(t) for t in fn.decl.p):
            continue
        ctx.count('save/restore operations paired')
        rec = fn.decl.rec
        ms = [g for g in scripts if g.decl.rec == rec and g.decl.n == m]
        ws = set(e[1] for e in S.ev if e[0] == 'w')
        fw = set((e[1], e[2]) for e in S.ev if e[0] == 'fwd')
        if not ms:
            if not exc(fn, 'no ' + m):
                ctx.viol('no-restore', fn.q, m, '%s overrides %s but has no %s of its own' % (rec, fn.decl.n, m), fn=fn, P=P)
            continue
        T = scripts[ms[0]]
        rs = set(e[1] for e in T.ev if e[0] == 'r')
        rw = set((e[1], e[2]) for e in T.ev if e[0] == 'fwd')
        for k in sorted(ws - rs):
            if not exc(fn, k):
                ctx.viol('pair-key', fn.q, k, '"%s" is saved by %s but not restored by %s' % (k, fn.q, ms[0].q), fn=fn, P=P)
        for k in sorted(rs - ws):
            if not exc(fn, k):
                ctx.viol('pair-key', ms[0].q, k, '"%s" is restored by %s but not saved by %s' % (k, ms[0].q, fn.q),
                         fn=ms[0], P=P)
        for o, op in sorted(fw):
            ctx.count('forwarded save/restore operations')
            if (o, mate(op)) not in rw and not exc(fn, o):
                ctx.viol('pair-forward', fn.q, o, '%s forwards %s to %s but %s does not restore it' % (fn.q, op, o, ms[0].q),
                         fn=fn, P=P)
        for o, op in sorted(rw):
            if not any(o == o2 and mate(op2) == op for o2, op2 in fw) and not exc(ms[0], o):
                ctx.viol('pair-forward', ms[0].q, o, '%s restores %s but %s does not save it' % (ms[0].q, o, fn.q),
                         fn=ms[0], P=P)
        # a key that may be missing must not be required
        for e in S.ev:
            if e[0] == 'w' and e[4]:
                for e2 in T.ev:
                    if e2[0] == 'r' and e2[1] == e[1] and e2[2].name == 'find':
                        ctx.count('conditionally saved keys')
                        if fails_when_absent(e2[3], e2[2]) and not exc(fn, e[1]):
                            ctx.viol('optional-required', fn.q, e[1], '"%s" is saved conditionally but %s fails without it' %
                                     (e[1], ms[0].q), fn=e2[3], node=e2[2], P=P)
        # state of the overridden operation
        if fn.decl.virtual:
            for b in P.all_bases(rec):
                for g in scripts:
                    if g.decl.rec == b and g.decl.n == fn.decl.n:
                        bw = set(e[1] for e in scripts[g].ev if e[0] == 'w')
                        ctx.count('overridden save operations')
                        for k in sorted(bw - ws):
                            if not exc(fn, k):
                                ctx.viol('base-state', fn.q, k, '%s saves "%s" but the overriding %s does not' %
                                         (g.q, k, fn.q), fn=fn, P=P)
    carried_rule(P, ctx, scripts)
    overwritten_rule(P, ctx, scripts)
    timestep_rule(P, ctx, scripts)
    ctx.need('restart keys written', 6, 'restart keys')
    ctx.need('archived items compared', 10, 'archived items')
    ctx.need('save/restore operations paired', 8, 'save/restore pairs')
    ctx.explain.append('Restart save/restore functions executed abstractly into archive scripts (helpers inlined, aliases '
                       'resolved) which are compared pairwise: keys, archived members with order and type, forwarding to '
                       'parts, conditional keys, state of overridden operations.')


def same_class(P, a, b):
    ra, rb = a.decl.rec, b.decl.rec
    return ra == rb or bool(ra) and bool(rb) and (P.is_a(ra, rb) or P.is_a(rb, ra))


# ------------------------------------------------------------------ state carried from one step to the next
STRONG = ('fill', 'clear', 'assign', 'reset')
UNSTRONG = ('++', '--', 'p++', 'p--')


class Carried(object):
    """Data members of a solution driver that a step may read before writing them and that a step modifies."""

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.memo, self.stack = {}, []

    @staticmethod
    def field(n):
        return n.name if n.k == 'mem' and (not n.kids or n.c().k == 'this') else None

    def virt(self, name, np=None):
        for c in [self.cls] + list(self.P.all_bases(self.cls)):
            for f in self.P.fns:
                if f.decl.rec == c and f.decl.n == name and f.body is not None and (np is None or len(f.decl.p) == np):
                    return f
        return None

    def summary(self, f):
        """(fields possibly read before written, fields written on every path, fields possibly modified)"""
        import flow
        if f in self.memo:
            return self.memo[f]
        e = frozenset()
        if f in self.stack or not f.blocks:
            return e, e, e
        self.stack.append(f)
        writes = set()
        ins = flow.forward(f, (e, e), lambda n, s: self.step(n, s[0], s[1], writes),
                           join=lambda a, b: (a[0] | b[0], a[1] & b[1]))
        ex = frozenset().union(*[v[0] for v in ins.values()])
        r = ex, ins.get(f.exit, (e, e))[1], frozenset(writes)
        self.stack.pop()
        self.memo[f] = r
        return r

    def modified(self, q, p):
        """The member expression q is modified by its parent p."""
        if p.k == 'un' and p.op in UNSTRONG or p.k == 'assign' and p.c(0) is q:
            return True
        if p.k == 'call' and p.obj is q and (p.callee is None or not p.callee.const):
            if p.op in ('[]', '()') or p.name in ('front', 'back', 'at'):
                return p.p is not None and self.modified(p, p.p)
            return True
        if p.k == 'call' and p.callee is not None and q in p.args:
            i = p.args.index(q)
            return i < len(p.callee.p) and p.callee.p[i].k == 'ref' and not p.callee.p[i].p.c
        if p.k in ('idx', 'mem', 'cast') and p.p is not None:
            return self.modified(p, p.p)
        return False

    def step(self, n, ex, must, writes):
        fl = self.field(n)
        if fl is not None:
            q, p = n, n.p
            while p is not None and p.k == 'cast':
                q, p = p, p.p
            if p is not None:
                if p.k == 'assign' and p.c(0) is q and p.op == '=':
                    return ex, must
                if p.k == 'call' and p.obj is q and (p.op == '=' or p.name in STRONG):
                    return ex, must
                if self.modified(q, p):
                    writes.add(fl)
            return (ex if fl in must else ex | {fl}), must
        tgt = n.c(0) if n.k == 'assign' and n.op == '=' else \
            n.obj if n.k == 'call' and n.obj is not None and (n.op == '=' or n.name in STRONG) else None
        if tgt is not None:
            fl = self.field(tgt)
            if fl:
                writes.add(fl)
                return ex, must | {fl}
        if n.k == 'call' and n.obj is not None and n.obj.k == 'this' and n.callee is not None:
            d = n.callee
            g = (self.virt(d.n, len(d.p)) if d.virtual else None) or self.P.by_usr.get(d.u)
            if g is not None:
                e, m, w = self.summary(g)
                writes |= w
                return ex | (e - must), must | m
        return ex, must

    def result(self, entries):
        ex = must = w = frozenset()
        for nm in entries:
            f = self.virt(nm)
            if f is not None:
                e, m, wr = self.summary(f)
                ex, must, w = ex | (e - must), must | m, w | wr
        return ex & w


def declaring(P, cls, field):
    for c in [cls] + list(P.all_bases(cls)):
        r = P.records.get(c)
        if r is not None and any(f['n'] == field if isinstance(f, dict) else getattr(f, 'n', f) == field for f in r.fields):
            return c
    return cls


def overwritten_rule(P, ctx, scripts):
    """A restored member is not recomputed by a later call in the same restore function."""
    import flow
    for fn, S in sorted(scripts.items(), key=lambda x: (x[0].file, x[0].line)):
        if not S.at or not fn.blocks or not fn.decl.rec:
            continue
        C = Carried(P, fn.decl.rec)
        at = {}
        for n, p in S.at:
            if p.startswith('this.'):
                at.setdefault(n, set()).add(p.split('.')[1].split('[')[0])
        bad = {}

        def tr(n, s):
            rest, dirty = s
            if n in at:
                return rest | frozenset(at[n]), dirty - frozenset(at[n])
            tgt = n.c(0) if n.k == 'assign' and n.op == '=' else n.obj if n.k == 'call' and n.op == '=' else None
            fl = Carried.field(tgt) if tgt is not None else None
            if fl:
                return rest, dirty - {fl}
            if n.k == 'call' and n.obj is not None and n.obj.k == 'this' and n.callee is not None and not n.callee.const:
                g = (C.virt(n.callee.n, len(n.callee.p)) if n.callee.virtual else None) or P.by_usr.get(n.callee.u)
                if g is not None:
                    w = C.summary(g)[2] & rest
                    for x in w - dirty:
                        bad[x] = n
                    return rest, dirty | w
            if n.k == 'return' and n.kids:
                v = n.c()
                while v.k == 'cast':
                    v = v.c()
                if v.k == 'bool' and not v.get('v'):
                    return frozenset(), frozenset()
            return s
        e = frozenset()
        ins = flow.forward(fn, (e, e), tr, join=lambda a, b: (a[0] | b[0], a[1] | b[1]))
        ctx.count('restored members checked for later recomputation', sum(len(x) for x in at.values()))
        for fl in sorted(ins.get(fn.exit, (e, e))[1]):
            if ctx.excepted(P, 'c07_allow.txt', fn, fl) is None:
                ctx.viol('restored-overwritten', fn.q, fl, 'the member %s is restored and then changed again by %s' %
                         (fl, bad[fl].name if fl in bad else '?'), fn=fn, node=bad.get(fl), P=P)


def timestep_rule(P, ctx, scripts):
    """Every member of the time step administration which changes during a simulation is archived."""
    own = ('TimeStep', 'TimeDomain')
    saved = set()
    for fn, S in scripts.items():
        if fn.decl.rec == 'TimeStep' and fn.decl.n == 'deSerialize':
            for l in S.reads.values():
                saved |= set(p.split('.')[-1] for p, t in l)
    changed = {}
    C = Carried(P, 'TimeStep')
    for fn in P.fns:
        if fn.decl.rec in own and (fn.decl.kind == 'ctor' or fn.decl.n in ('parse', 'reset', 'operator=', 'deSerialize')) or \
                fn.decl.n == 'doSerializeOps':
            continue
        for n in fn.walk():
            if n.k != 'mem' or not n.kids or n.c() is None or n.c().t is None:
                continue
            t = n.c().t
            while t.k in ('ptr', 'ref', 'rref'):
                t = t.p
            if (t.r or '') not in own or n.p is None:
                continue
            q, p = n, n.p
            while p.k == 'cast' and p.p is not None:
                q, p = p, p.p
            if C.modified(q, p):
                b = n.c()
                if b.k == 'var' and not fn.is_param(b.get('d')) and b.t.k not in ('ref', 'ptr'):
                    continue        # a local copy
                changed.setdefault((t.r, n.name), (fn, n))
    for (r, f), (fn, n) in sorted(changed.items()):
        if f == 'time':
            continue
        ctx.count('time stepping members changed during a simulation')
        if f in saved:
            ctx.count('time stepping members archived')
        elif ctx.excepted(P, 'c07_carried.txt', r, f) is None:
            ctx.viol('carried-state', 'TimeStep', f, 'the member %s::%s changes during a simulation (for instance in %s) but is '
                     'not part of the restart data' % (r, f, fn.q), fn=fn, node=n, P=P)
    ctx.need('time stepping members changed during a simulation', 6, 'changing time stepping members')


def carried_rule(P, ctx, scripts):
    classes = sorted(set(f.decl.rec for f in P.fns if f.decl.rec and f.decl.n in ('solveStep', 'advanceStep') and
                         f.body is not None and f.file.startswith(('src/SIM/', 'Apps/'))))
    for cls in classes:
        line = [cls] + list(P.all_bases(cls))
        sv = next((f for c in line for f in scripts if f.decl.rec == c and f.decl.n == 'serialize'), None)
        rd = next((f for c in line for f in scripts if f.decl.rec == c and f.decl.n == 'deSerialize'), None)
        if sv is None or rd is None:
            continue
        ctx.count('solution drivers with restart')
        saved = set()
        for l in scripts[rd].reads.values():
            saved |= set(p.split('.')[1].rstrip('[]').split('[')[0] for p, t in l if p.startswith('this.'))
        saved |= set(e[1].split('.')[1].rstrip('[]') for e in scripts[rd].ev if e[0] == 'fwd' and e[1].startswith('this.'))
        for fl in sorted(Carried(P, cls).result(('advanceStep', 'solveStep'))):
            ctx.count('members carried from one step to the next')
            if fl in saved:
                ctx.count('carried members saved and restored')
                continue
            dc = declaring(P, cls, fl)
            if ctx.excepted(P, 'c07_carried.txt', dc, fl) is not None:
                ctx.count('carried members excepted by cfg/c07_carried.txt')
                continue
            f = Carried(P, cls).virt('solveStep') or Carried(P, cls).virt('advanceStep')
            ctx.viol('carried-state', cls, fl, 'the member %s::%s is modified by a step and used by the next one but is not part '
                     'of the restart data' % (dc, fl), fn=f, P=P)
    ctx.need('members carried from one step to the next', 20, 'members carried between steps')

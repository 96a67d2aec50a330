"""Shared machinery of the rules: reporting context, baseline/ownership of functions, call graph."""
import json, os, sys, time, hashlib
from facts import AnalysisError, ROOT, VERIF
import model

CFG = os.path.join(VERIF, 'cfg')


def read_table(name, sep='|'):
    """Reads cfg/<name>: lines of sep-separated columns, '#' starts a comment line."""
    rows = []
    with open(os.path.join(CFG, name)) as f:
        for l in f:
            l = l.rstrip('\n')
            if not l.strip() or l.lstrip().startswith('#'):
                continue
            rows.append([c.strip() for c in l.split(sep)])
    return rows


def read_list(name):
    return [r[0] for r in read_table(name, '\0')]


class Graph(object):
    """Static call graph (virtual calls resolved by class hierarchy)."""

    def __init__(self, P):
        self.P = P
        self.callees = {}   # Fn -> [(node, FunDecl)]
        self.callers = {}   # decl usr -> set of Fn
        self.by_file_line = {}
        for fn in P.fns:
            cl = []
            for n in fn.walk():
                if n.k in ('call', 'ctor') and n.callee is not None:
                    for d in P.targets(n):
                        cl.append((n, d))
                        self.callers.setdefault(d.u, set()).add(fn)
                        if d.pat:
                            self.callers.setdefault(d.pat, set()).add(fn)
                elif n.k in ('call', 'ref', 'mem') and n.callee is None:
                    # unresolved (template-dependent) call: by name
                    pass
            self.callees[fn] = cl


def graph(P):
    g = getattr(P, '_graph', None)
    if g is None:
        g = P._graph = Graph(P)
    return g


class Baseline(object):
    """Which function names existed when the tables were written; functions outside inherit the
    table entries of their (transitive) callers."""

    def __init__(self, P):
        self.P = P
        self.names = set(read_list('baseline_fns.txt'))
        self.cache = {}

    def is_new(self, fn):
        return fn.lam or fn.q not in self.names

    def owners(self, fn):
        """Qualified names whose table entries apply to fn."""
        r = self.cache.get(fn)
        if r is not None:
            return r
        out = set()
        seen = set()
        st = [fn]
        while st:
            f = st.pop()
            if f in seen:
                continue
            seen.add(f)
            if not f.lam:
                out.add(f.q)
            if f.lam:
                if f.parent is not None:
                    pf = self.P.by_usr.get(f.parent.u)
                    if pf is not None:
                        st.append(pf)
                    else:
                        out.add(f.parent.q)
                else:
                    for c in self.P.fns:
                        if c.file == f.file and c.line <= f.line and f.endline <= c.endline and c is not f:
                            st.append(c)
                            break
            elif f.q not in self.names:
                for c in graph(self.P).callers.get(f.decl.u, ()):
                    st.append(c)
        self.cache[fn] = out
        return out


def baseline(P):
    b = getattr(P, '_base', None)
    if b is None:
        b = P._base = Baseline(P)
    return b


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.viols = []
        self.counts = {}
        self.samples = {}
        self.assumptions = []
        self.explain = []
        self.used = {}
        self.t0 = time.time()

    # -- reporting
    def viol(self, rule, where, inst, msg, fn=None, node=None, file=None, line=None, trace=None, P=None):
        """rule: short rule id; where: qualified construct name; inst: line-free instance text."""
        if fn is not None:
            file = fn.file
            line = node.l if node is not None else fn.line
        keys = ['%s|%s|%s' % (rule, where, inst)]
        if fn is not None and P is not None:
            for o in sorted(baseline(P).owners(fn)):
                k = '%s|%s|%s' % (rule, o, inst)
                if k not in keys:
                    keys.append(k)
        for v in self.viols:
            if v['keys'][0] == keys[0] and v['line'] == line:
                return
        self.viols.append({'keys': keys, 'rule': rule, 'where': where, 'file': file, 'line': line, 'msg': msg,
                           'trace': trace or []})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, s, limit=12):
        l = self.samples.setdefault(name, [])
        if len(l) < limit:
            l.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def need(self, name, n, what):
        """Fails the analysis (not the property) when a rule has lost its instances."""
        if self.counts.get(name, 0) < n:
            raise AnalysisError('%s: only %d %s (at least %d expected): the rule has lost its anchor' %
                                (self.prop, self.counts.get(name, 0), what, n))

    def table(self, name):
        """Exception table with usage tracking: rows (caller, instance, reason)."""
        if name not in self.used:
            self.used[name] = (dict(((r[0], r[1]), r[2]) for r in read_table(name)), set())
        return self.used[name]

    def excepted(self, P, name, fn, inst):
        tab, used = self.table(name)
        for o in ([fn] if isinstance(fn, str) else sorted(baseline(P).owners(fn))):
            for k in ((o, inst), (o, '*')):
                if k in tab:
                    used.add(k)
                    return tab[k]
        return None

    # -- finishing
    def finish(self):
        known = load_known(self.prop)
        new, old = [], {}
        for v in self.viols:
            hit = None
            for k in v['keys']:
                if k in known:
                    hit = k
                    break
            if hit:
                old.setdefault(hit, v)
            else:
                new.append(v)
        evd = os.path.join(VERIF, 'evidence')
        rd = os.path.join(evd, 'replay')
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rd, f))
        for k, v in sorted(old.items()):
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.prop, known[k], k))
        for i, v in enumerate(new):
            path = os.path.join(rd, '%s-%d.txt' % (self.prop, i + 1))
            with open(path, 'w') as f:
                f.write('property: %s\nrule: %s\nconstruct: %s\nlocation: %s:%s\nkey: %s\n\n%s\n' %
                        (self.prop, v['rule'], v['where'], v['file'], v['line'], v['keys'][0], v['msg']))
                if v['trace']:
                    f.write('\ntrace:\n' + '\n'.join('  ' + t for t in v['trace']) + '\n')
                f.write('\nThe finding is about the source text; to re-derive it: python3 %s %s\n' %
                        (os.path.join(VERIF, 'tool', 'check.py'), self.prop))
            print('%s:%s: [%s/%s] %s: %s' % (v['file'], v['line'], self.prop, v['rule'], v['where'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        cov = {'explanation': ' '.join(self.explain) or 'static analysis of every compiled unit',
               'counts': self.counts,
               'samples': ['%s: %s' % (n, x) for n, l in sorted(self.samples.items()) for x in l],
               'exceptions_used': [{'table': n, 'where': k[0], 'instance': k[1], 'reason': t[0][k]}
                                   for n, t in sorted(self.used.items()) for k in sorted(t[1])],
               'known_findings_seen': sorted(old),
               'new_violations': [{'rule': v['rule'], 'where': v['where'], 'file': v['file'], 'line': v['line'],
                                   'message': v['msg']} for v in new]}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new), 'assumptions': self.assumptions}
        return ev, new


def load_known(prop):
    """known_findings.txt: 'finding: property=ID key=<key> :: <what fails>' and 'fixed: ...' lines."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s key=' % prop):
                    body = l.split(' key=', 1)[1]
                    key, what = body.split(' :: ', 1)
                    out[key.strip()] = what.strip()
    return out

"""Solver back end: every verdict comes from an SMT query.

lin  : equalities between polynomials (modulo recorded polynomial hypotheses)
       are decided in linear real arithmetic over *monomial atoms*.  A complex
       monomial m is the pair (X_m, Y_m); its conjugate twin is (X_m, -Y_m), so
       the encoding is exact for identities and sound when hypothesis multiples
       are added.
nra  : path feasibility, order claims and counterexample search use nonlinear
       real arithmetic over real and imaginary parts of the variables.
"""
import time, itertools
import z3
from .sym import (_norm, Ctx, Poly, P, SymBool, EncodeError, Fraction, fkey, BITS, HALF, MASK)

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0,
         'feas_queries': 0, 'atoms': 0, 'hyp_instances': 0}
CROSS = {'on': False, 'agree': 0, 'disagree': 0}


def reset_stats():
    for k in STATS:
        STATS[k] = 0.0 if k == 'solver_s' else 0


def _num(v):
    f = Fraction(v)
    s = str(abs(f.numerator)) if f.denominator == 1 else '(/ %d %d)' % (abs(f.numerator), f.denominator)
    return '(- %s)' % s if f < 0 else s


class Atoms:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ids = {}
        self.decl = []
        self.real = {}

    def get(self, m):
        """-> (id, sign_of_imag (0 for real monomials))"""
        e = self.ids.get(m)
        if e is None:
            cm = self.ctx.conj_mono(m)
            i = len(self.decl)
            if cm == m:
                self.decl.append('r')
                e = self.ids[m] = (i, 0)
            else:
                self.decl.append('c')
                a, b = (m, cm) if m < cm else (cm, m)
                self.ids[a] = (i, 1)
                self.ids[b] = (i, -1)
                e = self.ids[m]
        return e

    def lin(self, p):
        """real and imaginary part of p as SMT terms"""
        re, im = [], []
        for d, isim in ((p.re, False), (p.im or {}, True)):
            for k, v in d.items():
                if k == 0:
                    (im if isim else re).append(_num(v))
                    continue
                i, s = self.get(k)
                if not isim:
                    re.append('(* %s X%d)' % (_num(v), i))
                    if s:
                        im.append('(* %s Y%d)' % (_num(v * s), i))
                else:
                    im.append('(* %s X%d)' % (_num(v), i))
                    if s:
                        re.append('(* %s Y%d)' % (_num(-v * s), i))
        return _sum(re), _sum(im)

    def decls(self):
        out = []
        for i, k in enumerate(self.decl):
            out.append('(declare-fun X%d () Real)' % i)
            if k == 'c':
                out.append('(declare-fun Y%d () Real)' % i)
        return out


def _sum(t):
    if not t:
        return '0'
    if len(t) == 1:
        return t[0]
    return '(+ %s)' % ' '.join(t)


def run_smt(text, timeout_ms, logic=None):
    t0 = time.time()
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set('timeout', int(timeout_ms))
    try:
        s.from_string(text)
        r = s.check()
    except z3.Z3Exception as ex:
        raise EncodeError('solver error: %s' % ex)
    STATS['solver_s'] += time.time() - t0
    STATS['queries'] += 1
    r = str(r)
    STATS[r] += 1
    if CROSS['on'] and r != 'unknown' and (CROSS['agree'] + CROSS['disagree']) < 60:
        o = run_cvc5(text, logic or 'QF_LRA', timeout_ms)
        if o == r:
            CROSS['agree'] += 1
        elif o in ('sat', 'unsat'):
            CROSS['disagree'] += 1
            raise EncodeError('z3 says %s, cvc5 says %s' % (r, o))
    return r, s


def run_cvc5(text, logic, timeout_ms):
    import subprocess
    q = '(set-logic %s)\n%s\n(check-sat)\n' % (logic, text)
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % int(timeout_ms)], input=q, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout_ms / 1000. + 20)
    except Exception:
        return 'error'
    o = p.stdout.strip().splitlines()
    if any(l.startswith('(error') for l in o):
        return 'error'
    return o[-1] if o else 'error'


# ----------------------------------------------------------- linear arithmetic
def _closed_hyps(ctx):
    """recorded hypotheses closed under complex conjugation, with index data"""
    c = getattr(ctx, '_hypcache', None)
    if c is not None and c[0] == len(ctx.hyps):
        return c[1]
    seen, out = set(), []
    for h, tag in zip(ctx.hyps, ctx.hyptag):
        for q in (h, h.conjugate()):
            k = q.key()
            if k in seen:
                continue
            nk = (-q).key()
            if nk in seen:
                continue
            seen.add(k)
            monos = []
            ks = set(q.re) | set(q.im or {})
            for m in ks:
                ex = ctx.exps(m)
                pos = [(s, e) for s, e in ex if e > 0]
                if pos:
                    monos.append((m, pos))
            # try the "largest" monomials first
            monos.sort(key=lambda t: -sum(e for _, e in t[1]))
            out.append((q, monos, tag))
    # index by variable slot
    idx = {}
    for i, (q, monos, tag) in enumerate(out):
        for m, pos in monos:
            idx.setdefault(pos[0][0], []).append((i, m, pos))
    ctx._hypcache = (len(ctx.hyps), (out, idx))
    return ctx._hypcache[1]


def saturate(ctx, polys, rounds=2, cap=30000, degree_slack=0):
    """hypothesis multiples relevant to the monomials of polys"""
    hyps, idx = _closed_hyps(ctx)
    if not hyps:
        return []
    work = set()
    for p in polys:
        work |= set(p.re)
        if p.im:
            work |= set(p.im)
    done_m, done = set(), set()
    out = []

    def deg(m):
        return sum(abs(e) for _, e in ctx.exps(m))
    maxdeg = max([deg(m) for m in work] + [2]) + degree_slack
    for _ in range(rounds):
        new = set()
        for t in work:
            if t in done_m:
                continue
            done_m.add(t)
            te = dict(ctx.exps(t))
            for s in te:
                for (i, m, pos) in idx.get(s, ()):
                    ok = True
                    for s2, e2 in pos:
                        if te.get(s2, 0) < e2:
                            ok = False
                            break
                    if not ok:
                        continue
                    mult = t - m
                    k = (i, mult)
                    if k in done:
                        continue
                    q, monos, _tag = hyps[i]
                    if any(deg(mm + mult) > maxdeg for mm, _ in monos):
                        continue
                    done.add(k)
                    inst = Poly({a + mult: b for a, b in q.re.items()},
                                {a + mult: b for a, b in q.im.items()} if q.im else None)
                    if ctx.square:
                        inst = inst * P(1)
                    out.append(inst)
                    new |= set(inst.re)
                    if inst.im:
                        new |= set(inst.im)
                    if len(out) >= cap:
                        return out
        new -= done_m
        if not new:
            break
        work = new
    return out


def _rules(ctx, order, without):
    """hypotheses oriented by a monomial order: slot -> [(lead, positive exps, hyp, lead coefficient)]"""
    cache = ctx.__dict__.setdefault('_rulecache', {})
    k = (order, without, len(ctx.hyps))
    if k in cache:
        return cache[k]
    hyps, _ = _closed_hyps(ctx)
    idx = {}
    deg = order.startswith('deg')
    old = order.endswith('old')
    for q, monos, tag in hyps:
        if tag in without:
            continue
        best = None
        if tag == 'lemma':
            l = ctx.lead.get(q.key())
            monos = [t for t in monos if t[0] == l] or monos
        for m, pos in monos:
            ex = ctx.exps(m)
            if any(e < 0 for _, e in ex):
                continue
            v = [(-s_ if old else s_, e) for s_, e in ex]
            v.sort(reverse=True)
            key = ((sum(e for _, e in ex),) if deg else ()) + tuple(v)
            if best is None or key > best[0]:
                best = (key, m, pos)
        if best is None:
            continue
        m, pos = best[1], best[2]
        cr, ci = q.re.get(m, 0), (q.im.get(m, 0) if q.im else 0)
        pr = (sum(e for _, e in pos), 0 if tag in ('norm', 'fro') else 1)
        idx.setdefault(pos[0][0], []).append((pr, m, pos, q, cr, ci))
    for l in idx.values():
        l.sort(key=lambda t: t[0], reverse=True)
    if len(cache) > 8:
        cache.clear()
    cache[k] = idx = {s_: [t[1:] for t in l] for s_, l in idx.items()}
    return idx


def guided(ctx, polys, plan, cap, deadline):
    """division of the goals by the oriented hypotheses (stages: order, excluded kinds).
    Only chooses which hypothesis instances the solver is given; -> (instances, all reduced to zero)"""
    used = {}
    stages = [_rules(ctx, o, w) for o, w in plan]
    for p in polys:
        cur = p
        for idx in stages:
            cur = _divide(ctx, cur, idx, used, cap, deadline)
            if cur is None:
                return [], False
            if cur.iszero():
                break
        if not cur.iszero():
            return [], False
    return list(used.values()), True


def _divide(ctx, cur, idx, used, cap, deadline):
    exps = ctx.exps
    memo, built = idx.setdefault('memo', {}), idx.setdefault('built', {})       # shared by all goals under these hypotheses
    if len(memo) > 400000:
        memo.clear()
    if len(built) > 60000:
        built.clear()
    re, im = dict(cur.re), dict(cur.im or {})
    fresh_keys = set(re) | set(im)
    for it in range(400):
        if not re and not im:
            return Poly(re, None)
        acc = {}
        for t in fresh_keys:
            if t in memo:
                hit = memo[t]
            else:
                te = dict(exps(t))
                hit = None
                for s in te:
                    for r in idx.get(s, ()):
                        for s2, e2 in r[1]:
                            if te.get(s2, 0) < e2:
                                break
                        else:
                            hit = r
                            break
                    if hit:
                        break
                memo[t] = hit
            if hit is None:
                continue
            a, b = re.get(t, 0), im.get(t, 0)
            if not a and not b:
                continue
            m, pos, q, cr, ci = hit
            if not ci and (cr == 1 or cr == -1):
                f = (a, b) if cr == 1 else (-a, -b)
            else:
                n2 = cr * cr + ci * ci
                f = (_norm(Fraction(a * cr + b * ci) / n2), _norm(Fraction(b * cr - a * ci) / n2))
            k = (id(q), t - m)
            if k not in used:
                if len(used) > cap:
                    return None
                inst = built.get(k)
                if inst is None:
                    mult = t - m
                    inst = Poly({x + mult: y for x, y in q.re.items()}, {x + mult: y for x, y in q.im.items()} if q.im else None)
                    if ctx.square:
                        inst = inst * P(1)
                    built[k] = inst
                used[k] = inst
            acc[k] = f
        if not acc:
            return Poly(re, im)
        fresh_keys = set()
        for k, (fr, fi) in acc.items():
            inst = used[k]
            fresh_keys.update(inst.re)
            for x, y in inst.re.items():
                if fr:
                    _acc(re, x, -fr * y)
                if fi:
                    _acc(im, x, -fi * y)
            if inst.im:
                fresh_keys.update(inst.im)
                for x, y in inst.im.items():
                    if fr:
                        _acc(im, x, -fr * y)
                    if fi:
                        _acc(re, x, fi * y)
        if len(re) + len(im) > 100000 or time.time() > deadline:
            return None
    return None


def _acc(d, k, v):
    w = d.get(k)
    if w is None:
        d[k] = v
    else:
        w = w + v
        if w:
            d[k] = w if type(w) is int else _norm(w)
        else:
            del d[k]


_NF = frozenset(('norm', 'fro'))
_PR = frozenset(('norm', 'fro', 'proj'))
_NO = frozenset()
PLANS = (
    ((('lexold', _NO),), 'fold inputs'),
    ((('lexnew', _PR), ('lexold', _NO)), 'unfold, then close'),
    ((('lexnew', _NF), ('lexold', _NO)), 'unfold with projections'),
    ((('degold', _NF), ('lexold', _NO)), 'degree'),
    ((('lexnew', _NO),), 'unfold all'),
    ((('degnew', _NO), ('lexold', _NO)), 'degree newest'),
)


def prove_eq(ctx, pairs, timeout_ms=60000, rounds=(0, 1, 2, 4, (3, 2), (5, 3)), use_hyps=True, cap=30000):
    """pairs: list of (lhs, rhs).  -> ('unsat'|'sat'|'unknown', info)

    unsat: every pair is equal for all values of the variables satisfying the
    recorded hypotheses."""
    pairs = [(P(a), P(b)) for a, b in pairs]
    live = [(a, b) for a, b in pairs if a.key() != b.key()]
    res = None
    diffs = [a - b for a, b in live]
    sets = rounds if (use_hyps and ctx.hyps) else (0,)
    if len(sets) > 1:
        won = ctx.__dict__.setdefault('_plan_wins', {})     # the plan that worked before is tried first
        ps = tuple(sorted(PLANS, key=lambda p: -won.get(p[1], 0)))
        if sum(d.nterms() for d in diffs) <= 2000:
            sets = sets[:1] + ps[:1] + sets[1:2] + ps[1:] + sets[2:]
        else:
            sets = sets[:1] + ps + sets[1:]
    gdl = time.time() + timeout_ms / 1000.
    slack = 0
    for r in sets:
        plan = None
        slack = 0
        if isinstance(r, tuple):
            if isinstance(r[1], str):
                plan, r = r
            else:
                r, slack = r
        hy = []
        if plan:
            hy, ok = guided(ctx, diffs, plan, cap, min(gdl, time.time() + 20))
            if not ok:
                continue
        at = Atoms(ctx)
        goals = []
        for a, b in (pairs if r == 0 else live):
            la, lb = at.lin(a), at.lin(b)
            goals.append('(or (not (= %s %s)) (not (= %s %s)))' % (la[0], lb[0], la[1], lb[1]))
        if r and not isinstance(r, str):
            hy = saturate(ctx, diffs, r, cap, slack)
        lines = []
        for h in hy:
            x, y = at.lin(h)
            lines.append('(assert (= %s 0))' % x)
            if y != '0':
                lines.append('(assert (= %s 0))' % y)
        lines.append('(assert (or false %s))' % ' '.join(goals))
        STATS['atoms'] += len(at.decl)
        STATS['hyp_instances'] += len(hy)
        res, s = run_smt('\n'.join(at.decls() + lines), timeout_ms, 'QF_LRA')
        if res == 'unsat':
            if plan:
                won[r] = won.get(r, 0) + 1
            return 'unsat', {'rounds': r}
    return res, {'rounds': r, 'diffs': diffs}


def simplify(ctx, q):
    """lemma used while executing: a shorter form of a (squared) norm, accepted only if the solver proves it equal"""
    if q.nterms() > ctx.__dict__.get('simplify_terms', 300):
        return q
    best = q
    for plan, _ in PLANS:
        cur = q
        for o, w in plan:
            cur = _divide(ctx, cur, _rules(ctx, o, w), {}, 3000, time.time() + 2)
            if cur is None:
                break
            if cur.nterms() < best.nterms() or (cur.isconst() and not best.isconst()):
                best = cur
        if best.isconst():
            break
    if best is q or best.nterms() > 2:
        return q
    r, _ = prove_eq(ctx, [(q, best)], timeout_ms=3000, rounds=(0, 1), cap=3000)
    return best if r == 'unsat' else q


# --------------------------------------------------------- nonlinear real part
class NRA:
    """polynomials over Real constants re/im of each variable"""

    def __init__(self, ctx, subst=None):
        self.ctx = ctx
        self.vars = {}
        self.sub = subst or {}
        self.side = []
        self.powcache = {}

    def var(self, s):
        """-> (re, im) z3 terms of slot s"""
        c = self.ctx
        if s in self.vars:
            return self.vars[s]
        if c.kind[s] == 'b':
            r, i = self.var(s - 1)
            v = (r, -i if i is not None else None)
        elif s in self.sub:
            z = self.sub[s]
            if isinstance(z, tuple):
                v = (z3.Q(*Fraction(z[0]).as_integer_ratio()), z3.Q(*Fraction(z[1]).as_integer_ratio()) if z[1] else None)
            else:
                v = (z3.Q(*Fraction(z).as_integer_ratio()), None)
        elif c.kind[s] == 'r':
            v = (z3.Real('r%d' % s), None)
        else:
            v = (z3.Real('r%d' % s), z3.Real('i%d' % s))
        self.vars[s] = v
        if s in c.square and s not in self.sub:
            x = v[0]
            self.side.append(x * x == z3.Q(*Fraction(c.square[s]).as_integer_ratio()))
            self.side.append(x > 0)
        return v

    @staticmethod
    def cmul(a, b):
        ar, ai = a
        br, bi = b
        if ai is None and bi is None:
            return (ar * br, None)
        if ai is None:
            return (ar * br, ar * bi)
        if bi is None:
            return (ar * br, ai * br)
        return (ar * br - ai * bi, ar * bi + ai * br)

    def pw(self, s, e):
        k = (s, e)
        if k in self.powcache:
            return self.powcache[k]
        if e > 0:
            v = self.var(s)
            for _ in range(e - 1):
                v = self.cmul(v, self.var(s))
        else:
            r, i = self.var(s)
            if i is None:
                v = (z3.Real('inv_r%d' % s), None)
                self.side.append(v[0] * r == 1)
            else:
                n = z3.Real('inv_n%d' % s)
                self.side.append(n * (r * r + i * i) == 1)
                v = (r * n, -i * n)
            self.powcache[(s, -1)] = v
            b = v
            for _ in range(-e - 1):
                v = self.cmul(v, b)
        self.powcache[k] = v
        return v

    def poly(self, p):
        res, ims = [], []
        for d, isim in ((p.re, False), (p.im or {}, True)):
            for k, v in d.items():
                c = z3.Q(*Fraction(v).as_integer_ratio())
                t = (c, None)
                for s, e in self.ctx.exps(k):
                    t = self.cmul(t, self.pw(s, e))
                if not isim:
                    res.append(t[0])
                    if t[1] is not None:
                        ims.append(t[1])
                else:
                    ims.append(t[0])
                    if t[1] is not None:
                        res.append(-t[1])
        z = z3.RealVal(0)
        return (z3.Sum(res) if res else z, z3.Sum(ims) if ims else z)

    def formula(self, f):
        if f[0] == 'const':
            return z3.BoolVal(f[1])
        if f[0] == 'z3':
            return f[1]
        if f[0] == 'not':
            return z3.Not(self.formula(f[1]))
        if f[0] == 'and':
            return z3.And(*[self.formula(x) for x in f[1:]])
        if f[0] == 'or':
            return z3.Or(*[self.formula(x) for x in f[1:]])
        _, p, op = f
        r, i = self.poly(p)
        if op == '>':
            return r > 0
        if op == '>=':
            return r >= 0
        return z3.And(r == 0, i == 0)

    def context(self, path=True, hyps=True, maxhyp=None):
        c = self.ctx
        out = []
        if path:
            for f, v in c.path:
                g = self.formula(f)
                out.append(g if v else z3.Not(g))
        for p, op in c.ineqs:
            r, _ = self.poly(p)
            out.append(r > 0 if op == '>' else r >= 0)
        for p in c.nonzero:
            r, i = self.poly(p)
            out.append(z3.Or(r != 0, i != 0))
        if hyps:
            for h in c.hyps:
                if maxhyp is not None and h.nterms() > maxhyp:
                    continue
                r, i = self.poly(h)
                out.append(r == 0)
                if not z3.is_rational_value(i) and not (z3.is_rational_value(z3.simplify(i))):
                    out.append(i == 0)
        return out


def _vars_of(ctx, p):
    out = set()
    for k in list(p.re) + list(p.im or {}):
        for s, e in ctx.exps(k):
            out.add(s - 1 if ctx.kind[s] == 'b' else s)
    return out


def _fvars(ctx, f):
    if f[0] == 'cmp':
        return _vars_of(ctx, f[1])
    if f[0] in ('const', 'z3'):
        return set()
    r = set()
    for g in f[1:]:
        r |= _fvars(ctx, g)
    return r


def _slice(ctx, seed, maxterms=60):
    """facts connected to seed through shared variables"""
    facts = []
    for f, v in ctx.path:
        facts.append((_fvars(ctx, f), 'p', (f, v)))
    for q in ctx.ineqs:
        facts.append((_vars_of(ctx, q[0]), 'i', q))
    for h in ctx.hyps:
        if h.nterms() <= maxterms:
            facts.append((_vars_of(ctx, h), 'h', h))
    for n in ctx.nonzero:
        if n.nterms() <= maxterms:
            facts.append((_vars_of(ctx, n), 'n', n))
    return facts


def feasible(ctx, cond, val, timeout_ms=400):
    n = NRA(ctx)
    seed = _fvars(ctx, cond)
    facts = _slice(ctx, seed, 40)
    # transitive closure through facts, limited to two hops for hypotheses
    vs = set(seed)
    use, ids = [], set()
    for _ in range(2):
        add = set()
        for f in facts:
            if id(f) in ids:
                continue
            if f[0] & vs or not f[0]:
                ids.add(id(f))
                use.append(f)
                add |= f[0]
        vs |= add
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    g = n.formula(cond)
    s.add(g if val else z3.Not(g))
    for vsn, kind, x in use:
        if kind == 'p':
            g = n.formula(x[0])
            s.add(g if x[1] else z3.Not(g))
        elif kind == 'i':
            r, _ = n.poly(x[0])
            s.add(r > 0 if x[1] == '>' else r >= 0)
        elif kind == 'h':
            r, i = n.poly(x)
            s.add(r == 0, i == 0)
        else:
            r, i = n.poly(x)
            s.add(z3.Or(r != 0, i != 0))
    for g in n.side:
        s.add(g)
    t0 = time.time()
    r = s.check()
    STATS['feas_queries'] += 1
    STATS['solver_s'] += time.time() - t0
    return r != z3.unsat


def prove_formula(ctx, cond, timeout_ms=60000, hints=()):
    """hypotheses & path |= cond ? -> 'unsat' (proved) / 'sat' / 'unknown'"""
    for use_h in (False, True):
        n = NRA(ctx)
        s = z3.Solver()
        s.set('timeout', int(timeout_ms))
        for c in n.context(hyps=use_h):
            s.add(c)
        for h in hints:
            s.add(n.formula(h))
        s.add(z3.Not(n.formula(cond)))
        for g in n.side:
            s.add(g)
        t0 = time.time()
        r = str(s.check())
        STATS['solver_s'] += time.time() - t0
        STATS['queries'] += 1
        STATS[r] += 1
        if r == 'unsat' or (use_h is False and not ctx.hyps):
            break
    return r, s, n


def model_values(ctx, s, n, slots):
    m = s.model()
    out = {}

    def val(t):
        if t is None:
            return 0.0
        v = m.eval(t, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    for sl in slots:
        r, i = n.var(sl)
        out[sl] = complex(val(r), val(i)) if ctx.kind[sl] == 'c' else val(r)
    return out


def find_witness(ctx, bad, slots, rng, timeout_ms=8000, tries=6):
    """bad: formula that must be true.  Candidate assignments for input slots:
    solver models first (fully free, then with most inputs pinned to small
    rationals chosen by rng and the rest left to the solver)."""
    outs = []

    def attempt(sub, tmo):
        n = NRA(ctx, sub)
        s = z3.Solver()
        s.set('timeout', int(tmo))
        for c in n.context(hyps=True):
            s.add(c)
        s.add(n.formula(bad))
        for g in n.side:
            s.add(g)
        t0 = time.time()
        r = s.check()
        STATS['solver_s'] += time.time() - t0
        STATS['queries'] += 1
        STATS[str(r)] += 1
        if r == z3.sat:
            try:
                outs.append(model_values(ctx, s, n, slots))
            except Exception:
                return False
            return True
        return False

    def rnd():
        while True:
            f = Fraction(rng.randint(-12, 12), rng.choice([4, 5, 6, 8]))
            if f:
                return f
    free = [s for s in slots]
    for t in range(tries):
        sub = {}
        keep = rng.randint(0, 2) if t else 0
        k = set(rng.sample(free, min(keep, len(free))))
        for s in free:
            if s in k or s in ctx.square:
                continue
            sub[s] = (rnd(), rnd()) if ctx.kind[s] == 'c' else rnd()
        attempt(sub, min(timeout_ms, 4000))
        if len(outs) >= 2:
            break
    if len(outs) < 2:
        attempt({}, timeout_ms)
    return outs

import sys, os, time, io, contextlib, warnings, traceback, random
import numpy as np
from . import sym, stubs, solve, env
from .sym import Ctx, Poly, P, SymBool, EncodeError, PathAbort, arr


class SymEnv(env.Base):
    symbolic = True
    dtype = object
    kind = 's'

    def __init__(self, ctx):
        self.ctx = ctx
        self.goals = []
        self.slots = {}
        self.made = {}
        ctx.posvars = set()

    def _var(self, name, real):
        c = self.ctx
        if (name, real) in self.made:            # the same name is the same input
            return self.made[(name, real)]
        v = c.rvar(name) if real else c.cvar(name)
        self.slots[name] = c.slot[name]
        self.made[(name, real)] = v
        return v

    def tensor(self, name, shape, real=None):
        real = self.ctx.real if real is None else (real or self.ctx.real)
        return arr(lambda i: self._var('%s[%s]' % (name, ','.join(map(str, i))), real), tuple(shape))

    def scalar(self, name, real=False, pos=False, lo=None, hi=None):
        real = real or pos or lo is not None or hi is not None or self.ctx.real
        v = self._var(name, real)
        if pos:
            self.ctx.assume_pos(v)
            self.ctx.posvars.add(self.ctx.slot[name])
        if lo is not None:
            self.ctx.assume_ge(v - lo)
        if hi is not None:
            self.ctx.assume_ge(hi - v)
        return v

    def isometry(self, name, m, n):
        q = arr(lambda i: self._hid('%s[%d,%d]' % (name, i[0], i[1])), (m, n))
        stubs.hyp_mat(stubs.mm(stubs.conjT(q), q), stubs.eye(n))
        if m == n:
            stubs.hyp_mat(stubs.mm(q, stubs.conjT(q)), stubs.eye(n))
        return q

    def word(self, name, bits=64):
        from . import bits as b
        w = b.Word(b.z3.BitVec(name, bits))
        self.ctx.__dict__.setdefault('words', {})[name] = w
        return w

    def _hid(self, name):
        return self.ctx.rvar(name) if self.ctx.real else self.ctx.cvar(name)

    def unit(self, name):
        if self.ctx.real:
            return P(1)
        v = self.ctx.cvar(name)
        self.ctx.hyp_zero(v * v.conjugate() - 1)
        return v

    def descending(self, name, n):
        if (name, 'descending') in self.made:
            return self.made[(name, 'descending')].copy()
        s = self.made[(name, 'descending')] = arr(lambda i: self._var('%s[%d]' % (name, i[0]), True), (n,))
        for i in range(n - 1):
            self.ctx.assume_ge(s[i] - s[i + 1])
        self.ctx.assume_pos(s[n - 1])
        return s.copy()

    def const(self, a):
        a = np.asarray(a)
        return arr(lambda i: P(a[i]), a.shape)

    def sqrt(self, x):
        return sym.sqrt(P(x))

    def fro2(self, x):
        return stubs.fro2(x)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.ctx.path.append((cond.f, True))
        elif not cond:
            raise PathAbort('assume')

    def hook(self, name, fn):
        self.ctx.__dict__[name] = fn

    # goals
    def eq(self, label, lhs, rhs, tol=None):
        try:
            l, r = stubs.obj(lhs), stubs.obj(rhs)
        except Exception as e:
            self.goals.append(('static', label, 'uncomparable %r' % (e,)))
            return
        if l.shape != r.shape:
            self.goals.append(('static', label, 'shape %s != %s' % (l.shape, r.shape)))
            return
        try:
            pairs = [(P(a), P(b)) for a, b in zip(l.ravel(), r.ravel())]
        except EncodeError as e:
            if 'non-finite' in str(e):
                self.goals.append(('static', label, str(e)))
                return
            raise
        self.goals.append(('eq', label, pairs))

    def norm_is(self, label, value, x):
        """value is the Frobenius norm of x"""
        for z, a in self.ctx.__dict__.get('norms_of', []):
            if (P(value) - z).iszero() and a.shape == np.shape(x):
                self.eq(label, a, x)
                return
        self.eq(label, value * value, self.fro2(x))

    def true(self, label, cond):
        if isinstance(cond, SymBool):
            if cond.f[0] == 'const':
                cond = cond.f[1]
            else:
                self.goals.append(('form', label, cond.f))
                return
        if isinstance(cond, Poly):
            cond = bool(cond)
        self.goals.append(('bool', label, bool(cond)))

    def ge(self, label, a, b):
        self.true(label, P(a) >= P(b))

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except EncodeError:
            raise
        except exc:
            self.goals.append(('bool', label, True))
            return
        except Exception as e:
            self.goals.append(('static', label, 'raised %r' % (e,)))
            return
        self.goals.append(('static', label, 'did not raise'))


# ------------------------------------------------------------- path exploration
def explore(sc, params, seed, tier, deadline):
    """symbolically execute one scenario instance over all paths"""
    rng = random.Random(seed)
    res = {'scenario': sc['name'], 'params': params, 'paths': 0, 'goals': 0, 'decided': 0, 'violations': [], 'inconclusive': [],
           'terms': 0, 'vars': 0, 'decisions': 0, 'notes': set(), 'samples': [], 'reached': False, 'aborted': 0, 'forks': 0}
    work = [[]]
    solve.reset_stats()
    t0 = time.time()
    while work:
        prefix = work.pop()
        if len(res['violations']) > 2:
            break
        if res['paths'] >= sc['max_paths'] or time.time() > min(deadline, STOP.value if STOP is not None else deadline):
            res['inconclusive'].append(('bound', 'path/time bound reached with %d prefixes left' % (len(work) + 1)))
            break
        c = Ctx(mode=params.get('mode', sc['mode']), real=params.get('real', sc['real']))
        c.feas = solve.feasible
        c.simplify = solve.simplify
        c.prefix = prefix
        E = SymEnv(c)
        Ctx.cur = c
        p = {k: v for k, v in params.items() if k not in ('mode', 'real')}
        exc = None
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sc['f'](E, **p)
        except PathAbort:
            res['aborted'] += 1
            Ctx.cur = None
            continue
        except EncodeError as e:
            exc = ('encode', e, traceback.format_exc())
        except RecursionError as e:
            exc = ('encode', e, traceback.format_exc()[:1500] + '\n...\n' + traceback.format_exc()[-600:])
        except (Exception, SystemExit) as e:
            exc = ('raise', e, traceback.format_exc())
        for i in range(len(prefix), len(c.decisions)):
            v, both = c.decisions[i]
            if both:
                work.append([d[0] if isinstance(d, tuple) else d for d in c.decisions[:i]] + [not v])
                res['forks'] += 1
        res['paths'] += 1
        res['decisions'] += len(c.decisions)
        res['vars'] = max(res['vars'], len(c.names))
        res['notes'] |= c.notes
        if exc:
            if exc[0] == 'encode':
                res['inconclusive'].append(('encode', '%s: %s' % (type(exc[1]).__name__, exc[1]), exc[2][-2400:]))
            else:
                w = _witnesses(E, c, None, rng)
                res['violations'].append({'label': 'raises', 'what': '%s: %s' % (type(exc[1]).__name__, exc[1]), 'tb': exc[2][-1500:],
                                          'witnesses': w})
            Ctx.cur = None
            continue
        try:
            for g in E.goals:
                res['goals'] += 1
                _decide(E, c, g, res, rng, deadline, tier)
                if len(res['violations']) > 2:
                    break
                if STOP is not None and time.time() > STOP.value:
                    res['inconclusive'].append(('time', 'time budget spent'))
                    break
        finally:
            Ctx.cur = None
    res['notes'] = sorted(res['notes'])
    res['solver'] = dict(solve.STATS)
    res['cross'] = {k: v for k, v in solve.CROSS.items() if k != 'on'}
    res['wall'] = time.time() - t0
    return res


STOP = None


def _decide(E, c, g, res, rng, deadline, tier):
    kind, label = g[0], g[1]
    left = max(5.0, min(120.0, deadline - time.time(), (STOP.value - time.time()) if STOP is not None else 120.0))
    if kind == 'bool':
        res['reached'] = True
        if g[2]:
            res['decided'] += 1
        else:
            res['violations'].append({'label': label, 'what': 'false', 'witnesses': _witnesses(E, c, None, rng)})
        return
    if kind == 'static':
        res['violations'].append({'label': label, 'what': g[2], 'witnesses': _witnesses(E, c, None, rng)})
        return
    if kind == 'eq':
        res['reached'] = True
        pairs = g[2]
        res['terms'] += sum(a.nterms() + b.nterms() for a, b in pairs)
        # keep queries moderate
        chunk, size = [], 0
        chunks = []
        for ab in pairs:
            chunk.append(ab)
            size += ab[0].nterms() + ab[1].nterms()
            if size > 20000 or len(chunk) >= 512:
                chunks.append(chunk)
                chunk, size = [], 0
        if chunk:
            chunks.append(chunk)
        for ch in chunks:
            r, info = solve.prove_eq(c, ch, timeout_ms=left * 1000)
            if r == 'unsat':
                continue
            # equality may follow from path conditions (x == 0 branches, orders)
            d = [q for q in info.get('diffs', [])][:40]
            if c.path and d and sum(q.nterms() for q in d) < 400:
                f = ('and',) + tuple(('cmp', q, '==') for q in d)
                r2 = solve.prove_formula(c, f, timeout_ms=5000)[0]
                if r2 == 'unsat':
                    continue
            if r == 'unknown':
                res['inconclusive'].append(('unknown', label))
                return
            bad = None
            if d:
                q = min(d, key=lambda x: x.nterms())
                bad = ('not', ('cmp', q, '=='))
            res['violations'].append({'label': label, 'what': 'differs: ' + '; '.join(sym.pretty(q, 5) for q in d[:2]),
                                      'witnesses': _witnesses(E, c, bad, rng)})
            return
        res['decided'] += 1
        if len(res['samples']) < 2 and pairs:
            a, b = max(pairs, key=lambda t: t[0].nterms())
            res['samples'].append('%s: %s  ==  %s  for all values: unsat(negation)' % (label, sym.pretty(a, 3), sym.pretty(b, 3)))
        return
    if kind == 'form':
        res['reached'] = True
        r = solve.prove_formula(c, g[2], timeout_ms=left * 1000 if tier != 'quick' else min(left, 40) * 1000)
        if r[0] == 'unsat':
            res['decided'] += 1
            if len(res['samples']) < 2:
                res['samples'].append('%s: formula valid (negation unsat)' % label)
        elif r[0] == 'sat':
            w = []
            try:
                w.append(_named(E, solve.model_values(c, r[1], r[2], list(E.slots.values()))))
                for n, x in c.__dict__.get('words', {}).items():
                    w[-1][n] = r[1].model().eval(x.t, model_completion=True).as_long()
            except Exception:
                pass
            res['violations'].append({'label': label, 'what': 'formula false', 'witnesses': w + _witnesses(E, c, ('not', g[2]), rng)})
        else:
            res['inconclusive'].append(('unknown', label))


def _named(E, vals):
    out = {}
    inv = {s: n for n, s in E.slots.items()}
    for s, v in vals.items():
        if s in inv:
            out[inv[s]] = [v.real, v.imag] if isinstance(v, complex) else v
    return out


def _witnesses(E, c, bad, rng):
    """concrete inputs: solver models for (path & bad) if given; {} = generic"""
    out = []
    slots = list(E.slots.values())
    if bad is not None or c.path:
        try:
            # without path conditions two different polynomials differ almost everywhere: the generic input decides
            ms = solve.find_witness(c, bad if bad is not None else ('const', True), slots, rng, timeout_ms=4000 if c.path else 1500,
                                    tries=4 if c.path else 1)
            out += [_named(E, m) for m in ms]
        except Exception:
            pass
    out.append({})
    return out

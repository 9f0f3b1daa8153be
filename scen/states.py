"""S05-S08, S12, S17, S25, S26: finite MPS objects."""
import os, tempfile, shutil
import numpy as np
from vt.env import scenario
from . import oracle as o
from .gauge import build, placed, canonical, check_iso

PAIR = [dict(d=[2, 2], D1=[1, 2, 1], D2=[1, 3, 1], p1=2, p2=2), dict(d=[2, 2], D1=[1, 2, 1], D2=[1, 2, 1], p1=1, p2=0),
        dict(d=[2, 3], D1=[1, 1, 1], D2=[1, 2, 1], p1=0, p2=1), dict(d=[2, 2, 2], D1=[1, 2, 2, 1], D2=[1, 2, 1, 1], p1=1, p2=2),
        dict(d=[2, 3, 2], D1=[1, 1, 2, 1], D2=[1, 2, 2, 1], p1=2, p2=3)]


@scenario('S05', params=[dict(p, op=op) for p in PAIR for op in ('add', 'sub', 'iadd')] +
                        [dict(PAIR[1], op=op, mix=mx) for op in ('add', 'sub', 'iadd') for mx in (1, 2)])
def binary(E, d, D1, D2, p1, p2, op, mix=0):
    a = placed(E, d, D1, p1, 'A') if mix != 1 else real_placed(E, d, D1, p1, 'A')
    b = placed(E, d, D2, p2, 'B') if mix != 2 else real_placed(E, d, D2, p2, 'B')
    va, vb = o.mps_state(a), o.mps_state(b)
    keep = [np.array(t) for t in b.tensors]
    if op == 'add':
        c = a + b
    elif op == 'sub':
        c = a - b
    else:
        c = a
        c += b
    E.eq('amplitudes of the result', o.mps_state(c), va + vb if op != 'sub' else va - vb)
    E.eq('second operand unchanged', o.mps_state(b), vb)
    for n in range(len(d)):
        E.eq('second operand tensor %d unchanged' % n, b[n], keep[n])
    E.true('second operand keeps its centre', b.pos == p2)
    if op != 'iadd':
        E.eq('first operand unchanged', o.mps_state(a), va)
        E.true('first operand keeps its centre', a.pos == p1)
    E.true('length', len(c) == len(d))


def real_placed(E, d, D, pos, name):
    ts = [E.tensor('%s%d' % (name, n), (D[n], D[n + 1], d[n]), real=True) for n in range(len(d))]
    m = E.mps.MPS(ts)
    m._mat = E.tensor(name + 'C', (D[pos], D[pos]), real=True)
    m._position = pos
    m._Z = E.scalar(name + 'Z', real=True)
    return m


@scenario('S05', params=[dict(d=[2, 2], D=[1, 2, 1], pos=1), dict(d=[2, 2], D=[1, 2, 1], pos=0), dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=2),
                         dict(d=[2, 2, 2], D=[1, 2, 2, 1], pos=3)])
def unary(E, d, D, pos):
    a = placed(E, d, D, pos)
    va = o.mps_state(a)
    s = E.scalar('s')
    E.eq('a*s', o.mps_state(a * s), va * s)
    E.eq('s*a', o.mps_state(s * a), va * s)
    E.eq('a/s * s', o.mps_state(a / s) * s, va)
    E.eq('-a', o.mps_state(-a), -va)
    E.eq('+a', o.mps_state(+a), va)
    E.eq('conjugate', o.mps_state(a.conjugate()), np.conj(va))
    E.eq('operand unchanged', o.mps_state(a), va)
    E.true('centre unchanged', a.pos == pos)
    b = a.copy()
    b *= s
    E.eq('a*=s', o.mps_state(b), va * s)
    E.eq('operand unchanged by *= on a copy', o.mps_state(a), va)
    b = a.copy()
    b.conj()
    E.eq('in-place conj', o.mps_state(b), np.conj(va))
    E.eq('original unchanged by in-place conj of a copy', o.mps_state(a), va)


@scenario('S05', params=[dict(d=[2, 2], D1=[1, 2, 1], D2=[1, 2, 1], p1=1, p2=0), dict(d=[2, 3], D1=[1, 1, 1], D2=[1, 2, 1], p1=0, p2=2)])
def combined_history(E, d, D1, D2, p1, p2):
    """a linear combination built in several steps with centre moves in between"""
    a, b = placed(E, d, D1, p1, 'A'), placed(E, d, D2, p2, 'B')
    va, vb = o.mps_state(a), o.mps_state(b)
    s = E.scalar('s')
    c = (a * s) - b
    c.position(1)
    E.eq('s*a-b after moving the centre', o.mps_state(c), va * s - vb)
    c += a
    E.eq('added in place mid-chain', o.mps_state(c), va * s - vb + va)
    c = -c
    c.position(0)
    E.eq('negated and moved', o.mps_state(c), vb - va * s - va)


@scenario('S05', params=[dict(d=[2, 2], D1=[1, 2, 1], D2=[1, 3, 1]), dict(d=[2, 3, 2], D1=[1, 2, 2, 1], D2=[1, 1, 2, 1])])
def list_addition(E, d, D1, D2):
    a, b = E.mps_tensors('A', d, D1), E.mps_tensors('B', d, D2)
    z1, z2 = E.scalar('z1'), E.scalar('z2')
    c = E.mf.addMPS(a, z1, b, z2)
    E.eq('list sum', o.chain_state(c), o.chain_state(a) * z1 + o.chain_state(b) * z2)


@scenario('S05', params=[dict(s1=[1, 2], s2=[2, 1]), dict(s1=[2, 2], s2=[2, 3]), dict(s1=[2, 2], s2=[1, 1], mix=True)])
def direct_sum(E, s1, s2, mix=False):
    a, b = E.tensor('a', s1, real=mix or None), E.tensor('b', s2)
    c = E.mf.directsum(a, b)
    ref = np.zeros((s1[0] + s2[0], s1[1] + s2[1]), dtype=E.dtype) * 0
    ref[:s1[0], :s1[1]] = a
    ref[s1[0]:, s1[1]:] = b
    E.eq('block diagonal', c, ref)


@scenario('S05', params=[dict(d=[2, 2], D=[1, 2, 1], N=2)])
def cyclic_addition(E, d, D, N):
    """periodic tensors: traces of the summed unit cell are sums of traces"""
    a = [E.tensor('A%d' % n, (2, 2, 2)) for n in range(N)]
    b = [E.tensor('B%d' % n, (1, 1, 2)) for n in range(N)]
    z1, z2 = E.scalar('z1'), E.scalar('z2')
    c = E.mf.addMPS(a, z1, b, z2, obc=False)
    tr = lambda ts: np.trace(o.contract_chain(ts), axis1=0, axis2=-1) if False else np.einsum('a...a->...', o.contract_chain(ts))
    tr = lambda ts: sum(o.contract_chain(ts)[i, ..., i] for i in range(ts[0].shape[0]))
    E.eq('trace sum', tr(c), tr(a) * z1 + tr(b) * z2)


# ------------------------------------------------------------------ S06
@scenario('S06', params=PAIR)
def overlap_objects(E, d, D1, D2, p1, p2):
    a, b = placed(E, d, D1, p1, 'A'), placed(E, d, D2, p2, 'B')
    va, vb = o.mps_state(a), o.mps_state(b)
    r = E.mf.overlap(a, b)
    E.eq('overlap', r, o.inner(vb, va))
    E.eq('dot', a.dot(b), o.inner(vb, va))
    E.eq('other way is the conjugate', E.mf.overlap(b, a), o.inner(va, vb))
    E.eq('first state unchanged', o.mps_state(a), va)
    E.eq('second state unchanged', o.mps_state(b), vb)
    E.true('centres unchanged', a.pos == p1 and b.pos == p2)


@scenario('S06', params=[dict(d=[2, 2], D=[1, 2, 1], path=[0]), dict(d=[2, 2, 2], D=[1, 2, 2, 1], path=[0, 2])])
def overlap_after_moves(E, d, D, path):
    """centre moves do not change overlaps (phases of the factorisation cancel)"""
    a, ts = build(E, d, D, 'A')
    b, us = build(E, d, D, 'B')
    ref = o.inner(o.chain_state(us), o.chain_state(ts))
    for x in path:
        a.position(x)
        E.eq('after moving the first state to %d' % x, E.mf.overlap(a, b), ref)
    b.position(path[-1])
    E.eq('after moving both', E.mf.overlap(a, b), ref)


@scenario('S06', params=[dict(d=[2, 2], D=[1, 2, 1]), dict(d=[2, 3, 2], D=[1, 2, 3, 1])])
def overlap_lists(E, d, D):
    a, b = E.mps_tensors('A', d, D), E.mps_tensors('B', d, D)
    E.eq('overlap of lists', E.mf.overlap(a, b), o.inner(o.chain_state(b), o.chain_state(a)))


# ------------------------------------------------------------------ S07
CAN = [dict(d=[2, 2], D=[1, 2, 1], pos=p) for p in (0, 1, 2)] + [dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=1), dict(d=[2, 2, 2], D=[1, 1, 2, 1], pos=0),
                                                                dict(d=[2, 2, 2], D=[1, 2, 1, 1], pos=3), dict(d=[3, 2, 2], D=[1, 1, 2, 1], pos=2)]


@scenario('S07', mode='fresh', params=[dict(p, site=s) for p in CAN for s in range(len(p['d']))])
def measure_local(E, d, D, pos, site):
    m = canonical(E, d, D, pos, unit=True)
    psi = o.mps_state(m)
    op = E.tensor('O', (d[site], d[site]))
    E.eq('expectation value', m.measureLocal(op, site), o.expect(psi, {site: op}))
    E.true('centre restored', m.pos == pos)
    E.eq('state unchanged', o.mps_state(m), psi)


def general_at(E, d, gen):
    """one arbitrary operator at site gen (None: at every site), Hermitian ones elsewhere"""
    return [E.tensor('O%d' % n, (x, x)) if gen is None or n == gen else E.herm('O%d' % n, x) for n, x in enumerate(d)]


@scenario('S07', mode='fresh', params=[dict(d=[2, 2], D=[1, 2, 1], pos=0, gen=None)] +
          [dict(d=[2, 2], D=[1, 2, 1], pos=1, gen=g) for g in (0, 1)] +
          [dict(d=[2, 3], D=[1, 1, 1], pos=2, gen=g) for g in (0, 1)] + [dict(d=[2, 2, 2], D=[1, 1, 2, 1], pos=0, gen=g) for g in (0, 1, 2)],
          thorough=[dict(d=[2, 2], D=[1, 2, 1], pos=2, gen=1)])
def measure_list(E, d, D, pos, gen):
    """normalised states: the list measurement divides by the norm of the chain and multiplies by |Z|^2"""
    m = canonical(E, d, D, pos)
    E.ctx.hyp_zero(E.fro2(m._mat) - 1) if E.symbolic else m.__dict__.update(_mat=m._mat / np.linalg.norm(m._mat))
    psi = o.mps_state(m)
    ops = general_at(E, d, gen)
    r = m.measureList(ops)
    n2 = o.inner(psi, psi)
    for n in range(len(d)):
        # value is <O>/<1> times |Z|^2
        E.eq('site %d' % n, r[n] , o.expect(psi, {n: ops[n]}))
    E.true('centre restored', m.pos == pos)


@scenario('S07', params=[dict(d=[2, 2], D=[1, 2, 1], p1=0, p2=0), dict(d=[2, 2], D=[1, 2, 1], p1=2, p2=1), dict(d=[2, 3], D=[1, 2, 1], p1=1, p2=1),
                         dict(d=[2, 3, 2], D=[1, 2, 2, 1], p1=0, p2=0), dict(d=[2, 2, 2], D=[1, 2, 2, 1], p1=1, p2=0)])
def matrix_element_list(E, d, D, p1, p2):
    a, b = placed(E, d, D, p1, 'A'), placed(E, d, D, p2, 'B')
    va, vb = o.mps_state(a), o.mps_state(b)
    ops = [E.tensor('O%d' % n, (x, x)) for n, x in enumerate(d)]
    r = a.measureMatrixElementList(b, ops)
    for n in range(len(d)):
        E.eq('site %d' % n, r[n], o.inner(vb, o.op_on(va, ops[n], n)))
    E.true('centres restored', a.pos == p1 and b.pos == p2)
    E.eq('first state unchanged', o.mps_state(a), va)
    E.eq('second state unchanged', o.mps_state(b), vb)


@scenario('S07', params=[dict(d=[2, 2], D1=[1, 2, 1], D2=[1, 3, 1]), dict(d=[2, 3, 2], D1=[1, 2, 2, 1], D2=[1, 1, 2, 1])])
def matrix_element_lists(E, d, D1, D2):
    a, b = E.mps_tensors('A', d, D1), E.mps_tensors('B', d, D2)
    va, vb = o.chain_state(a), o.chain_state(b)
    ops = [E.tensor('O%d' % n, (x, x)) for n, x in enumerate(d)]
    r = E.mf.matrixElementLocal(a, b, ops, np.ones((1, 1, 1)), np.ones((1, 1, 1)))
    for n in range(len(d)):
        E.eq('site %d' % n, r[n], o.inner(vb, o.op_on(va, ops[n], n)))


@scenario('S07', params=[dict(d=[2, 2], D=[1, 2, 1]), dict(d=[2, 3, 2], D=[1, 2, 2, 1])])
def matrix_element_real_states(E, d, D):
    """real states, complex operators"""
    a = [E.tensor('A%d' % n, (D[n], D[n + 1], d[n]), real=True) for n in range(len(d))]
    b = [E.tensor('B%d' % n, (D[n], D[n + 1], d[n]), real=True) for n in range(len(d))]
    va, vb = o.chain_state(a), o.chain_state(b)
    ops = [E.tensor('O%d' % n, (x, x)) for n, x in enumerate(d)]
    r = E.mf.matrixElementLocal(a, b, ops, np.ones((1, 1, 1)), np.ones((1, 1, 1)))
    for n in range(len(d)):
        E.eq('site %d' % n, r[n], o.inner(vb, o.op_on(va, ops[n], n)))


@scenario('S07', params=[dict(d=[2, 2], D=[1, 2, 1], site=0), dict(d=[2, 3, 2], D=[1, 1, 2, 1], site=1), dict(d=[2, 2, 2], D=[1, 2, 1, 1], site=2)])
def measure_function(E, d, D, site):
    """list version with explicit boundaries: ratio of the two contractions"""
    a = E.mps_tensors('A', d, D)
    psi = o.chain_state(a)
    op = E.tensor('O', (1, 1, d[site], d[site]))
    r = E.mf.measure(op, np.ones((1, 1, 1)), np.ones((1, 1, 1)), a, site)
    E.eq('ratio', r * o.inner(psi, psi), o.expect(psi, {site: op[0, 0]}))


@scenario('S07', mode='fresh', params=[dict(d=[2, 2], D=[1, 2, 1], ortho='right', gen=None), dict(d=[2, 3], D=[1, 2, 1], ortho='left', gen=None)] +
          [dict(d=[2, 2, 2], D=[1, 1, 2, 1], ortho='right', gen=g) for g in (0, 1, 2)] + [dict(d=[2, 2, 2], D=[1, 2, 1, 1], ortho='left', gen=g) for g in (0, 1, 2)])
def measure_local_lists(E, d, D, ortho, gen):
    m = canonical(E, d, D, 0 if ortho == 'right' else len(d))
    ts = [np.array(t) for t in m.tensors]
    psi = o.chain_state(ts)
    ops = general_at(E, d, gen)
    r = E.mf.measureLocal(ts, ops, np.ones((1, 1, 1)), np.ones((1, 1, 1)), ortho)
    for n in range(len(d)):
        E.eq('site %d' % n, r[n], o.expect(psi, {n: ops[n]}))


# ------------------------------------------------------------------ S08
def corr_oracle(psi, d, ops, sites, P=None):
    """sum psi (prod_k O_k) conj(psi) with O_k = (prod_{m<site_k} P_m) op_k, matrix products in the given order"""
    phi = psi
    for op, s in zip(ops, sites):
        if P is not None:
            for m in range(s):
                phi = o.op_on(phi, P[m], m)
        phi = o.op_on(phi, op, s)
    return o.inner(psi, phi)


MS = [[0], [1], [0, 1], [0, 0], [1, 1], [0, 0, 1], [0, 1, 1]]
MS3 = [[0], [2], [0, 2], [1, 2], [0, 1, 2], [0, 0, 2], [2, 2], [0, 2, 2], [1, 1, 2]]


@scenario('S08', mode='fresh', params=[dict(d=[2, 2], D=[1, 2, 1], pos=(s[-1] + 1), sites=s) for s in MS] +
                                      [dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=(s[-1] + 1), sites=s) for s in MS3[:6]] +
                                      [dict(d=[2, 2], D=[1, 2, 1], pos=0, sites=[0, 1]), dict(d=[2, 2], D=[1, 2, 1], pos=2, sites=[0]),
                                       dict(d=[2, 2], D=[1, 2, 1], pos=1, sites=[1])])
def correlator(E, d, D, pos, sites):
    m = canonical(E, d, D, pos)
    psi = o.mps_state(m)
    ops = [E.tensor('O%d' % n, (d[s], d[s])) for n, s in enumerate(sites)]
    r = m.measure([np.array(x) for x in ops], list(sites))
    E.eq('correlator', r, corr_oracle(psi, d, ops, sites))
    E.eq('state unchanged', o.mps_state(m), psi)


@scenario('S08', mode='fresh', params=[dict(N=2, pos=s[-1] + 1, sites=s) for s in MS] + [dict(N=3, pos=s[-1] + 1, sites=s) for s in MS3] +
                                      [dict(N=4, pos=4, sites=[0, 3])],
          thorough=[dict(N=4, pos=4, sites=s) for s in ([0, 1, 3], [1, 3], [0, 2, 3, 3])])
def fermionic_correlator(E, N, pos, sites):
    """arbitrary string operators with P^2=1 (diagonal signs), arbitrary local operators"""
    d = [2] * N
    D = [1] + [2] * (N - 1) + [1]
    m = canonical(E, d, D, pos)
    psi = o.mps_state(m)
    P = [np.diag([1.0, -1.0]) for _ in range(N)]
    ops = [E.tensor('O%d' % n, (2, 2)) for n in range(len(sites))]
    r = m.measure([np.array(x) for x in ops], list(sites), P)
    E.eq('fermionic correlator', r, corr_oracle(psi, d, ops, sites, P))


@scenario('S08', mode='fresh', params=[dict(N=3, sites=[0, 2]), dict(N=2, sites=[0, 1])])
def fermionic_correlator_general_string(E, N, sites):
    """symbolic diagonal strings on every site"""
    d = [2] * N
    D = [1] + [2] * (N - 1) + [1]
    m = canonical(E, d, D, sites[-1] + 1)
    psi = o.mps_state(m)
    P = []
    for n in range(N):
        s = E.scalar('p%d' % n, real=True)
        z = s * 0
        P.append(np.array([[z + 1, z], [z, s]]))
    ops = [E.tensor('O%d' % n, (2, 2)) for n in range(2)]
    r = m.measure([np.array(x) for x in ops], list(sites), P)
    i, j = sites
    phi = o.op_on(psi, np.dot(ops[0], P[i]), i)
    for k in range(i + 1, j):
        phi = o.op_on(phi, P[k], k)
    phi = o.op_on(phi, ops[1], j)
    E.eq('string only between the operators', r, o.inner(psi, phi))

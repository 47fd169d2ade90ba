"""U(3)^5 flavour rotations of SMEFT coefficients: field-content model, group laws, invariants."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import mon, gen, eft
from mon import Family
import copy
import numpy as np

F = 'qudle'


def umats(rng, kind=None):
    kind = kind or str(rng.choice(['haar', 'haar', 'phases', 'perm', 'one', 'identity', 'small', 'small', 'plane']))
    U = {}
    for f in F:
        if kind == 'haar':
            U[f] = eft.unitary(rng)
        elif kind == 'phases':
            U[f] = np.diag(np.exp(1j * rng.uniform(0, 6.28, 3)))
        elif kind == 'small':       # close to unity, as generated by a short evolution
            H = rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3))
            Q, _ = np.linalg.qr(np.eye(3) + 10.0**rng.uniform(-9, -1.5) * (H - H.conj().T))
            U[f] = Q * np.sign(np.diag(Q).real)
        elif kind == 'plane':       # two generations only, real
            a, (p, q) = rng.uniform(0, 6.28), rng.permutation(3)[:2]
            U[f] = np.eye(3)
            U[f][p, p] = U[f][q, q] = np.cos(a)
            U[f][p, q], U[f][q, p] = np.sin(a), -np.sin(a)
        elif kind == 'perm':
            U[f] = np.eye(3)[rng.permutation(3)].astype(complex)
        else:
            U[f] = np.eye(3)
    if kind == 'one':
        U[F[int(rng.integers(5))]] = eft.unitary(rng)
    return kind, U


def full(rng, sm=False, symmetric=False):
    from wilson.util import smeftutil
    C = {}
    for k, s in smeftutil.C_keys_shape.items():
        if k in smeftutil.dim4_keys and not sm:
            continue
        if s == 1:
            C[k] = float(rng.normal()) if rng.random() < .7 else complex(*rng.normal(size=2))
        else:
            T = gen.carr(rng, s)
            if symmetric:
                T = symm(k, T)
            C[k] = T
    return C


def symm(k, T):
    c = eft.SMEFT_CLASS.get(k, 1)
    if c == 8:
        return np.einsum('ab,bl->al', eft.proj8(), T.reshape(27, 3)).reshape(T.shape)
    if eft.GENS[c]:
        G = eft.group(c, T.ndim)
        return sum(sg * (np.transpose(T, p).conj() if cc else np.transpose(T, p)) for p, cc, sg in G) / len(G)
    return T


def rot(C, U, which):
    if which == 'runner':
        from wilson.run.smeft.classes import SMEFT
        return SMEFT._flavor_rotation(C, Uq=U['q'], Uu=U['u'], Ud=U['d'], Ul=U['l'], Ue=U['e'])
    if which == 'runner-nosm':
        from wilson.run.smeft.classes import SMEFT
        return SMEFT._flavor_rotation(C, Uq=U['q'], Uu=U['u'], Ud=U['d'], Ul=U['l'], Ue=U['e'], sm_parameters=False)
    from wilson.util import smeft_warsaw
    return smeft_warsaw.flavor_rotation(C, U['q'], U['u'], U['d'], U['l'], U['e'])


def close_all(mon, A, B, key, msg, rtol=1e-12):
    mon.check(set(A) == set(B), key + '-keys', f'{msg}: {sorted(set(A) ^ set(B))[:6]}')
    for k in set(A) & set(B):
        mon.close(A[k], B[k], f'{key}:{k}', f'{msg} {k}', rtol=rtol, atol=1e-300)


def entries():
    from wilson.run.smeft.classes import SMEFT
    if not hasattr(SMEFT, '_flavor_rotation'):      # an internal helper of the running code
        return ['utility'] * 3
    return ['utility', 'runner', 'runner-nosm']


def model(rng, mon, i):
    """Every coefficient rotates according to its fields; unknown keys and inputs untouched; subsets independent of the rest."""
    which = entries()[i % 3]
    kind, U = umats(rng)
    C = full(rng, sm=which == 'runner')
    C0, U0 = copy.deepcopy(C), copy.deepcopy(U)
    R = rot(C, U, which)
    close_all(mon, R, eft.rotate(C0, U0), 'field-content', f'{which} {kind}')
    mon.check(all(np.array_equal(C[k], C0[k]) for k in C0) and set(C) == set(C0) and all(np.array_equal(U[f], U0[f]) for f in U), 'mutates', which)
    if which == 'utility':
        for n in (0, 1, 2, 7, 30):
            ks = [str(k) for k in rng.permutation(list(C))[:n]]
            P = rot({k: C[k] for k in ks}, U, which)
            close_all(mon, P, {k: R[k] for k in ks}, 'subset', f'{n} coefficients', rtol=1e-14)
    mon.case('model', which, kind, i)


def laws(rng, mon, i):
    which = entries()[i % 3]
    C = full(rng, sm=which == 'runner')
    k1, U = umats(rng)
    k2, V = umats(rng)
    I = {f: np.eye(3) for f in F}
    close_all(mon, rot(C, I, which), C, 'identity', which, rtol=1e-14)
    two = rot(rot(C, U, which), V, which)
    one = rot(C, {f: U[f] @ V[f] for f in F}, which)
    close_all(mon, two, one, 'composition', f'{which} {k1}/{k2}')
    back = rot(rot(C, U, which), {f: U[f].conj().T for f in F}, which)
    close_all(mon, back, C, 'inverse', f'{which} {k1}')
    # linear
    D = full(rng, sm=which == 'runner')
    x = float(rng.normal())
    A, B = rot(C, U, which), rot(D, U, which)
    S = rot({k: C[k] + x * D[k] for k in C}, U, which)
    close_all(mon, S, {k: np.asarray(A[k]) + x * np.asarray(B[k]) for k in A}, 'linear', which, rtol=1e-11)
    mon.case('laws', which, k1, k2, i)


def invariants(rng, mon, i):
    """Rotations keep operator symmetries, norms and flavour invariants; they never mix coefficients."""
    which = entries()[i % 3]
    kind, U = umats(rng, 'haar')
    C = full(rng, sm=which == 'runner', symmetric=True)
    R = rot(C, U, which)
    for k in R:
        T = np.asarray(R[k])
        if T.ndim == 0:
            mon.check(T == C[k], f'scalar:{k}', f'{T} {C[k]}')
            continue
        mon.close(symm(k, T), T, f'symmetry-lost:{k}', f'{which}', rtol=1e-12)
        mon.close(np.linalg.norm(T), np.linalg.norm(C[k]), f'norm:{k}', which, rtol=1e-12)
    if which == 'runner':
        for a, b in (('Gu', 'uphi'), ('Gd', 'dphi'), ('Ge', 'ephi'), ('Gu', 'uG')):
            mon.close(np.trace(R[a].conj().T @ R[b]), np.trace(C[a].conj().T @ C[b]), f'invariant:{b}', '', rtol=1e-11, atol=1e-11)
        mon.close(np.trace(R['phiq1'] @ R['Gu'] @ R['Gu'].conj().T), np.trace(C['phiq1'] @ C['Gu'] @ C['Gu'].conj().T), 'invariant:phiq1', '', rtol=1e-10, atol=1e-10)
        mon.close(np.einsum('ijkl,ji,lk', R['lq1'], R['phil1'], R['phiq1']), np.einsum('ijkl,ji,lk', C['lq1'], C['phil1'], C['phiq1']), 'invariant:lq1', '', rtol=1e-9, atol=1e-9)
        mon.close(np.einsum('ijkl,ij,kl', R['ledq'], R['Ge'].conj(), R['Gd'].T), np.einsum('ijkl,ij,kl', C['ledq'], C['Ge'].conj(), C['Gd'].T), 'invariant:ledq', '', rtol=1e-9, atol=1e-9)
    mon.case('inv', which, i)


FAMILIES = [Family('model', model, 60, 900), Family('laws', laws, 48, 700), Family('invariants', invariants, 48, 600)]
RULE = ('random tensors for all SMEFT coefficients rotated by random/structured unitary matrices through the utility and the runner, '
        'compared with a rotation built from the field content, and checked for group laws, invariants, symmetry; a case is a distinct draw')
if __name__ == '__main__':
    mon.run('C12', RULE, FAMILIES)

"""Executability of a transition, decided by one linear program.

Independent of the repository: a tree of states under all vertices of the
disturbance set (exact for linear dynamics and convex sets).
"""
import numpy as np
import scipy.optimize as opt

from . import hyb


class TooLarge(Exception):
    pass


def _normal(p, slack):
    nrm = np.linalg.norm(p.A, axis=1)
    nrm = np.where(nrm == 0, 1, nrm)
    return p.A, p.b - slack * nrm


def plan(ss, x, stay, target, N, closed, slack=0.0, most=300):
    """First input that brings `x` into `target` in N steps, or None.

    States between are in `stay`. Negative slack grows the sets.
    """
    n, m = ss.A.shape[0], ss.B.shape[1]
    W = hyb.disturbances(ss)
    if W is None:
        D = np.zeros((1, n))
    else:
        D = W.dot(np.asarray(ss.E).T)
    K = ss.K.flatten()
    # nodes of depth k; inputs are affine variables
    count = sum(len(D) ** k for k in range(N)) if closed else N
    if count * m > most or len(D) ** N > most:
        raise TooLarge()
    nv = count * m
    nxt = [0]

    def fresh():
        i = nxt[0]
        nxt[0] += 1
        M = np.zeros((m, nv))
        M[:, i * m:(i + 1) * m] = np.eye(m)
        return M
    rows, rhs = list(), list()

    def require(poly, M, c):
        A, b = _normal(poly, slack)
        rows.append(A.dot(M))
        rhs.append(b - A.dot(c))
    states = [(np.zeros((n, nv)), np.asarray(x, dtype=float))]
    first = None
    for k in range(N):
        shared = None if closed else fresh()
        new = list()
        for M, c in states:
            if k:
                require(stay, M, c)
            U = fresh() if closed else shared
            if first is None:
                first = U
            if ss.Uset.dim == m:
                require(ss.Uset, U, np.zeros(m))
            else:
                require(ss.Uset, np.vstack([U, M]),
                        np.hstack([np.zeros(m), c]))
            for d in D:
                new.append((ss.A.dot(M) + ss.B.dot(U),
                            ss.A.dot(c) + K + d))
        states = new
    for M, c in states:
        require(target, M, c)
    A = np.vstack(rows)
    b = np.hstack(rhs)
    r = opt.linprog(np.zeros(nv), A_ub=A, b_ub=b, bounds=(None, None),
                    method='highs')
    if r.status == 0:
        return first.dot(r.x)
    if r.status == 2:
        return None
    # undecided: minimise the violation
    A2 = np.hstack([A, -np.ones((len(b), 1))])
    c = np.zeros(nv + 1)
    c[-1] = 1
    r = opt.linprog(c, A_ub=A2, b_ub=b, bounds=(None, None), method='highs')
    if r.status == 0 and r.x[-1] <= 0:
        return first.dot(r.x[:-1])
    return None


def plan_any(ss, x, stays, targets, N, closed, slack=0.0):
    for s in stays:
        for t in targets:
            u = plan(ss, x, s, t, N, closed, slack)
            if u is not None:
                return u
    return None

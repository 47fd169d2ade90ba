"""Independent reference for running alpha_s and quark masses.

1-4 loop QCD beta function and mass anomalous dimension integrated with DOP853,
on-shell decoupling at fixed thresholds 1.3, 4.8 and 170 GeV.  No use of rundec.
Loop orders for which no closed decoupling constant is coded return None.
"""
import math
import numpy as np
from scipy.integrate import solve_ivp

MZ, MC, MB, MT = 91.1876, 1.3, 4.8, 170.
z3 = 1.2020569031595942
z5 = 1.0369277551433699
z2 = math.pi**2 / 6
z4 = math.pi**4 / 90
LN2 = math.log(2)


class Landau(Exception):
    pass


def betas(nf):
    b = [11 - 2*nf/3, 102 - 38*nf/3, 2857/2 - 5033*nf/18 + 325*nf**2/54,
         149753/6 + 3564*z3 - (1078361/162 + 6508/27*z3)*nf
         + (50065/162 + 6472/81*z3)*nf**2 + 1093/729*nf**3]
    return [x / 4**(i+1) for i, x in enumerate(b)]


def gammas(nf):
    return [1, (202/3 - 20*nf/9)/16,
            (1249 + (-2216/27 - 160*z3/3)*nf - 140*nf**2/81)/64,
            (4603055/162 + 135680*z3/27 - 8800*z5
             + (-91723/27 - 34192*z3/9 + 880*z4 + 18400*z5/9)*nf
             + (5242/243 + 800*z3/9 - 160*z4/3)*nf**2
             + (-332/243 + 64*z3/27)*nf**3)/256]


def run(a0, mu0, mu1, nf, loop):
    if mu0 == mu1:
        return a0
    b = betas(nf)[:loop]

    def f(t, y):
        x = y[0]
        return [-2 * sum(b[i] * x**(i+2) for i in range(loop))]

    def blow(t, y):
        return y[0] - 0.25
    blow.terminal = True
    s = solve_ivp(f, (math.log(mu0), math.log(mu1)), [a0/math.pi], rtol=1e-11,
                  atol=1e-14, method='DOP853', events=blow)
    if s.status != 0:
        raise Landau()
    return float(s.y[0, -1]) * math.pi


def _c3(nl):
    return (-58933/124416 - 2/3*z2*(1 + LN2/3) - 80507/27648*z3
            + nl*(2479/31104 + z2/9))


def as_down(a, nl, loop):
    x, s = a/math.pi, 1.
    if loop >= 3:
        s += -7/24*x**2
    if loop >= 4:
        s += _c3(nl)*x**3
    return a*s


def as_up(a, nl, loop):
    x, s = a/math.pi, 1.
    if loop >= 3:
        s += 7/24*x**2
    if loop >= 4:
        s -= _c3(nl)*x**3
    return a*s


def alpha_s(scale, f, a0=0.1185, loop=3):
    if loop > 4:
        return None
    if f == 5:
        return run(a0, MZ, scale, 5, loop)
    if f == 6:
        return run(as_up(run(a0, MZ, MT, 5, loop), 5, loop), MT, scale, 6, loop)
    a = as_down(run(a0, MZ, MB, 5, loop), 4, loop)
    if f == 4:
        return run(a, MB, scale, 4, loop)
    a = as_down(run(a, MB, MC, 4, loop), 3, loop)
    return run(a, MC, scale, 3, loop)


def cfun(x, nf, loop):
    b, g = betas(nf), gammas(nf)
    c = [gi/b[0] for gi in g]
    B = [bi/b[0] for bi in b]
    A1 = c[1] - B[1]*c[0]
    A2 = c[2] - B[1]*c[1] + (B[1]**2 - B[2])*c[0]
    A3 = c[3] - B[1]*c[2] + (B[1]**2 - B[2])*c[1] + (-B[1]**3 + 2*B[1]*B[2] - B[3])*c[0]
    t = 1
    if loop >= 2:
        t += A1*x
    if loop >= 3:
        t += 0.5*(A1**2 + A2)*x**2
    if loop >= 4:
        t += (A1**3/6 + A1*A2/2 + A3/3)*x**3
    return x**c[0]*t


def mrun(m, a0, a1, nf, loop):
    return m*cfun(a1/math.pi, nf, loop)/cfun(a0/math.pi, nf, loop)


def _mdec(a, loop, sign):
    return 1 + (sign*89/432*(a/math.pi)**2 if loop >= 3 else 0)


def H2L(m, a, mu, M, nf, s, loop):
    aM = run(a, mu, M, nf, loop)
    ml = mrun(m, a, aM, nf, loop)*_mdec(aM, loop, 1)
    al = as_down(aM, nf-1, loop)
    return mrun(ml, al, run(al, M, s, nf-1, loop), nf-1, loop)


def L2H(m, a, mu, M, nf, s, loop):
    aM = run(a, mu, M, nf-1, loop)
    mh = mrun(m, a, aM, nf-1, loop)*_mdec(aM, loop, -1)
    ah = as_up(aM, nf-1, loop)
    return mrun(mh, ah, run(ah, M, s, nf, loop), nf, loop)


def m_b(m, s, f, a0=0.1185, loop=3):
    if loop > 4 or (loop > 3 and f != 5):
        return None
    a = alpha_s(m, 5, a0, loop)
    if f == 5:
        return mrun(m, a, alpha_s(s, 5, a0, loop), 5, loop)
    if f == 4:
        return H2L(m, a, m, MB, 5, s, loop)
    if f == 6:
        return L2H(m, a, m, MT, 6, s, loop)
    x = H2L(m, a, m, MB, 5, MC, loop)
    return H2L(x, alpha_s(MC, 4, a0, loop), MC, MC, 4, s, loop)


def m_c(m, s, f, a0=0.1185, loop=3):
    if loop > 4 or (loop > 3 and f != 4):
        return None
    a = alpha_s(m, 4, a0, loop)
    if f == 4:
        return mrun(m, a, alpha_s(s, 4, a0, loop), 4, loop)
    if f == 3:
        return H2L(m, a, m, MC, 4, s, loop)
    if f == 5:
        return L2H(m, a, m, MB, 5, s, loop)


def m_s(m, s, f, a0=0.1185, loop=3):
    if loop > 4 or (loop > 3 and f != 3):
        return None
    a = alpha_s(2., 3, a0, loop)
    if f == 3:
        return mrun(m, a, alpha_s(s, 3, a0, loop), 3, loop)
    if f == 4:
        return L2H(m, a, 2., MC, 4, s, loop)
    if f == 5:
        x = L2H(m, a, 2., MC, 4, MC, loop)
        return L2H(x, alpha_s(MC, 4, a0, loop), MC, MB, 5, s, loop)


def rtol(tight, *scales):
    """rundec does not run over ratios closer to 1 than 1e-4."""
    for s in scales:
        for p in (MC, MB, MT, MZ) + scales:
            if s != p and abs(s/p - 1) < 1.3e-4:
                return 1e-4
    return tight

"""Independent solutions of Maxwell's equations for planar stacks.

Conventions (those the package documents/returns): fields ~ exp(i k.r - i w t), n + ik,
plane of incidence xz, z into the sample, Jones vectors (p, s), p amplitudes measured so
that H_y of incident and reflected p waves have the same sign.

`iso`   scalar Airy/Parratt recursion (unconditionally stable) in complex128.
`aniso` general 3x3 tensors: boundary-value problem for the four tangential fields in
        multi-precision arithmetic (mpmath), so its own rounding is irrelevant.
"""

from __future__ import annotations

import math

import mpmath as mp
import numpy as np


def fwd(q):
    """Choose the branch of q = kz/k0 of the wave leaving the stack."""
    q = np.asarray(q, dtype=complex)
    decays = np.abs(q.imag) > 1e-9 * np.maximum(1.0, np.abs(q))
    flip = np.where(decays, q.imag < 0, q.real < 0)
    return np.where(flip, -q, q)


def iso(eps, d, lbda, theta):
    """eps: list of complex arrays over wavelength [front, layers..., back]; d: list.

    Returns dict with rp, rs, tp, ts, q (list), kx, att (sum of |Im q| k0 d)."""
    lbda = np.asarray(lbda, float)
    eps = [np.asarray(e, complex) * np.ones_like(lbda) for e in eps]
    k0 = 2 * np.pi / lbda
    n0 = np.sqrt(eps[0])
    kx = n0 * math.sin(math.radians(theta))
    q = [n0 * math.cos(math.radians(theta))]
    q += [fwd(np.sqrt(e - kx * kx)) for e in eps[1:]]
    out = {"kx": kx, "q": q}
    for pol in "ps":
        y = [qi if pol == "s" else e / qi for qi, e in zip(q, eps)]
        # tangential-field reflection/transmission at interface j|j+1:
        #  s: E_y continuous, admittance q;   p: H_y continuous, impedance-like q/eps
        def ref(j):
            if pol == "s":
                a, b = q[j], q[j + 1]
            else:
                a, b = q[j] * eps[j + 1], q[j + 1] * eps[j]
            return (a - b) / (a + b), 2 * a / (a + b)
        m = len(eps) - 1
        r, t = ref(m - 1)
        for j in range(m - 2, -1, -1):
            rj, tj = ref(j)
            ph = np.exp(1j * q[j + 1] * k0 * d[j])
            den = 1 + rj * r * ph * ph
            t = tj * t * ph / den
            r = (rj + r * ph * ph) / den
        if pol == "p":
            # r, t so far are ratios of H_y; convert t to the E-amplitude ratio
            t = t * n0 / np.sqrt(eps[-1])
        out["r" + pol], out["t" + pol] = r, t
        del y
    out["att"] = sum(
        (np.abs(qi.imag) * k0 * di for qi, di in zip(q[1:-1], d)), np.zeros_like(lbda)
    )
    return out


# ---------------------------------------------------------------- anisotropic, mpmath

def _q_matrix(kx, e):
    """kz Psi = Q Psi for Psi = (Ex, Ey, Hx, Hy); e: 3x3 of mpc."""
    m = mp.matrix(4, 4)
    for c in range(4):
        ex, ey, hx, hy = [mp.mpf(1) if i == c else mp.mpf(0) for i in range(4)]
        ez = -(kx * hy + e[2][0] * ex + e[2][1] * ey) / e[2][2]
        dx = e[0][0] * ex + e[0][1] * ey + e[0][2] * ez
        dy = e[1][0] * ex + e[1][1] * ey + e[1][2] * ez
        m[0, c] = hy + kx * ez
        m[1, c] = -hx
        m[2, c] = kx * kx * ey - dy
        m[3, c] = dx
    return m


def _mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(4)), mp.mpc(0)) for j in range(4)]
            for i in range(4)]


def _expm(m):
    """exp of a 4x4 (lists of mpc): scaling, Taylor, squaring at working precision."""
    norm = max(sum(abs(m[i][j]) for j in range(4)) for i in range(4))
    s = max(0, int(mp.ceil(mp.log(norm + mp.mpf(10) ** -30, 2))) + 3)
    f = mp.mpf(2) ** -s
    a = [[m[i][j] * f for j in range(4)] for i in range(4)]
    eye = [[mp.mpc(1 if i == j else 0) for j in range(4)] for i in range(4)]
    out, term = [r[:] for r in eye], [r[:] for r in eye]
    tol = mp.mpf(10) ** (-mp.mp.dps - 5)
    for k in range(1, 60):
        term = _mul(term, a)
        term = [[v / k for v in r] for r in term]
        out = [[out[i][j] + term[i][j] for j in range(4)] for i in range(4)]
        if max(abs(v) for r in term for v in r) < tol:
            break
    for _ in range(s):
        out = _mul(out, out)
    return out


def modes(kx, e):
    """Outgoing eigenmodes of a half-space: list of (q, Psi); gap = separation measure."""
    m = _q_matrix(kx, e)
    q, v = mp.eig(m)
    items = []
    for j in range(4):
        psi = [v[i, j] for i in range(4)]
        s = mp.re(psi[0] * mp.conj(psi[3]) - psi[1] * mp.conj(psi[2]))
        nrm = mp.sqrt(sum(abs(x) ** 2 for x in psi))
        psi = [x / nrm for x in psi]
        s = s / nrm**2
        im = mp.im(q[j])
        if abs(im) > mp.mpf(10) ** -20 * (1 + abs(q[j])):
            key = im
        else:
            key = s
        items.append((key, q[j], psi, s))
    items.sort(key=lambda x: -x[0])
    return items


def aniso(eps_f, layers, eps_b, lbda, theta, iso_exit=None, dps=40):
    """One wavelength. eps_f scalar; layers [(d, 3x3)]; eps_b 3x3.

    iso_exit: scalar permittivity if the exit is isotropic (then t is returned)."""
    with mp.workdps(dps):
        n0 = mp.sqrt(mp.mpc(complex(eps_f)))
        th = mp.mpf(float(theta)) * mp.pi / 180
        kx = n0 * mp.sin(th)
        c0 = mp.cos(th)
        k0 = 2 * mp.pi / mp.mpf(float(lbda))

        def conv(e):
            return [[mp.mpc(complex(e[i][j])) for j in range(3)] for i in range(3)]

        tot = [[mp.mpc(1 if i == j else 0) for j in range(4)] for i in range(4)]
        for d, e in layers:
            qm = _q_matrix(kx, conv(e))
            f = -1j * k0 * mp.mpf(float(d))
            tot = _mul(tot, _expm([[qm[i, j] * f for j in range(4)] for i in range(4)]))

        gap = None
        if iso_exit is not None:
            eb = mp.mpc(complex(iso_exit))
            nb = mp.sqrt(eb)
            qb = mp.sqrt(eb - kx * kx)
            small = abs(mp.im(qb)) <= mp.mpf(10) ** -20 * (1 + abs(qb))
            if (small and mp.re(qb) < 0) or (not small and mp.im(qb) < 0):
                qb = -qb
            ms = [mp.mpc(0), mp.mpc(1), -qb, mp.mpc(0)]
            mpv = [qb / nb, mp.mpc(0), mp.mpc(0), nb]
        else:
            it = modes(kx, conv(eps_b))
            gap = float(min(it[1][0] - it[2][0], 1))
            mpv, ms = it[0][2], it[1][2]
        col_p = [sum(tot[i][k] * mpv[k] for k in range(4)) for i in range(4)]
        col_s = [sum(tot[i][k] * ms[k] for k in range(4)) for i in range(4)]
        q0 = n0 * c0
        inc = {"p": [c0, 0, 0, n0], "s": [0, 1, -q0, 0]}
        ref = {"p": [-c0, 0, 0, n0], "s": [0, 1, q0, 0]}
        a = mp.matrix(4, 4)
        for i in range(4):
            a[i, 0], a[i, 1] = -ref["p"][i], -ref["s"][i]
            a[i, 2], a[i, 3] = col_p[i], col_s[i]
        jr = np.zeros((2, 2), complex)
        jt = np.zeros((2, 2), complex)
        for c, pol in enumerate("ps"):
            x = mp.lu_solve(a, mp.matrix([mp.mpc(v) for v in inc[pol]]))
            jr[:, c] = [complex(x[0]), complex(x[1])]
            jt[:, c] = [complex(x[2]), complex(x[3])]
        return jr, (jt if iso_exit is not None else None), gap


def berreman_q(kx, e):
    """Eigenvalues of one layer in double precision (for conditioning estimates)."""
    with mp.workdps(16):
        m = _q_matrix(mp.mpc(complex(kx)), [[mp.mpc(complex(v)) for v in r] for r in e])
        a = np.array([[complex(m[i, j]) for j in range(4)] for i in range(4)])
    return np.linalg.eig(a)


# ------------------------------------------------------------- double precision helpers

def q_np(kx, e):
    """Berreman matrices for arrays kx (n,), e (n,3,3): kz Psi = Q Psi."""
    kx = np.asarray(kx, complex)
    n = len(kx)
    m = np.zeros((n, 4, 4), complex)
    for c in range(4):
        ex, ey, hx, hy = [1.0 if i == c else 0.0 for i in range(4)]
        ez = -(kx * hy + e[:, 2, 0] * ex + e[:, 2, 1] * ey) / e[:, 2, 2]
        m[:, 0, c] = hy + kx * ez
        m[:, 1, c] = -hx
        m[:, 2, c] = kx * kx * ey - (e[:, 1, 0] * ex + e[:, 1, 1] * ey + e[:, 1, 2] * ez)
        m[:, 3, c] = e[:, 0, 0] * ex + e[:, 0, 1] * ey + e[:, 0, 2] * ez
    return m


def attenuation(ef, stack, lb, theta):
    """Largest sum of |Im kz| d over the stack: how far 4x4 matrices lose digits."""
    lb = np.asarray(lb, float)
    kx = np.sqrt(np.asarray(ef, complex) * np.ones_like(lb)) * math.sin(math.radians(theta))
    att = np.zeros_like(lb)
    for d, t in stack:
        if d == 0:
            continue
        q = np.linalg.eigvals(q_np(kx, t))
        att += np.max(np.abs(q.imag), axis=1) * 2 * np.pi / lb * float(d)
    return float(np.max(att))


def eig_condition(ef, stack, lb, theta):
    """Worst condition of the eigenvector matrices (for the eigenvalue propagator)."""
    kx = np.sqrt(np.asarray(ef, complex) * np.ones(len(lb))) * math.sin(math.radians(theta))
    c = 1.0
    for _, t in stack:
        c = max(c, float(np.max(np.linalg.cond(np.linalg.eig(q_np(kx, t))[1]))))
    return c

"""Specification of guided and radiative modes, as client source text.

A mode of layer l is a sum of two plane waves with amplitudes A (up) and B (down)
and wave vector (g p, +-chi).  H of a TE mode is (-+ chi p, g) i, of a TM mode q.
curl H follows from Maxwell's equations: -eps om^2 q (TE), (+-i chi p, -i g z) (TM),
with q = (p_y, -p_x).  All integrals over z are elementary."""

SPEC = """
def z_int(l, a):
    # integral of exp(i a z) over layer l, origin at the interface (claddings), centre (layers)
    if l == 0:
        return 1 / (1j * a)
    if l == N - 1:
        return -1 / (1j * a)
    return 2 * np.sin(a * D[l - 1] / 2) / a

def curl(pol, l, s, om, chi, g):
    # components (p, q, z) of the curl of the wave travelling in direction s
    if pol == 0:
        return 0, -E[l] * om**2, 0
    return s * 1j * chi, 0, -1j * g

def overlap(pol1, i1, om1, A1, B1, c1, pol2, i2, om2, A2, B2, c2):
    # sum over layers of integral of eps^-1 (curl H1)* . curl H2
    X = (slice(None), None)
    Y = (None, slice(None))
    p1, p2 = (px[i1], py[i1]), (px[i2], py[i2])
    q1, q2 = (py[i1], -px[i1]), (py[i2], -px[i2])
    tot = 0
    for l in range(N):
        lay = 0
        for s, a1 in ((1, A1), (-1, B1)):
            if s == 1 and l == 0 or s == -1 and l == N - 1:
                continue        # no incoming wave in the claddings (first mode)
            for t, a2 in ((1, A2), (-1, B2)):
                if GUIDED and (t == 1 and l == 0 or t == -1 and l == N - 1):
                    continue
                u = curl(pol1, l, s, om1, c1[l], gk[i1])
                v = curl(pol2, l, t, om2, c2[l], gk[i2])
                u = [np.conj(x) for x in u]
                w = 0
                for x in range(2):
                    # in-plane component along cartesian axis x
                    cu = u[0] * p1[x] + u[1] * q1[x]
                    cv = v[0] * p2[x] + v[1] * q2[x]
                    w = w + cu[X] * cv[Y]
                uz = u[2] + 0 * gk[i1]
                vz = v[2] + 0 * gk[i2]
                w = w + uz[X] * vz[Y]
                lay = lay + w * np.conj(a1[l])[X] * a2[l][Y] * \\
                    z_int(l, t * c2[l][Y] - s * np.conj(c1[l])[X])
        tot = tot + M[l][np.ix_(i1, i2)] * lay
    return tot
"""

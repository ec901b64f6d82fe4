"""EDF reference: Greenhall & Riley 2003 (PTTI) written from the paper, in extended precision."""
import math
import numpy as np
from .refs import LD

T1 = {2: [(LD(2) / 3, LD(1) / 3), (LD(7) / 9, LD(1) / 2), (LD(22) / 25, LD(2) / 3)],
      1: [(.840, .345), (.997, .616), (1.141, .843)],
      0: [(1.079, .368), (1.033, .607), (1.184, .848)],
      -1: [None, (1.048, .534), (1.180, .816)],
      -2: [None, (1.302, .535), (1.175, .777)],
      -3: [None, None, (1.194, .703)],
      -4: [None, None, (1.489, .702)]}
T2 = {2: [(1.5, .5), (LD(35) / 18, 1), (LD(231) / 100, 1.5)],
      1: [(78.6, 25.2), (790., 410.), (9950., 6520.)],
      0: [(LD(2) / 3, LD(1) / 6), (LD(2) / 3, LD(1) / 3), (LD(7) / 9, .5)],
      -1: [None, (.852, .375), (.997, .617)],
      -2: [None, (1.079, .368), (1.033, .607)],
      -3: [None, None, (1.053, .553)],
      -4: [None, None, (1.302, .535)]}
T3 = [(6., 4.), (15.23, 12.), (47.8, 40.)]
INF = float("inf")


def sw(t, alpha):
    t = LD(t)
    a = abs(t)
    k = 2 - alpha                       # t^(k-1)... the power is 1 - alpha + 2 = 3 - alpha
    p = 3 - alpha
    if alpha == 2:
        return -a
    if p % 2:                           # alpha even: |t|^odd
        return a ** p
    return a ** p * np.log(a) if a != 0 else LD(0)


def sx(t, F, alpha):
    if F == INF:
        return sw(t, alpha + 2)
    F = LD(F)
    return F * F * (2 * sw(t, alpha) - sw(t - 1 / F, alpha) - sw(t + 1 / F, alpha))


def sz(t, F, alpha, d):
    # (-1)^d times the 2d-th central difference
    acc = LD(0)
    for k in range(-d, d + 1):
        acc += (-1) ** k * math.comb(2 * d, d + k) * sx(LD(t) + k, F, alpha)
    return acc


def basic_sum(J, M, S, F, alpha, d):
    J, M, S = LD(J), LD(M), LD(S)
    acc = sz(0, F, alpha, d) ** 2 + (1 - J / M) * sz(J / S, F, alpha, d) ** 2
    for j in range(1, int(J)):
        acc += 2 * (1 - j / M) * sz(LD(j) / S, F, alpha, d) ** 2
    return acc


def sizes(alpha, d, m, N, overlapping, modified):
    F = 1 if modified else m
    S = m if overlapping else 1
    L = LD(m) / F + m * d
    M = 1 + int(np.floor(LD(S) * (N - L) / m))
    J = min(M, (d + 1) * S)
    return F, S, M, J, LD(M) / S


def exact(alpha, d, m, N, overlapping, modified):
    """Basic (exact) algorithm, no truncation."""
    F, S, M, J, r = sizes(alpha, d, m, N, overlapping, modified)
    return 1 / (basic_sum(J, M, S, F, alpha, d) / (sz(0, F, alpha, d) ** 2 * M))


def edf(alpha, d, m, N, overlapping=False, modified=False, jmax=100):
    """(set of admissible values, case); empty set where the algorithm has no value."""
    F, S, M, J, r = sizes(alpha, d, m, N, overlapping, modified)
    if M < 1:
        return [], "none"

    def trunc(F1, F2):
        ms = LD(jmax) / r
        return 1 / (basic_sum(jmax, jmax, ms, F2 if F2 != "m'" else ms, alpha, d), )[0] * (F1 * jmax)

    out = []
    if modified:
        if J <= jmax:
            return [1 / (basic_sum(J, M, S, 1, alpha, d) / (sz(0, 1, alpha, d) ** 2 * M))], "1.1"
        if r >= d + 1:
            a0, a1 = T1[alpha][d - 1]
            out.append((1 / ((LD(a0) - LD(a1) / r) / r), "1.2"))
        if r <= d + 1:
            out.append((trunc(sz(0, 1, alpha, d) ** 2, 1), "1.3"))
    elif alpha <= 0:
        if J <= jmax:
            mp = m if m * (d + 1) <= jmax else INF
            return [1 / (basic_sum(J, M, S, mp, alpha, d) / (sz(0, mp, alpha, d) ** 2 * M))], "2.1" + ("a" if mp == m else "b")
        if r >= d + 1:
            a0, a1 = T2[alpha][d - 1]
            out.append((1 / ((LD(a0) - LD(a1) / r) / r), "2.2"))
        if r <= d + 1:
            out.append((trunc(sz(0, INF, alpha, d) ** 2, INF), "2.3"))
    elif alpha == 1:
        if J <= jmax:
            return [1 / (basic_sum(J, M, S, m, 1, d) / (sz(0, m, 1, d) ** 2 * M))], "3.1"
        b0, b1 = T3[d - 1]
        b = (LD(b0) + LD(b1) * np.log(LD(m))) ** 2
        if r >= d + 1:
            a0, a1 = T2[alpha][d - 1]
            out.append((1 / ((LD(a0) - LD(a1) / r) / (b * r)), "3.2"))
        if r <= d + 1:
            out.append((trunc(b, "m'"), "3.3"))
    else:
        if int(np.ceil(r)) <= d:
            return [], "4.1"
        a0 = LD(math.comb(4 * d, 2 * d)) / LD(math.comb(2 * d, d)) ** 2
        return [M / (a0 - LD(d) / 2 / r)], "4.2"
    return [v for v, _ in out], "+".join(k for _, k in out)

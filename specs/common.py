"""Shared vocabulary of the specifications (pure mathematics, independent of the code)."""
import z3
import ir
import sym
from sym import LP, HP, EP, Arr, RealDom, Unsupported, I, fresh_name, conc


def bez(P, t):
    """Bernstein form of a cubic with scalar control values P"""
    k = 1 - t
    return P[0] * k * k * k + 3 * P[1] * k * k * t + 3 * P[2] * k * t * t + P[3] * t * t * t


def dbez(P, t):
    k = 1 - t
    return 3 * (P[1] - P[0]) * k * k + 6 * (P[2] - P[1]) * k * t + 3 * (P[3] - P[2]) * t * t


def blossom(P, u, v, w):
    """polar form: symmetric, multi-affine, blossom(t,t,t) = bez(t)"""
    def mix(a, b, s):
        return a * (1 - s) + b * s
    q = [mix(P[i], P[i + 1], u) for i in range(3)]
    q = [mix(q[i], q[i + 1], v) for i in range(2)]
    return mix(q[0], q[1], w)


def subctrl(P, a, b):
    """control values of the restriction of P to [a,b]"""
    return [blossom(P, a, a, a), blossom(P, a, a, b), blossom(P, a, b, b), blossom(P, b, b, b)]


def cubic_at(p, st, base, off=0):
    """control points of the bezier_cubic stored at base: ([x0..x3],[y0..y3])"""
    X = [p.rd(st, base, off + 16 * i) for i in range(4)]
    Y = [p.rd(st, base, off + 16 * i + 8) for i in range(4)]
    return X, Y


def rabs(x):
    return z3.If(x >= 0, x, -x)


def rmin(a, b):
    return z3.If(b < a, b, a)


def rmax(a, b):
    return z3.If(a < b, b, a)


REALS = ("doubles are treated as mathematical reals (no rounding, no NaN/inf, no overflow); "
         "the contracts therefore hold up to floating-point rounding of the real code")

from itertools import combinations
from .common import *


def spec(chk):
    top = 7 if chk.thorough else 5
    tasks = []
    for p in range(top + 1):
        for m in range(1, p + 2):
            for modes in combinations(range(p + 1), m):
                for s in SYSTEMS:
                    if s[1] == 3 and p > 3 and not chk.thorough:
                        continue
                    tasks.append(("order %d modes %s %s" % (p, " ".join(map(str, modes)), s[0]), lambda p=p, modes=modes, s=s: one(chk, p, modes, *s)))
    chk.tasks(tasks)
    chk.bound("orders up to %d with every set of neighbour modes enumerated (Euler layout up to order %d); every number of cells, every coefficient" % (top, top if chk.thorough else 3))


# ---------------------------------------------------------------- exact polynomials, independent of the code
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def padd(a, b, k=F(1)):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else F(0)) + k * (b[i] if i < len(b) else F(0)) for i in range(n)]


def legendre(n):
    a, b = [F(1)], [F(0), F(1)]
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, padd([F(2 * k + 1, k + 1) * c for c in pmul([F(0), F(1)], b)], a, F(-k, k + 1))
    return b


def shifted(a, s):
    """a(x + s)"""
    r, pw = [F(0)], [F(1)]
    for c in a:
        r = padd(r, pw, c)
        pw = pmul(pw, [F(s), F(1)])
    return r


def integral(a):
    return sum((c * F(2, k + 1) for k, c in enumerate(a) if k % 2 == 0), F(0))


def mode(a, n):
    """n-th Legendre mode of a polynomial on [-1, 1]"""
    return F(2 * n + 1, 2) * integral(pmul(a, legendre(n)))


def evalp(a, x):
    return sum((c * F(x) ** k for k, c in enumerate(a)), F(0))


def rank(M):
    M = [list(r) for r in M]
    r = 0
    for c in range(len(M[0])):
        q = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if q is None:
            continue
        M[r], M[q] = M[q], M[r]
        for i in range(r + 1, len(M)):
            k = M[i][c] / M[r][c]
            M[i] = [x - k * y for x, y in zip(M[i], M[r])]
        r += 1
    return r


def one(chk, p, modes, system, nf, ic):
    deg = p + len(modes)
    L = [legendre(j) for j in range(deg + 1)]
    for shift in (2, -2):
        A = [[mode(L[j], n) for j in range(deg + 1)] for n in range(p + 1)] + [[mode(shifted(L[j], shift), m) for j in range(deg + 1)] for m in modes]
        if rank(A) < deg + 1:
            chk.assume_note("order %d with modes %s determines no polynomial (singular)" % (p, modes))
            return
    I = chk.interp()
    N = INT("N")
    I.assume(T.le(1, N))
    e, f = ranged(I, "e", 0, T.add(N, K(1))), ranged(I, "f", 0, nf)
    chk.cover(I.pc, "a mesh and a face")
    D = "order %d modes %s %s: " % (p, " ".join(map(str, modes)), system)
    c = [R("c%d" % j) for j in range(deg + 1)]

    def go():
        # the modes may be named in any order
        names = " ".join(map(str, reversed(modes)))
        sol = new_solution(I, system, ic, N, p, enhance="icb " + names)
        arbitrary(I, sol)
        uf = I.np.asarr(I.call(I.getattr(sol, "evaluate_faces"), [], {}))
        kw = dict(hyps=list(I.pc), func="dg1d.enhance.Enhance.face_value")
        colL, colR = T.add(T.scale(F(nf), e), f), T.add(T.scale(F(nf), T.add(e, K(1))), f)
        sides = (("left", uf.at(K(1), colL), colL, colR, 2), ("right", uf.at(K(0), colR), colR, colL, -2))
        for nm, got, own, neigh, shift in sides:
            got = prune(I, got, ())
            # data of one polynomial, given by its modes in the own cell: own modes c_n; neighbour modes from the shifted polynomial
            x = [R("x%d" % m) for m in range(p + 1)]
            m1 = {T.app("u", K(n), own): c[n] for n in range(p + 1)}
            m1.update({T.app("u", K(n), neigh): sum_terms([T.scale(mode(shifted(L[j], shift), n), c[j]) for j in range(deg + 1)]) if n in modes else x[n] for n in range(p + 1)})
            want = sum_terms([T.scale(evalp(L[j], shift // 2), c[j]) for j in range(deg + 1)])
            val = normal(I, got, p, (own, neigh))
            chk.prove_eq(D + "%s trace is the value of the polynomial with the own modes and the selected neighbour modes, whatever the other modes" % nm,
                         T.subst(val, m1), want, **kw)
    chk.run(I, go, D + "faces")


def sum_terms(ts):
    r = K(0)
    for t in ts:
        r = T.add(r, t)
    return r


def normal(I, t, p, cols):
    """coefficient reads with their column in the canonical form of the two cells"""
    m = {}
    for x in T.subterms(t):
        if x.op == "app" and x.val == "u":
            for col in cols:
                if x.args[1] is not col and I.implied(T.eq(x.args[1], col)):
                    m[x] = T.app("u", x.args[0], col)
    return T.subst(t, m) if m else t

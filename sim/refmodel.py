"""Executable reference model: (quantum) Schubert calculus from its definitions.

Shares no code and no method with schubertpy: classical Pieri products come
from the combinatorial definition of Buch-Kresch-Tamvakis (relation lam -> mu
on explicit boxes, N(lam, mu) by explicit connected components), enumerated
over all k-strict partitions; Grassmannian Pieri is by brute force over
horizontal strips; quantum terms follow the statements of the quantum Pieri
theorems; general products follow from Pieri by linear algebra over special
classes.  Elements are dicts {(partition tuple, (q, q1, q2) exponents): coef}.
"""
from functools import lru_cache

ONE = (0, 0, 0)


def kstrict(k, rows, cols):
    out = []

    def rec(pre, mx, r):
        out.append(tuple(pre))
        if r == 0:
            return
        for a in range(1, mx + 1):
            if pre and a == pre[-1] and a > k:
                continue
            rec(pre + [a], a, r - 1)
    rec([], cols, rows)
    return sorted(out)


def _conj(l, ncols):
    return [sum(1 for x in l if x > c) for c in range(ncols)]


def _arrow(lam, mu, k, d):
    """Boxes of the set A when lam -> mu, else None (d = 0: types B, C; 1: D)."""
    R = max(len(lam), len(mu))
    L = list(lam) + [0] * (R - len(lam))
    M = list(mu) + [0] * (R - len(mu))
    C = max([0] + L + M)
    lc = _conj(L, max(C, k))
    mc = _conj(M, max(C, k))
    nu = [min(a, b) for a, b in zip(L, M)]
    for r in range(R):
        if L[r] - nu[r] > 1:
            return None
        if L[r] > nu[r] and L[r] > k:
            return None
    for r in range(R - 1):
        if M[r + 1] > nu[r]:
            return None
    new = [(r + 1, c + 1) for r in range(R) for c in range(L[r], M[r])]

    def related(box):
        r, c = box
        return [b for b in new if b[1] > k and b[1] == 2 * k + 2 - d + r - b[0] - c]
    mentioned = set()
    for c in range(1, k + 1):
        if mc[c - 1] == lc[c - 1]:
            rel = related((mc[c - 1], c))
            if len(rel) > 1:
                return None
            mentioned.update(rel)
        elif mc[c - 1] < lc[c - 1]:
            allr = []
            for r in range(mc[c - 1], lc[c - 1] + 1):
                rel = related((r, c))
                if len(rel) != 1:
                    return None
                allr += rel
            if len({b[0] for b in allr}) != 1:
                return None
            mentioned.update(allr)
    return [b for b in new if b[1] > k and b not in mentioned]


def _components(A):
    A = set(A)
    res = []
    while A:
        st = [A.pop()]
        cur = []
        while st:
            b = st.pop()
            cur.append(b)
            for dr in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    x = (b[0] + dr, b[1] + dc)
                    if x in A:
                        A.remove(x)
                        st.append(x)
        res.append(cur)
    return res


@lru_cache(None)
def _by_size(k, rows, cols):
    by = {}
    for x in kstrict(k, rows, cols):
        by.setdefault(sum(x), []).append(x)
    return by


def acc(res, key, c):
    v = res.get(key, 0) + c
    if v:
        res[key] = v
    else:
        res.pop(key, None)


class Ring:
    def __init__(s, cls, m, N):
        s.name = (cls, m, N)
        if cls == 'Gr':
            s.t, s.k, s.n, s.d = 'A', N - m, N, 0
            s.rows, s.cols = m, N - m
        elif cls == 'IG':
            s.t, s.k, s.n, s.d = 'C', N // 2 - m, N // 2, 0
        elif N % 2:
            s.t, s.k, s.n, s.d = 'B', (N - 1) // 2 - m, (N - 1) // 2, 0
        else:
            s.t, s.k, s.n, s.d = 'D', N // 2 - m, N // 2 - 1, 1
        if s.t != 'A':
            s.rows, s.cols = s.n + s.d - s.k, s.n + s.k
        s.N, s.m = N, m
        s.classes = s._classes()
        s.cset = set(s.classes)
        s.dim = max(sum(x) for x in s.classes)
        s._pc = {}
        s._qc = {}
        s._mq = {}
        s._mc = {}
        s._idx = None

    # ---------------------------------------------------------------- shape
    def _classes(s):
        if s.t == 'A':
            return kstrict(10 ** 6, s.rows, s.cols)
        cl = kstrict(s.k, s.rows, s.cols)
        if s.t != 'D':
            return cl
        out = []
        for l in cl:
            out.append(l)
            if s.k > 0 and s.k in l:
                out.append(l + (0,))
        return sorted(out)

    def deg_q(s):
        return {'A': s.n, 'C': s.n + 1 + s.k}.get(s.t) or (2 * s.n if s.k == 0 else s.n + s.k)

    def specials(s):
        """Numbers of the special classes (negative: the primed one of type D)."""
        if s.rows == 0:
            return []
        ps = list(range(1, s.cols + 1))
        if s.t == 'D' and s.k > 0:
            ps.insert(s.k, -s.k)
        return [p for p in ps if s.special(p) in s.cset]

    def special(s, p):
        return (p,) if p > 0 else (-p, 0)

    def point(s):
        return next(x for x in s.classes if sum(x) == s.dim)

    # ------------------------------------------------------ classical Pieri
    def pieri(s, p, lam, n=None):
        n = s.n if n is None else n
        key = (p, lam, n)
        r = s._pc.get(key)
        if r is None:
            r = s._pc[key] = s._pieri(p, lam, s.k, n)
        return r

    def _pieri(s, p, lam, k, n):
        a = abs(p)
        if s.t == 'A':
            rows, cols = n - k, k
            out = {}

            def rec(i, pre, left):
                if i == rows:
                    if left == 0:
                        out[tuple(x for x in pre if x)] = 1
                    return
                l = lam[i] if i < len(lam) else 0
                mx = cols if i == 0 else (lam[i - 1] if i - 1 < len(lam) else 0)
                for v in range(l, min(mx, l + left) + 1):
                    rec(i + 1, pre + [v], left - (v - l))
            rec(0, [], a)
            return out
        d = s.d
        rows, cols = n + d - k, n + k
        if a > cols:
            return {}
        zero = len(lam) > 0 and lam[-1] == 0
        l = lam[:-1] if zero else lam
        tl = 0 if (s.t != 'D' or k == 0 or k not in l) else (2 if zero else 1)
        tp = (2 if p < 0 else 1) if (s.t == 'D' and k > 0 and a == k) else 0
        res = {}
        for mu in _by_size(k, rows, cols).get(sum(l) + a, ()):
            A = _arrow(l, mu, k, d)
            if A is None:
                continue
            cs = _components(A)
            if s.t == 'C':
                res[mu] = 2 ** sum(1 for c in cs if all(b[1] != k + 1 for b in c))
                continue
            if s.t == 'B':
                e = len(cs) - (0 if a <= k else 1)
                assert e >= 0
                res[mu] = 2 ** e
                continue
            for tm in ((1, 2) if (k > 0 and k in mu) else (0,)):
                if tl + tm == 3:
                    continue
                e = len(cs) - (1 if a > k else 0)
                if a != k or k == 0:
                    assert e >= 0
                    co = 2 ** e
                elif cs:
                    co = 2 ** (len(cs) - 1)
                else:
                    g = sum(1 for c in range(k)
                            if sum(1 for x in mu if x > c) <= sum(1 for x in l if x > c))
                    h = g + max(tl, tm)
                    co = 1 if (h % 2 == 1) == (tp == 1) else 0
                if co:
                    res[mu + (0,) if tm == 2 else mu] = co
        return res

    def swap(s, mu):
        if s.t != 'D' or s.k == 0 or s.k not in mu:
            return mu
        return mu[:-1] if mu[-1] == 0 else mu + (0,)

    def miami(s, mu):
        if s.t != 'D' or s.k not in mu or sum(1 for x in mu if x > s.k) % 2 == 0:
            return mu
        return s.swap(mu)

    def schub_type(s, mu):
        if s.k not in mu:
            return 0
        return 2 if mu[-1] == 0 else 1

    # -------------------------------------------------------- quantum Pieri
    def q(s, p, lam):
        key = (p, lam)
        r = s._qc.get(key)
        if r is None:
            r = s._qc[key] = s._q(p, lam)
        return r

    def _q(s, p, lam):
        k, n = s.k, s.n
        res = {(m, ONE): c for m, c in s.pieri(p, lam).items()}
        zero = len(lam) > 0 and lam[-1] == 0
        l = lam[:-1] if zero else lam
        if s.t == 'A':
            r = n - k
            if r > 0 and len(l) == r:
                def rec(i, pre, left):
                    if i == r:
                        if left == 0:
                            acc(res, (tuple(x for x in pre if x), (1, 0, 0)), 1)
                        return
                    hi = l[i] - 1
                    lo = (l[i + 1] - 1) if i + 1 < r else 0
                    for v in range(max(lo, 0), hi + 1):
                        if v <= left:
                            rec(i + 1, pre + [v], left - v)
                tot = sum(l) + p - n
                if tot >= 0:
                    rec(0, [], tot)
            return res
        if s.t == 'C':
            for nu, c in s.pieri(p, lam, n + 1).items():
                if nu and nu[0] == n + k + 1:
                    assert c % 2 == 0
                    acc(res, (nu[1:], (1, 0, 0)), c // 2)
            return res
        e = (1, 0, 0) if k == 0 else (0, 1, 1) if (s.t == 'D' and k == 1) else (2, 0, 0)
        if lam and lam[0] == n + k:
            for nu, c in s.pieri(p, lam[1:]).items():
                if nu and nu[0] == n + k:
                    acc(res, (nu[1:], e), c)
        if k == 0:
            return res
        rows = s.rows
        if s.t == 'B' or k >= 2:
            if len(l) == rows and rows > 0:
                for nu, c in s.pieri(p, lam, n + 1).items():
                    z = nu and nu[-1] == 0
                    nn = nu[:-1] if z else nu
                    if len(nn) != rows + 1 or nn[0] > n + k:
                        continue
                    r = rows + 1 + nn[0] - (n + k)
                    if r <= 0 or (r < rows + 1 and nn[r] > 1):
                        continue
                    t = nn[1:r] + ((0,) if z else ())
                    acc(res, (s.swap(t), (1, 0, 0)), c)
        elif len(l) == n:
            lb = tuple(x - 1 for x in l if x > 1)
            a = abs(p)
            cp = {lb: 1} if a == 1 else _lagrangian(n).pieri(a - 1, lb)
            tl = 0 if 1 not in l else (2 if zero else 1)
            full = set(range(1, n + 1))
            for mu, c in cp.items():
                comp = sorted(full - set(mu), reverse=True)
                b = tuple(x + 1 for x in comp) + (1,) * (n - len(comp))
                if tl != 2 and p > 0:
                    acc(res, (s.dual(b), (0, 1, 0)), c)
                if tl != 1 and (p == -1 or p > 1):
                    acc(res, (s.dual(b + (0,) if 1 in b else b), (0, 0, 1)), c)
        return res

    # ---------------------------------------------------- index sets, duals
    def index(s, lam):
        """Schubert symbol of lam: jumps of the dimensions V meets a flag in."""
        k, n, N = s.k, s.n, s.N
        if s.t == 'A':
            la = lam + (0,) * (s.rows - len(lam))
            return tuple(k + j + 1 - la[j] for j in range(s.rows))
        if s._idx is None:
            s._idx = {}
            s._part = {}
            import itertools
            for P in itertools.combinations(range(1, N + 1), s.rows):
                st = set(P)
                if any((N + 1 - x) in st and N + 1 - x != x for x in P):
                    continue
                if N % 2 and (N + 1) // 2 in st:
                    continue
                if s.t == 'D' and k == 0 and sum(1 for x in P if x > s.rows) % 2:
                    continue                      # the other component
                la = s._index2part(P)
                assert la not in s._idx, s.name
                s._idx[la] = P
                s._part[P] = la
            assert set(s._idx) == s.cset, s.name
        return s._idx[lam]

    def _index2part(s, P):
        k, n, N = s.k, s.n, s.N
        la = []
        for j, p in enumerate(P):
            cnt = sum(1 for i in range(j) if P[i] + p > N + 1) if s.t != 'B' else \
                sum(1 for i in range(j) if P[i] + p > N + 1)
            if s.t == 'C':
                v = n + k + 1 - p + cnt
            elif s.t == 'B':
                v = n + k + 1 - p if p <= n else n + k + 2 - p + cnt
            else:
                v = n + k + 1 - p if p <= n + 1 else n + k + 2 - p + cnt
            la.append(v)
        while la and la[-1] == 0:
            la.pop()
        la = tuple(la)
        if s.t == 'D' and k > 0 and k in la:
            if sum(1 for x in range(1, n + 2) if x not in P) % 2:
                la += (0,)
        return la

    def part(s, P):
        if s.t == 'A':
            la = [s.k + j + 1 - P[j] for j in range(s.rows)]
            while la and la[-1] == 0:
                la.pop()
            return tuple(la)
        s.index(())
        return s._part[P]

    def dual(s, lam):
        N = s.N
        P = [N + 1 - x for x in reversed(s.index(lam))]
        if s.t == 'D' and (N // 2) % 2 == 1:
            h = N // 2
            P = [h + 1 if x == h else h if x == h + 1 else x for x in P]
        return s.part(tuple(sorted(P)))

    def pair(s, lam):
        zero = len(lam) > 0 and lam[-1] == 0
        l = lam[:-1] if zero else lam
        top = tuple(sum(1 for x in l if x > c) for c in range(s.k))
        bot = tuple(x - s.k for x in l if x > s.k) + ((0,) if zero else ())
        return top, bot

    def dual_by_pairing(s, lam):
        """Definitional dual (slow; used to validate dual)."""
        pt = s.point()
        hits = [b for b in s.classes if sum(lam) + sum(b) == s.dim
                and s.mulc(lam, {(b, ONE): 1}).get((pt, ONE), 0)]
        assert len(hits) == 1, (s.name, lam, hits)
        return hits[0]

    # ------------------------------------------------------------- products
    def _mulop(s, lam, el, pf, memo):
        if not lam:
            return el
        key = (lam, frozenset(el.items()))
        if key in memo:
            return memo[key]
        p = lam[0]
        z = lam[-1] == 0
        if s.t == 'D' and p == s.k and z:
            p = -p
        lam0 = lam[1:]
        if z and (len(lam) < 2 or lam[1] < s.k):
            lam0 = lam[1:-1]
        prod = pf(p, lam0)
        assert prod.get((lam, ONE)) == 1, (s.name, lam, p, lam0, prod)
        x = s._mulop(lam0, el, pf, memo)
        res = {}
        for (m, e), c in x.items():
            for (m2, e2), c2 in pf(p, m).items():
                acc(res, (m2, (e[0] + e2[0], e[1] + e2[1], e[2] + e2[2])), c * c2)
        for (m, e), c in prod.items():
            if m == lam and e == ONE:
                continue
            for (m2, e2), c2 in s._mulop(m, el, pf, memo).items():
                acc(res, (m2, (e[0] + e2[0], e[1] + e2[1], e[2] + e2[2])), -c * c2)
        memo[key] = res
        return res

    def _pc1(s, p, lam):
        return {(m, ONE): c for m, c in s.pieri(p, lam).items()}

    def mulc(s, lam, el):
        return s._mulop(lam, el, s._pc1, s._mc)

    def mulq(s, lam, el):
        return s._mulop(lam, el, s.q, s._mq)

    def mul(s, a, b, quantum):
        """Product of two elements."""
        f = s.mulq if quantum else s.mulc
        res = {}
        for (l, e), c in a.items():
            for (bm, be), bc in b.items():
                for (m, e2), c2 in f(l, {(bm, ONE): 1}).items():
                    acc(res, (m, (e[0] + e2[0] + be[0], e[1] + e2[1] + be[1], e[2] + e2[2] + be[2])), c * c2 * bc)
        return res

    def pieri_el(s, p, el, quantum):
        res = {}
        f = s.q if quantum else s._pc1
        for (l, e), c in el.items():
            for (m, e2), c2 in f(p, l).items():
                acc(res, (m, (e[0] + e2[0], e[1] + e2[1], e[2] + e2[2])), c * c2)
        return res


@lru_cache(None)
def _lagrangian(n):
    return Ring('OG', n + 1, 2 * n + 2)


@lru_cache(None)
def ring(cls, m, N):
    return Ring(cls, m, N)


def spaces():
    """Every space of the domain the checks draw from, by increasing size."""
    out = []
    for N in range(1, 9):
        out += [('Gr', m, N) for m in range(0, N + 1)]
    for N in range(2, 13, 2):
        out += [('IG', m, N) for m in range(0, N // 2 + 1)]
    for N in range(3, 14, 2):
        out += [('OG', m, N) for m in range(0, (N - 1) // 2 + 1)]
    for N in range(4, 15, 2):
        out += [('OG', m, N) for m in range(1, N // 2 + 1)]
    return out


def huge():
    """Spaces beyond those, asked only what stays cheap in them."""
    out = [('Gr', m, N) for N in range(9, 15) for m in range(1, N)]
    out += [('IG', m, N) for N in (14, 16) for m in range(1, N // 2 + 1)]
    out += [('OG', m, N) for N in (15, 17) for m in range(1, N // 2 + 1)]
    out += [('OG', m, N) for N in (16, 18) for m in range(1, N // 2 + 1)]
    return out

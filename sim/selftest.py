"""Setup: validate the reference model against laws the Pieri rules alone do not
give away, and show on a sample that one seed is one execution.

Model: duality from the definition against pairing in the ring, index sets there
and back, commutativity and associativity of the quantum product (the ring is
built from the Pieri rules by solving for the classes, so that these laws hold
only if the rules are right), commuting special multiplications.
Determinism: the same seeds twice, in other processes with another number of
workers and another hash seed of the parent; the run digests must agree.
"""
import os, random, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from refmodel import ring, spaces, ONE


def model(seconds=240):
    rnd = random.Random(20240901)
    t0 = time.time()
    seen = laws = 0
    for sp in spaces():
        if time.time() - t0 > seconds:
            break
        R = ring(*sp)
        seen += 1
        if len(R.classes) > 130:
            for c in rnd.sample(R.classes, 30):
                assert R.part(R.index(c)) == c, (sp, c)
            laws += 30
            continue
        for a in (R.classes if len(R.classes) <= 40 else rnd.sample(R.classes, 12)):
            if len(R.classes) <= 60:
                assert R.dual(a) == R.dual_by_pairing(a), ('dual', sp, a)
            assert R.part(R.index(a)) == a, ('index', sp, a)
            laws += 2
        for _ in range(12):
            a, b, c = (rnd.choice(R.classes) for _ in range(3))
            if sum(a) + sum(b) > 14:
                continue
            ab = R.mulq(a, {(b, ONE): 1})
            assert ab == R.mulq(b, {(a, ONE): 1}), ('commutes', sp, a, b)
            laws += 1
            if sum(c) <= 4 and len(R.classes) <= 40:
                assert R.mulq(c, ab) == R.mulq(a, R.mulq(b, {(c, ONE): 1})), \
                    ('associates', sp, a, b, c)
                laws += 1
        ps = R.specials()
        for _ in range(30 if ps else 0):
            p, q, l = rnd.choice(ps), rnd.choice(ps), rnd.choice(R.classes)
            x = R.pieri_el(p, R.pieri_el(q, {(l, ONE): 1}, True), True)
            y = R.pieri_el(q, R.pieri_el(p, {(l, ONE): 1}, True), True)
            assert x == y, ('specials commute', sp, p, q, l)
            laws += 1
    print('reference model: %d spaces, %d instances of its laws, %.0f s'
          % (seen, laws, time.time() - t0))


if __name__ == '__main__':
    model()

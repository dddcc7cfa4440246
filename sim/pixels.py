"""Reads the diagram back from the pixels of a picture."""
import numpy as np


def components(white):
    """Bounding boxes of the 4-connected white regions: row runs and union-find."""
    h, w = white.shape
    parent = []

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    box = []
    prev = []
    for y in range(h):
        row = white[y]
        d = np.flatnonzero(np.diff(np.concatenate(([0], row.view(np.int8), [0]))))
        cur = []
        for s, e in zip(d[::2], d[1::2]):
            i = len(parent)
            parent.append(i)
            box.append([y, int(s), y, int(e) - 1, int(e - s)])
            for ps, pe, pi in prev:
                if ps < e and s < pe:
                    a, b = find(pi), find(i)
                    if a != b:
                        parent[b] = a
                        A, B = box[a], box[b]
                        box[a] = [min(A[0], B[0]), min(A[1], B[1]), max(A[2], B[2]), max(A[3], B[3]), A[4] + B[4]]
            cur.append((s, e, i))
        prev = cur
    return [box[i] for i in range(len(parent)) if find(i) == i]


def rows(img):
    """Lengths of the rows of square cells in a picture (H x W x 4, 0..1)."""
    g = img[..., :3].mean(axis=2)
    if img.shape[2] == 4:
        g = g * img[..., 3] + (1 - img[..., 3])
    white = g > 0.75
    h, w = white.shape
    pad = np.ones((h + 2, w + 2), bool)
    pad[1:-1, 1:-1] = white
    cells = []
    for y0, x0, y1, x1, area in components(pad):
        bh, bw = y1 - y0 + 1, x1 - x0 + 1
        if y0 == 0 or x0 == 0:
            continue                       # the background
        if area >= .9 * bh * bw and abs(bh - bw) <= 4 and bh >= 10:
            cells.append((y0, x0, bh))
    if not cells:
        return []
    side = sorted(c[2] for c in cells)[len(cells) // 2]
    cells = [c for c in cells if abs(c[2] - side) <= 4]
    def pitch(vs):
        vs = sorted(vs)
        ds = [b - a for a, b in zip(vs, vs[1:]) if b - a > side / 2]
        if not ds:
            return side + 1.4
        n = round((vs[-1] - vs[0]) / min(ds))
        return (vs[-1] - vs[0]) / n
    dy, dx = pitch(c[0] for c in cells), pitch(c[1] for c in cells)
    out = {}
    left = min(c[1] for c in cells)
    top = min(c[0] for c in cells)
    for y, x, _ in cells:
        r = round((y - top) / dy)
        out.setdefault(r, set()).add(round((x - left) / dx))
    res = []
    for r in range(max(out) + 1):
        xs = out.get(r, set())
        if xs != set(range(len(xs))):
            return ['row %d has cells at %s' % (r, sorted(xs))]
        res.append(len(xs))
    return res


def ink(img):
    """Dark pixels above the first cell row, for the label."""
    g = img[..., :3].mean(axis=2)
    return int((g < .5).sum())

"""Choice trees and the executable definition of (nested) logit."""
import numpy as np
import pandas as pd

NAMES = ['a', 'b', 'c', 'd', 'e', 'bus', 'car', 'walk', 'x1', 'c_2']


class Node:
    __slots__ = ('name', 'scale', 'parent', 'children', 'pos')

    def __init__(self, name, scale, parent, pos):
        self.name, self.scale, self.parent, self.pos = name, scale, parent, pos
        self.children = []

    @property
    def path(self):
        return (self.parent.path if self.parent else ()) + (self.name,)


class Tree:
    """A reference tree: nodes in insertion order."""

    def __init__(self):
        self.nodes = []

    def add(self, name, scale=1.0, parent=None):
        n = Node(name, scale, parent, len(self.nodes))
        self.nodes.append(n)
        if parent is not None:
            parent.children.append(n)
        return n

    @property
    def tops(self):
        return [n for n in self.nodes if n.parent is None]

    @property
    def depth(self):
        return max(len(n.path) for n in self.nodes)

    def labels(self):
        """The choice labels as the documentation describes them (padded tuples for nested models)."""
        d = self.depth
        if d == 1:
            return [n.name for n in self.nodes]
        return [tuple(list(n.path) + ['.'] * (d - len(n.path))) for n in self.nodes]

    def elemental(self):
        return [n.pos for n in self.nodes if not n.children]

    def build(self, model):
        made = {}
        for n in self.nodes:
            if n.parent is None:
                made[n.pos] = model.add_choice(n.name, logsum_scale=n.scale)
            else:
                made[n.pos] = made[n.parent.pos].add_choice(n.name, logsum_scale=n.scale)
        return made

    def __str__(self):
        return ' '.join('.'.join(n.path) + (f'[{n.scale}]' if n.children else '') for n in self.nodes)


def gen_tree(src, max_depth=3, nested=None, max_top=5):
    """Draws a tree; nests always have at least two children. Insertion order interleaves nests."""
    t = Tree()
    kind = src.weighted([(3, 1), (4, 2), (2, 3)]) if nested is None else (src.rint(2, 3) if nested else 1)
    kind = min(kind, max_depth)
    names = NAMES

    def scale():
        return src.pick([1.0, 0.5, 0.75, 0.9, 0.3])

    n_top = src.rint(2, max_top)
    pending = []  # (parent, name, level)
    plan = [(None, names[k], 1) for k in range(n_top)]
    # decide which become nests
    order = list(plan)
    while order:
        parent, name, level = order.pop(0)
        node = t.add(name, scale(), parent)
        can = level < kind
        force = can and not any(n.children for n in t.nodes) and not pending and not order
        if can and (force or src.chance(1, 3)):
            kids = [(node, nm, level + 1) for nm in src.sample(names, 2 + src.draw(2))]
            if src.chance(1, 2):
                order = kids + order     # right after the nest itself
            else:
                order = order + kids     # interleaved: after the remaining siblings
                # children of a nest may also come in the middle of others
    return t


def reference(tree, util, scale_utilities=True):
    """Probabilities (all nodes; nests 0), top logsum term and per-node logsum terms by recursion on the definition."""
    util = np.asarray(util, dtype=np.float64)
    n_rows, n_cols = util.shape
    terms = np.zeros((n_rows, n_cols))
    probs = np.zeros((n_rows, n_cols))
    top = np.zeros(n_rows)
    with np.errstate(all='ignore'):
        def term(node):
            ps = node.parent.scale if (node.parent is not None and scale_utilities) else 1.0
            if not node.children:
                v = np.exp(util[:, node.pos] / ps)
            else:
                inner = 0.0
                for c in node.children:
                    inner = inner + term(c)
                v = np.exp((util[:, node.pos] + node.scale * np.log(inner)) / ps)
            terms[:, node.pos] = v
            return v

        for n in tree.tops:
            top = top + term(n)

        def share(node, p):
            if not node.children:
                probs[:, node.pos] = p
                return
            tot = sum(terms[:, c.pos] for c in node.children)
            for c in node.children:
                share(c, np.where(tot > 0, p * terms[:, c.pos] / np.where(tot > 0, tot, 1), 0.0))

        for n in tree.tops:
            share(n, np.where(top > 0, terms[:, n.pos] / np.where(top > 0, top, 1), 0.0))
    return probs, top, terms


def gen_units(src, n):
    kind = src.draw(4)
    if kind == 0:
        return pd.RangeIndex(n)
    if kind == 1:
        return pd.Index([1000 + 3 * k for k in src.shuffle(list(range(n)))])
    if kind == 2:
        return pd.Index([f'u{k}' for k in src.shuffle(list(range(n)))])
    return pd.MultiIndex.from_tuples([(k // 3, k % 3) for k in range(n)], names=['o', 'd'])


def gen_utilities(src, n, tree, precision, style=None):
    """Utilities whose exponentials neither overflow nor leave a unit without feasible alternative."""
    m = len(tree.nodes)
    style = src.draw(4) if style is None else style
    if style == 0:
        u = np.array([[src.num(-2, 2, 0.5) for _ in range(m)] for _ in range(min(n, 6))])
        if n > 6:
            u = np.resize(u, (n, m)) + np.random.RandomState(7).randint(-2, 3, (n, m)) * 0.25
    else:
        rs = np.random.RandomState(src.seed32())
        spread = [1.0, 4.0, 0.1][style - 1]
        u = rs.normal(0, spread, (n, m))
    if src.chance(1, 2):  # some alternatives unavailable
        rs = np.random.RandomState(src.seed32())
        off = rs.rand(n, m) < 0.25
        lv = tree.elemental()
        keep = rs.randint(0, len(lv), n)
        for r in range(n):
            node = tree.nodes[lv[keep[r]]]
            while node is not None:
                off[r, node.pos] = False
                node = node.parent
        low = src.pick([-np.inf, -1000.0])
        u = np.where(off, low, u)
    dt = np.float32 if precision == 4 else np.float64
    u = u.astype(dt).astype(np.float64)
    for _ in range(40):
        p, top, terms = reference(tree, u, True)
        p2, top2, terms2 = reference(tree, u, False)
        big = 1e30 if precision == 4 else 1e250
        if max(top.max(), terms.max(), top2.max(), terms2.max()) < big:
            break
        fin = np.isfinite(u) & (u > -900)
        u = np.where(fin, u * 0.5, u).astype(dt).astype(np.float64)
    # a unit whose feasible alternatives all underflow is not a case here
    small = 1e-30 if precision == 4 else 1e-250
    bad = (np.minimum(top, top2) < small)
    u[bad] = 0.0
    return u

"""Small-scope generators: graphs, labels, plans, flips, trees."""
import functools, itertools
import networkx as nx
from fractions import Fraction
from functools import lru_cache


@lru_cache(None)
def _atlas():
    return nx.graph_atlas_g()


@lru_cache(None)
def connected(n, max_edges=None):
    """All connected graphs on n nodes up to isomorphism, as tuples of edges on range(n)."""
    if n == 1:
        return ((),)
    out = []
    for g in _atlas():
        if len(g) == n and nx.is_connected(g):
            e = tuple(sorted(tuple(sorted(x)) for x in g.edges))
            if max_edges is None or len(e) <= max_edges:
                out.append(e)
    out.sort(key=lambda e: (len(e), e))
    return tuple(out)


@lru_cache(None)
def trees(n):
    if n == 1:
        return ((),)
    if n == 2:
        return (((0, 1),),)
    return tuple(tuple(sorted(tuple(sorted(e)) for e in t.edges)) for t in nx.nonisomorphic_trees(n))


def grid(m, n):
    """Edges of the m x n grid, cell (i, j) numbered i*n+j."""
    e = []
    for i in range(m):
        for j in range(n):
            if i + 1 < m:
                e.append((i * n + j, (i + 1) * n + j))
            if j + 1 < n:
                e.append((i * n + j, i * n + j + 1))
    return tuple(sorted(e))


def path(n):
    return tuple((i, i + 1) for i in range(n - 1))


def cycle(n):
    return tuple(sorted([(i, i + 1) for i in range(n - 1)] + [(0, n - 1)]))


def complete(n):
    return tuple(itertools.combinations(range(n), 2))


def star(n):
    return tuple((0, i) for i in range(1, n))


@functools.total_ordering
class Unit:
    """A node name that can be compared and hashed, but prints like all the others."""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return type(other) is Unit and self.i == other.i

    def __lt__(self, other):
        return self.i < other.i

    def __hash__(self):
        return hash(self.i // 2)

    def __repr__(self):
        return "unit"


LABELINGS = {
    "obj": Unit,
    "int": lambda i: i,
    "rev": lambda i: 100 - i,
    "str": lambda i: "n%02d" % ((i * 7) % 11),
    "tup": lambda i: (i // 2, i % 2),
    "neg": lambda i: (-1, -2, 0, 1, -3)[i] if i < 5 else (-1) ** i * i,      # hash(-1) == hash(-2)
}


def fresh(x):
    """A value equal to x that is, where Python allows it, not the same object."""
    if type(x) is str and len(x) > 1:
        return x[:1] + x[1:]
    if type(x) is int:
        return int(str(x))
    if type(x) is tuple:
        return tuple([fresh(y) for y in x])
    return x


def labels(kind, n):
    f = LABELINGS[kind]
    if kind == "str" and n > 11:
        return ["n%02d" % ((i * 7) % (101 if n <= 101 else 10007)) for i in range(n)]
    return [f(i) for i in range(n)]


def build(edges, n, kind="int", attrs=None, eattrs=None, order=None):
    """A gerrychain.Graph; attrs: {column: [value per node]}, eattrs: {column: f(i, j)}."""
    from gerrychain import Graph
    lab = labels(kind, n)
    g = Graph()
    for i in (order or range(n)):
        g.add_node(lab[i], **{k: fresh(v[i]) for k, v in (attrs or {}).items()})
    for i, j in edges:
        g.add_edge(lab[i], lab[j], **{k: f(i, j) for k, f in (eattrs or {}).items()})
    return g


def surjections(n, k):
    """All assignments of n nodes onto exactly k labels 0..k-1."""
    for a in itertools.product(range(k), repeat=n):
        if len(set(a)) == k:
            yield a


def set_partitions(n, k):
    """Assignments onto k labels, one per unlabelled partition (restricted growth strings)."""
    for a in surjections(n, k):
        seen = -1
        for x in a:
            if x > seen + 1:
                break
            seen = max(seen, x)
        else:
            yield a


def adj(edges, n):
    a = [set() for _ in range(n)]
    for i, j in edges:
        a[i].add(j)
        a[j].add(i)
    return a


def is_connected_set(nodes, neigh):
    nodes = set(nodes)
    if not nodes:
        return False
    st = [next(iter(nodes))]
    seen = {st[0]}
    while st:
        x = st.pop()
        for y in neigh[x]:
            if y in nodes and y not in seen:
                seen.add(y)
                st.append(y)
    return seen == nodes


def components(nodes, neigh):
    nodes = set(nodes)
    out = []
    while nodes:
        st = [next(iter(nodes))]
        seen = {st[0]}
        while st:
            x = st.pop()
            for y in neigh[x]:
                if y in nodes and y not in seen:
                    seen.add(y)
                    st.append(y)
        out.append(frozenset(seen))
        nodes -= seen
    return out


def contiguous_plans(edges, n, k, unlabelled=False):
    ng = adj(edges, n)
    gen = set_partitions(n, k) if unlabelled else surjections(n, k)
    for a in gen:
        if all(is_connected_set([i for i in range(n) if a[i] == d], ng) for d in range(k)):
            yield a


def spanning_trees(edges, nodes):
    """All spanning trees (tuples of edges) of the graph on ``nodes``."""
    nodes = sorted(nodes)
    idx = {v: i for i, v in enumerate(nodes)}
    es = [e for e in edges if e[0] in idx and e[1] in idx]
    need = len(nodes) - 1
    out = []

    def rec(i, comp, chosen):
        if len(chosen) == need:
            out.append(tuple(chosen))
            return
        if len(es) - i < need - len(chosen):
            return
        a, b = comp[idx[es[i][0]]], comp[idx[es[i][1]]]
        if a != b:
            c2 = tuple(a if x == b else x for x in comp)
            rec(i + 1, c2, chosen + [es[i]])
        rec(i + 1, comp, chosen)
    rec(0, tuple(range(len(nodes))), [])
    return out


def count_spanning_trees(edges, nodes):
    """Exact number of spanning trees (Kirchhoff, Fractions)."""
    nodes = sorted(nodes)
    if len(nodes) == 1:
        return 1
    idx = {v: i for i, v in enumerate(nodes)}
    n = len(nodes)
    L = [[Fraction(0)] * n for _ in range(n)]
    for a, b in edges:
        if a in idx and b in idx:
            i, j = idx[a], idx[b]
            L[i][i] += 1
            L[j][j] += 1
            L[i][j] -= 1
            L[j][i] -= 1
    m = [r[1:] for r in L[1:]]
    det = Fraction(1)
    n -= 1
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            return 0
        if p != c:
            m[c], m[p] = m[p], m[c]
            det = -det
        det *= m[c][c]
        for r in range(c + 1, n):
            f = m[r][c] / m[c][c]
            if f:
                for k in range(c, n):
                    m[r][k] -= f * m[c][k]
    return int(det)


def all_flips(nodes, k, max_nodes=None):
    """Every flips dictionary (as tuple of (node, label)): any subset of nodes to any labels."""
    for r in range(0, (max_nodes or len(nodes)) + 1):
        for sub in itertools.combinations(nodes, r):
            for tgt in itertools.product(range(k), repeat=r):
                yield tuple(zip(sub, tgt))


def single_flips(n, k):
    for i in range(n):
        for d in range(k):
            yield ((i, d),)


def apply(a, flips):
    b = list(a)
    for i, d in flips:
        b[i] = d
    return tuple(b)

"""An enumerating spanning-tree sampler: every spanning tree is one explored outcome."""
from functools import lru_cache
import networkx as nx
from . import gen
from .rng import ORACLE


@lru_cache(None)
def _trees(nodes, edges):
    idx = {v: i for i, v in enumerate(nodes)}
    es = tuple(tuple(sorted((idx[a], idx[b]))) for a, b in edges)
    return [tuple((nodes[a], nodes[b]) for a, b in t) for t in gen.spanning_trees(es, range(len(nodes)))]


class EnumTree:
    """spanning_tree_fn drawing uniformly among all spanning trees through the oracle."""

    def __init__(self):
        self.drawn = []
        self.graphs = []

    def __call__(self, graph):
        nodes = tuple(sorted(graph.nodes, key=repr))
        edges = tuple(sorted((tuple(sorted(e, key=repr)) for e in graph.edges), key=repr))
        ts = _trees(nodes, edges)
        if not ts:
            raise AssertionError("asked for a spanning tree of a disconnected graph")
        t = ts[ORACLE.uniform(len(ts), "T")]
        self.drawn.append(t)
        self.graphs.append(graph)
        h = nx.Graph()
        for v in graph.nodes:
            h.add_node(v, **graph.nodes[v])
        for a, b in t:
            h.add_edge(a, b)
        return h


def tree_sides(t, nodes):
    """{frozenset edge: (side, other side)} for a tree given as edges."""
    out = {}
    for e in t:
        ng = {v: set() for v in nodes}
        for a, b in t:
            if (a, b) != e:
                ng[a].add(b)
                ng[b].add(a)
        comps = gen.components(nodes, ng)
        out[frozenset(e)] = tuple(comps)
    return out


class StyleTree:
    """spanning_tree_fn for larger graphs: one of six systematic trees, the choice drawn through the
    oracle: depth-first and breadth-first trees from the first and last node, neighbours in either order."""

    def __call__(self, graph):
        how = ORACLE.uniform(6, "T")
        nodes = sorted(graph.nodes, key=repr)
        if how & 1:
            nodes.reverse()
        rank = {v: i for i, v in enumerate(nodes)}
        root = nodes[len(nodes) // 2] if how >= 4 else nodes[0]
        par = {root: None}
        todo = [(None, root)]
        done = set()
        while todo:
            a, v = todo.pop(0) if how in (2, 3) else todo.pop()
            if v in done:
                continue
            done.add(v)
            par[v] = a
            for x in sorted(graph.neighbors(v), key=rank.get):
                if x not in done:
                    todo.append((v, x))
        if len(done) != len(nodes):
            raise AssertionError("asked for a spanning tree of a disconnected graph")
        h = nx.Graph()
        for v in graph.nodes:
            h.add_node(v, **graph.nodes[v])
        for v, a in par.items():
            if a is not None:
                h.add_edge(a, v)
        return h

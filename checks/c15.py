"""C15 -- directed acyclic graph"""
import random

PID = 'C15'
QUICK_FACTOR = 8
RULE = ('random graphs (sparse, dense, chains, diamonds, disconnected, deep, cyclic) built by random edits (duplicate edges, '
        'disconnections, removed nodes, queries in between) and compared with a shadow adjacency; non-trivial: at least two nodes and one edge')
ASSUMPTIONS = ['node identifiers are hashable', 'graphs of at most 60 nodes, chains of at most 20000']
MONITORS = ['nodes', 'duplicate-node', 'roots', 'leafs', 'topological', 'cycle', 'breadth-first', 'neighbours', 'disconnect', 'remove', 'deep', 'read-only']


def run(ctx):
    from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph, DirectedAcyclicGraphNode

    def ids(rng, n):
        kind = rng.choice(['int', 'str', 'tuple', 'mixed'])
        out = []
        for i in range(n):
            k = rng.choice(['int', 'str', 'tuple']) if kind == 'mixed' else kind
            out.append({'int': i*7 % 1009, 'str': 'n%d' % i, 'tuple': ('t', i)}[k])
        return out

    class Shadow:
        def __init__(self):
            self.order = []
            self.edges = set()

        def down(self, a):
            return {y for x, y in self.edges if x == a}

        def up(self, a):
            return {x for x, y in self.edges if y == a}

        def distances(self, a):
            d = {a: 0}
            todo = [a]
            for x in todo:
                for y in self.down(x):
                    if y not in d:
                        d[y] = d[x]+1
                        todo.append(y)
            return d

        @property
        def cyclic(self):
            indegree = {x: len(self.up(x)) for x in self.order}
            todo = [x for x in self.order if not indegree[x]]
            n = 0
            while todo:
                x = todo.pop()
                n += 1
                for y in self.down(x):
                    indegree[y] -= 1
                    if not indegree[y]:
                        todo.append(y)
            return n < len(self.order)

    def observe(g, s, rng, data):
        nodes = list(g)
        ctx.check(sorted(map(repr, (n.node_id for n in nodes))) == sorted(map(repr, s.order)), 'nodes')
        for x in s.order:
            n = g[x]
            ctx.check(n.node_id == x and n.data == data[x], 'nodes')
            ctx.equal({y.node_id for y in n.descendants}, s.down(x), 'neighbours')
            ctx.equal({y.node_id for y in n.ancestors}, s.up(x), 'neighbours')
            ctx.equal((bool(n.is_root), bool(n.is_leaf)), (not s.up(x), not s.down(x)), 'neighbours')
        ctx.equal(sorted(repr(n.node_id) for n in g.roots()), sorted(repr(x) for x in s.order if not s.up(x)), 'roots')
        ctx.equal(sorted(repr(n.node_id) for n in g.leafs()), sorted(repr(x) for x in s.order if not s.down(x)), 'leafs')
        if s.cyclic:
            ctx.raises(NameError, g.topological_sort, 'cycle')
        else:
            order = [n.node_id for n in g.topological_sort()]
            rank = {x: i for i, x in enumerate(order)}
            if ctx.check(len(order) == len(s.order) and set(order) == set(s.order), 'topological', lambda: (order, s.order)):
                bad = [(a, b) for a, b in s.edges if rank[a] >= rank[b]]
                ctx.check(not bad, 'topological', lambda: bad)
        for x in rng.sample(s.order, min(3, len(s.order))):
            found = [n.node_id for n in g[x].breadth_first_search()]
            d = s.distances(x)
            if ctx.check(len(found) == len(d) and set(found) == set(d), 'breadth-first', lambda: (x, found, sorted(map(repr, d)))):
                levels = [d[y] for y in found]
                ctx.check(found[0] == x and levels == sorted(levels), 'breadth-first', lambda: (x, found, levels))
        # the queries leave the graph unchanged
        ctx.check({(a.node_id, b.node_id) for a in g for b in a.descendants} == s.edges, 'read-only')

    def graph(rng):
        n = rng.choice([1, 2, 3, 5, 8, 12, 20])
        names = ids(rng, n)
        hidden = list(names) # hidden topological order
        rng.shuffle(hidden)
        rank = {x: i for i, x in enumerate(hidden)}
        g, s = DirectedAcyclicGraph(), Shadow()
        data = {}
        pending = list(names)
        cyclic = rng.random() < .2
        density = rng.choice([.5, 1, 2, 4])
        steps = int(n*density) + n + 3
        log = []
        for _ in range(steps*2):
            k = rng.random()
            if pending and (k < .4 or len(s.order) < 2):
                x = pending.pop()
                data[x] = rng.choice([None, 'data', (1, 2)])
                if data[x] is None:
                    node = g.add_node(x)
                else:
                    node = g.add_node(x, data=data[x])
                ctx.check(node is g[x] and isinstance(node, DirectedAcyclicGraphNode), 'nodes')
                s.order.append(x)
                log.append(('node', x))
            elif k < .5 and s.order:
                x = rng.choice(s.order)
                ctx.raises(NameError, lambda: g.add_node(x), 'duplicate-node')
            elif k < .9 and len(s.order) >= 2:
                a, b = rng.sample(s.order, 2)
                if rank[a] > rank[b] and not (cyclic and rng.random() < .3):
                    a, b = b, a
                if rng.random() < .5:
                    g.add_edge(g[a], g[b])
                else:
                    g[b].connect_ancestor(g[a])
                s.edges.add((a, b))
                log.append(('edge', a, b))
            elif k < .92 and len(s.order) > 2:
                # a node is removed with its edges, its name can be used again
                x = max(rng.sample(s.order, 2), key=lambda y: len(s.up(y)) + len(s.down(y)))
                node, around = g[x], [g[y] for y in s.up(x) | s.down(x)]
                g.remove_node(x)
                s.order.remove(x)
                s.edges = {e for e in s.edges if x not in e}
                ctx.raises(KeyError, lambda: g[x], 'remove')
                ctx.raises(KeyError, lambda: g.remove_node(x), 'remove')
                ctx.check(not node.ancestors and not node.descendants, 'remove', lambda: (x, node.ancestors, node.descendants))
                ctx.check(all(node not in y.ancestors and node not in y.descendants for y in around), 'remove', lambda: (x, around))
                log.append(('remove', x))
                if rng.random() < .7:
                    pending.append(x)
                if rng.random() < .3:
                    observe(g, s, rng, data)
            elif s.edges:
                a, b = rng.choice(sorted(s.edges, key=repr))
                g[b].disconnect_ancestor(g[a])
                s.edges.discard((a, b))
                ctx.check(g[a] not in g[b].ancestors and g[b] not in g[a].descendants, 'disconnect')
                log.append(('cut', a, b))
            if rng.random() < .08 and s.order:
                observe(g, s, rng, data)
        ctx.note(log=log, trivial=len(s.order) < 2 or not s.edges)
        if s.order:
            observe(g, s, rng, data)
        ctx.raises(KeyError, lambda: g['unknown'], 'nodes')

    def deep(rng):
        n = rng.choice([500, 1500, 5000])
        ctx.note(n=n, r=rng.random())
        g = DirectedAcyclicGraph()
        order = list(range(n))
        rng.shuffle(order)
        for x in order:
            g.add_node(x)
        for i in range(n-1):
            g.add_edge(g[i], g[i+1])
        ctx.equal([x.node_id for x in g.topological_sort()], list(range(n)), 'deep')
        k = rng.randrange(n)
        ctx.equal([x.node_id for x in g[k].breadth_first_search()], list(range(k, n)), 'deep')
        g.add_edge(g[n-1], g[k])
        ctx.raises(NameError, g.topological_sort, 'cycle')
        h = DirectedAcyclicGraph()
        ctx.equal((list(h), h.roots(), h.leafs(), h.topological_sort()), ([], [], [], []), 'nodes')
        x = h.add_node('x')
        h.add_edge(x, x)
        ctx.raises(NameError, h.topological_sort, 'cycle')

    ctx.cases('graph', graph, 400, 12000)
    ctx.cases('deep', deep, 6, 40)

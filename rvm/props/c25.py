"""C25 graph utilities: DAG strings, barren nodes, d-separation, surgery, connectivity, Markov blankets."""
import itertools

import numpy as np

from .. import gen
from ..obs import snap_graph

ID = "C25"
CASES = {"quick": 1000, "thorough": 40000}
NEED = {"strings": 450, "isolated_strings": 200, "barren": 1800, "dsep": 1500, "dcon": 1500, "surgery": 1500, "connectivity": 1500, "blanket": 1500, "hidden_blanket": 800, "chained_barren": 100, "colliders": 200}
RULE = ("random DAGs of 1-9 nodes (isolated nodes, several components, names that are prefixes of one another), random targets and evidence given as a name, list or set; every utility is compared with "
        "its definition computed independently (path enumeration by the Bayes-ball rules, reachability, descendants). Distinct = (utility, nodes, arcs, size of the sets).")
ASSUMPTIONS = ["names contain none of the characters of the DAG notation"]


def descendants(ch, v):
    out, todo = set(), [v]
    while todo:
        for c in ch[todo.pop()]:
            if c not in out:
                out.add(c)
                todo.append(c)
    return out


def dconnected(parents, xs, z):
    """nodes with an active trail from some x given z (Bayes ball), x in z block at once."""
    ch = {v: [w for w in parents if v in parents[w]] for v in parents}
    anc = set(z)
    todo = list(z)
    while todo:
        for p in parents[todo.pop()]:
            if p not in anc:
                anc.add(p)
                todo.append(p)
    res, seen = set(), set()
    work = [(x, "up") for x in xs]
    while work:
        v, d = work.pop()
        if (v, d) in seen:
            continue
        seen.add((v, d))
        if v not in z:
            res.add(v)
        if d == "up" and v not in z:
            work += [(p, "up") for p in parents[v]] + [(c, "down") for c in ch[v]]
        elif d == "down":
            if v not in z:
                work += [(c, "down") for c in ch[v]]
            if v in anc:
                work += [(p, "up") for p in parents[v]]
    return res


def case(ctx, rng, i):
    import networkx as nx
    from bcause.util import graphutils as gu
    n = int(rng.integers(1, 10))
    vs = gen.names(rng, n)
    parents = gen.random_parents(rng, vs, 4, float(rng.choice([.05, .2, .4, .7])))
    edges = [(p, v) for v in parents for p in parents[v]]
    ch = {v: [w for w in vs if v in parents[w]] for v in vs}
    g = gen.dag_obj(rng, vs, edges)
    snap = snap_graph(g)
    ctx.note(parents=parents)
    iso = any(not parents[v] and not ch[v] for v in vs)
    # strings
    with ctx.sut("DAG to string and back"):
        s = gu.dag2str(g)
        h = gu.str2dag(s)
    ctx.check(set(h.nodes) == set(vs) and set(h.edges) == set(edges), f"{s} is read as {sorted(h.edges)} over {sorted(h.nodes)}")
    items = ["[" + v + ("|" + ":".join(gen.choose(rng, parents[v], len(parents[v]))) if parents[v] else "") + "]" for v in gen.choose(rng, vs, n)]
    with ctx.sut("DAG from a foreign string"):
        h = gu.str2dag("".join(items))
    ctx.check(set(h.nodes) == set(vs) and set(h.edges) == set(edges), f"{''.join(items)} is read as {sorted(h.edges)} over {sorted(h.nodes)}")
    for v in vs:
        part = next(x for x in s[1:-1].split("][") if x.split("|")[0] == v)
        pa = part.split("|")[1].split(":") if "|" in part else []
        ctx.check(sorted(pa) == sorted(parents[v]), f"{s}: parents of {v}")
    ctx.check(s.count("[") == n == s.count("]"), f"{s}: {n} nodes")
    ctx.count("strings"), ctx.count("isolated_strings", int(iso))
    for _ in range(4):
        S = gen.choose(rng, vs)
        arg = set(S) if rng.random() < .5 else list(S)
        keep = set(S)
        for v in S:
            todo = [v]
            while todo:
                for p in parents[todo.pop()]:
                    if p not in keep:
                        keep.add(p)
                        todo.append(p)
        with ctx.sut("barren nodes"):
            b, r = gu.barren_nodes(g, arg), gu.barren_removal(g, arg)
        ctx.check(set(b) == set(vs) - keep, f"barren nodes w.r.t. {S}: {sorted(b)} instead of {sorted(set(vs) - keep)}")
        ctx.check(set(r.nodes) == keep and set(r.edges) == {(a, c) for a, c in edges if a in keep and c in keep}, f"graph without barren nodes w.r.t. {S}: {sorted(r.nodes)}")
        ctx.count("barren"), ctx.count("chained_barren", int(len(set(vs) - keep) > 2)), ctx.seen("barren", n, len(edges), len(S))
        # d-separation
        t = gen.choose(rng, vs, int(rng.choice([1, 1, 2])))
        z = gen.choose(rng, [v for v in vs if v not in t], int(rng.integers(0, 4)))
        ta = t[0] if len(t) == 1 and rng.random() < .6 else (set(t) if rng.random() < .3 else list(t))
        za = z[0] if len(z) == 1 and rng.random() < .3 else list(z) if rng.random() < .6 else set(z)
        con = set()
        for v in vs:
            if v not in t:
                # an evidence node counts as connected when it is dependent given the other evidence
                if v in dconnected(parents, t, [x for x in z if x != v]):
                    con.add(v)
        with ctx.sut("d-separated nodes"):
            d = set(gu.dsep_nodes(g, ta, za))
        ctx.check(d - set(t) == set(vs) - con - set(t), f"nodes d-separated from {t} given {z}: {sorted(d - set(t))} instead of {sorted(set(vs) - con - set(t))}")
        ctx.count("dsep"), ctx.seen("dsep", n, len(edges), len(t), len(z))
        if len(t) == 1:
            with ctx.sut("d-connected nodes"):
                c = set(gu.dcon_nodes(g, t[0], za))
            ctx.check(c - set(t) == con, f"nodes d-connected with {t} given {z}: {sorted(c)} instead of {sorted(con)}")
            ctx.count("dcon")
        ctx.count("colliders", int(any(len(parents[v]) > 1 and v in z for v in vs)))
        # surgery
        K = gen.choose(rng, vs)
        ka = K if rng.random() < .4 else set(K) if rng.random() < .5 else dict.fromkeys(K, 0).keys()
        with ctx.sut("graph surgery"):
            o, a, r = gu.remove_outgoing_edges(g, ka), gu.remove_ingoing_edges(g, ka), gu.remove_nodes(g, ka)
        ctx.check(set(o.nodes) == set(vs) and set(o.edges) == {(x, y) for x, y in edges if x not in K}, f"removing the arcs out of {K}: {sorted(o.edges)}")
        ctx.check(set(a.nodes) == set(vs) and set(a.edges) == {(x, y) for x, y in edges if y not in K}, f"removing the arcs into {K}: {sorted(a.edges)}")
        ctx.check(set(r.nodes) == set(vs) - set(K) and set(r.edges) == {(x, y) for x, y in edges if x not in K and y not in K}, f"removing {K}: {sorted(r.nodes)}")
        for q in (o, a, r):
            q.add_node("mutated")
        ctx.check(snap_graph(g) == snap, "surgery works on the graph of the caller")
        ctx.count("surgery"), ctx.seen("surgery", n, len(edges), len(K))
        # connectivity
        comp, todo = set(t), list(t)
        while todo:
            v = todo.pop()
            for w in list(parents[v]) + ch[v]:
                if w not in comp:
                    comp.add(w)
                    todo.append(w)
        y = gen.pick_state(rng, vs)
        with ctx.sut("connectivity"):
            cc, dd = gu.connected(g, ta, y), gu.disconnected_nodes(g, ta)
        ctx.check(bool(cc) == (y in comp), f"{t} and {y} connected: {cc}")
        ctx.check(set(dd) == set(vs) - comp, f"nodes disconnected from {t}: {sorted(dd)} instead of {sorted(set(vs) - comp)}")
        ctx.count("connectivity")
        # blankets
        v = gen.pick_state(rng, vs)
        mb = (set(parents[v]) | set(ch[v]) | {p for c in ch[v] for p in parents[c]}) - {v}
        with ctx.sut("Markov blanket"):
            got = set(gu.markov_blanket(g, v)) if rng.random() < .5 else set(gu.markov_blanket(g, v, hidden=[]))
            rel = gu.relevat_vars(g, v)
        ctx.check(got == mb, f"Markov blanket of {v}: {sorted(got)} instead of {sorted(mb)}")
        ctx.check(sorted(rel) == sorted(parents[v] + [v]) and rel[-1] == v, f"family of {v}: {rel}")
        ctx.count("blanket")
        hid = gen.choose(rng, [x for x in vs if x != v], int(rng.integers(1, 4)))
        if hid:
            obs = [x for x in vs if x != v and x not in hid]
            want = {x for x in vs if x != v and x in dconnected(parents, [v], [q for q in obs if q != x])}
            with ctx.sut("Markov blanket with hidden nodes"):
                got = set(gu.markov_blanket(g, v, hidden=list(hid) if rng.random() < .5 else set(hid)))
            ctx.check(got == want, f"Markov blanket of {v} with {hid} hidden: {sorted(got)} instead of {sorted(want)}")
            ctx.count("hidden_blanket"), ctx.seen("hidden", n, len(edges), len(hid))
    ctx.check(snap_graph(g) == snap, "a graph utility changed the graph")
    if i < 3:
        ctx.sample({"dag": s, "edges": edges})

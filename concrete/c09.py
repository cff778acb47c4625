"""Coordinates are small multiples of 1/4, so that floating point arithmetic is exact."""
from concrete.core import *

M = 'bpmn_python.diagram_layout_metrics:'
S = 'contracts.layout_metrics:'


def num(rng, k=4):
    return rng.choice([rng.randint(-k, k), rng.randint(-k, k), rng.randint(-4 * k, 4 * k) / 4.0])


def coord(rng, k=4):
    v = num(rng, k)
    return rng.choice([str, str, str, float, lambda x: x])(v)


def pt(rng, k=4):
    return {'x': float(num(rng, k)), 'y': float(num(rng, k))}


def seg(rng, k=4):
    return {'source': pt(rng, k), 'target': pt(rng, k)}


def pair(rng):
    k = rng.choice([1, 2, 3, 6])
    a, b = seg(rng, k), seg(rng, k)
    if rng.random() < 0.3:        # touching
        b[rng.choice(['source', 'target'])] = dict(a[rng.choice(['source', 'target'])])
    if rng.random() < 0.2:        # an end point inside the other segment
        b['source'] = {c: (a['source'][c] + a['target'][c]) / 2 for c in 'xy'}
    if rng.random() < 0.2:        # parallel
        d = pt(rng, k)
        b = {e: {c: a[e][c] + d[c] for c in 'xy'} for e in ('source', 'target')}
    if rng.random() < 0.1:
        a, b = b, a
    return ((a, b), {})


def diag(rng):
    d = raw_diagram(rng, nodes=rng.choice([2, 4, 6]), flows=rng.choice([0, 1, 2, 4, 6, 8]))
    k = rng.choice([1, 2, 4])
    for u, v, a in d.diagram_graph.edges(data=True):
        a['waypoints'] = [(coord(rng, k), coord(rng, k)) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
    return d


def flows(rng):
    return ((list(diag(rng).diagram_graph.edges(data=True)),), {})


CASES = [contract('count_segments', M + 'count_segments', S + 'count_segments', lambda rng: ((diag(rng),), {})),
         contract('count_crossing_points', M + 'count_crossing_points', S + 'count_crossing_points', lambda rng: ((diag(rng),), {})),
         contract('get_flows_segments', M + 'get_flows_segments', S + 'get_flows_segments', flows),
         contract('do_intersect', M + 'do_intersect', S + 'do_intersect', pair),
         contract('segments_common_points', M + 'segments_common_points', S + 'segments_common_points', pair)]

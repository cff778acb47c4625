"""Contracts of the layout metrics: flow segments and their crossings, in plane geometry."""
from contracts.base import requires


def point(p):
    return {"x": float(p[0]), "y": float(p[1])}


def flow_segments(flows):
    """One segment per pair of consecutive waypoints of each flow."""
    out = []
    for u, v, a in flows:
        w = a["waypoints"]
        for i in range(len(w) - 1):
            out.append({"source": point(w[i]), "target": point(w[i + 1])})
    return out


def get_flows_segments(flows):
    return flow_segments(flows)


def count_segments(diagram):
    total = 0
    for u, v, a in diagram.diagram_graph.edges(data=True):
        total = total + (len(a["waypoints"]) - 1)
    return total


def points_are_equal(p, q):
    return p["x"] == q["x"] and p["y"] == q["y"]


def segments_common_points(a, b):
    """The two segments share an end point."""
    for p in (a["source"], a["target"]):
        for q in (b["source"], b["target"]):
            if p["x"] == q["x"] and p["y"] == q["y"]:
                return True
    return False


def side(a, b, c):
    """Twice the signed area of the triangle a, b, c."""
    return (b["x"] - a["x"]) * (c["y"] - a["y"]) - (b["y"] - a["y"]) * (c["x"] - a["x"])


def orientation(p1, p2, p3):
    """0 if the points are on one line, 1 for a clockwise turn, 2 for a counter-clockwise one."""
    s = side(p1, p2, p3)
    return 0 if s == 0 else (1 if s < 0 else 2)


def between(a, b, c):
    return (a <= c and c <= b) or (b <= c and c <= a)


def lies_on_segment(p1, p2, p3):
    """p3 lies in the bounding box of the segment p1, p2 (for three points on one line: on the segment)."""
    return between(p1["x"], p2["x"], p3["x"]) and between(p1["y"], p2["y"], p3["y"])


def do_intersect(one, two):
    """The closed segments share a point (lemmas `meet`: this is equivalent to the existence of a common point)."""
    p, q, r, s = one["source"], one["target"], two["source"], two["target"]
    if orientation(p, q, r) != orientation(p, q, s) and orientation(r, s, p) != orientation(r, s, q):
        return True
    return (orientation(p, q, r) == 0 and lies_on_segment(p, q, r)) or (orientation(p, q, s) == 0 and lies_on_segment(p, q, s)) or \
        (orientation(r, s, p) == 0 and lies_on_segment(r, s, p)) or (orientation(r, s, q) == 0 and lies_on_segment(r, s, q))


def count_crossing_points(diagram):
    """Pairs of flow segments that meet although they have no common end point."""
    segments = flow_segments(diagram.diagram_graph.edges(data=True))
    total = 0
    for j in range(len(segments)):
        for i in range(j):
            if do_intersect(segments[i], segments[j]) and not segments_common_points(segments[i], segments[j]):
                total = total + 1
    return total

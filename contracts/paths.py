"""Contracts of the longest-path metrics.

A path starts at a node without incoming flows, follows flows from source to target and visits no node twice."""
from contracts.base import requires

COUNTED = ("task", "subProcess")


def longer(best, path):
    return path if len(path) > len(best) else best


def successors(diagram, node):
    """Targets of the outgoing flows of a node, in order."""
    return [diagram.get_node_by_id(diagram.get_flow_by_id(f)[2]["targetRef"]) for f in node[1]["outgoing"]]


def complete_from(before, node, diagram):
    """A longest path that begins with the nodes `before` and `node` and ends in a node without outgoing flows ([] if there is none)."""
    here = before + [node]
    if len(node[1]["outgoing"]) == 0:
        return here
    best = []
    for n in successors(diagram, node):
        if n not in here:
            best = longer(best, complete_from(here, n, diagram))
    return best


def tasks_from(before, tasks, node, diagram):
    """The tasks of a path that begins with `before` (whose tasks are `tasks`) and `node` and has as many tasks as possible."""
    here = before + [node]
    mine = tasks + [node] if node[1]["type"] in COUNTED else tasks
    if len(node[1]["outgoing"]) == 0:
        return mine
    best = []
    for n in successors(diagram, node):
        best = longer(best, mine if n in here else tasks_from(here, mine, n, diagram))
    return best


def compute_longest_path(diagram):
    best = []
    for n in diagram.get_nodes():
        if len(n[1]["incoming"]) == 0:
            best = longer(best, complete_from([], n, diagram))
    return best, len(best)


def compute_longest_path_tasks(diagram):
    best = []
    for n in diagram.get_nodes():
        if len(n[1]["incoming"]) == 0:
            best = longer(best, tasks_from([], [], n, diagram))
    return best, len(best)

"""The parsed form of an element tree that has just been written: what minidom shows of it (trusted serialisation).

White space added by pretty printing is left out: that the importer ignores it is part of the import contracts (C04), that it
is the only text changed is part of the export contracts (C05).
"""


class Text:
    ELEMENT_NODE = 1

    def __init__(self, value):
        self.nodeType = 3
        self.nodeValue = value
        self.data = value


class TreeDom:
    ELEMENT_NODE = 1
    TEXT_NODE = 3
    COMMENT_NODE = 8

    def __init__(self, element):
        self.element = element
        self.nodeType = 1
        self.tagName = element.tag
        self.nodeName = element.tag
        self.firstChild = Text(element.text) if element.text is not None else None

    def getAttribute(self, name):
        return self.element.get(name, "")

    def hasAttribute(self, name):
        return name in self.element.keys()

    def getElementsByTagNameNS(self, namespace, name):
        """Direct children: an exported document nests none of the searched elements deeper."""
        return [TreeDom(c) for c in self.element if c.tag.split(":")[-1] == name]


def children(node):
    return [TreeDom(c) for c in node.element]


def seen_shape(node):
    b = node.getElementsByTagNameNS("*", "Bounds")[0]
    return ("shape", node.getAttribute("bpmnElement"), node.getAttribute("isHorizontal"), node.getAttribute("isExpanded"),
            (b.getAttribute("width"), b.getAttribute("height"), b.getAttribute("x"), b.getAttribute("y")))


def seen_line(node):
    return ("line", node.getAttribute("bpmnElement"),
            [(w.getAttribute("x"), w.getAttribute("y")) for w in node.getElementsByTagNameNS("*", "waypoint")])

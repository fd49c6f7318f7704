ID, PROPERTY = "C08-promoted-children", "C08"
NEEDS = "removing an element that has both a parent and children"
BREAKS = "the children of a removed element name its former parent, which does not list them"
EDITS = [("graph_handler.py", "            child.parent = None\n", "            child.parent = self.parent\n")]
DEMO = '''
from nonlinear_avoidance.graph_handler import BasicGraphHandler
g = BasicGraphHandler()
g.root = "r"
g.add_element_with_parent("a", g.root)
a = g._graph[-1]
g.add_element_with_parent("b", a)
b = g._graph[-1]
g.delete_element(a)
for e in g._graph:
    assert e.parent is None or e in e.parent.children, "not listed by its parent"
    assert all(c.parent is e for c in e.children)
'''

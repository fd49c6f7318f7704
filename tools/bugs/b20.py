ID, PROPERTY = "C08-half-added", "C08"
NEEDS = "an addition that names a parent which does not exist, followed by any use of the registry"
BREAKS = "an addition that is rejected for its unknown parent leaves the element behind: it turns up as half an entry and shifts later ones"
EDITS = [("graph_handler.py", """        ind_parent = self._node_values.index(parent_value)

        self._node_values.append(value)
        self._children_indices.append([])

        ind_node""", """        self._node_values.append(value)
        self._children_indices.append([])
        ind_parent = self._node_values.index(parent_value)

        ind_node""")]
DEMO = '''
from nonlinear_avoidance.graph_handler import GraphHandler
g = GraphHandler()
g.set_root("a")
try:
    g.add_element_with_parent("x", "nobody")
except ValueError:
    pass
g.add_element_with_parent("b", "a")
assert g.n_nodes == 2, g._node_values
assert g.get_parent("b") == "a" and g.get_children("a") == ["b"]
assert list(g.get_nodes_hirarchy_descending()) == ["a", "b"]
'''

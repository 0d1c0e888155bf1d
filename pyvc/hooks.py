"""Assumed behaviour of what lies outside the repository (external contracts)."""
from . import ctree, cnode, cqueue, cfilter, ccount, cview, cpath, cvtree, crun, cupd, creqv, cref, cinit, cwrap, cgtk, cquery, cwidget
from .ex import VV, BV, FnV, Unsupported
SCHEMA = ctree.SCHEMA
GHOST = ctree.GHOST
CONTRACTS = ctree.C
GUARDS = cqueue.GUARDS
LOOPS = {}

def current_thread(ex, p, pos, kw, line):
    return [('ok', VV(ex.leaf(p.heap, '$thread')), p)]

HOOKS = {
    'threading.current_thread': current_thread,
}
HOOKS.update(cqueue.HOOKS)
HOOKS.update(cgtk.HOOKS)
HOOKS.update(cwidget.HOOKS)


# ---------------------------------------------------------------- what a caller that gives nothing gets
def _defaults():
    want = {
        'Tree.add_node': dict(parent_id=None), 'Tree.del_node': dict(recursive=False), 'Tree.move_node': dict(new_parent_id=None), 'Tree.add_parent': dict(new_parent_id=None),
        'Tree.get_viewtree': dict(name=None, refresh=True), 'Tree.get_viewcount': dict(name=None, refresh=True), 'Tree.add_filter': dict(parameters=None),
        'FiltersBank.add_filter': dict(parameters=None), 'TreeNode.__init__': dict(parent=None), '_Node.__init__': dict(parent=None),
        '_Node.has_parent#query': dict(parent_id=None), '_Node.has_child#query': dict(child_id=None),
        'ViewCount.__init__': dict(refresh=True), 'ViewCount.apply_filter': dict(refresh=True), 'ViewTree.__init__': dict(refresh=True, static=False), 'FilteredTree.__init__': dict(refresh=True),
        'ViewTree.queue_action': dict(param=None), 'FilteredTree.set_callback': dict(param=None, node_id=None),
        'ViewTree.get_paths_for_node': dict(node_id=None), 'ViewTree.next_node': dict(pid=None), 'MainTree.next_node': dict(parent_id=None), 'ViewTree.node_all_children': dict(node_id=None),
        'FilteredTree.node_all_children': dict(node_id=None), 'ViewTree.node_n_children': dict(node_id=None, recursive=False), 'FilteredTree.node_n_children': dict(recursive=False),
        'MainTree.get_node#query': dict(node_id=None), 'MainTree._remove_node': dict(recursive=False),
        'ViewTree.apply_filter': dict(parameters=None, reset=False, refresh=True), 'ViewTree.unapply_filter': dict(refresh=True), 'ViewTree.reset_filters': dict(refresh=True),
        'FilteredTree.apply_filter': dict(parameters=None, refresh=True), 'FilteredTree.unapply_filter': dict(refresh=True), 'FilteredTree.reset_filters': dict(refresh=True),
    }
    for q, d in want.items():
        CONTRACTS[q].defaults = d


_defaults()

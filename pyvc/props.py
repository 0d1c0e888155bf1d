"""Which functions carry which property, and what each proof leaves unchecked."""

REQ = ['MainTree._create_relationship', 'MainTree._destroy_relationship', 'MainTree._is_circular_relation', 'MainTree._new_relationship',
       'MainTree._break_relationship', 'MainTree._add_node', 'MainTree._remove_node', 'MainTree._modify_node',
       '_Node.get_parents', '_Node.get_children', '_Node.add_parent', '_Node.add_child', '_Node.remove_parent', '_Node.set_parent']

NEWTREE = ['_Node.__init__', '_Node.__init__#parent', 'MainTree.__init__', 'Tree.__init__', 'Tree.add_node', 'Tree.del_node', 'Tree.refresh_node', 'Tree.move_node', 'Tree.add_parent']
REFRESH = ['MainTree.refresh_all', 'Tree.refresh_all', 'ViewTree.refresh_all', '_Node.modified']
NEWVIEW = ['FilteredTree.__init__', 'ViewTree.__init__', 'Tree.__init__', 'Tree.get_viewtree', 'MainTree.refresh_all#view', 'ViewTree.refresh_all#view', 'ViewTree.apply_filter', 'ViewTree.unapply_filter', 'ViewTree.reset_filters']

QUEUE = ['SyncQueue.__init__', 'SyncQueue.push', 'SyncQueue.process', 'SyncQueue.process_queue']
QUEUED = ['MainTree.%s#queued' % m for m in ('add_node', 'remove_node', 'modify_node', 'new_relationship', 'break_relationship')]
LISTEN = ['MainTree.register_callback', 'MainTree.deregister_callback', 'MainTree._callback#body',
          'ViewTree.register_cllbck', 'ViewTree.deregister_cllbck', 'ViewTree.__emit']
FILTERS = ['Filter.is_displayed', 'Filter.is_flat', 'Filter.set_parameters', 'FiltersBank.__init__', 'FiltersBank.get_filter', 'FiltersBank.has_filter',
           'FiltersBank.list_filters', 'FiltersBank.add_filter', 'FiltersBank.remove_filter', 'Tree.add_filter', 'Tree.remove_filter', 'Tree.list_filters']
COUNT = ['ViewCount.' + m for m in ('__init__', '__callback', '__add', '__delete', '__modify', 'modify', '__modify#heard', '__delete#heard', '__refresh', 'apply_filter',
                                    'unapply_filter', 'get_n_nodes', 'register_cllbck', 'unregister_cllbck')]
REQUESTS = ['MainTree._new_relationship', 'MainTree._break_relationship', 'MainTree._add_node', 'MainTree._remove_node', 'MainTree._modify_node']

VIEWQ = ['FilteredTree.' + m for m in ('is_displayed', 'node_all_children', 'node_has_child', 'node_nth_child', 'node_parents', 'next_node', 'node_n_children',
                                       'get_paths_for_node', 'get_node_for_path', 'get_all_nodes')]
VIEWN = ['FilteredTree.get_all_nodes', 'FilteredTree.get_nodes', 'FilteredTree.get_n_nodes', 'FilteredTree.list_applied_filters', 'Filter.is_displayed', 'FiltersBank.get_filter']
MAINQ = ['MainTree.get_paths_for_node', 'MainTree.get_node_for_path', 'MainTree.next_node', 'MainTree.get_all_nodes', '_Node.get_parents', '_Node.get_children']
WRAPQ = ['ViewTree.' + m for m in ('get_all_nodes', 'get_paths_for_node', 'get_node_for_path', 'next_node', 'node_has_child', 'node_all_children', 'node_parents',
                                   'node_has_parent', 'is_displayed', 'node_nth_child')]
RUNONCE = ['FilteredTree.set_callback', 'FilteredTree.__run_once', 'FilteredTree.callback', 'ViewTree.queue_action']

UPD = ['FilteredTree.__update_node#' + v for v in ('full_down', 'full_both', 'up', 'orphan', 'quiet', 'root', 'del')]
REQV = ['MainTree._add_node#view', 'MainTree._remove_node#view', 'MainTree._new_relationship#view', 'MainTree._break_relationship#view', 'MainTree._modify_node#view',
        'MainTree._create_relationship#ranked']
VIEWUPD = UPD + REQV + ['FilteredTree.' + m for m in ('__external_modify', 'refilter', 'apply_filter', 'unapply_filter', 'reset_filters', 'get_current_state',
                                                      '__is_displayed', '__node_children', '__node_parents', 'send_add_tree', 'send_remove_tree')]
SIGNALS = ['FilteredTree.callback', 'FilteredTree.set_callback', 'FilteredTree.get_paths_for_node', 'ViewTree.register_cllbck', 'ViewTree.deregister_cllbck', 'ViewTree.__emit']
MODEL = ['TreeModel.' + m for m in ('__init__', 'set_column_function', 'connect_model', 'my_get_iter', 'add_task', 'remove_task', 'update_task')] + [
    'ViewTree.is_displayed#mid', 'FilteredTree.is_displayed#mid', 'ViewTree.__emit#model', 'FilteredTree.callback#model']
VIEWREST = ['Filter.is_displayed', 'FiltersBank.get_filter', 'MainTree._callback#body']

# functions that support a property: only their obligations that carry its name count for it
SUPPORT = {'C14': REQUESTS, 'C15': ['FilteredTree.__init__', 'FilteredTree.apply_filter', 'FilteredTree.unapply_filter', 'FilteredTree.reset_filters', 'ViewTree.apply_filter', 'ViewTree.unapply_filter', 'ViewTree.reset_filters'],
           'C07': ['ViewTree.__init__', 'FilteredTree.__init__']}

NODES = ['MainTree.get_node#query', 'MainTree.has_node#query', 'MainTree.get_root#query', 'Tree.get_node#query', 'Tree.has_node#query', 'ViewTree.get_node#query']
LINKS = ['_Node.%s#query' % m for m in ('has_parent', 'has_child', 'get_nth_child', 'get_child_index', 'get_n_children')]

CONES = {
    'C01': REQ + NEWTREE, 'C02': REQ + NEWTREE + LINKS, 'C03': REQ + NEWTREE, 'C04': REQ + NEWTREE + NODES + ['TreeNode.__init__', 'TreeNode.__init__#parent'], 'C05': REQ + NEWTREE + NODES, 'C06': REQ + NEWTREE,
    'C07': REQ + NEWTREE + REFRESH + LISTEN + ['ViewTree.__init__', 'FilteredTree.__init__'],
    'C08': MAINQ + WRAPQ + NODES + LINKS + ['Tree.get_main_view', 'ViewTree.get_basetree', 'ViewTree.get_root#query'],
    'C09': VIEWUPD + VIEWREST + NEWVIEW,
    'C10': VIEWUPD + VIEWREST + NEWVIEW,
    'C11': VIEWUPD + VIEWREST + SIGNALS + NEWVIEW + ['ViewTree.get_current_state'] + REFRESH,
    'C12': VIEWQ + WRAPQ + ['ViewTree.node_n_children'],
    'C13': VIEWN + ['ViewTree.get_nodes', 'ViewTree.get_n_nodes', 'ViewTree.get_all_nodes', 'ViewTree.list_applied_filters'],
    'C14': COUNT + ['Tree.get_viewcount'] + ['Filter.is_displayed', 'FiltersBank.get_filter', 'FiltersBank.has_filter', 'MainTree.register_callback', 'MainTree._callback#body'] + REQUESTS,
    'C15': FILTERS + ['Filter.__init__#new', 'Filter.get_parameters'] + ['Tree.__init__', 'FilteredTree.__init__', 'FilteredTree.apply_filter', 'FilteredTree.unapply_filter', 'FilteredTree.reset_filters', 'ViewTree.apply_filter', 'ViewTree.unapply_filter', 'ViewTree.reset_filters'],
    'C16': QUEUE + QUEUED,
    'C17': VIEWUPD + RUNONCE + NEWVIEW,
    'C18': MODEL + VIEWUPD + VIEWREST + SIGNALS + NEWVIEW + ['ViewTree.get_current_state'],
    'C19': ['TreeView.on_drag_data_received#inner', 'TreeView.on_drag_data_received#outer', 'TreeView.__init_dnd', 'TreeView.set_dnd_external'],
}

ALL = ['C%02d' % i for i in range(1, 20)]

TRUST = [
    'the VC generator pyvc/ex.py (its semantics of the Python subset) and the z3 4.x SMT solver',
    'the definitional axioms of pyvc/theory.py (sequences, counting, graph reachability); every other axiom used is proved from them on each run',
    'node ids, filter names and event names are strings; ids differ from the reserved root ids',
    'listeners and filter functions do not issue requests to the tree while they are being called',
    'integers are mathematical (as Python ints are); memory exhaustion and recursion-depth limits are not modelled; termination is not proved',
]

WFTREE = 'the tree is well formed (links agree, no cycle, every parentless node on the top level): established by every request, proved under C01, C02, C03'
WFVIEW = 'the view is consistent (parent and child links agree, no duplicates, links descend): the invariant of the update algorithm, kept by every request and filter change (proved under C10)'
VIEWUPDATE = [
    'each filter judges a node by itself and deterministically; a change of verdict is announced by refreshing that node before anything else changes (the scope stated by the property)',
    'filter functions, listeners of the view and queued actions issue no request while they are called and raise no exception',
    'the trusted link MainTree._callback#view: an announcement made by the tree runs FilteredTree.__external_modify of the view with the announced node (the body of _callback, which calls every registered listener once, is proved under C07)',
    'the id of the view root is not the id of a node of the tree',
]
EXTRA = {
    'C19': ['GTK is described by trusted hooks (pyvc/cwidget.py): the widget, its model, the row under a position, the row above a row, the text and the values of a row, the selection; whether a row is still there may change with every request made',
            'a textual path of another widget leads to a row of it, and its rows stay while the registered function is called',
            'decoding the selection and splitting it at commas yields the texts of the rows (on_drag_data_get, which joins them, is not under contract)',
            'move_node is described by the request it makes (recorded) and may be refused with an exception; what the move does is C06'],
    'C09': VIEWUPDATE, 'C10': VIEWUPDATE, 'C11': VIEWUPDATE, 'C17': VIEWUPDATE,
    'C08': [WFTREE],
    'C12': [WFVIEW],
    'C13': [WFVIEW],
    'C18': VIEWUPDATE + [
        'Gtk.TreeStore is described by trusted hooks (pyvc/cgtk.py): insert, remove, set_value, get_value, iter_is_valid and the navigation functions act on rows as documented; nothing else changes the rows (no sorting, no drag and drop)',
        'between two announcements nothing but the model touches the rows, the handlers registered by connect_model or the columns (that an announcement runs the handler of its event, and so keeps one row per announced path, is proved: ViewTree.__emit#model, FilteredTree.callback#model)',
        'column functions yield a value other than None, compute it from the node alone, do nothing else, and a change of it is announced by refreshing the node (the scope stated by the property)',
        'the deprecated reordering signal is never sent (proved at every call of FilteredTree.callback), so TreeModel.reorder_nodes is never called',
    ],
}
BOUNDED = {}
LEVEL = {}
SECONDS = {}
NOT_APPLICABLE = {}
TECHNIQUE = {}
NOTE = {}
TECH_DEFAULT = 'contract-based deductive verification: contracts on the real functions, obligations generated from the current source, discharged by z3'
NOTE_DEFAULT = 'Every obligation of the functions listed in the evidence is discharged for all inputs; assumptions and trusted contracts are listed there. The executable oracle runs beside the proof to supply failing inputs.'
for _p in ALL:
    if not CONES.get(_p):
        TECHNIQUE[_p] = 'contract-based deductive verification (contracts in progress; currently the bounded stand-in: the contract executed as an oracle on the real code)'
        NOTE[_p] = 'Bounded: the property is asserted after every operation of random histories on the real code; not a proof.'

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
T='liblarch/tree.py';N='liblarch/treenode.py';I='liblarch/__init__.py';F='liblarch/filteredtree.py';V='liblarch/viewtree.py';B='liblarch/filters_bank.py';C='liblarch/viewcount.py';Q='liblarch/processqueue.py';G='liblarch_gtk/treemodel.py'
scope="Node ids are non-empty strings other than the reserved names of the roots (of the tree and of its views), nodes keep accepting parents and children (the enabled flags are left at their default), listeners do not themselves change the tree, and requests come from the thread that created the tree."
p('C01','The graph never contains a cycle',
 "Whatever requests are issued (adding nodes, with or without a parent, with relations declared before either node exists; adding parents or children; moving; breaking; removing; in any order), no node is ever its own ancestor. A request for a relation that would close a cycle never creates that relation, and a relation that would not close a cycle is never refused as circular.",
 ['histories','inputs'],"every finite history of requests over any node ids; "+scope,
 "Tests build two or three fixed small graphs; acyclicity must hold for every graph shape and every order of requests, including relations declared before the nodes exist.",
 [T,N,I],[('MainTree._is_circular_relation',T),('MainTree._new_relationship',T),('MainTree._add_node (pending relations)',T)],
 [('nodes','node id -> node object',T),('parents / children','adjacency lists of a node',N)],['TreeNode.get_parents','TreeNode.get_children'])
p('C02','Parent and child links always agree',
 "After every request, accepted or refused, a node lists another among its children exactly when that other lists it among its parents. No list contains the same node twice, and every listed node is present in the tree.",
 ['histories','inputs'],"every finite history of requests over any node ids; "+scope,
 "Two lists per node are updated at different places and removal/moving edit them while walking them; tests look at nodes with at most one or two relatives.",
 [T,N],[('MainTree._create_relationship / _destroy_relationship',T),('MainTree._remove_node',T),('_Node.add_child / remove_parent / set_parent',N)],
 [('parents / children','adjacency lists of a node',N)],['TreeNode.get_parents','TreeNode.get_children','TreeNode.has_child'])
p('C03','Exactly the parentless nodes sit directly under the root',
 "After every request, including one refused with an error, the top-level nodes are exactly the nodes of the tree that have no parent, each listed once. Hence every node of the tree can be reached from the root.",
 ['histories','inputs'],"every finite history of requests over any node ids; "+scope,
 "A node lost from the root list stays in the tree but is invisible to every walk; only particular orders of breaking, removing and late relations expose it.",
 [T,N],[('MainTree._add_node (add_to_root)',T),('MainTree._remove_node / _break_relationship (re-rooting)',T),('MainTree._create_relationship (unrooting)',T)],
 [('root.children','top-level nodes',T)],['ViewTree.node_all_children() of the main view','MainTree.get_root'])
p('C04','Relation requests change exactly the requested relation',
 "Asking for a relation between two present nodes that is not circular creates that relation; one involving an absent node is remembered and created as soon as the missing node is added, unless it would then be circular or a node it names was removed in between. Removing a parent breaks exactly that relation. No other parent/child relation, and no order among the remaining siblings, changes.",
 ['histories','inputs'],"every finite history of add-node, add-parent, add-child and remove-parent requests; "+scope,
 "Frame conditions (nothing else changed) quantify over all other nodes, and late relations over all orders of arrival.",
 [T,N],[('MainTree._new_relationship / _break_relationship',T),('MainTree._add_node, pending_relationships',T),('_Node.add_parent / add_child / remove_parent',N)],
 [('pending_relationships','relations waiting for a missing node',T+', '+N)],['TreeNode.get_parents','TreeNode.get_children'])
p('C05','Removal removes exactly the requested nodes',
 "Removing a present node non-recursively removes exactly that node and the relations it takes part in, and leaves its former children in the tree. Removing it recursively removes exactly the node and all its descendants, whatever other parents those have. Every other node and relation is untouched, and a node re-added later under the same id starts with no relation of its predecessor.",
 ['histories','inputs'],"every reachable tree, every node, both recursion modes; "+scope,
 "Nodes with several parents, diamonds below the removed node and re-added ids are combinations the tests sample at one or two points.",
 [T],[('MainTree._remove_node',T),('MainTree._add_node',T)],[('nodes','node id -> node object',T)],['Tree.del_node','Tree.has_node'])
p('C06','Moving a node leaves it with exactly the new parent',
 "After a node is moved to a present parent (neither itself nor one of its descendants), that parent is its only parent, however many it had; after it is moved to the root or to a parent that does not exist yet, it has no parent. No relation that does not involve the moved node as a child changes.",
 ['histories','inputs'],"every reachable tree, every node and target; "+scope,
 "The number of former parents is unbounded; the tests move nodes with at most two parents and the loop edits the list it walks.",
 [N,I],[('_Node.set_parent',N),('Tree.move_node',I)],[('parents','parents of the moved node',N)],['Tree.move_node','TreeNode.set_parent'])
p('C07','Listeners of the tree hear about exactly the changes made',
 "Each node addition and each node removal is announced exactly once to every registered listener of that event, after the node is present respectively absent; each relation created or broken between nodes that stay in the tree is announced as a modification of both its ends after it took effect (the relations a node has when it is added are covered by the announcement of its addition), and refreshing a present node announces that node. A listener registered on the tree or on a view keeps receiving its event until it is itself deregistered: (de)registering others never affects it.",
 ['histories','inputs'],"every finite history of requests and of listener (de)registrations; "+scope,
 "Tests register one or two listeners and count a few signals; the guarantee ranges over any set of listeners and any history.",
 [T,V],[('MainTree.register_callback / deregister_callback / _callback',T),('ViewTree.register_cllbck / deregister_cllbck / __emit',V)],
 [('__cllbcks','event -> key -> listener',T+', '+V)],['node-added, node-modified, node-deleted'])
p('C08','Paths and sibling order of the main view match the graph',
 "In the unfiltered main view the paths of a node are exactly the parent-to-child chains from a top-level node down to it, a path resolves to its last node exactly when it is one of that node's paths, and the next sibling of a node under a parent is the element after it in that parent's children (none for the last).",
 ['histories','inputs'],"every reachable tree and every node, path and parent; "+scope,
 "The number and length of paths grows with the graph; the tests query a handful of nodes of one tree.",
 [T,V],[('MainTree.get_paths_for_node / get_node_for_path / next_node',T),('ViewTree delegation',V)],None,['ViewTree.get_paths_for_node','ViewTree.get_node_for_path','ViewTree.next_node'])
p('C09','A view shows exactly the nodes its filters accept',
 "After every request and every filter change, the nodes displayed by a view are exactly the nodes of the tree accepted by all filters applied to that view (a filter missing from the bank accepts nothing). This covers filters that judge a node by itself, whose change of verdict on a node is announced by refreshing that node before anything else changes.",
 ['histories','inputs','configurations'],"every finite history of requests, refreshes and filter applications, every set of filters judging nodes individually; a filter is not added to or removed from the bank, nor given parameters through another view, while it is applied; "+scope,
 "Incremental updates must agree with recomputation from scratch after every history; tests compare a few scripted histories.",
 [F,V,T],[('FilteredTree.__update_node',F),('FilteredTree.refilter',F),('FilteredTree.__is_displayed',F)],
 [('nodes','displayed nodes with their view links',F)],['ViewTree.get_all_nodes','ViewTree.is_displayed'])
p('C10','View links are the graph links between displayed nodes',
 "After every request and every filter change, a displayed node's parents in a view are exactly its displayed parents in the tree, it sits directly under the view's root exactly when it has none (always, under a flat filter), and the view's child lists agree with these parents without duplicates. Same filters as for the displayed set: each judges a node by itself and verdict changes are announced by refreshing that node.",
 ['histories','inputs','configurations'],"every finite history of requests, refreshes and filter applications (a filter is not added to or removed from the bank, nor given parameters through another view, while it is applied); "+scope,
 "The links are maintained by mutual recursion up and down the graph; tests check scripted trees.",
 [F,V],[('FilteredTree.__update_node',F),('FilteredTree.__node_parents / __node_children',F)],[('nodes','displayed nodes with their view links',F)],['ViewTree.node_parents','ViewTree.node_all_children'])
p('C11','Replaying view signals reproduces the view',
 "A consumer that starts from the announced current state and applies each path-added and path-deleted signal of a view in order always holds exactly the view's current paths: a path is added only when absent and its parent path present, deleted only when present and without paths below it. Same scope as for the displayed set.",
 ['histories','inputs','configurations'],"every finite history of requests, refreshes and filter applications (a filter is not added to or removed from the bank, nor given parameters through another view, while it is applied); "+scope,
 "The set of paths is exponential in the graph, and signals are emitted in the middle of updates; tests replay a few histories.",
 [F,V],[('FilteredTree.send_add_tree / send_remove_tree / callback',F),('FilteredTree.__update_node',F),('FilteredTree.get_current_state',F)],None,['node-added-inview','node-deleted-inview'])
p('C12','View queries agree with the displayed structure',
 "For every displayed node, its paths in the view are exactly the chains of view links from the root to it and resolve back to it; child counts (direct and recursive), the n-th child, the next sibling, the parents and the children all describe the same view structure; asking for a child beyond the last or for a node that is not displayed is an error or an empty answer, never another node's data.",
 ['histories','inputs','configurations'],"every consistent view state and every query argument; "+scope,
 "Queries are checked by tests on one fixture tree only.",
 [F,V],[('FilteredTree.get_paths_for_node, get_node_for_path, next_node, node_*',F),('ViewTree delegation',V)],None,['ViewTree query methods'])
p('C13','Counting with extra filters equals filtering the shown nodes',
 "Listing or counting a view's nodes with additional filters yields exactly the displayed nodes accepted by all those of the additional filters that exist in the bank, each once; with no additional filter it yields all displayed nodes. The query changes neither the view nor its applied filters.",
 ['inputs','configurations'],"every view state and every list of filter names; "+scope,
 "Any number of filters and nodes; tests use one filter at a time.",
 [F,V],[('FilteredTree.get_nodes / get_n_nodes',F)],None,['ViewTree.get_nodes','ViewTree.get_n_nodes'])
p('C14','A view count always equals the number of accepted nodes',
 "After every request, refresh and filter change, a view count reports exactly the number of nodes of the tree accepted by all its applied filters, and its registered listeners are called whenever, and only when, the set of counted nodes changed.",
 ['histories','inputs','configurations'],"every finite history; filters judging a node by itself, verdict changes announced by refreshing the node, filters staying in the bank while applied; view counts once refreshed; "+scope,
 "Incremental counting must agree with recounting after every history; tests check one scripted history.",
 [C,T],[('ViewCount.__modify / __add / __delete',C),('ViewCount.apply_filter / unapply_filter / __refresh',C)],[('nodes','ids counted',C)],['ViewCount.get_n_nodes'])
p('C15','The filter bank is a faithful registry',
 "Adding a filter under a new name (a leading '!' is not part of the name) makes it available under that name with the given function and parameters and reports success; adding under an existing name changes nothing and reports failure; removing makes exactly that name unavailable. A filter accepts a node exactly when the node is in the tree and its function says so (the opposite, when its parameters ask for negation).",
 ['histories','inputs','configurations'],"every sequence of bank operations and every filter function, parameters and node",
 "Names, parameters and verdicts are unbounded; tests register a fixed set once.",
 [B],[('FiltersBank.add_filter / remove_filter / get_filter / has_filter / list_filters',B),('Filter.is_displayed',B)],[('custom_filters','name -> filter',B)],['Tree.add_filter','Tree.remove_filter','Tree.list_filters'])
p('C16','Requests from other threads are all executed, in order',
 "A request issued by the thread that created the tree runs at once. A request issued by another thread is executed exactly once, later, in the creating thread: higher priority first, in order of arrival within a priority (an identical request still waiting in the same priority is not queued twice), and a request that fails does not prevent the later ones. Processing stays scheduled as long as a request is waiting.",
 ['schedules','inputs','histories'],"every interleaving of pushes and processing steps at the granularity of the queue's lock, every mix of priorities",
 "Thread tests sample a few schedules of add and delete requests.",
 [Q,T],[('SyncQueue.push / process / process_queue',Q)],[('_vip_queue, _queue, _low_queue','waiting requests by priority',Q),('_handler','idle source id, None when not scheduled',Q)],['Tree requests from worker threads'])
p('C17','A queued action runs exactly once, when its node appears',
 "An action queued for a node that is not displayed runs exactly once, with its parameter, when that node is next displayed; actions queued for the same node run in the order they were queued; for an already displayed node the action is scheduled at once. Actions queued for other nodes are not affected, whatever the nodes are called.",
 ['histories','inputs'],"every sequence of queue_action calls and node appearances, every node id",
 "Tests queue one or three actions for one node.",
 [F,V],[('FilteredTree.set_callback / callback (runonce)',F),('ViewTree.queue_action',V)],[('cllbcks','event or node id -> callback',F)],['ViewTree.queue_action'])
p('C18','The GTK model mirrors the view',
 "After every request and filter change, the rows of the GTK tree model connected to a view are exactly the view's paths: one row per path, placed under the row of the parent path, with the values computed from its node.",
 ['histories','inputs'],"every finite history over an unsorted model; column functions yield a value other than None and a change of it is announced by refreshing the node; Gtk.TreeStore behaves as documented; "+scope,
 "Row positions come from caches that must stay valid across insertions and deletions; tests only check that nothing crashes.",
 [G],[('TreeModel.add_task / remove_task / update_task',G),('TreeModel.my_get_iter',G)],[('cache_paths, cache_position','hints from paths to rows',G)],['TreeModel rows'])
W='liblarch_gtk/__init__.py'
p('C19','Dropping rows moves exactly the dragged nodes',
 "When rows of the widget are dropped on it, the node dropped on (the parent row's node when dropped before or after a row; the top level when there is none) becomes the destination, and the tree is asked to move to it each dragged row's node that still has a row when its turn comes, once per row and in the order dragged; a refused move does not stop the others, and nothing else is requested. When rows come from another widget, the function registered for that source is called once per row, in order, with the dragged node and the destination node; nothing is called for an unknown source or without a destination. An empty selection does nothing. Registering a source gives it a number of its own (never the widget's own 0), leaves the other sources as they were, and offers all of them for dragging and dropping.",
 ['inputs','histories'],"every row, position, selection of rows and set of registered sources, provided a drag and drop name was set first and the rows of another widget stay while its function is called; GTK (widget, model, selection) behaves as documented",
 "No test drops anything: the widget's drag and drop code is not executed by the tests at all, and the rows dragged, the moves refused and the rows lost on the way are unbounded.",
 [W],[('TreeView.on_drag_data_received',W),('TreeView.set_dnd_external',W),('TreeView.__init_dnd',W)],[('dnd_external_targets','number -> name and function of a source',W)],['Tree.move_node requests','functions given to set_dnd_external','TreeView.enable_model_drag_source / enable_model_drag_dest'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

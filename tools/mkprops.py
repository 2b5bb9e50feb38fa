"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
MP, NS, AL, LT, M = "treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py", "treebeard/ltree/__init__.py", "treebeard/models.py"

prop("C01", "Materialized-path tables stay a consistent tree",
 "Starting from a consistent materialized-path table (holes between siblings allowed), every add_root, add_child, add_sibling, move, delete or load_bulk call that returns leaves a consistent table: paths are unique and made of whole steps over the alphabet, the path of every non-root's parent exists, depth equals the number of steps and numchild equals the actual number of children. This holds for every step length and alphabet, for plain, proxy and inherited models, and for add_child also when the parent object passed in is stale.",
 ["inputs", "histories", "configurations"], "every consistent table of any size and shape, every public mutating call and argument, every steplen/alphabet; by induction every history of calls",
 "The suite runs each operation on a handful of fixed small trees with one step length; it cannot quantify over trees, holes, positions and configurations.",
 [MP], [("path bookkeeping for inserts and moves", MP + ": _reorder_nodes_before_add_or_move, _set_newpath_in_branches"), ("child counters", MP + ": add_child, add_sibling, update_parent_counts_after_move, MP_NodeQuerySet.delete")],
 [("path", "position of a node, one fixed-width step per level", MP), ("depth/numchild", "denormalised level and child count", MP)],
 ["rows of the tree table after each call"])
prop("C02", "Nested-sets tables stay a consistent tree",
 "Starting from a consistent nested-sets table, every add_root, add_child, add_sibling, move, delete or load_bulk call that returns leaves a consistent table: within a tree the intervals are properly nested or disjoint and use every endpoint from 1 to twice the node count exactly once, each tree id has exactly one root and depth equals the nesting level. This holds for plain, proxy and inherited models.",
 ["inputs", "histories", "configurations"], "every consistent table of any size and shape, every public mutating call and argument; by induction every history",
 "Tests compare a few fixed trees; interval arithmetic errors show only for particular relative positions of node and target.",
 [NS], [("gap arithmetic", NS + ": _alter_gap, _close_gap, _move_tree_right, move, add_sibling, add_child"), ("delete closes gaps", NS + ": NS_NodeQuerySet.delete")],
 [("lft/rgt/tree_id/depth", "interval of the node in its tree", NS)], ["rows of the tree table after each call"])
prop("C03", "Adjacency-list and ltree tables stay forests",
 "Starting from a consistent table, every add_root, add_child, add_sibling, move, delete or load_bulk call that returns leaves a consistent table. For adjacency lists: no node is its own ancestor and the siblings of an unsorted tree have pairwise distinct positive order values; for ltree: paths are unique, every label is a non-empty string of digits and capital letters, and the parent path of every non-root exists.",
 ["inputs", "histories", "configurations"], "every consistent table, every public mutating call and argument",
 "Only fixed small trees are exercised; cycles and duplicate order values need particular node/target/position combinations.",
 [AL, LT], [("sibling order holes", AL + ": _make_hole_and_get_sibling_order, _get_new_sibling_order, move"), ("path relabelling", LT + ": _get_new_path, _move_subtree_right, move")],
 [("parent/sib_order", "adjacency list position", AL), ("path", "ltree label path", LT)], ["rows of the tree table after each call"])
prop("C04", "An insert puts the new node exactly where asked and moves nothing else",
 "On an unsorted tree, add_root makes the new node the last root, add_child makes it the last child of the target, and add_sibling makes it a sibling of the target that is first, last, immediately before or immediately after the target as requested. Every other node keeps its parent and its order relative to every other node. This holds for all four tree implementations.",
 ["inputs", "configurations"], "every consistent tree, every target node, every position",
 "Tests insert into fixed trees without holes, full levels or unusual labels; ordering mistakes need particular existing positions.",
 [MP, NS, AL, LT], [("MP", MP + ": add_root, add_child, add_sibling, _reorder_nodes_before_add_or_move"), ("NS", NS + ": add_root, add_child, add_sibling"), ("AL", AL + ": add_root, add_child, add_sibling"), ("LT", LT + ": add_root, add_child, add_sibling, _get_new_path, generate_path")],
 (), ["parent and sibling order of every node, read from the table"])
prop("C05", "A move puts the branch exactly where asked and moves nothing else",
 "On an unsorted tree, a move either is refused with a documented error or makes the moved node the first or last child of the target, or its first, last, immediately preceding or immediately following sibling, as requested. The moved node keeps its whole subtree unchanged beneath it, and every other node keeps its parent and its order relative to every other node outside the moved branch. This holds for all four tree implementations, including moves next to itself, within the same sibling group and across levels and trees.",
 ["inputs", "configurations"], "every consistent tree, every (node, target, position) triple that is not rejected",
 "The number of relative positions of node, target and holes is unbounded; tests pick a few dozen.",
 [MP, NS, AL, LT], [("MP", MP + ": move, update_move_to_child_vars, _reorder_nodes_before_add_or_move"), ("NS", NS + ": move"), ("AL", AL + ": move"), ("LT", LT + ": move, _get_new_path, _move_subtree_right")],
 (), ["parent and sibling order of every node, read from the table"])
prop("C06", "Sorted trees keep every sibling group in node_order_by order",
 "If node_order_by is set and every sibling group is in that order (ascending, or descending for fields prefixed with a minus sign, compared field by field), then after add_root, add_child, sorted add_sibling or a sorted move with non-null ordering values every sibling group is still in that order. The inserted or moved node is a root, a child of the target or a sibling of the target as requested, and all other nodes keep their parents and relative order.",
 ["inputs", "configurations"], "every sorted tree, every new key, every node/target pair, every node_order_by list",
 "Tests use one ordering and a few key values; ties, holes and mixed directions are infinitely many.",
 [M, MP, NS, AL, LT], [("sorted insertion point", M + ": NodeManager.get_sorted_pos_queryset"), ("per-tree use", MP + ", " + NS + ", " + LT + ": add_root, add_child, add_sibling, move")],
 (), ["order of siblings as returned by the table's tree order"])
prop("C07", "Delete removes exactly the selected nodes and their descendants",
 "Deleting a node, or any queryset of nodes, removes exactly those nodes and all their descendants; every other node survives with the same parent and the same order relative to the other survivors. This holds for all four tree implementations whether or not the selection contains ancestors and descendants of each other.",
 ["inputs", "configurations"], "every consistent tree and every subset of its nodes",
 "Tests delete single nodes and a couple of hand-picked querysets.",
 [MP, NS, AL, LT, M], [("MP", MP + ": MP_NodeQuerySet.delete"), ("NS", NS + ": NS_NodeQuerySet.delete, _close_gap"), ("LT", LT + ": LT_NodeQuerySet.delete"), ("AL", AL + ": parent foreign key cascade"), ("instance delete", M + ": Node.delete")],
 (), ["rows of the tree table"])
prop("C08", "Traversal queries return exactly the right nodes in tree order",
 "On every consistent tree, for nodes that are up to date, get_tree, get_descendants, get_children, get_siblings, get_ancestors, get_parent, get_root, get_root_nodes, the first/last/next/previous helpers and the descendant and child counts return exactly the nodes the tree defines, with trees and descendants in depth-first order, siblings in sibling order and ancestors from the root down. A max_depth limit, zero included, cuts results at that many levels below the given node. This holds for all four tree implementations.",
 ["inputs", "configurations"], "every consistent tree, every node, every max_depth",
 "Tests compare a fixed ten-node tree; range, prefix and depth filters can be wrong only for particular neighbouring branches.",
 [MP, NS, AL, LT, M], [("query construction", MP + ", " + NS + ", " + AL + ", " + LT + ": get_*"), ("shared helpers", M + ": NodeManager.get_first_child, get_prev_sibling, ...")],
 (), ["query results"])
prop("C09", "Relationship predicates and depth agree with the tree",
 "For up-to-date nodes of a consistent tree, is_root, is_leaf, is_child_of, is_descendant_of, is_sibling_of and get_depth answer exactly according to the tree: a node is not its own descendant or child, two nodes are siblings exactly when they have the same parent (all roots being siblings of each other), and depth is one plus the number of ancestors. This holds for all four tree implementations and every pair of nodes.",
 ["inputs", "configurations"], "every consistent tree, every ordered pair of nodes",
 "Pairs of positions are unbounded; tests use a handful of nodes.",
 [MP, NS, AL, LT, M], [("predicates", MP + ", " + NS + ", " + AL + ", " + LT + ", " + M + ": is_*, get_depth")], (), ["predicate results"])
prop("C10", "Path steps encode positions in order and never wrap on overflow",
 "For every alphabet and step length, encoding a position and decoding it gives the same position back, encoded steps of one width compare as strings (in alphabet order) exactly as their positions compare as numbers, and the successor of a path is its next sibling path. When a position does not fit the step width or a new child would exceed the path column, inserting raises PathOverflow and writes nothing; a malformed, shortened or wrapped path is never produced.",
 ["inputs", "configurations"], "all non-negative positions, all alphabets, all step lengths, all paths",
 "Tests try seven numbers and two alphabets; carries and the last position are unbounded in number.",
 ["treebeard/numconv.py", MP], [("number codec", "treebeard/numconv.py: NumConv.int2str, str2int"), ("step arithmetic", MP + ": _get_path, _inc_path, _get_basepath, _get_lastpos_in_path, _get_children_path_interval, _get_parent_path_from_path")],
 (), ["returned paths", "PathOverflow"])
prop("C11", "Generated ltree labels fall strictly between their neighbours",
 "For every pair of neighbouring sibling labels (either may be missing), label generation either returns a new non-empty label of digits and capital letters that is strictly greater than the left neighbour, strictly smaller than the right neighbour and unused, or reports that no label exists between them. It reports that only when there really is none, and it always terminates.",
 ["inputs"], "all label pairs after < before over the label alphabet, all sets of used labels outside the gap",
 "Tests try a couple of dozen literals; the label space is infinite.",
 [LT], [("generator", LT + ": generate_label, generate_path")], (), ["returned label"])
prop("C12", "Rejected calls raise the documented error and change nothing",
 "Moving a node to itself as a child or to one of its descendants raises InvalidMoveToDescendant, an unknown position raises InvalidPosition, a position that contradicts node_order_by raises InvalidPosition or MissingNodeOrderBy, adding an already saved instance raises NodeAlreadySaved, and passing both or neither of create_kwargs and instance raises ValueError; valid arguments raise none of these. After any such rejection the table is unchanged and so are the tree fields of the node objects passed in.",
 ["inputs", "configurations"], "every tree, node, target and position string, every tree implementation",
 "Tests check the exception on fixed nodes, not that nothing changed, and not all position strings.",
 [MP, NS, AL, LT, M, "treebeard/utils.py"], [("position checks", M + ": _prepare_pos_var"), ("descendant checks", MP + ", " + NS + ", " + AL + ", " + LT + ": move"), ("argument checks", "treebeard/utils.py: check_create_args")],
 (), ["exception type", "table rows and objects after the call"])
prop("C13", "find_problems reports exactly the inconsistent nodes",
 "For every table content, MP find_problems returns exactly the nodes with foreign characters, a partial step, a missing parent, a wrong depth or a wrong child count (each node in the first list that applies), and NS find_problems reports reversed intervals, improperly nested intervals, duplicate roots of a tree and wrong depths. A consistent tree yields only empty lists, and limiting the check to the branch of a correctly placed node reports exactly the problems of that branch.",
 ["inputs"], "every table content, consistent or corrupt; every branch",
 "Tests feed a dozen corrupt rows; false alarms and misses depend on combinations.",
 [MP, NS], [("MP", MP + ": find_problems"), ("NS", NS + ": find_problems")], (), ["returned lists"])
prop("C14", "fix_tree restores a consistent materialized-path tree",
 "For every table whose paths are well formed and have existing parents, fix_tree leaves every path alone and sets depth and numchild to their true values. With fix_paths it also renumbers every sibling group to 1..n without gaps, in the existing order or in node_order_by order, keeping every node's parent; running it again changes nothing, and limiting it to a branch touches only that branch.",
 ["inputs"], "every well-formed path set, all depth/numchild values, any holes and orderings",
 "One corrupt fixture is tested; permutations of occupied positions are unbounded.",
 [MP], [("repair", MP + ": fix_tree, _rewrite_node_path, _fix_numchild")], (), ["table rows"])
prop("C15", "dump_bulk and load_bulk are inverse",
 "Loading the dump of a tree or branch, as new roots or beneath a parent, recreates the same shape, sibling order and field values; with keep_ids the primary keys are the same too, and the returned keys are exactly those of the new nodes. Existing nodes keep their place. This holds for all four tree implementations and for bulk_create loading, sorted trees included.",
 ["inputs", "configurations"], "every tree, every branch, every destination parent",
 "Tests load one fixture; nesting, existing siblings and sorting combine without bound.",
 [M, MP, NS, AL, LT, "treebeard/utils.py"], [("load", M + ": load_bulk; " + MP + ": load_bulk"), ("dump", MP + ", " + NS + ", " + AL + ", " + LT + ": dump_bulk"), ("deserialisation", "treebeard/utils.py: prepare_dumpdata_for_loading")], (), ["tree after load"])
prop("C16", "Tree signals suffice to keep a mirror of the tree fields in sync",
 "An external copy of the tree fields (paths, or intervals with tree ids and depths) that starts equal to the table and applies the documented meaning of each tree signal together with Django's own save and delete signals equals the table again after every add, move or delete, for the materialized-path, nested-sets and ltree implementations. No bulk change of those fields goes unannounced and no signal describes a change that did not happen.",
 ["inputs", "histories"], "every consistent tree, every mutating call",
 "Tests assert that particular signals fire in fixed cases, not that they describe all changes.",
 [MP, NS, LT], [("senders", MP + ": _set_newpath_in_branches, _rewrite_node_path, delete; " + NS + ": _alter_gap, _move_tree_right, move, delete; " + LT + ": move, _move_subtree_right, delete")], (), ["signals received versus table rows"])
prop("C17", "Annotated lists open and close exactly like the tree nests",
 "For every branch or whole tree, optionally limited in depth, get_annotated_list pairs the nodes in depth-first order with their relative level, an open flag that is set exactly on the first node of each sibling group and a close list with one entry for every group that ends after the node. Hence rendering the flags always gives balanced, properly nested lists, for all four tree implementations.",
 ["inputs"], "every tree and branch, every depth limit",
 "Tests check one tree; level sequences are unbounded.",
 [M], [("annotation", M + ": get_annotated_list_qs, get_annotated_list")], (), ["returned list"])
prop("C18", "Objects handed to an operation reflect the table afterwards",
 "After a successful add_root, add_child or add_sibling the returned object, and after add_child also the parent object passed in, has the tree fields stored in the table; after a successful move both the moved object and the target object do, as do their answers for parent and depth. Using these objects again without reloading is therefore safe.",
 ["inputs", "histories"], "every tree, node, target and position; any sequence of further calls on the same objects",
 "Tests mostly reload objects before checking; stale caches show only in reuse.",
 [MP, NS, AL, LT], [("refresh", MP + ", " + NS + ": move (refresh_from_db), add_child; " + AL + ", " + LT + ": move"), ("cached attributes", M + ": _clear_cached_attributes, refresh_from_db")],
 (), ["attributes of node and target objects versus table rows"])
prop("C19", "The move form applies exactly the placement it was given",
 "Saving a valid MoveNodeForm creates or moves the node to the chosen position relative to the chosen reference node (or at root level when none is chosen) exactly as the manager would, and saving a form of an existing node whose tree fields were not changed leaves the tree as it was. Saving an invalid form raises an error and writes nothing. The reference choices offered for an existing node never contain that node or its descendants and contain every other node.",
 ["inputs", "configurations"], "every tree, instance, reference node and position choice",
 "Tests cover a few hand-written form submissions.",
 ["treebeard/forms.py"], [("save", "treebeard/forms.py: MoveNodeForm.save"), ("choices", "treebeard/forms.py: _set_ref_model_queryset, _get_initial")], (), ["tree after form.save()"])
prop("C20", "Tree-modifying calls are all-or-nothing",
 "If any database write inside an add, move, delete or load_bulk call fails, or the process dies between two writes, the table is left exactly as before the call: every call performs all its writes inside one transaction. This holds for all four tree implementations, in autocommit mode and inside an outer transaction.",
 ["crash_points", "fault_sequences"], "every call, every write performed by it, every table",
 "No test injects a fault between writes.",
 [MP, NS, AL, LT, M], [("transactions", MP + ", " + NS + ", " + AL + ", " + LT + ", " + M + ": transaction.atomic")], (), ["table rows after a failing write"])
prop("C21", "The deprecated node-level API behaves as the manager API",
 "Every deprecated method still offered on node classes and instances gives the same result, the same exceptions and the same change to the tree as the manager method of the same name called with the same node and arguments, and only adds a deprecation warning. This includes the deprecated materialized-path handler classes.",
 ["inputs"], "every deprecated entry point, all arguments",
 "A copy of the test-suite samples them; argument passing mistakes show only for particular arguments.",
 ["treebeard/deprecation.py", M, MP], [("delegation", "treebeard/deprecation.py: _handle_moved_method, _handle_moved_classmethod; " + M + ": Node.add_root, add_child, add_sibling, move; " + MP + ": MP_*Handler")], (), ["results and tree"])
prop("C22", "Concurrent inserts under one parent lose nothing",
 "Any number of transactions concurrently adding children to the same parent all succeed or fail cleanly, and afterwards the parent has exactly the successfully added children at distinct positions with a correct child count or interval.",
 ["schedules"], "every interleaving of concurrent add_child transactions",
 "Tests run a simulated stale-object schedule only.",
 [MP, NS, LT], [("row locks", MP + ", " + NS + ", " + LT + ": add_child (select_for_update)")], (), ["table after concurrent calls"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))

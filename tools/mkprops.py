import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=hook))
    P.append(d)
E="src/node/edit.rs"; I="src/node/internal.rs"; M="src/node/membership.rs"; L="src/tree/lock.rs"; T="src/tree.rs"; PL="src/node/plain.rs"; F="src/node/frozen.rs"; H="src/node/hot.rs"; S="src/serial.rs"; DF="src/traverse/depth_first.rs"; BF="src/traverse/breadth_first.rs"; SB="src/traverse/siblings.rs"; AN="src/traverse/ancestors.rs"
p("C01","All navigation views of every tree always agree",
 "After any history of operations by any number of clients, successful or failed, and also when observed from inside a user callback, everything navigation reports about a live node (parent, first/last child, previous/next sibling, first/last sibling, root, child counts, sibling counts, ancestor count, is-root/has-child predicates, tree membership) describes one and the same ordered rooted tree. Every live node is in exactly one tree, is reachable from that tree's root exactly once, and no cycle or dangling link is ever reachable. The same holds through plain, frozen and hot handles and through the tree handle's root.",
 ["histories","schedules","inputs","fault_sequences"],
 "every interleaved history of edits, failed edits, clones, builds, moves across trees, crashes of clients and injected callback panics; every node of every tree after (and inside) every step",
 "The tests look at a handful of fixed small trees after one edit each, mostly through one accessor; link corruption shows only after particular multi-step edit sequences (e.g. unlinking a last sibling and then appending) and only through the accessor that reads the stale link.",
 [I,E,PL,F,H],[("OrphanRoot::new_by_unlink / insert_*",E),("try_replace_with_children",E),("create_as_interrupting_parent/child",E),("prev_sibling_cyclic maintenance",I),("num_children cache",I)],
 [dict(name="Neighbors",meaning="parent, first child, next sibling, cyclic previous sibling links",where=I),dict(name="num_children",meaning="cached number of children",where=I)],
 ["navigation API on Node/FrozenNode/HotNode","Tree::root"])
p("C02","Every successful hierarchy edit has exactly its documented effect",
 "Every successful create, interrupting create, detach, move (inside a tree or between trees), replace-with-children and clone-insert transforms the forest exactly as documented: the affected nodes end up at the requested position in the requested tree with sibling order preserved, a replaced or interrupted root makes existing tree handles follow the new root, detached nodes become the root of an independent tree, and all other nodes, trees and associated data are unchanged. Detaching the root of a tree changes nothing, and so does moving a node beside itself. The effect does not depend on which handle kind was used, on which handles are alive, or on what other clients hold.",
 ["histories","schedules","inputs"],
 "every sequence of edits by interleaved clients on every forest shape and every destination kind, through every handle kind",
 "Tests check each edit on one or two hand-written trees from a clean state; positions (only/first/middle/last child, root, leaf), combinations across trees and sequences of edits are not covered.",
 [E,PL,H,T],[("edit algorithms",E),("TreeCore::replace_root",T),("set_memberships_of_descendants_and_self",E)],None,["whole forest compared with a reference model after every step"])
p("C03","Failed and rejected operations change nothing",
 "Whenever an operation reports an error or panics because of a violated precondition (a move into the moved node's own subtree, a sibling of a root, removal of the only node of a tree by moving or replacing it, data that cannot be borrowed, an invalid token, a lock conflict, a closed or unopened builder), every tree, all data, all locks, all lifetimes and the builder's open position are as they were before the call. The same holds when a user-supplied clone, comparison or formatting callback panics in the middle of an operation. Every such misuse is actually reported: it never returns success.",
 ["histories","fault_sequences","inputs"],
 "every failing call of every operation in every reachable state, and every callback invocation at which an injected panic can strike",
 "Tests assert that a few error values are returned but do not look at the state after a failure, and no test injects a panic into a callback.",
 [E,PL,H,S,L],[("destination validation before unlinking",E),("clone-then-insert order in try_clone_insert_subtree",E),("TreeBuilder::close validation",S),("panic_if_invalid_for_node",L)],None,["forest, lock and lifetime comparison with the model after every failed call"])
p("C04","Edit grants and edit prohibitions never coexist on a tree",
 "For every tree at every moment, grants (tokens and hot nodes) and prohibitions (tokens and frozen nodes, including those held inside iterators) are not active at the same time: acquiring one kind succeeds exactly when none of the other kind is active anywhere on that tree, and any number of the same kind may coexist. While a prohibition is active no hierarchy edit of that tree can be performed by anyone. A refused acquisition has no side effect.",
 ["histories","schedules"],
 "every interleaving of acquisition, cloning, bundling, extraction, release and node movement by clients sharing any number of trees",
 "tests/grant_prohibition_conflicts.rs tries pairwise conflicts on a single node; counts, per-node aggregation, iterators as holders and trees that split while locked are not covered.",
 [L,M,F,H,T],[("HierarchyLockManager counters",L),("LockAggregatorForNode",L)],[dict(name="num_grants",meaning="positive: active grants; negative: active prohibitions",where=L),dict(name="aggregated_count",meaning="locks bundled to handles of one node",where=L)],["grant_hierarchy_edit / prohibit_hierarchy_edit results on every tree after every step"])
p("C05","Locks are released exactly with their last holder and follow moved nodes",
 "A tree stays locked as long as at least one holder (token, hot or frozen handle, or iterator owning one) is alive or was leaked, and becomes neutral at the very moment the last one is dropped, for every order of cloning and dropping, on client crash, and during unwinding. A lock bundled to a node handle moves with its node when the node is detached or moved to another tree, while a token stays with the tree it was taken on; neither tree gains or loses any other lock. Releasing never panics and never affects other trees.",
 ["histories","schedules","crash_points"],
 "every order of cloning, dropping, leaking and crashing lock holders interleaved with detach, move, replace and interrupt edits",
 "No test counts locks across clone/drop sequences, or moves a subtree that carries hot handles between trees and then checks both trees' lock state.",
 [L,M,F,H,E],[("LockAggregatorForNode::decrement_count / increment_nonzero_count",L),("transfer_single_lock_to",L),("MembershipRef::set_tree_core",M),("Drop for FrozenNode / HotNode",F)],None,["lock probes on every tree after every step and after all clients are gone"])
p("C06","A token authorises exactly the nodes of its own live tree",
 "A grant or prohibition token is valid for a node exactly when the node currently belongs to the tree the token was taken on, however nodes have been moved, trees split or roots replaced since. Every operation taking a token panics when the token is not valid for the node and otherwise is not refused because of the token. A token never keeps a tree alive, and a token of a dead tree can be queried, cloned and dropped without effect and is valid for no node.",
 ["histories","schedules"],
 "every pairing of tokens (live, stale, foreign, of dead trees) and nodes in every reachable state, through every token-taking operation",
 "Tests use a token only with the tree it was just taken on; stale tokens after a detach or move, root replacement, and dead trees are not exercised.",
 [L,PL,F,H],[("is_valid_for_node / panic_if_invalid_for_node",L),("ptr_eq_tree_core_weak",PL)],None,["is_valid_for_node for all token/node pairs","panics of misuse"])
p("C07","A tree lives exactly as long as some handle to it, data dropped exactly once",
 "As long as any tree handle, node handle of any kind, iterator, builder or borrowed-data guard on any node of a tree is alive, every node of that tree stays alive with its data and links intact; when the last one goes, all data of that tree are dropped at once, each exactly once, and nothing is leaked. Weak references and tokens keep nothing alive. Splitting and merging trees re-divides this responsibility exactly: each part lives by its own handles from then on.",
 ["histories","schedules","crash_points"],
 "every history of creating, cloning and dropping handles in any order by any number of clients, interleaved with edits that split and join trees, and crashes of clients at arbitrary points",
 "tests/tree_drop.rs drops a few fixed trees; it does not count drops over histories where strong and weak membership change while trees are split, joined and half of the handles are gone.",
 [M,I,T,E],[("MembershipCore Weak/Strong and tree_refcount",M),("Drop for NodeLink",I),("Drop for TreeCore",T)],[dict(name="tree_refcount",meaning="number of node handles of a node",where=M)],["registry of live payload instances compared with the model after every step"])
p("C08","Weak references upgrade exactly while their target is alive",
 "Upgrading a weak node reference yields that very node exactly while its tree is alive, and a weak tree reference yields that very tree exactly while it is alive, however the node was moved in between. After the target is gone, and from inside destructors that run while it is being torn down, upgrading returns nothing; it never panics and never resurrects a node. Upgraded handles are full handles: they keep the whole tree alive.",
 ["histories","schedules"],
 "every moment of every history, including from inside destructors of node data during teardown",
 "The tests upgrade once before and once after a drop; none upgrades from a destructor or after the node changed its tree.",
 [PL,T,M,I],[("NodeWeak::upgrade",PL),("TreeWeak::upgrade",T),("increment_tree_refcount",M)],None,["all weak references after every step and inside every destructor call"])
p("C09","User code run during teardown sees a consistent world and cannot break it",
 "Destructors of node data may run arbitrary library operations on other trees, try to reach the dying tree through weak references, or panic, at any point of a teardown caused by dropping a handle, by an edit that discards the last reference to a tree, or by an error path. They observe every other tree in a consistent state with the triggering edit completed, and the library neither panics itself, nor aborts, nor drops data twice, nor disturbs other trees and their locks.",
 ["histories","fault_sequences","crash_points"],
 "every destructor invocation in every teardown, with observation, re-entrant operations or a panic injected there",
 "Test payloads are strings and integers, whose destructors run no code.",
 [M,T,E,I],[("decrement_tree_refcount",M),("Drop for TreeCore",T),("old tree kept until the edit completes",E)],None,["whole world compared with the model from inside destructor callbacks"])
p("C10","Deep and wide trees need only bounded stack",
 "Building from events, cloning, comparing, traversing, serialising, detaching, moving between trees, replacing and dropping trees of arbitrary depth and width use call-stack space that does not grow with the tree, whichever handle is dropped last, and complete with the same results as on small trees.",
 ["inputs","histories","crash_points"],
 "trees of every shape (chain, star, comb, random) with up to hundreds of thousands of nodes, on small call stacks, with clients dropping handles or crashing at arbitrary points",
 "tests/tree_drop.rs drops one deep and one wide tree on the default main stack; other operations and shapes left behind by edits are not run at scale.",
 [T,I,E,S],[("iterative Drop for TreeCore",T),("DepthFirstLinkTraverser",I)],None,["process survives; results compared with the model"])
p("C11","Stable iterators emit each item once from both ends, exactly and fused",
 "Every stable (frozen) sibling and depth-first iterator, unlimited or depth-limited, emits for every interleaving of front and back steps exactly the documented sequence once: front items in order, back items from the end, meeting in the middle and then returning nothing forever. Peeking (front and back), cloning, closing the current node and size bounds are consistent with the items actually still to come. The iterator holds its prohibition until it is exhausted or dropped, so concurrent clients cannot edit meanwhile.",
 ["schedules","histories","inputs"],
 "every interleaving of next, next_back, peek, clone, close and drop with steps of other clients, from every node of every tree shape, every depth limit",
 "Doc tests iterate a few small trees in one direction only.",
 [SB,DF,F],[("StableSiblingsTraverser",SB),("StableDepthFirstTraverser",DF),("StableShallowDepthFirstTraverser",DF)],None,["item sequences, size_hint and peeks compared with the model at every step"])
p("C12","Iterators over editable trees follow their documented cursor under edits",
 "Depth-first (both directions), sibling and ancestor iterators over plain handles hold only their next item and compute each following item from the hierarchy as it is when that item is taken, also while other clients edit, detach, move or destroy surrounding parts between the steps. They never panic, always return the item announced by peek, keep the tree of their cursor alive, stop at the end of the subtree they were started on, and terminate when edits stop. Skipping to the close of the current node and the next/previous/close functions of single events follow the same rule.",
 ["schedules","histories"],
 "every interleaving of iterator steps with hierarchy edits by other clients, from every start node",
 "One doc test shows one edit between creation and the first step; nothing else interleaves iteration and edits.",
 [DF,SB,AN,PL],[("cached next item",DF),("SiblingsTraverser / ReverseSiblingsTraverser",SB),("AncestorsTraverser",AN)],None,["every step compared with a model cursor on the model forest"])
p("C13","Breadth-first iterators visit every node once in level order",
 "Both breadth-first iterators emit exactly the nodes of the subtree whose depth is at least the start depth, each once, in level order and document order within a level, paired with the right depth, and then nothing forever, for every start depth including ones deeper than the tree. The two implementations agree, may be cloned, peeked and dropped at any step, give valid size bounds, and hold the prohibition against concurrent edits while unfinished.",
 ["inputs","schedules","histories"],
 "every tree shape, start node and start depth, with steps interleaved with other clients' steps",
 "Doc tests iterate one tree for a few start depths.",
 [BF,F],[("NonAllocatingBreadthFirstTraverser",BF),("AllocatingBreadthFirstTraverser",BF)],None,["items, peeks and size bounds compared with the model at every step"])
p("C14","Serialising and rebuilding reproduces the tree, or reports why not",
 "Feeding the event stream of any subtree (serialisation events or depth-first events) to any of the construction entry points, in any chunking and interleaved with other clients, yields an equal, independent tree of the requested handle kind. When data of some node is exclusively borrowed by another client at the moment it is needed, exactly that node's opening is reported as a borrow error, nothing else is lost, and the stream remains usable. Streams observe concurrent edits like any other iterator and never emit unbalanced events for an unedited tree.",
 ["schedules","fault_sequences","inputs"],
 "every tree shape and start node, every chunking and interleaving of producer and consumer steps, every pattern of held borrows",
 "Round-trip tests use one sample tree, consume the stream in one go and never hold a borrow.",
 [S],[("TreeSerializeIter",S),("TreeBuilder and FromIterator impls",S)],None,["event sequences and rebuilt trees compared with the model"])
p("C15","The tree builder follows its open/close contract under any event stream",
 "For any stream of events, however duplicated, reordered, truncated, merged or corrupted on its way, the builder behaves like a stack of open nodes: an opening appends a last child of the innermost open node, closing n closes the n innermost open nodes up to and including the builder's root and never reaches outside the given subtree, and excess or premature events are refused with the documented error and no effect. The root-available and root-closed queries, and the finishing functions, always agree with that stack. A builder abandoned at any point leaves only what was already added.",
 ["fault_sequences","inputs","schedules","crash_points"],
 "every event stream including torn and corrupted ones, every starting root (new tree, root or inner node of an existing tree), abandoned at every point, interleaved with other clients",
 "Two unit tests check one excess close and one unopened root on a fresh builder.",
 [S],[("TreeBuilder::open / close / finish",S)],[dict(name="current",meaning="innermost open node",where=S)],["builder queries and forest compared with a stack model after every event"])
p("C16","Clones are complete, equal and independent, or not made at all",
 "Cloning a subtree, a tree, or into another place (including inside the source itself) yields a structurally equal copy with cloned data for every node exactly once, sharing no node with the source; later edits, data changes, locks and drops on either side never affect the other. If any data is exclusively borrowed, or a data clone panics at any node, the operation fails as a whole: source and destination are unchanged and all partial copies are dropped.",
 ["histories","fault_sequences","inputs"],
 "every source subtree, destination position, set of held borrows and every clone call at which a panic can strike, followed by arbitrary further history",
 "Tests clone one sample tree with clonable strings and no borrow held.",
 [E,PL,F,H,T,S],[("try_clone_insert_subtree",E),("try_clone_subtree / try_clone_tree",PL)],None,["model comparison, payload registry"])
p("C17","Comparison decides structural equality and never anything else",
 "Comparing two subtrees or trees, through every pair of handle kinds, answers true exactly when their shapes and their data in corresponding nodes are equal, independently of neighbours outside the subtrees, locks, handles and history. It may fail only when some involved data is exclusively borrowed, in which case the fallible form returns an error and the operator form panics; a panicking data comparison leaves everything unchanged and no borrow behind.",
 ["inputs","histories","fault_sequences"],
 "all pairs of subtrees (equal, nearly equal, nested, overlapping, cross-tree) in every reachable state, with borrows held by other clients and with panicking comparisons",
 "Tests compare equal sample trees; near-equal pairs (same pre-order, different shape), nested subtrees and borrowed data are not covered.",
 [I,PL,F,H,T],[("NodeCoreLink::try_eq",I)],None,["comparison results against the model for random pairs"])
p("C18","Data borrows depend only on data borrows, and data stay with their node",
 "Borrowing a node's data shared or exclusively succeeds exactly according to the shared-xor-exclusive rule over the guards currently held for that node, through whichever handle, and independently of hierarchy locks, edits and teardown of other trees. Hierarchy edits never fail or misbehave because data is borrowed (except where data must be cloned), and never change, swap or lose data: a value written through one handle is what every other handle of that node reads, for as long as the node lives.",
 ["histories","schedules"],
 "every interleaving of borrow guards held by clients across all operations of other clients",
 "Tests borrow and release immediately; none holds a guard across edits, moves, comparisons or prints.",
 [I,PL,F,H],[("data cell access",I)],None,["try_borrow_data(_mut) on every node compared with the model; data values"])
p("C19","Printing never disturbs the tree and reports writer failures",
 "Every debug and pretty printer, of nodes of every handle kind and of trees, alive or dead weak references included, completes without panicking in every reachable state, prints each node of the subtree once in document order with its nesting, and substitutes a placeholder for exclusively borrowed data. When the output sink or the data's formatter fails at any byte or node, the printer stops and reports that failure. Printing never changes hierarchy, locks, data or lifetimes and leaves no borrow behind, even if the data's formatter panics or uses the library.",
 ["fault_sequences","histories","inputs"],
 "every reachable state, every failing position of the sink, every failing or panicking formatter call, held borrows",
 "tests/pretty_debug_print.rs compares the output for one tree with an infallible sink.",
 ["src/node/debug_print/debug.rs","src/node/debug_print/pretty.rs","src/tree/debug_print.rs",PL,T],[("IndentWriter",  "src/node/debug_print/pretty.rs"),("DebugPrintNodeLocal / DebugPrintSubtree","src/node/debug_print/debug.rs")],None,["token order and indentation of the output, failing writers"])
p("C20","Every call makes progress: bounded steps, no hang",
 "Every library call terminates within a number of elementary link steps bounded by a linear function of the number of nodes it concerns: constant for the child count of plain and editable handles, for parent, child and adjacent-sibling access and for creating a node at any position; the number of children for replacing a node with its children or interrupting it with a child; the path to the root for moves inside a tree; the subtree for detaching, moves between trees, cloning, comparison and traversal, whatever history produced the trees and whatever other clients hold. Only the documented non-allocating breadth-first iteration may take quadratic steps. Once edits stop, every iterator finishes within such a bound.",
 ["histories","inputs","schedules"],
 "every call in every simulated history, measured in simulated steps (link reads counted by a guarded hook)",
 "Tests measure no step counts; a call that loops or rescans only in particular states passes them.",
 [I,E,DF,SB],[("link accessors",I),("num_children cache",I)],None,["simulated step counter per call"],"cfg(dendron_sim) step counter in the link accessor")
p("C21","Value adaptors keep the variant and apply the function once",
 "Mapping, borrowing or unwrapping an insertion destination, a traversal event or a build event keeps its kind and passes the contained value through the given function exactly once.",
 ["inputs"],"every variant and value","Doc tests show single examples.",
 ["src/anchor.rs",DF,S],[("InsertAs::map/as_ref, DftEvent::map/into_open/..., Event::map","src/anchor.rs")])
p("C22","Tree literal macros build the written tree",
 "The tree literal macros expand to a tree whose shape and data are exactly as written, for every nesting and trailing-comma form.",
 ["programs"],"every macro invocation accepted by the grammar","Doc tests show a few literals.",
 ["src/macros.rs"],[("tree!, tree_node!","src/macros.rs")])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        if not d['anchors']['state']: del d['anchors']['state']
        if not d['anchors']['observe_at']: del d['anchors']['observe_at']
        assert len(d['title'])<=80,d['id']
        import re
        n=len([x for x in re.split(r'\.\s+',d['statement'].strip()) if x]); 
        if n>3: print(d['id'],n)
        f.write(json.dumps(d)+"\n")

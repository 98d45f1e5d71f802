"""writes /verif/MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification (own verifier over the real Python source, back ends z3 and cvc5)"
G = " Trusted: the verifier in pyver/, z3, cvc5, the declared models of sqlite3/joblib/pandas primitives (listed in the evidence), hashing injective. Partial correctness; the concrete scenarios that also run are bounded and never counted as proved."
CHECKS = {
 "C01": "Proved for all inputs: equality of call history, content and pre-call ids iff the hashable inputs, op and versions agree; output ids are an injective function of call id and name. That storage calls are recorded under these ids is a bounded scenario.",
 "C09": "Proved: dropping calls (with and without dependents, before a commit too) removes exactly those calls from cache, database and the set still to be written, for every store content; get_orphans is the complement of the least set that holds every mentioned ref and the elements of its collections; get_unreferenced_cids and cleanup_refs remove exactly what no call and no kept ref needs. Deserialised shapes being in memory is a precondition.",
 "C10": "Proved: wrap_atom, and that with_hid/detached/attached/shallow_copy of every ref kind keep ids and value and leave the original alone. Nested structures of refs are bounded scenarios.",
 "C02": "Proved: a lookup finds a call exactly when one with its history or content id is stored in the cache or the database; running an op (storage not versioned, inputs given as refs) runs its body exactly once if no matching call is stored and not at all if one is, or if new calls are forbidden; save_call makes exactly that call findable, with its refs, and changes no other; save_ref of an atom stores its value under its content hash. Nested refs, construct/destruct and _get_call_from_data are assumed contracts; sessions, failures and structs are bounded scenarios. Four argument-aliasing defects are known findings.",
 "C03": "Proved for every signature without both *args and **kwargs: parse_args gives the body exactly the bound value of every parameter (marked values unwrapped, defaults filled in) and stores exactly the arguments that are neither ignored nor left at a NewArgDefault, under distinct names; boundargs_to_args_kwargs rebuilds a call with the same bindings; the default comparison is type-exact. inspect's own binding is an assumed contract; signatures with both stars, and Storage.call around these functions, are bounded scenarios.",
 "C04": "Proved: output names encode the index reversibly and distinctly, get_ordered_outputs (generic and named) gives the i-th output at position i for any number of outputs, parse_returns names every returned value and its annotation and refuses wrong counts and non-tuples. The path through storage and reload is bounded scenarios.",
 "C05": "Proved for all inputs and states: every method of CachedDictStorage and CachedCallStorage keeps the cache/database coherence invariant and answers as the write-through dictionary. Storage-level sessions are bounded scenarios.",
 "C06": "Proved: InMemCallStorage and SQLiteCallStorage save/exists/get_data/get_data_content/drop round-trip for every call and table, including multi-id reads.",
 "C07": "Proved: the transaction decorator against a ghost database (one run per attempt, commit on return, rollback on any error, re-raise, no commit or rollback with a given connection); Storage.commit with a failure possible at every step leaves database and dirty sets as they were, and otherwise persists exactly the dirty entries.",
 "C08": "Proved: creator/consumer/input/output queries of both call storages for every table, and dependencies/dependents as the least closed sets. The Storage-level wrappers are bounded scenarios.",
 "C17": "Proved: Storage.__enter__/__exit__ push and pop mode and current context on every path, including failing sync and commit; blocks (also noop()) that raise anything restore exactly; an op outside a context is the plain function. The prohibition of new calls and noop execution inside Storage.call are bounded scenarios.",
 "C18": "Proved: set/get/exists/drop/keys/load_all of SQLiteDictStorage with and without an overflow store, JoblibDictStorage.set/load_all; file primitives of JoblibDictStorage (path mapping, os.path.exists, joblib.dump/load) are assumed contracts.",
}
CHECKS["C11"] = "Proved for every frame: adding and removing edges, nodes, refs and calls (_add_edge, _drop_edge, _add_var, _add_func, add_ref, drop_ref, drop_var, drop_func, drop_node, drop_call, move_ref, add_call) keeps graph well-formedness and the mirrored indices (refinv, callinv, creator, consumers), changes exactly the stated edges and members, and add_call links a call's refs along every edge. Removing nodes also keeps calls and elements linked along the remaining edges. So do drop, cleanup, merge_into, rename_var, isin by ids, from_vars, from_refs, and copies, selections, intersections and unions of frames. Expansion, eval and merge_vars are bounded scenarios; three defects are known findings."
CHECKS["C12"] = "Proved for all inputs: the union, intersection and adjacency helpers both frames of a set operation are built from return exactly the union/intersection per node and per edge, and the adjacency rebuilt from an edge set mirrors it; copy, select_nodes, select_subsets, intersection and union of well-formed frames give well-formed frames with exactly the stated nodes, edges and elements (union: at least both frames' elements), sharing no container with the operands at the top level. Difference, and sharing of inner sets, are decided by bounded scenarios against a set oracle."
CHECKS["C13"] = "Proved for every well-formed frame: neighbours, sources, sinks, node sets, the projection of names and, in both directions and for calls and refs, the elements adjacent along an edge, or to a node, are exactly those the stored calls connect under that label; source and sink elements are exactly those nothing in the frame feeds or uses. Reachability and expansion are bounded scenarios against an oracle over the stored calls; one defect is a known finding."
CHECKS["C14"] = "Proved for every graph: topological_sort and its recursive depth-first search visit every node once and put every node before its successors (acyclic graphs), create_super_graph is exactly the graph of components, almost_topological_sort orders nodes of different components by dependency, sort_nodes keeps the frame's order. find_strongly_connected_components (Tarjan) and topsort_modulo_sccs (Kahn) are assumed contracts, decided by bounded scenarios against brute-force reachability. Graphs deeper than Python's recursion limit are out of scope."
CHECKS["C15"] = "Proved for every history (invariant over DAG): init, checkout, commit and sync file each content under its own hash, leave existing commits as they are, keep parents, semantic versions and head inside the DAG, give a new commit either its own semantic id or the head's, and leave everything alone when refused or aborted; get_content returns what was committed; both content adapters' diffs round-trip; sync twice is sync once. Assumed: ask_user answers one of its options; printing. Scenarios run whole histories of both kinds, with aborts and pickling."
CHECKS["C19"] = "Proved for every state of a trace: a call adds its node, one edge from its caller (or a root when it has none) and its frame; a return pops exactly that frame; a global read adds (module of the running function, name) and its edge; a memoized call adds one node per version pair; the wrapper @track installs restores the call stack on return and on any exception; only one tracer is active. Assumed: what a tracked function runs reaches the tracer only through these. Scenarios run random call trees over two modules (methods, static and class methods, exceptions, nested, suspended and re-entered tracers)."
CHECKS["C16"] = "Proved for every version history: lookup_call answers with a stored version exactly when one recorded for these inputs has, in the current code, the semantic version it was stored with (soundness and completeness); the semantic versions read off the current code are those of its contents and missing contents mean no answer; a version lists exactly the dependencies of its trace, refuses a trace with two different contents, and its semantic expansion is exactly the dependencies' versions, memoized callees included; a new component is registered with its first content; processing a trace files its version under its ids and keeps the invariants of the version store. Assumed: the pandas table of calls is a list of rows; hash_dict separates different dictionaries (justified by a proved lemma over an injective hash); the version store stays consistent between sessions (scenarios). Scenarios run random two-module codebases rewritten between sessions against an independent oracle of reuse, values, version contents and ids, with aborted syncs."
NA = {}
props = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
m = dict(version=1, setup_cmd="python3-vt tools/selfcheck.py",
         checks=[dict(property=p, quick_cmd=f"python3-vt check.py {p} --tier quick", thorough_cmd=f"python3-vt check.py {p} --tier thorough", evidence_file=f"evidence/{p}.json",
                      technique=T, level="proof", level_note=n + G) for p, n in sorted(CHECKS.items())],
         not_applicable=[dict(property=p, reason=NA.get(p, "not claimed yet: its contracts are still being written")) for p in props if p not in CHECKS],
         notes="Every check regenerates its obligations from /repo's current source. See DESIGN.md.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)

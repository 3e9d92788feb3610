#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the file stays valid JSON."""
import json
SM="src/sparse/merkle_tree.rs"; SN="src/sparse/node.rs"; BM="src/binary/merkle_tree.rs"; SU="src/sum/merkle_tree.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ROOTST=[("root_node","the only in-memory state of a sparse tree",SM),("node table","nodes persisted under their digest",SM)]
p("C01","Sparse tree root is the canonical root of its current contents",
 "After any sequence of updates and deletes on a sparse Merkle tree (an update with empty data being a delete), its root equals the specified sparse Merkle root of the key-to-value map those operations leave behind, and equals 32 zero bytes when that map is empty. Only the resulting map matters: neither the order of operations, nor overwritten values, nor deleted or repeatedly deleted keys leave a trace. Values of any content and length are supported, and no operation on a working store fails or panics.",
 ["histories","inputs"],"all finite histories of update/delete/update-with-empty-data over any keys and values",
 "Existing tests run about twenty fixed histories over hashed keys and one value; they never delete a key twice, and never re-insert after delete on a chosen shape.",
 [SM,SN,"src/sparse/hash.rs","src/sparse/in_memory.rs","src/common/msb.rs"],
 [("path walk and upward rebuild on update",SM+" update_with_path_set"),("orphan collapse on delete",SM+" delete_with_path_set"),("node hashing",SN+" Node::hash")],ROOTST,["root()"])
p("C02","Sparse tree reloads from storage at its current root",
 "At every point of a history, loading a sparse tree from the same storage with the root the live tree reports (including the empty root) succeeds, reports that root, and behaves exactly like the live tree under every further update, delete and reload. Loading a root that was never produced and is not stored reports a load error.",
 ["histories"],"all histories with reloads inserted at any subset of positions",
 "One test reloads once, after five inserts, and continues with inserts only; no deletes, no single-leaf or empty trees, no repeated reloads.",
 [SM,"src/sparse/primitive.rs",SN],[("load by root",SM+" load"),("persisting every new node on update and delete",SM),("primitive encoding","src/sparse/primitive.rs")],ROOTST,["load()","root()"])
p("C03","Sparse tree is correct for every choice of 256-bit keys",
 "The sparse tree computes the specified root whatever 256-bit keys the caller picks: keys sharing any number of leading bits from 0 to 255, the all-zero and all-one keys, and keys that coincide with digests the tree itself has computed or stored. No key can make an operation on one entry alter, lose or corrupt another entry.",
 ["inputs","histories"],"all key sets and the histories over them",
 "All tests use SHA-256 images of small integers as keys, so leaves diverge within the first few bits and never equal a node digest; deep prefixes, byte boundaries and colliding keys are never reached.",
 [SM,SN,"src/common/msb.rs","src/common/path.rs","src/common/path_iterator.rs"],
 [("bit addressing from the most significant bit","src/common/msb.rs"),("placeholder insertion along shared prefixes",SM+" update_with_path_set"),("storage keyed by digest",SM)],ROOTST,["root()"])
p("C04","Sparse tree storage always holds exactly addressed, sufficient nodes",
 "After every successful operation the store contains every node reachable from the current root, each filed under its own digest with the documented content (height, leaf/node marker, key and value digest or the two child digests), so that the whole map can be rebuilt from the root alone, and no entry is ever filed under anything but its own digest. A successful delete of a present key leaves in the store none of the nodes that formed the path from the previous root to that key.",
 ["histories"],"all histories; inspected after each operation",
 "No test inspects stored sparse nodes; a missing or mis-filed node shows only on a later operation or reload through that node.",
 [SM,SN,"src/sparse/primitive.rs"],[("insert of each rebuilt node",SM),("removal of stale path on delete",SM+" delete_with_path_set"),("primitive layout","src/sparse/primitive.rs")],ROOTST,["the caller's storage"])
p("C05","Sparse no-ops change nothing and independent operations commute",
 "Deleting an absent key, updating an absent key with empty data and re-applying the value a key already has leave the root unchanged and the tree fully usable. Inserting a fresh key and deleting it restores the previous root, and two operations on different keys give the same root in either order.",
 ["histories","inputs"],"from every reachable state, all single operations and pairs of operations",
 "Tests cover one absent-key delete from one state, one repeated update, and no commutation.",
 [SM],[("comparison of the requested key with the leaf found on the path",SM),("orphan collapse and placeholder rules",SM)],ROOTST,["root()"])
p("C06","Sparse operations survive storage errors without corruption",
 "When any storage access made by a sparse update, delete or load fails, the operation returns an error carrying that failure and does not panic. Afterwards the tree is in the state before the operation or the state after it, never anything else: its root says which, every node of that state is still stored, and every later operation, including a retry, behaves accordingly.",
 ["fault_sequences","histories"],"every position of one or more storage failures in every operation after every short history",
 "No test uses a storage that can fail; every test store is infallible.",
 [SM,SN],[("error propagation with ?",SM),("root replaced only after nodes are stored",SM),("stale nodes removed only once the new root stands",SM+" delete_with_path_set")],ROOTST,["update()","delete()","load()","root()"])
p("C07","Sparse tree detects missing and undecodable stored nodes",
 "If any stored sparse node has been lost, or its leaf/node marker is not a valid one, every update, delete and load either returns an error and leaves the root unchanged, or succeeds with exactly the result it would have had on the undamaged store. It never panics and never silently yields a different root.",
 ["fault_sequences","histories"],"every single lost or undecodable node, in every state of short histories, under every operation",
 "Two tests corrupt a root and a direct child; no test removes a node of a live tree and then operates on it.",
 [SM,SN,"src/sparse/primitive.rs","src/common/prefix.rs"],[("child-not-found and deserialize errors",SN+" left_child/right_child"),("path collection stops at the first error",SM+" path_set"),("marker decoding","src/common/prefix.rs")],ROOTST,["update()","delete()","load()"])
p("C08","Binary tree root is the RFC 6962 Merkle root of the pushed leaves",
 "After pushing any list of leaves to a binary Merkle tree, of any number, content and length, its root equals the RFC 6962 Merkle tree hash of that list (SHA-256 with leaf and node prefixes, split at the largest power of two below the count), and the hash of the empty string for no leaves. Asking for roots or proofs at any moment changes nothing.",
 ["inputs","histories"],"all leaf lists and all interleavings of push, root and prove",
 "Unit tests check up to 10 leaves; the integration test samples fourteen sizes against a reference, always with 32-byte leaves and never querying before the end.",
 [BM,"src/binary/hash.rs","src/binary/node.rs","src/binary/in_memory.rs","src/common/subtree.rs"],
 [("merging equal-height peaks",BM+" join_all_subtrees"),("bagging peaks right to left",BM+" build_root_node"),("prefixed hashing","src/binary/hash.rs")],
 [("head","list of peaks, newest first",BM),("leaves_count","number of leaves",BM)],["root()"])
p("C09","Binary proofs are exact, complete and refused for invalid indices",
 "For every tree size and every index below it, the proof is the leaf digest followed by the sibling digests from leaf to root of the RFC 6962 tree, it comes with the tree's root, and an independent verifier accepts it. For every index not below the leaf count, up to the largest 64-bit value, proving is refused as an invalid index (an error, or no proof from the in-memory tree) and never panics.",
 ["inputs","histories"],"all sizes, all 64-bit indices, and proofs taken at any point while the tree grows",
 "Unit tests prove inside trees of 1, 4, 5 and 7 leaves; the integration test samples one random index for each of fourteen sizes, and the only invalid index tried is 10 of 5.",
 [BM,"src/common/position_path.rs","src/common/position.rs","src/binary/in_memory.rs"],
 [("index check",BM+" prove"),("side positions of the path","src/common/position_path.rs"),("scratch nodes before stored nodes",BM+" prove")],None,["prove()"])
p("C10","Binary tree reloads at any earlier size, and can be rolled back and forked",
 "From a store holding the nodes of at least k pushed leaves, loading with leaf count k gives a tree whose root and proofs are those of the first k leaves, and pushing on from there, even leaves different from those stored before, behaves as if only the first k leaves had ever been pushed. Loading with a count larger than the leaves ever stored, whatever its 64-bit value, returns a load error.",
 ["histories","inputs"],"all histories of push, reload, rollback to any earlier count and re-push; all counts",
 "Tests only reload at the full count and, for failure, at twice the count; they never roll back and push different leaves over stale nodes.",
 [BM,"src/common/position_path.rs","src/common/position.rs"],[("peak positions of a count",BM+" peak_positions"),("root position",BM+" root_position"),("scratch storage shadows stale nodes",BM+" prove")],None,["load()","root()","prove()"])
p("C11","Binary tree storage holds exactly the perfect subtrees, append-only",
 "After n pushes the store holds exactly one entry per perfect subtree of the first n leaves, filed under its in-order index with that index and the subtree's digest, and nothing else. Pushing never changes or removes an entry already stored, and root and proof queries never write.",
 ["histories","inputs"],"all sizes and all interleavings of push, root and prove",
 "One test looks at the stored nodes of a seven-leaf tree.",
 [BM,"src/binary/primitive.rs","src/binary/node.rs"],[("insert of leaf and joined nodes",BM+" push/join_all_subtrees"),("temporary nodes kept in scratch",BM+" root_node")],None,["the caller's storage"])
p("C12","Binary operations survive storage errors without corruption",
 "When any storage access made by a binary push, prove or load fails, the operation returns an error carrying that failure and does not panic. A failed push leaves the tree as it was, so its root, its proofs and its leaf count are unchanged, it can be retried or replaced by another push, and the store still loads at every earlier count.",
 ["fault_sequences","histories"],"every position of one or more storage failures in every operation, for every size up to a bound",
 "No test uses a storage that can fail.",
 [BM],[("storage errors propagated",BM+" push"),("head and count changed only after all nodes are stored",BM+" push")],[("head","list of peaks",BM),("leaves_count","number of leaves",BM)],["push()","prove()","load()","root()"])
p("C13","Binary tree reports lost nodes, naming the missing storage key",
 "If entries of a binary tree's store have been lost, loading and proving either give exactly the result of the intact store or return a load error naming the storage key of an entry that is really missing. They never panic and never give a different root or proof.",
 ["fault_sequences","inputs"],"every set of up to two lost entries, for every size, count and index up to a bound",
 "One test loads with a count that does not match the store and only checks the error's kind; missing nodes during proofs are never tried.",
 [BM],[("load error on absent key",BM+" build/prove")],None,["load()","prove()"])
p("C14","Binary tree is correct at leaf counts far beyond what can be pushed",
 "For every leaf count a tree can have (up to 2^63 - 1), loading succeeds as long as the peaks of that count are stored and needs nothing else, and root, proofs of any index and further pushes match the RFC 6962 structure for that count.",
 ["inputs"],"leaf counts and indices across the whole 64-bit range",
 "Tests stop at 10000 leaves; arithmetic on positions above 32 bits, or close to the 64-bit limit, is never executed.",
 [BM,"src/common/position.rs","src/common/position_path.rs","src/common/path_iterator.rs"],[("peak and root positions",BM),("64-bit in-order arithmetic","src/common/position.rs"),("path offset for short keys","src/common/path_iterator.rs")],None,["load()","root()","prove()","push()"])
p("C15","Sum tree root is the specified sum-tree root with the exact fee total",
 "After pushing any list of (fee, data) leaves, the sum tree's root is the pair of the exact total of all fees and the digest defined by hashing, at every node, both children's fees (8 bytes, big endian) and digests with the leaf/node prefixes over the RFC 6962 shape; for no leaves it is zero and the hash of the empty string. Asking for the root at any moment, any number of times, does not affect later results. A total that does not fit in 64 bits is never reported as a smaller number.",
 ["inputs","histories"],"all leaf lists with any fees and data, and all interleavings of push and root",
 "Tests use one fee value and 0, 1, 4, 5 and 7 leaves, and ask for the root once.",
 [SU,"src/sum/hash.rs","src/sum/node.rs","src/common/subtree.rs"],[("fee addition","src/sum/node.rs create_node"),("peak merging and bagging",SU),("hashing of fees and digests","src/sum/hash.rs")],None,["root()"])
p("C16","Sum tree storage holds every node with consistent fees and children",
 "After any pushes and a root query, every node reachable from the root is stored under its digest, with the height, the fee and the child digests of that subtree: each internal node's fee is the sum of its children's fees and its digest commits to them. Pushes and root queries never change or remove stored nodes.",
 ["histories","inputs"],"all leaf lists and interleavings of push and root",
 "No test looks at stored sum-tree nodes.",
 [SU,"src/sum/node.rs"],[("insert of leaf, joined and bagged nodes",SU+" push/join_subtrees")],None,["the caller's storage"])
p("C17","Sum tree survives storage errors without corruption",
 "When any storage access made by a sum-tree push or root query fails, the call returns that error and does not panic. Afterwards the tree is as it was before the call: the next root is the one of the leaves whose push succeeded, and a retried or different push behaves as if the failure had not happened.",
 ["fault_sequences","histories"],"every position of one or more storage failures in every operation, for every size up to a bound",
 "No test uses a storage that can fail.",
 [SU],[("storage errors propagated",SU),("head changed only after all nodes are stored",SU+" push")],None,["push()","root()"])
p("C18","Tree positions obey in-order tree arithmetic over all 64 bits",
 "For every position of a binary tree indexed in order with 64-bit indices, height, leaf/node test, leaf index, parent, children, sibling and uncle are those of the in-order numbered tree. Hence parent inverts both children, sibling is an involution sharing the parent, and the uncle is the parent's sibling, wherever those positions exist.",
 ["inputs"],"all positions of the 63-level in-order tree that have the relation asked for",
 "Tests check a dozen indices below 20.",
 ["src/common/position.rs"],[("index arithmetic from height and orientation","src/common/position.rs")],None,["Position methods"])
p("C19","Leaf paths visit exactly the real nodes and siblings of any tree size",
 "For every leaf count and every leaf below it, the path from the root position to the leaf yields, top down, exactly the nodes of the RFC 6962 tree of that size on that path, each paired with its sibling in that tree (the root paired with itself), and ends at the leaf. This holds for balanced and unbalanced trees alike, when the starting position lies above the real root, and however the iteration is consumed (stepwise, skipping, counting, in parts).",
 ["inputs"],"all leaf counts and leaves, including counts above 32 bits",
 "Tests list paths for trees of 1, 4, 5, 6, 7 and 8 leaves.",
 ["src/common/position_path.rs","src/common/path_iterator.rs","src/common/position.rs","src/common/path.rs"],[("skipping of non-existing positions","src/common/position_path.rs"),("descent by leaf-index bits","src/common/path_iterator.rs")],None,["Position::path().iter()","as_path_iter()"])
p("C20","The in-memory storage map behaves as a map",
 "Under any sequence of insert, remove, get and contains on any keys, the in-memory storage map returns what an ordinary map would: insert and remove return the previous value, get returns the latest value, contains agrees with get, and keys do not affect each other. The infallible access methods and access through references agree with the fallible ones.",
 ["histories"],"all operation sequences",
 "Tests run at most three operations on one key and never check what insert returns.",
 ["src/common/storage_map.rs","src/storage.rs"],[("hash map delegation","src/common/storage_map.rs"),("infallible adapters","src/storage.rs")],None,["StorageInspect/StorageMutate results"])
p("C21","In-memory trees behave exactly like storage-backed trees",
 "For every sequence of operations, the in-memory binary and sparse trees give the same roots and proofs as the storage-backed trees over any correct storage, with no proof where the storage-backed tree refuses one. A newly created and a default tree are the same.",
 ["histories","inputs"],"all operation sequences, compared after each operation",
 "In-memory and storage-backed trees are tested separately on a few fixed inputs; differing behaviour after mixed histories would not show.",
 ["src/binary/in_memory.rs","src/sparse/in_memory.rs","src/common/storage_map.rs"],[("delegation to the storage-backed tree","src/binary/in_memory.rs, src/sparse/in_memory.rs")],None,["root()","prove()","update()","delete()","push()"])
p("C22","A root determines the contents it commits to",
 "Two different leaf lists never have the same binary root, two different (fee, data) lists never have the same sum root, and two different key-value maps never have the same sparse root, even when leaf data are chosen to imitate encodings of inner nodes, digests, prefixes or fees.",
 ["inputs"],"all pairs of contents, up to the collision resistance of SHA-256",
 "Tests compare roots with expected values and never look for two contents with one root.",
 ["src/binary/hash.rs","src/sum/hash.rs","src/sparse/hash.rs",SN,"src/common/prefix.rs"],[("leaf/node domain separation","src/common/prefix.rs"),("fixed-width field order in hash inputs","src/*/hash.rs")],None,["root()"])
p("C23","The proof verifier accepts genuine proofs and nothing else",
 "The proof verifier shipped in the helper crate accepts a proof exactly when its digests lead from the leaf to the root along the path that the leaf's index and the leaf count (below 2^63) prescribe in the RFC 6962 tree: it accepts every proof produced by the binary tree and by the reference tree for the right root, index and leaf count, and rejects it after any change to the root, to any digest of the proof, to its order or length, or to the leaf's index; the digest of an inner node never passes for a leaf's. It never panics on any of these, and the reference tree's roots and proofs equal the binary tree's.",
 ["inputs"],"all sizes and indices up to a bound, with all enumerated tamperings",
 "Four unit tests and eight fixtures cover a handful of sizes with at most one tampering each.",
 ["test-helpers/src/binary/verify.rs","test-helpers/src/binary/merkle_tree.rs"],[("subtree-boundary walk","test-helpers/src/binary/verify.rs"),("reference proof construction","test-helpers/src/binary/merkle_tree.rs")],None,["verify()","prove()","root()"])
p("C24","Every build configuration computes the same results",
 "With and without the standard library feature, and with and without run-time overflow checks, the trees, positions and storage map give identical roots, proofs, stored nodes and error outcomes for the same operations.",
 ["configurations","inputs"],"{std, no_std} x {overflow checks on, off}, over a fixed exhaustive battery of operations",
 "The test suite only ever runs with std and overflow checks; the no_std configuration is merely type-checked.",
 ["src/lib.rs","Cargo.toml","src/common/position.rs",BM,"src/sum/node.rs"],[("feature-gated code","src/**"),("64-bit arithmetic","src/common/position.rs")],None,["all public results"])
p("C25","Descending a perfect tree follows the bits of the leaf index",
 "For every root position of height h and every leaf below it, iterating the path from root to leaf yields first the root paired with itself and then, at each step, the child towards the leaf paired with its sibling, the direction being the next most significant of the last h bits of the leaf index. The iteration has exactly h + 1 steps and ends at the leaf, however it is consumed, for every height from 0 to 63 and every 64-bit position.",
 ["inputs"],"all root positions and all leaves below them",
 "The tests iterate over the paths of a few leaves of 8-bit and 256-bit example trees; roots that are not on the leftmost spine and heights above the example are never used.",
 ["src/common/path_iterator.rs","src/common/position.rs","src/common/msb.rs"],[("offset of the first instruction","src/common/path_iterator.rs PathIter::new"),("reading of instructions","src/common/msb.rs"),("children of a position","src/common/position.rs")],None,["as_path_iter()"])
p("C26","Trees do not influence one another",
 "The results and stored nodes of every tree depend only on the operations performed on that tree and its own storage: however operations on several trees are interleaved, on one thread or on several, between operations or inside them whenever the storage is accessed, whichever other trees are created or dropped in between and whether or not their operations fail, each tree behaves exactly as it does alone. Several readers of one tree do not disturb each other.",
 ["schedules","histories"],"all interleavings of operation sequences on any number of trees of any kinds",
 "Every test drives one tree from start to end; no test has two trees of one kind alive, let alone interleaves their operations or moves them between threads.",
 [BM,SM,SU,"src/binary/in_memory.rs","src/sparse/in_memory.rs","src/binary/hash.rs","src/sparse/hash.rs"],[("lazily built constants for the empty tree","src/binary/hash.rs, src/sparse/hash.rs"),("tree state held per tree",BM),("storage held per tree","src/common/storage_map.rs")],None,["root()","prove()","the caller's storage"])
p("C27","Operations touch only logarithmically many stored nodes",
 "The number of storage accesses one operation makes is bounded by a small multiple of the height of the tree: for binary and sum trees (push, prove, root, load) the logarithm of the number of leaves, for sparse trees (update, delete) the depth at which the paths of the key and of its neighbours end. It does not grow with the number of entries, of earlier operations, or of deleted keys.",
 ["histories","inputs"],"all tree sizes and histories",
 "No test counts storage accesses; a rescan of all leaves gives the same roots and passes every one of them.",
 [BM,SM,SU,"src/common/position_path.rs"],[("peak merging on push",BM),("load of the peaks only",BM+" load"),("walk of a single path",SM),("proof along one path",BM+" prove")],None,["the caller's storage"])
p("C28","Errors tell what went wrong and name its cause",
 "Every failure of a tree operation is reported as an error of the kind that happened, carrying its cause: an invalid proof index that index; a missing node the storage key that is missing; an undecodable node its marker; a failing storage call the storage's own error. Every tree's error type is a standard error (with std), and its text names the cause as well.",
 ["fault_sequences","inputs"],"all trees, operations, indices, lost or undecodable nodes and failing storage calls",
 "Tests compare two or three errors of small trees; which node is missing, at which depth, in which call, and what the error's text says are not looked at.",
 [BM,SM,SU,"src/common/node.rs","src/sparse/primitive.rs","src/common/error.rs"],[("error types and their conversions",BM),("error types and their conversions",SM),("errors of child lookups","src/common/node.rs"),("undecodable nodes","src/sparse/primitive.rs")],None,["returned errors","Display and Debug of errors"])
p("C29","An interrupted operation never damages the stored tree",
 "If the process stops in the middle of an operation, after any of its writes to the storage, a new process finds a whole tree there: for a sparse tree the one before or the one after the operation, for a binary tree every leaf count up to the one before it, for a sum tree all nodes stored before it. A root that a sparse tree adds to the storage is found there, and a leaf count that a push adds to a fresh storage can be loaded, only when the whole tree is there. Pushes and updates may lose any part of their writes: what was stored before stays whole. Work continues from there and gives the same roots and proofs as if nothing had happened.",
 ["crash_points","histories"],"all trees, operations, interruption points and parts of writes lost, and repeated interruptions",
 "Tests never interrupt an operation; every one of them sees only stores that all operations have finished writing.",
 [BM,SM,SU],[("order of writes in update and delete",SM),("writes of joined nodes on push",BM),("load from what is stored",BM+" load")],None,["the caller's storage","load()","root()","prove()"])
p("C30","A chain of subtrees behaves as a list",
 "common::Subtree, the chain in which the trees keep their unfinished subtrees, behaves as a non-empty list of nodes: reading the node, the next node and the rest, taking or replacing the rest, changing nodes in place and cloning do to the chain what they do to the list, for every sequence of these operations; changing a clone leaves the original alone.",
 ["histories"],"all sequences of operations on a chain",
 "No test calls it directly; the trees use it in one pattern only (merge the first two, put one in front).",
 ["src/common/subtree.rs"],[("take_next, next_mut, node_mut","src/common/subtree.rs")],None,["node()","next()","next_node()","take_next()"])
p("C31","A data-driven test case passes exactly when it should",
 "The helper crate's encoded values give the bytes they encode, in hexadecimal (of either case), base64 and UTF-8, and refuse texts with foreign characters or hexadecimal of odd length. A sparse test case passes exactly when carrying out its updates and deletions gives the expected root, and fails by its name otherwise; unknown actions and undecodable values are reported as such; a malformed case never passes. A proof test case, for a leaf count a tree can have, passes exactly when the proof's validity is the one expected, and survives being written and read.",
 ["inputs"],"all encoded values, all step lists, all proofs with all enumerated tamperings",
 "The data tests run fifteen correct cases whose expectations all hold; a runner that always passes would go unnoticed.",
 ["test-helpers/src/data/encoded_value.rs","test-helpers/src/data/sparse.rs","test-helpers/src/data/binary.rs"],[("decoding","test-helpers/src/data/encoded_value.rs"),("execution of steps and comparison of roots","test-helpers/src/data/sparse.rs"),("comparison with the expected verification","test-helpers/src/data/binary.rs")],None,["Test::execute()","ProofTest::execute()","EncodedValue::into_bytes()"])
p("C32","Trees work over any storage that keeps what it is given",
 "Trees behave the same over every storage that returns what was last written: one that lends or copies its values, owned or by reference, and one that holds further entries. Foreign entries are neither used nor changed. Several sparse trees may share one storage as long as only updates are made or their values differ, several sum trees always; each stays whole. A read-only storage is enough to load a binary tree and prove from it.",
 ["histories","configurations"],"all operation sequences over all kinds of storage and foreign contents",
 "Tests use the library's own map holding one tree and nothing else.",
 [BM,SM,SU,"src/sparse/node.rs","src/storage.rs"],[("reading of nodes by key",BM+" load, prove"),("empty subtrees recognised without the storage","src/sparse/node.rs"),("removal of path nodes on delete",SM)],None,["root()","prove()","load()","the caller's storage"])
p("C33","Trees keep next to no memory besides their storage",
 "Besides what it stores through its storage a tree holds memory bounded by a small multiple of its height, and an operation takes no more than that for itself while it runs. Neither grows with the number of leaves or entries, the lengths of contents, the number of earlier operations (failed ones included), queries or reloads; dropping a tree frees everything it held.",
 ["histories","inputs"],"all tree sizes and histories",
 "No test looks at memory; a tree that kept every node it ever saw gives the same roots and passes every one of them.",
 [BM,SM,SU,"src/common/subtree.rs"],[("peaks kept between operations",BM),("the root kept between operations",SM),("peaks kept between operations",SU)],None,["memory taken from the global allocator"])
for x in P:
    assert len(x["title"])<=80,x["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))

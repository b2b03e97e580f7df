#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so that the list stays diffable."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

T="jmt/src/tree.rs"; C="jmt/src/tree_cache.rs"; N="jmt/src/node_type.rs"; D="jmt/src/types/proof/definition.rs"; I="jmt/src/iterator.rs"
R="jmt/src/restore.rs"; M="jmt/src/mock.rs"; DB="jmt/src/db.rs"; X="jmt/src/tree/ics23_impl.rs"; W="jmt/src/writer.rs"; RD="jmt/src/reader.rs"
NP="jmt/src/types/nibble/nibble_path.rs"; B="jmt/src/bytes32ext.rs"
PI="pmt/src/inner.rs"; PN="pmt/src/nibbles.rs"; PD="pmt/src/db.rs"; PT="pmt/src/trie_iterator.rs"

p("J01","Versioned tree is an immutable map per version",
"After any sequence of committed write sets (insertions, overwrites, deletions, repeated keys, empty and no-effect sets), a lookup of any key at any committed version, through the tree's read and proof-returning read interfaces alike, returns exactly what a plain map holding all sets up to that version would hold: the last value written, or nothing if never written or deleted. Committing later versions never changes any answer for an earlier version. For a version that was never committed, reads with proofs report the missing root and its version, and there is no root hash or iteration. No well-formed operation fails or panics.",
["inputs","histories","configurations"],"every history of write sets, key distribution (shared prefixes at every nibble depth), first version, leaf-count mode and single/multi-version commit grouping",
"The tests replay a handful of fixed or prefix-poor random histories; correctness depends on the whole history and on how deep keys collide.",
[T,C,NP,M],[("recursive insert/delete with leaf split and collapse",T+": insert_at*"),("per-version cache and freeze",C)],["get_with_proof","VersionedTrie::get/contains","TreeReader::get_value_option"],
[("node versions","each child pointer names the version its node was written at",N+": Child.version")])
p("J02","Root hash is the canonical sparse-Merkle commitment",
"The root hash returned for a version, and the one later read back for it, equals the root of the 256-bit sparse Merkle tree over exactly the key/value pairs live at that version (empty subtrees are the fixed placeholder, one-leaf subtrees are that leaf, with the documented domain-separated SHA-256 leaf and internal hashes). It therefore depends only on the live contents, never on the order, batching, deletions or history that led there. The reported leaf count, where available, equals the number of live keys.",
["inputs","histories","configurations"],"every live set and every history that produces it",
"Tests compare a few roots with fixed vectors; history independence is a statement about all pairs of histories.",
[T,N,C,"jmt/src/types/proof.rs"],[("16-way node hashed as 4-level binary tree",N+": merkle_hash"),("collapse to a leaf on deletion",T+": insert_at_internal_node")],["put_value_set(s) root hashes","get_root_hash(_option)","get_leaf_count"])
p("J03","Every membership and absence query yields a verifying proof",
"For every committed version and every key, present or absent, the proof returned at that version verifies against that version's root hash: as an inclusion proof of exactly the live value, or as a non-inclusion proof. It is accepted both by the library's verifier and by any independent implementation of the documented hashing rules, and recomputing the root from an inclusion proof gives that root.",
["inputs","histories"],"every history, version and query key, including keys that share any number of leading bits with live keys",
"Tests query inserted keys plus a few random absent ones that diverge within the first nibbles.",
[T,N,D,B],[("sibling collection per nibble",N+": get_child_with_siblings"),("bitwise fold",D+": verify")],["get_with_proof","get_proof","verify/verify_existence/verify_nonexistence","root_hash"])
p("J04","No forged or altered membership proof verifies",
"The proof verifier accepts a claim (root, key, value or absence) only if the claim is true of the tree with that root. Any proof altered in its leaf or siblings, reused for another key, value, version or root, claiming absence of a present key or presence of an absent one, or built arbitrarily by an attacker, is rejected with an error and never a panic.",
["inputs"],"every tree and every attacker-supplied proof object (any sibling count, any leaf, bit flips, truncations, swaps)",
"Tests try a couple of wrong values and roots; soundness quantifies over all proof objects.",
[D,"jmt/src/types/proof.rs",B],[("prefix-length and leaf checks before folding",D+": verify")],["SparseMerkleProof::verify*","VersionedTrie::verify_proof"])
p("J05","Exclusion proofs name the exact neighbours at any version",
"Asking for an exclusion proof returns the value and inclusion proof for a present key; for an absent key in a non-empty tree it always succeeds and identifies exactly the greatest live key below and the smallest live key above the queried one (omitting a side only when no such key exists), each with an inclusion proof that verifies against the queried version's root. This holds at every version, whatever versions the neighbouring nodes were written at.",
["inputs","histories"],"every multi-version history, version and query key, including below the minimum, above the maximum and between adjacent keys",
"Existing tests build the tree in a single version, so nodes written at different versions are never combined.",
[T],[("closest-node search and extreme descent",T+": get_bounding_path, search_closest_extreme_node, get_extreme_key_hash")],["get_with_exclusion_proof"])
p("J06","ICS23 proofs verify for true claims only",
"For every version of a tree whose keys and values are non-empty and whose keys have known preimages, the ICS23 proof returned for a key verifies under the published proof spec as existence of the live value, or as non-existence when the key is absent and the tree is non-empty. The same proof is rejected for any other value, key that it does not cover, root, or for the opposite claim.",
["inputs","histories"],"every history, version, present or absent key",
"Tests use single-version trees of random keys and check only true claims on a few.",
[X,T],[("conversion of siblings to inner ops",X)],["get_with_ics23_proof","ics23_spec"])
p("J07","Iteration yields exactly the live pairs, in key order, from any start",
"Iterating a version from a starting key yields, in strictly increasing key order and exactly once each, all live pairs with key at or above the start, with their values at that version, and then ends. Iterating from an index yields exactly the pairs at that rank and beyond, and an index past the end yields nothing. Later commits do not change the result for an earlier version.",
["inputs","histories"],"every history, version, start key (present, absent, just below/above, minimum, maximum) and start index",
"Tests iterate trees built at one version, with few start positions.",
[I],[("depth-first stack with next-child bitmap",I)],["JellyfishMerkleIterator::new","JellyfishMerkleIterator::new_by_index","VersionedTrie::iter"])
p("J08","Stale-node index is safe and complete for pruning",
"A node listed as stale since version v is never needed by any query, proof or iteration at version v or later, so purging everything stale up to v leaves v and all later versions fully readable with unchanged roots, values and proofs. Conversely, every non-root node that stops being part of the tree at some version is listed as stale since exactly that version, once, so purging reclaims all superseded non-root nodes.",
["inputs","histories"],"every history, commit grouping and purge point",
"Tests purge after short fixed histories; a missing or premature entry depends on the shape of splits and collapses across versions.",
[C,T,M],[("stale bookkeeping on node deletion",C+": delete_node, freeze"),("purge",M+": purge_stale_nodes")],["TreeUpdateBatch.stale_node_index_batch","MockTreeStore::purge_stale_nodes"])
p("J09","Batch, grouped and one-by-one updates are equivalent",
"Applying the same updates through the batch interface (from the first version 0 or onto an existing version), as several versions in one call or as one call per version yields, for each version, identical root hashes, values, nodes, stale non-root nodes and statistics. Applying them in another order within a version, or one key at a time, yields identical root hashes and values, and identical nodes too when nothing is deleted. Within one set the last write to a key wins.",
["inputs","histories"],"every update history and every way of grouping it into calls",
"Tests compare two call styles on small fixed sets.",
[T,C],[("two separate insertion algorithms",T+": batch_insert_at vs insert_at"),("frozen cache between versions of one call",C)],["batch_put_value_sets","put_value_sets","put_value_set"])
p("J10","Updates are pure, disjoint batches: MVCC isolation and atomic crash",
"Computing an update writes nothing to storage and is deterministic; the resulting batch only creates nodes under fresh keys belonging to the new version(s), so until it is applied, and whatever part of it has been applied when a crash interrupts, every earlier version still answers exactly as before. Re-applying the batch, or recomputing the same update after the crash, leads to the same roots and answers as an uninterrupted run, and several speculative updates computed from the same version do not influence each other. The batch's statistics equal the nodes and leaves it actually adds and retires.",
["histories","crash_points"],"every history, crash point inside a batch application and set of speculative forks",
"Tests always apply whole batches; no test stops in the middle or overlays a partial batch.",
[C,W,T],[("copy-on-write node keys (version, path)",N+": NodeKey"),("frozen cache",C)],["put_value_set(s) -> TreeUpdateBatch","NodeStats"])
p("J11","Storage faults and missing nodes surface as errors, never wrong answers",
"If the store fails a read or has lost nodes, every read, proof, iteration or update either returns the same correct answer as with a healthy store or an error; it never returns a wrong value, a false absence, a non-verifying proof, a truncated iteration presented as complete, or a panic (a version whose root is lost counts as never written, and a lost value is noticed by proof reads and iteration). A missing root is only reported when the root cannot be read. A failed call leaves nothing behind: once the store is healthy, the same call - for an iterator, the next step after a failed one - gives the correct result.",
["fault_sequences","histories"],"every injected read failure or lost node at every position of every operation",
"No existing test injects a storage fault into the tree.",
[T,I,C,RD],[("errors propagated from the reader",T)],["TreeReader fault injection","all read/write APIs"])
p("J12","Restoring from chunks reproduces the tree, across interruptions",
"Feeding the sorted live pairs of a version in arbitrary non-empty chunks, each with its range proof, and finishing, yields a stored tree at the restore version with the same root hash, contents, proofs, iteration and leaf counts as the source. If the process stops between chunks and a new restore is started on the same store, continuing after the last stored key completes to the same result.",
["inputs","histories","crash_points"],"every content set, chunking and set of interruption points",
"Tests interrupt at one random point with random-prefix keys.",
[R],[("partial nodes frozen left to right",R+": add_one, freeze"),("recovery from rightmost leaf",R+": recover_partial_nodes")],["JellyfishMerkleRestore","StateSnapshotReceiver"])
p("J13","Restore accepts only data proven against the expected root",
"A chunk that is altered, reordered, truncated, empty, out of order, skips keys, or comes with a wrong proof is refused with an error and writes nothing to the store. Finishing succeeds only if the restored tree has exactly the expected root hash: finishing early, with no data, against a different expected root, or after a refused chunk that left it incomplete, is refused with an error, as is restarting on a finished store, never a panic and never a stored root.",
["inputs","fault_sequences"],"every corruption of the chunk stream and every point at which finishing is attempted",
"Existing tests only restore honest streams to the end.",
[R,D],[("chunk verification before write",R+": add_chunk_impl, verify"),("finish",R+": finish_impl")],["add_chunk","finish","writes observed at the store"])
p("J14","Range proofs verify exactly the full set of keys up to a bound",
"For every live key, the range proof at a version together with all live pairs up to that key verifies against the version's root. Verification fails with an error, never a panic, if any pair is missing, added or altered, or if the proof or the supplied left side is altered in any way, whatever the number of siblings.",
["inputs"],"every tree, bound key and proof object (including attacker-built)",
"Tests use range proofs only inside restore with honest data.",
[T,D],[("right siblings of the bound",T+": get_range_proof"),("fold with left siblings",D+": SparseMerkleRangeProof::verify")],["get_range_proof","SparseMerkleRangeProof::verify"])
p("J15","Everything persisted or sent survives serialization",
"Every node, node key, update batch, stale index and proof the tree produces decodes from its binary and its self-describing serialized form to an equal value, and equal values encode equally. A tree whose store keeps only serialized bytes behaves identically in every query to one that keeps objects, and corrupted bytes decode to an error or some value, never a panic. The encodings are stable: bytes stored by an earlier build decode to the same values and are produced again.",
["inputs","histories"],"every object reachable by any history",
"Tests round-trip hand-made nodes only.",
[N,W,NP,D],[("borsh/serde derives and manual impls",N)],["borsh/serde/bincode/JSON encode+decode of public types"])
p("J16","Versioned store answers reflect the value history",
"The versioned store returns for (key, version) the newest value at or below that version, reports as size the number of keys whose latest entry is a value, as version the highest version written, and as empty exactly when that size is zero. Its histories list each key's entries in increasing version order; a write at a lower version than the key's last is refused and the last write at an equal version wins. The batches written to it behave as maps, and a leaf put under an occupied node key is refused.",
["inputs","histories"],"every sequence of writes and queries at any version (before first, between, after last)",
"Tests look at one or two short histories.",
[M,DB],[("ordered per-key history",M+": put_value"),("derived size and version",DB)],["MockTreeStore, VersionedDatabase, VersionedTrie::len/is_empty/version"])
p("J17","Shared store gives concurrent readers consistent snapshots",
"While one writer commits versions and a pruner purges versions no reader uses, concurrent readers at any version whose root is visible see exactly that version's complete contents, root and proofs; no read observes part of a batch, a value from another version, an error or a panic. A commit that has returned is visible to every read that starts later.",
["schedules","histories"],"every interleaving of a writer, readers and a pruner sharing the store",
"The existing tests are single-threaded.",
[M,T],[("reader-writer lock around the store",M),("copy-on-write versions",T)],["MockTreeStore shared across threads"])
p("J18","Updates write only what they change: structural sharing",
"The nodes an update writes for a version are only those on the paths of keys whose value that version set or removed, and neighbouring leaves that a split or a collapse moved; all other subtrees are shared with the version before. So the number of nodes written is bounded by the changed keys times the key length, whatever the size of the tree, and a version that changes nothing writes its root node only. The value entries it writes are exactly the last operation on each key of each set, deletions included.",
["inputs","histories"],"every history of write sets and every interface that commits them",
"Tests look at answers, which stay right when too much is rewritten, and count written nodes in one or two fixed histories.",
[T,C],[("unchanged subtrees kept by reference",T+": insert_at_internal_node, batch_insert_at"),("PutResult::NotChanged stops the rewrite",T)],["TreeUpdateBatch.node_batch nodes and values against the nodes read by lookups"])
p("J19","A call needs only what lies on its keys' paths",
"A lookup, proof or update of some keys, and reading the root hash or leaf count, depends only on the root of the version it reads, the nodes on the paths of those keys and leaves directly below these; exclusion proofs depend also on the paths of the two neighbouring live keys, and iteration on everything not entirely before its start. So when all other nodes of the store, and the values of all other keys, are lost or not there yet, these calls still succeed and give the same answers, proofs and updates as on the whole store.",
["inputs","histories"],"every history, every call, every loss outside what the call needs",
"Tests run on whole stores, where a call that reads too much gives the same answer.",
[T,C,N,I],[("paths followed by nibble",T+": get_with_proof, insert_at, delete_at"),("child lookups for siblings and collapses",N+": get_child_with_siblings"),("iterator start",I+": new")],["answers on stores that lost everything else"])
p("P01","Trie behaves as a map, whatever is pending or committed",
"After any sequence of inserts, removes, commits and reopenings at the committed root, lookup and membership of any key, including the empty key and keys that are prefixes of others, equal those of a plain map; remove reports true exactly when the key was present, and inserting an empty value is refused without changing anything. No operation on a healthy trie fails or panics, with archive and pruning storage alike.",
["inputs","histories","configurations"],"every operation history and key/value distribution",
"Tests use random equal-length keys or a few literals, rarely removals of absent keys mixed with commits.",
[PI,PN],[("insert_at/delete_at/degenerate",PI),("pruned keys on commit",PI+": commit")],["Trie::insert/get/contains/remove/commit","InnerTrie::at_root"])
p("P02","Root hash is the canonical Ethereum Patricia-Merkle root",
"The committed root hash equals the Ethereum Merkle-Patricia root (hex-prefix paths, RLP nodes, Keccak-256, nodes under 32 bytes embedded) of exactly the live pairs, so it depends only on contents and not on order, removals, intermediate commits or reopenings. The empty trie has the standard empty root.",
["inputs","histories"],"every live set and every history producing it",
"Tests check a few fixed vectors; history independence quantifies over all histories.",
[PI,PN,"pmt/src/node.rs"],[("node encoding",PI+": encode_raw, write_node"),("normalisation after deletion",PI+": degenerate")],["commit","root_hash"])
p("P03","Committed roots stay readable",
"With archive storage every root ever committed, and every root committed on a branch forked from an older root or by another thread's trie on the same database, can be reopened and gives exactly the contents at its commit, for lookups, iteration and proofs. With pruning storage the latest committed root can always be reopened with exactly its contents.",
["histories","configurations"],"every history of operations, commits, forks and reopenings, with values distinct between keys for pruning storage",
"Tests reopen at most one root after simple insertions.",
[PI,PD],[("passing/generated key sets decide removals",PI+": commit")],["InnerTrie::at_root","commit"])
p("P04","Every key has a verifying Merkle proof",
"For every trie state, committed or with pending changes, whose root hash is then computed, and every key, present or absent, including on the empty trie, the generated proof verifies against that root hash and yields exactly the live value or absence. The proof alone is enough: it verifies on any other trie instance and under an independent implementation of the trie rules.",
["inputs","histories"],"every trie content (including tiny nodes embedded in parents) and query key",
"Tests prove a few keys in committed tries.",
[PI],[("path collection",PI+": get_proof, get_path_at"),("verification over a proof-only store",PI+": verify_proof")],["get_proof","verify_proof"])
p("P05","No forged or malformed trie proof is accepted or crashes",
"Verifying a proof against a root hash returns a value or absence only if it is what the trie with that root holds for the key; dropped, altered, reordered-with-alterations, foreign or arbitrary attacker-built proof nodes, however malformed or nested, yield an error and never a panic or crash.",
["inputs"],"every attacker-supplied list of byte strings, root and key",
"Tests alter one proof in one way; malformed node encodings are never tried.",
[PI,PN],[("hash-keyed proof store",PI+": verify_proof"),("node decoding",PI+": decode_node, "+PN+": from_compact")],["verify_proof","at_root over a hostile Database"])
p("P06","Trie iteration is exact and ordered",
"Iterating a trie, by reference or by ownership, with pending changes or freshly reopened, yields every live pair exactly once with its full key in increasing key order and then ends. The collected values are the same list.",
["inputs","histories"],"every trie content including the empty key and keys that are prefixes of others",
"Tests iterate one small trie of similar keys.",
[PT,PI],[("explicit traversal stack",PT)],["InnerTrie::iter","OwnedTrieIterator","InnerTrie::values"])
p("P07","Lost nodes and database errors surface as errors and change nothing",
"If the database fails or has lost nodes, lookups, membership tests, proofs, value listings, inserts, removes and commits either give the correct answer or an error, never a wrong answer, a false absence, a partial listing or a panic, and an iterator, which has no way to report errors, yields only live pairs in key order. An operation that returned an error leaves the trie's contents unchanged and usable: after the database recovers, retrying succeeds and later commits neither lose nor prune live data.",
["fault_sequences","histories"],"every injected failure or missing node at every database call of every operation, with values distinct between keys for pruning storage",
"Two tests remove one node; none injects database errors or continues after them.",
[PI,PD],[("errors mapped and propagated",PI),("clone-then-replace root",PI+": insert, remove")],["Database fault injection"])
p("P08","A crash during commit never loses the old or the new state",
"If the process stops after any prefix of the database writes of a commit, then the previous root (as long as no removal was issued) or the new root (once all insertions were issued) is still completely readable from what was written, with exactly its contents, and redoing the lost operations from the readable root reaches the same final root.",
["crash_points","histories"],"every commit of every history and every database operation at which it stops, with values distinct between keys for pruning storage",
"No test interrupts a commit.",
[PI],[("insert new nodes before removing old",PI+": commit")],["Database operation log replayed to every prefix"])
p("P09","In-memory trie database is linearizable and never panics",
"Concurrent gets, inserts, removes, batch operations and size, emptiness and listing queries on one shared in-memory database behave as if executed one at a time between their call and return (a batch as its individual writes), and none of them panics or silently returns incomplete results. Removal only takes effect in pruning mode.",
["schedules"],"every interleaving of concurrent callers",
"Tests use one thread or only reads.",
[PD],[("reader-writer lock",PD+": MemoryDB")],["MemoryDB via Database trait"])
p("P10","Pruning storage keeps no superseded nodes",
"With pruning storage and values distinct between keys, after each commit the database holds every node of the committed trie and, apart from at most one former root node per commit, no node that is not part of it: storage does not grow with the number of overwritten or removed entries. A commit that the database made fail, once repeated, leaves no more than one that succeeded at once.",
["histories"],"every history of operations and commits from an initially empty pruning database",
"No test inspects what remains in the database after removals.",
[PI,PD],[("passing keys removed on commit",PI+": commit")],["database contents after commit"])
p("P11","A trie snapshot survives serialization",
"Serializing a trie that has never been committed, in binary form or in JSON within that format's nesting limit, and deserializing it gives a trie with the same contents that commits to the same root hash and accepts further operations like the original.",
["inputs","histories"],"every uncommitted trie content",
"No test deserializes a trie.",
[PI,"pmt/src/node.rs",PN],[("serde derives with hex-encoded bytes",PN)],["serde_json / bincode of InnerTrie"])
p("P12","Only commits write, and only nodes on the paths of changed keys",
"Lookups, inserts, removes, iteration, reopening and the proofs of committed states never write to the database; only a commit does. Every entry it writes is a node of the new trie under the hash of its contents, and lies on the path of a key touched since the trie was opened or last committed, or beside it where an insertion split or a removal merged nodes: subtrees without touched keys are shared with the previous root and not written again. A commit that has nothing to write changes no contents.",
["inputs","histories"],"every history of operations, commits and reopenings, on archive and pruning storage",
"Tests never look at the writes a trie issues.",
[PI,PD],[("hash references kept for unchanged subtrees",PI+": write_node, Node::Hash"),("generated key set",PI+": commit")],["Database operation log per step"])
p("P13","Missing-node errors name what to fetch, and damage stays local",
"When nodes of a trie are lost, a call that needs none of them is not affected: lookups, proofs and inserts need only nodes on the path of their key, removals also the node beside it that is merged when a branch is left with one child, commits none, listing all values every one. A call that needs a lost node fails with a missing-node error that names the hash of a lost node the call needs, its key if it had one to name, the root the trie stands on and, where given, the place of the node. Supplying just that node and repeating the call, as often as needed, completes it with the right answer or effect, and the trie goes on correctly.",
["inputs","histories","configurations"],"every history, set of lost nodes and call, on archive and pruning storage, with and without pending changes",
"Tests remove one or two nodes and match on the kind of the error only.",
[PI,"pmt/src/error.rs"],[("MissingTrieNode fields",PI+": get_at, get_path_at, insert_at, delete_at, degenerate"),("recover_from_db",PI)],["TrieError::MissingTrieNode","Trie calls repeated after supplying the named node"])
p("S01","Hash types, versions and Keccak-256 are faithful",
"The hash function equals Keccak-256 on every input length, and the 32-byte hash types of both trees and version numbers round-trip through every conversion they offer (serde formats, byte slices, hex text) without loss, so equal ones stay equal and different ones stay different.",
["inputs"],"every input length around block boundaries and every hash value",
"There are no tests for the hash crate.",
["serde_hash/src/lib.rs","jmt/src/lib.rs","jmt/src/types.rs"],[("write_keccak wrapper and derive",  "serde_hash/src/lib.rs")],["keccak","H256 serde"])
p("U01","No undefined behaviour or data races",
"Running any workload over the tree, the trie, restore and the stores, single- or multi-threaded, performs no undefined behaviour: no invalid or dangling memory access, no data race, no misuse of thread-sharing guarantees, no leak of the shared store.",
["inputs","schedules"],"every workload, with emphasis on the code that uses unsafe blocks or shares state between threads",
"The tests run without any sanitizer; absence of a crash says nothing about undefined behaviour.",
[R,DB,M,PD],[("unsafe pointer reborrow of the store",R+": new"),("manual Send/Sync",DB)],["Miri and sanitizer reports on harness workloads"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

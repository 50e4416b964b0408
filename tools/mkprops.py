import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,obs,state=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p("C01","Merkle indexes form an exact binary-tree algebra",
 "Generalized merkle indexes behave exactly as node addresses of an infinite binary tree: left/right/parent are inverse to each other, the selection route of an index is precisely the left/right path from the root to it (per-depth lookup agrees with the route and yields nothing outside it), and composing an index below another concatenates their routes. Constructing an index from (position, depth) addresses the position-th node from the left on that depth, from one-based and zero-based numbers the corresponding node in breadth-first order (zero is not a one-based index). An index has another as descendant exactly when its route is a proper prefix of the other's route.",
 ["inputs"],"Every index that fits a machine word, every pair of indexes, every (position, depth) with position < 2^depth and depth below the word size.",
 "Unit tests look at six fixed routes and a few descendant pairs out of 2^64 indexes; the algebraic laws quantify over all indexes and pairs.",
 ["src/index.rs"],[("Index::{left,right,parent,sub,from_depth,from_one,from_zero,route,has_descendant}","src/index.rs"),("IndexRoute::at_depth","src/index.rs")],
 ["bm::Index, bm::IndexRoute public API"])
p("C02","Raw reads return exactly the node at the index",
 "Reading a raw merkle tree at an index returns the value reached by following that index's left/right path from the tree's root through the stored (left,right) pairs, and returns none (not an error, not another value) exactly when a node needed on the way is unknown to the backend. A subtree handle taken at an index has exactly that value as its root and fails when it is absent, and the root index always reads the root itself. Reads change neither the tree nor what the backend stores, and backend errors are passed on.",
 ["inputs","histories"],"All roots, all indexes, all contents of the backend, all backends honouring the read contract.",
 "Tests read a few dozen shallow indexes in one backend after writes; the path semantics quantify over arbitrary store contents including missing nodes and shared subtrees.",
 ["src/raw.rs","src/index.rs","src/traits.rs"],[("Raw::get","src/raw.rs"),("Raw::subtree","src/raw.rs")],["Raw::get / Raw::subtree results"],[("root","current root value of the tree","src/raw.rs Raw.root")])
p("C03","Raw writes update exactly one position and rehash the path",
 "After writing a value at an index of a raw merkle tree, reading that index returns the value, every index that is neither an ancestor nor a descendant of it reads what it read before, and the new root is obtained by re-hashing the pairs along the path with the construct's hash, taking default values for the siblings of nodes the backend did not know. Other trees that share nodes with it and are kept alive keep reading the same values. A write never loses nodes needed to read back the updated tree.",
 ["inputs","histories"],"All trees, indexes, values and stores, all backends honouring the contract (including a garbage-collecting one while the other trees are owned).",
 "Tests write depth-5 leaves in order and reverse; they never check the frame over arbitrary positions, unknown siblings, interior values or trees sharing nodes.",
 ["src/raw.rs","src/memory.rs"],[("Raw::set","src/raw.rs"),("WriteBackend::insert","src/memory.rs")],["Raw::set then Raw::get / Tree::root"])
p("C04","Owned trees hold exactly one root reference, dangling trees none",
 "Every operation on an owned tree keeps exactly one root reference registered with the backend, for its current root: a write registers the new root before releasing the old one, creating a tree registers its root, dropping an owned tree releases exactly one reference. Operations on dangling trees and subtree handles never register or release references. Leaking a tree and restoring it from its metadata changes no reference and reproduces the same tree (root, length, limits).",
 ["histories","inputs"],"All operation sequences over raw trees, vectors, packed vectors, lists and their leak/restore, for owned and dangling status, and any backend.",
 "Tests only look at final map sizes of two histories; the reference balance must hold for every history of creates, writes, growth, shrinkage and drops on both ownership kinds.",
 ["src/raw.rs","src/vector.rs","src/length.rs","src/list.rs","src/packed.rs","src/traits.rs"],[("Raw::set/drop","src/raw.rs"),("Vector::extend/shrink/create/drop","src/vector.rs"),("LengthMixed::create/drop","src/length.rs"),("Leak impls","src/*.rs")],["sequence of WriteBackend::rootify/unrootify calls seen by a backend"])
p("C05","In-memory backend never loses live nodes and reclaims dead ones",
 "The in-memory backend keeps, under every sequence of insert, rootify and unrootify that is balanced, every node reachable from a registered root (with unchanged children), however many trees share it. When the last reference to a node from roots and stored parents is released, the node and everything only reachable through it is removed, so that dropping all owned raw trees and vectors leaves the store as it was before they were created. The default (empty) value and nodes loaded from proofs are never removed.",
 ["histories"],"All balanced sequences of backend operations over arbitrarily shared DAGs, populated or not, with any interleaving of several trees.",
 "Tests compare the number of entries after two linear histories; sharing, diamonds, re-insertion, opaque values that later become interior nodes, and proofs loaded before or after are never exercised.",
 ["src/memory.rs"],[("InMemoryBackend::{insert,rootify,unrootify,remove,populate,get}","src/memory.rs")],["InMemoryBackend::as_ref map, reads of live trees"],[("reference count","number of stored parents' slots plus registered roots; absent for pinned entries","src/memory.rs InMemoryBackend.0")])
p("C06","Vectors behave as bounded sequences",
 "A merkle vector behaves as a sequence: reading a position returns the value last written or pushed there, a write changes only its position, a push appends and a pop removes and returns the last element (none when empty), and the length follows. Reading or writing at or beyond the length and pushing beyond the maximum length fail with an access-overflow error and leave the vector unchanged; creating with a length above the maximum (or a zero maximum) is rejected as an invalid parameter and any length up to the maximum is accepted. A vector created with a positive length over an inherited-empty construct reads default values.",
 ["histories","inputs"],"All histories of create/get/set/push/pop, all lengths and maxima that an index can address, with and without maximum, both ownership kinds and both empty constructs (vectors grown from empty for the unit construct).",
 "Tests push and pop 100 elements in order without a maximum; interleavings with writes, growth and shrink boundaries, maxima and error paths are unsampled.",
 ["src/vector.rs","src/raw.rs","src/index.rs"],[("Vector::{create,get,set,push,pop,extend,shrink,depth,current_max_len}","src/vector.rs")],["Vector public API results"])
p("C07","Vector root is a function of contents only",
 "The root of a merkle vector depends only on its elements, its length class and its maximum length, never on the history that produced it: it equals the bottom-up merkleization of the elements, padded with empty subtrees to the next power of two of the length (or of the maximum length when there is one). Two vectors with equal elements and maximum have equal roots, whatever pushes, pops and writes led there, and the same root is computed by the one-shot tree builder.",
 ["histories","inputs"],"All histories of create/set/push/pop and all element values, with and without maximum, both empty constructs (inherited: padding with hashed empties; unit: padding with default values).",
 "The push/pop test compares roots along one monotone history; arbitrary interleavings and set-after-pop histories need an invariant, not samples.",
 ["src/vector.rs","src/utils.rs","src/memory.rs"],[("Vector::pop empty replacement","src/vector.rs"),("Vector::extend/shrink","src/vector.rs"),("vector_tree","src/utils.rs")],["Tree::root of vectors"])
p("C08","Lists commit to contents and length and survive reconstruction",
 "A merkle list's root is the hash of its item tree's root and its length value, after every operation; list get/set/push/pop behave as on a sequence with the same overflow errors as vectors, and failed operations leave root and contents unchanged. Deconstructing a list to its root and reconstructing it from the root with the same maximum gives a list with the same length and elements that continues to behave identically. Reconstruction from a root whose stored length exceeds the maximum, or whose nodes are unknown, is an error.",
 ["histories","inputs"],"All histories of create/push/pop/set/get/deconstruct/reconstruct on plain and packed lists, with and without maximum.",
 "One test reconstructs a 100-element list; the commitment to the length must hold after every operation of every history.",
 ["src/length.rs","src/list.rs","src/packed.rs"],[("LengthMixed::{with_mut,create,reconstruct,deconstruct}","src/length.rs"),("List ops","src/list.rs"),("PackedList ops","src/packed.rs")],["List public API, roots"])
p("C09","Packed vectors lay values out contiguously and lose none",
 "A packed vector stores its values' bytes contiguously in order across fixed-size host chunks, so value i occupies bytes i*V..(i+1)*V of the concatenated chunks, for every value size below, equal to or above the chunk size, aligned or not. Get, set, push and pop affect exactly those bytes (bytes past the last value are zero), so all other values survive, pop returns what was pushed, and the root equals that of the plain vector of zero-padded chunks. Positions at or beyond the length and pushes beyond the maximum fail with an access-overflow error.",
 ["histories","inputs"],"All host/value size combinations, all lengths and positions, all operation histories, with and without maximum.",
 "Tests use one size combination (value twice the chunk); chunk sharing, unaligned spans and interleaved pops are unsampled.",
 ["src/packed.rs","src/utils.rs"],[("coverings","src/packed.rs"),("PackedVector::{get,set,push,pop}","src/packed.rs"),("host_len/host_max_len","src/utils.rs")],["PackedVector public API, root"])
p("C10","One-shot tree builder merkleizes and stores every node",
 "Building a tree from a slice of values with an optional maximum returns the merkle root of the values padded with empty subtrees to the smallest power of two that holds the maximum (or the number of values), independent of how many values are absent, and stores every interior node, so that each value is readable at its position and each padding position reads as empty. The depth used is the least d with 2^d at least the length, the number of host chunks is the ceiling of the byte length over the chunk size, and more values than the maximum are rejected.",
 ["inputs"],"All value slices and maxima an index can address, both empty constructs and all backends.",
 "Only exercised indirectly by encoding tests with small sizes; correctness of padding at every level for every count/maximum combination is an induction.",
 ["src/utils.rs","src/memory.rs"],[("vector_tree","src/utils.rs"),("required_depth","src/utils.rs"),("host_max_len/host_len","src/utils.rs"),("InheritedDigestConstruct::empty_at","src/memory.rs")],["bm::utils public functions"])
p("C11","Basic values encode little-endian and decode to themselves",
 "Every basic value (bool, unsigned integers of 8 to 128 bits, 256-bit integers, 256- and 512-bit hashes, the unit type) encodes to the 32-byte little-endian zero-padded chunk of ssz (512-bit hashes to the hash of two chunks), and decoding returns exactly the value encoded; distinct values of one type have distinct encodings. Sequence lengths convert to and from end values without loss. A tree value is encoded as itself.",
 ["inputs"],"All values of each basic type (up to 2^512).",
 "The spec test encodes a few handfuls of constants; losing a byte or swapping endianness at one width or one bit position is not sampled.",
 ["le/src/basic.rs","le/src/fixed.rs","le/src/lib.rs"],[("impl_builtin_uint!","le/src/basic.rs"),("U256/bool/Value impls","le/src/basic.rs"),("H256/H512 impls","le/src/fixed.rs"),("From<usize>/Into<usize> for Value","le/src/lib.rs")],["IntoTree/FromTree of basic types"])
p("C12","Composite values round-trip and have the ssz root",
 "For every supported composite type (tuples, arrays, fixed and variable vectors in composite and compact form, bit vectors and bit lists, maximum-length lists, options, boxes, derived structs and enums) decoding the tree written by encoding gives back an equal value, and the root equals the ssz merkleization: element roots or packed little-endian bytes padded to the limit, with the length mixed in for lists and the selector mixed in for options and enums. Fields and elements keep their order, and the limit (not the current length) determines the padding of limited lists.",
 ["inputs"],"All values of all supported type shapes, all lengths and limits.",
 "The tests check 14 specific values; length/limit/chunk-boundary combinations, multi-chunk packing and nesting are unsampled.",
 ["le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/fixed.rs","le/src/variable.rs","le/src/basic.rs","le/src/utils.rs","le/derive/src/lib.rs"],[("into/from_compact_vector_tree","le/src/elemental_fixed.rs"),("into/from_composite_vector_tree","le/src/elemental_fixed.rs"),("list trees","le/src/elemental_variable.rs"),("mix_in_length/mix_in_type and decoders","le/src/utils.rs"),("impl_tuple!","le/src/fixed.rs"),("derive macros","le/derive/src/lib.rs")],["IntoTree/FromTree/tree_root of composite types"])
p("C13","Proving backend is transparent and its proofs are complete",
 "Running operations through the proving backend gives the same results, roots and underlying store as running them directly. The proofs it collects contain only true (key, children) pairs of nodes that existed before the recorded operations wrote them, including every such node read, so an empty in-memory backend populated with the proofs replays the same operations on that tree from the same root with the same results and the same final root. Proving state taken out and put back continues recording without loss.",
 ["histories","inputs"],"All operation histories on raw trees, vectors and lists over all initial trees, with the recording interrupted and resumed at any point.",
 "One test proves two reads of one list; it never writes while proving, resumes a state, or re-reads freshly inserted nodes.",
 ["src/proving.rs","src/memory.rs"],[("ProvingBackend::{get,insert,rootify,unrootify}","src/proving.rs"),("InMemoryBackend::populate","src/memory.rs")],["ProvingBackend results, Proofs map, replay"],[("inserts","keys written during recording","src/proving.rs ProvingState.inserts"),("proofs","pairs read that were not written during recording","src/proving.rs ProvingState.proofs")])
p("C14","Compact proofs are equivalent to full proofs",
 "Compacting proofs from a root and expanding them again yields the same root and exactly the proof entries reachable from that root; the compact form's root is its hash fold and its length its number of leaves. A plain branch (leaf, siblings from bottom to top, index) converts to the compact proof whose root is the branch's merkle root and which places the leaf at the index, and converts only when the number of siblings equals the depth of the index. Encoding a compact value into a backend writes all its interior nodes and returns its root.",
 ["inputs"],"All finite proof maps (acyclic hashes), all compact trees, all branches and indexes.",
 "One round trip of one list proof; wrong orientation at some depth, missing or surplus siblings and unbalanced shapes are unsampled.",
 ["src/proving.rs","le/src/basic.rs"],[("Proofs::into_compact/from_compact","src/proving.rs"),("CompactValue::{len,fold,root,from_plain}","src/proving.rs"),("IntoTree for CompactValue","le/src/basic.rs")],["Proofs/CompactValue public API"])
p("C15","Roots do not depend on the backend and encoding writes all nodes",
 "The root of a value's tree is the same computed over the discarding backend, the in-memory backend, a proving backend or an error-stripping backend, whatever the backend already stores. Encoding through a storing backend leaves every interior node under that root readable, and encoding never reads the backend. An error of the backend during encoding, decoding or a tree operation is reported, never swallowed.",
 ["inputs","fault_sequences","configurations"],"All encodable values, all backends and their prior contents, and every point at which a backend call can fail.",
 "Tests compute roots over one backend; failing backend calls are never injected and stored nodes are never enumerated.",
 ["le/src/lib.rs","src/memory.rs","src/traits.rs","src/utils.rs"],[("tree_root","le/src/lib.rs"),("NoopBackend","src/memory.rs"),("DynBackend","src/traits.rs"),("IntoTree impls","le/src/*.rs")],["IntoTree result over several backends, backend contents afterwards"])
p("C16","Partial access reads and writes only the addressed field",
 "A partial value bound to a field path (struct fields, vector items, list items, nested) reads exactly the field of the value the tree encodes, and flushing set or pushed values yields the root of the value with exactly those fields changed and elements appended, all other fields untouched. Flushing without changes changes nothing, a flushed value is not written twice, and positions beyond a list's length are rejected.",
 ["inputs","histories"],"All derived structs, nesting depths, list lengths and positions, and all sequences of get/set/push/flush.",
 "One test sets two fields of one nested struct; lists, pushes, positions and other fields' integrity are not covered.",
 ["le/src/partial.rs","le/derive/src/lib.rs"],[("PartialIndex::resolve","le/src/partial.rs"),("PartialValue::{get,fetch,set,flush}","le/src/partial.rs"),("PartialVec::{at,push,flush}","le/src/partial.rs"),("Partialable derive","le/derive/src/lib.rs")],["PartialItem API then FromTree of the raw root"])
p("C17","Malformed trees are rejected, not misread",
 "Decoding a tree that does not encode a value of the requested type never yields a made-up value where the format can tell: unknown enum or option selectors, non-empty unit payloads, list lengths above the limit or above what an index can address, and trees with missing nodes all give a corrupted-database error. Decoding never panics on any stored tree. Decoding reads but never writes the backend.",
 ["inputs"],"All target types and all trees and roots, including partially known and adversarial ones.",
 "No test decodes a malformed tree.",
 ["le/src/utils.rs","le/src/basic.rs","le/src/fixed.rs","le/src/elemental_variable.rs","le/derive/src/lib.rs","src/list.rs","src/length.rs"],[("decode_with_type/decode_with_length","le/src/utils.rs"),("from_list_tree","le/src/elemental_variable.rs"),("FromTree for ()/Option","le/src/fixed.rs, le/src/basic.rs"),("derived FromTree","le/derive/src/lib.rs")],["FromTree results on malformed trees"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))

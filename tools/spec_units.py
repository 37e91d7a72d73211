UI = 'abstract interpretation of the compiled MIR of single bodies (nightly rustc driver): symbolic values per path, iteration overlays of loops; '
UTRUST = ('Covers every path of the analysed bodies in the feature sets listed in the evidence. Trusts rustc\'s MIR, the hand-written models of std and collection calls, and the external crates (storage engine, serialisers, hash functions) to do what they document. '
          'Constructs the analysis cannot follow are left undecided and counted in the evidence; they never raise an alarm.')
for p_ in P:
    if p_['id'] == 'C16':
        p_['tech'] += '; effect census over the call sites and statics of the whole library'

prop('C13', 'Backends return what was last written and write only what was queued',
     'For every bundled storage backend: queuing a node makes exactly that node readable under exactly that address no later than the next flush, a flush writes every queued node and empties the queue, removing an address makes exactly that address unreadable, and a read returns the record stored under exactly the address asked, or nothing when there is none. '
     'A failure of the storage engine is returned as an error.',
     ['histories', 'fault_sequences'], 'every sequence of insertions, flushes, reads and removals; every key; every engine failure',
     'Tests drive the backends through small trees and never make the storage engine fail; most feature sets are not built by the test run.',
     ['src/tree_db/hashmap.rs', 'src/tree_db/hashbrown.rs', 'src/tree_db/rocksdb.rs'],
     [('in-memory stores', 'src/tree_db/hashmap.rs, src/tree_db/hashbrown.rs: insert, get_node, remove, batch_write'), ('RocksDB store', 'src/tree_db/rocksdb.rs: insert, get_node, remove, batch_write')],
     tech=UI + 'effects on the map, the write batch and the engine compared with the contract of the storage trait', note=UTRUST)
prop('C14', 'Stored nodes and values survive encoding and decoding unchanged',
     'For every serializer feature, encoding a node, branch, leaf, data record, key array or supported value and decoding the bytes again gives an equal one: every field is written and read back into the same field, node kinds keep their tag, and fixed-size arrays keep every byte at its position. A malformed input gives an error, never a default.',
     ['inputs'], 'every node content, every array width and every value, for each of the six serializers',
     'Tests round-trip small sample trees with 32-byte keys; field mix-ups between equal-typed or usually-equal fields, and extreme counts, lengths and widths, stay unseen.',
     ['src/tree', 'src/traits.rs', 'src/lib.rs'],
     [('codecs', 'src/tree/*.rs and src/traits.rs: Encode and Decode implementations'), ('fixed-size arrays', 'src/lib.rs: Array Serialize and Deserialize')],
     tech=UI + 'encoder and decoder terms paired field by field', note=UTRUST)
prop('C15', 'Every bundled hasher hashes all its input and keeps the whole digest',
     'For every bundled hasher, each update feeds exactly the given bytes, once, to the underlying hash function, a new hasher starts from the fresh state, and finalizing fills the result with as much of the digest as fits, in order. No input byte is dropped, repeated or altered, and no digest byte that fits is left out.',
     ['inputs'], 'every input length and content, every digest width, every hasher feature',
     'Tests compare roots produced by the same hasher with each other; a hasher that ignores part of long inputs or part of the digest still gives consistent roots.',
     ['src/tree_hasher', 'src/traits.rs'],
     [('hashers', 'src/tree_hasher/*.rs: new, update, finalize'), ('digest adapter', 'src/traits.rs: impl Hasher for Digest')],
     tech=UI + 'argument and result flow into and out of the underlying hash function', note=UTRUST)
prop('C17', 'Trees can be shared and moved between threads without hidden state',
     'Trees, stores, nodes and errors can be moved to another thread, and trees over the in-memory store can be read from several threads at once through a shared reference. No type of the library hides mutable state behind a shared reference, there is no global mutable state and no unsafe code.',
     ['schedules'], 'every schedule of concurrent readers and every transfer between threads',
     'The tests are single-threaded; a lost thread-safety guarantee breaks user code at compile time, and hidden shared state only shows under particular interleavings.',
     ['src/lib.rs', 'src/merkle_bit.rs', 'src/hash_tree.rs', 'src/rocks_tree.rs', 'src/tree', 'src/tree_db'],
     [('types', 'src/merkle_bit.rs, src/hash_tree.rs, src/rocks_tree.rs, src/tree/*.rs, src/tree_db/*.rs')],
     tech='compile-time witnesses: a generated crate that only type-checks when the types are Send and Sync; census of the fields of all types, statics and unsafe impls in the type-checked program',
     note='Proved by the type checker for the generic code and the bundled types in the feature sets listed in the evidence; trusts the thread-safety declarations of the external crates.')
prop('C20', 'The tree front ends pass every call through unchanged',
     'Each operation of the in-memory tree and of the RocksDB tree performs exactly the corresponding operation of the core tree with the caller\'s own arguments in the same roles, and returns its result, including its errors, unchanged. A front end adds no shortcut, filter, default or extra write, and opening with a depth limit gives the core tree that limit.',
     ['inputs'], 'every argument, every result and every error of every operation',
     'Tests of the front ends use ordinary arguments; a shortcut taken only for particular arguments, or an error replaced by a default, needs inputs they do not try.',
     ['src/hash_tree.rs', 'src/rocks_tree.rs'],
     [('in-memory tree', 'src/hash_tree.rs'), ('RocksDB tree', 'src/rocks_tree.rs')],
     tech=UI + 'delegation compared argument by argument with the core operation', note=UTRUST)
prop('C21', 'Splits follow the first differing bit, bit by bit and without gaps',
     'A split position counts bits from the most significant bit of the first byte. The bit test answers for exactly the addressed bit, the divergence of two keys is the position of their first differing bit, splitting a sorted key list at a position puts exactly the keys with a zero bit into the first half and all the others into the second, and neighbouring keys are joined at their first differing bit. '
     'A stored subtree is descended into only by keys that agree with its key on every bit between the parent\'s and its own split position.',
     ['inputs'], 'every key, every bit position, every key width, every pair of neighbouring keys',
     'A bit arithmetic slip shows only for particular bit positions and byte patterns (bit 7 of a byte, long common prefixes, a difference in the last byte), which tests with few or random keys do not reach.',
     [TU, MB], [('bit addressing', TU + ': choose_zero, fast_log_2, split_pairs, check_descendants, calc_min_split_index, generate_tree_ref_queue')],
     tech=UI + 'known-bits evaluation of the bit arithmetic for every residue of a position and every highest differing bit', note=UTRUST)

prop('C22', 'Node records return exactly what was put into them',
     'For the bundled branch, leaf, data and node records: a getter returns what the last setter stored, each setter changes only its own field, decomposing gives the fields in the documented order, wrapping a record in a node keeps it and its kind, and a copy equals its original. The fixed-size key type behaves as the byte array it holds: same bytes, same order, same equality.',
     ['inputs', 'histories'], 'every field value, including extreme counts and positions, every order of setters and getters',
     'Most accessors are exercised only through small trees where several fields hold equal or small values.',
     ['src/tree', 'src/traits.rs', 'src/lib.rs'],
     [('records', 'src/tree/tree_branch.rs, src/tree/tree_leaf.rs, src/tree/tree_data.rs, src/tree/tree_node.rs'), ('key type', 'src/lib.rs: Array')],
     tech=UI + 'setter and getter terms compared field by field', note=UTRUST)

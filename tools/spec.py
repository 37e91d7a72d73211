#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MB, TU = 'src/merkle_bit.rs', 'src/utils/tree_utils.rs'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, claim=True, reason=None, tech=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claim=claim, reason=reason, tech=tech, note=note, state=state))


AI = 'abstract interpretation of the compiled MIR (nightly rustc driver): symbolic values, typestate and ghost ledgers per path, loop summaries; '
TRUST = ('Covers every path of the analysed bodies (loops by fixpoint), for the generic code, so for every key width, backend, hasher and codec that honours its trait. '
         'Trusts rustc\'s MIR, the hand-written models of the std/collection calls, and, at the trait boundary, that backends, hashers, codecs and node records behave as documented (the in-tree ones are decided by C13, C14, C15 and C22). '
         'Constructs the analysis cannot follow are left undecided and counted in the evidence; they never raise an alarm.')

prop('C01', 'Node addresses are hashes that commit to kind and full content',
     'Every node an insertion stores is stored under the hash of its own content: a data node under the hash of the data tag, its key and its encoded value, a leaf under the hash of the leaf tag, its key and its data address, a branch under the hash of the branch tag and then its zero and one child addresses, in that order. '
     'The three tags differ, so no two kinds of node can share a message. Proof generation and proof verification hash exactly the same messages as insertion.',
     ['inputs', 'histories'], 'every key, value, key width, hasher and prior store content; every node any insertion writes',
     'Tests compare a handful of roots produced by the same code, so a change of message applied consistently, or only in one of the places that hash, goes unseen; committing to content is a statement about all inputs.',
     [MB], [('data, leaf and branch hashing', MB + ': insert_leaves, merge_nodes'), ('proof hashing', MB + ': generate_inclusion_proof, verify_inclusion_proof')],
     tech=AI + 'hash transcripts compared with the stored record', note=TRUST)
prop('C02', 'A stored node is never altered except for its reference count',
     'Once a node is stored under an address, every later write to that address keeps everything but its reference count as it was. Nodes are deleted only by removing a root. Earlier roots therefore keep answering as they did after any number of later insertions.',
     ['histories'], 'every history of insertions and removals over shared stores',
     'Needs multi-version histories in which a later insertion rewrites a shared node in a particular position; tests sample a few.',
     [MB], [('reference bumps and rewrites', MB + ': traverse_tree, split_nodes, insert_leaf, insert_leaves, merge_nodes, release, remove')],
     tech=AI + 'rewritten record compared with the record read from the same address', note=TRUST)
prop('C03', 'Every link to a node is counted exactly once',
     'Whenever an insertion makes a new parent or root refer to a node, that node\'s reference count goes up by exactly one: a node already stored keeps its count plus one, a new node starts at one. A count is never reset, skipped or raised twice for one link, so the count of a node always equals the number of stored parents and live roots that refer to it.',
     ['histories', 'inputs'], 'every history of insertions, including re-insertion of existing keys, values and whole subtrees',
     'A wrong count shows only after a later removal deletes too much or too little in a store shared by several roots; that takes a specific multi-step history.',
     [MB], [('counting of leaves, data and branches', MB + ': insert_leaves, insert_leaf, split_nodes, traverse_tree, merge_nodes, release')],
     tech=AI + 'per-path reference ledger', note=TRUST)
prop('C04', 'Removing a root releases exactly what that root held',
     'Removing a root lowers the count of the root node by one; a node whose count reaches zero is deleted and only then are the nodes it refers to (both children of a branch, the data of a leaf) lowered in turn, each exactly once. A node that still has references is kept, with its content and with its children untouched. Nothing else in the store changes.',
     ['histories'], 'every root, every sharing between versions, every order of removals',
     'What must survive or disappear depends on how versions share nodes; tests remove from a few small trees.',
     [MB], [('removal walk', MB + ': remove')], tech=AI + 'per-path typestate of the removal loop', note=TRUST)
prop('C05', 'Reading operations never change the store',
     'Lookups (single and batch), proof generation and proof verification never write to, delete from or flush the store, on any path, successful or not.',
     ['inputs', 'histories'], 'every root, key set, store content and failure',
     'Absence of an effect on every path cannot be shown by running some of them.', [MB],
     [('read paths', MB + ': get, get_one, generate_inclusion_proof, verify_inclusion_proof')], tech=AI + 'effect analysis of the read operations', note=TRUST)
prop('C06', 'Success is reported only after all writes are flushed',
     'When an insertion or a removal reports success, every node write and deletion it made has been flushed to the backend after it was issued; there is no path to a successful return with a write still pending.',
     ['crash_points', 'inputs'], 'every path to a successful return, every shape of tree, every batching backend',
     'The in-memory backend ignores the flush, so tests over it cannot see a missing one; only particular tree shapes take the paths concerned.', [MB],
     [('flushes', MB + ': create_tree, merge_nodes, remove')], tech=AI + 'pending-write typestate', note=TRUST)
prop('C07', 'No storage, codec or conversion failure is swallowed',
     'If a backend read, write, delete or flush, a value encoding or decoding, or a key computation fails during an operation, that operation returns an error; it never reports success or a missing value instead.',
     ['fault_sequences'], 'a failure of any single call at any point of any operation',
     'The in-tree backends of the tests never fail, so no test exercises an error path.', [MB, TU],
     [('error propagation', MB + ': every operation')], tech=AI + 'fallible-call outcome tracked to the return value', note=TRUST)
prop('C08', 'A proof is accepted only if it hashes from key and value to the root',
     'Verification succeeds only when the proof has at least two entries, its first is the data hash of the given key and value, its second the leaf hash of the key over that data hash, and folding every further entry with the running hash, on the side its flag gives, ends in the given root. Every entry takes part; any other proof is rejected with an error.',
     ['inputs'], 'every root, key, value and proof, including adversarial ones of any length',
     'Soundness is a claim about all forged proofs; tests try a few corrupted ones.', [MB],
     [('verification', MB + ': verify_inclusion_proof')], tech=AI + 'conditions required on every accepting path, and the fold of the loop', note=TRUST)
prop('C09', 'All operations agree on which side of a branch a key belongs',
     'At every branch a key whose bit at the branch\'s split position is zero belongs to the zero child and any other to the one child, in building, updating, batch lookup, single lookup and proof generation alike. Keys are only sent below a branch whose prefix they share. Each proof entry carries the sibling of the child walked into and the flag for the side that child is on.',
     ['inputs', 'histories'], 'every key set and every tree shape',
     'A swapped side in one operation can cancel out with another swap or show only for trees of a certain shape.', [MB, TU],
     [('descent', MB + ': get, get_one, traverse_tree, generate_inclusion_proof'), ('splitting', TU + ': choose_zero, split_pairs, check_descendants')],
     tech=AI + 'provenance of each child address against the bit test on the path', note=TRUST)
prop('C10', 'A value is returned only for exactly the key that was asked',
     'A single lookup, a batch lookup and proof generation give a value or a proof for a key only when the leaf they reached carries exactly that key, and the value is the decoded content of that leaf\'s own data node. Any other leaf counts as absent: no value for a lookup, an error for a proof.',
     ['inputs', 'histories'], 'every key, present or absent, and every tree, including keys sharing long prefixes with stored ones',
     'Branch compression means that an absent key can reach a leaf of another key in only some trees; tests use few absent keys.', [MB],
     [('leaf comparison', MB + ': get, get_one, generate_inclusion_proof')], tech=AI + 'key equality required on every path that yields a value', note=TRUST)
prop('C11', 'A batch lookup answers every requested key and searches both sides',
     'A batch lookup that succeeds returns exactly one entry for each requested key, starting as absent; whenever it comes to a branch it goes on into each side that has requested keys, and it fills in the value for each requested key whose leaf it reaches. No requested key is dropped because of the others in the batch.',
     ['inputs', 'histories'], 'every set of requested keys and every tree',
     'Whether a key is dropped depends on the combination of keys and tree shape; tests use a few combinations.', [MB, TU],
     [('batch lookup', MB + ': get, push_cell_if_node'), ('seeding', TU + ': generate_leaf_map')], tech=AI + 'obligations on every path and loop iteration of the lookup', note=TRUST)
prop('C12', 'The order in which keys and values are given does not matter',
     'Insertion stores each value under the key that was given at the same position, whatever the order of the keys; keys are put in order before any step that relies on their order, in insertion and in batch lookup. The resulting root depends only on the set of pairs.',
     ['inputs'], 'every permutation of every input list', 'Tests use few orders, mostly sorted ones.', [MB, TU],
     [('pairing and sorting', MB + ': insert, get, create_tree')], tech=AI + 'sortedness and pairing tracked on collections', note=TRUST)
prop('C16', 'Results do not depend on iteration order, chance, time or environment',
     'The result of every operation is a function of its arguments and the store content: nothing is taken from the iteration order of unordered collections, random numbers, clocks, threads, the environment or addresses.',
     ['inputs', 'schedules'], 'every run and every hash seed',
     'Iteration order of hash collections varies from run to run and only some orders would give a wrong root.', [MB, TU],
     [('level order', MB + ': create_tree'), ('unordered collections', TU + ': generate_tree_ref_queue')], tech=AI + 'taint from unordered iteration; source census over all bodies', note=TRUST)
prop('C18', 'The depth limit means the same to every operation',
     'Every operation that walks a tree counts the root as level zero and each child as one level deeper than its parent, and refuses exactly when it comes to a branch or leaf deeper than the configured limit. Insertion, batch lookup, single lookup and proof generation accept and refuse the same trees.',
     ['inputs', 'histories'], 'every limit and every tree, in particular trees exactly at the limit',
     'An off-by-one shows only for trees whose deepest path sits exactly at the limit.', [MB],
     [('depth checks', MB + ': get, traverse_tree, split_nodes, get_one, generate_inclusion_proof')], tech=AI + 'affine relation between level and limit on every accepting and refusing path', note=TRUST)
prop('C19', 'An insertion never loses an entry of the previous root',
     'Everything under the previous root that the insertion does not replace is carried into the new root: every leaf and every subtree that is met is either entered because some inserted key belongs below it, or linked into the new tree whole, or, for a leaf, replaced by the new leaf of the same key.',
     ['inputs', 'histories'], 'every previous tree and every batch of inserted keys',
     'Which subtrees are bypassed depends on the combination of batch and tree; a lost one is seen only by looking up that entry later.', [MB],
     [('carrying over', MB + ': traverse_tree, split_nodes')], tech=AI + 'each child address accounted for on every loop path', note=TRUST)
prop('C23', 'A rejected insertion leaves the store as it was',
     'An insertion refused because its keys and values differ in number, are empty, contain a duplicate key, or name a previous root that is not stored, has written, deleted and flushed nothing before it returns the error.',
     ['inputs', 'fault_sequences'], 'every invalid argument combination and every store content',
     'Tests check the error but not that the store is untouched, and only for a few arguments.', [MB],
     [('argument checks', MB + ': insert, insert_one')], tech=AI + 'argument checks must come before the first write on every path', note=TRUST)
prop('C24', 'The new root joins every new leaf and every carried piece',
     'An insertion that succeeds stores, for every key it was given, a leaf that names the data node stored with it, and the root it returns joins exactly those leaves and all pieces carried over from the previous root: none is skipped, dropped from the list or left behind by stopping early. Pieces are joined deepest split first, each branch records the split found between the two pieces it joins, after a join both places stand for the new branch, and a piece becomes the root without joining only when it is the only one.',
     ['inputs', 'histories'], 'every number and arrangement of keys and every previous tree', 'Tests insert small or random sets; a piece lost only at a certain size, position or bit pattern goes unnoticed.', [MB, TU],
     [('leaves', MB + ': insert_leaves, insert, insert_one'), ('carried pieces', MB + ': generate_treerefs, traverse_tree, split_nodes'), ('joining', MB + ': create_tree, merge_nodes')],
     tech=AI + 'uniformity and completeness of the loops that store and reference leaves, contents of the joined list, relations between the places of a join', note=TRUST)
prop('C25', 'Verifying a proof never panics',
     'Proof verification returns for every root, key, value and proof of any length: no indexing out of bounds, overflow, unwrapping or other panic is reachable from it, apart from panics of the supplied hasher or codec.',
     ['inputs'], 'every proof, including empty and malformed ones', 'Panics hide at lengths and contents tests do not try.', [MB],
     [('verification', MB + ': verify_inclusion_proof')], tech=AI + 'every assertion and panicking call must be unreachable under the path conditions', note=TRUST)
prop('C26', 'Branches record the size and key of the subtrees they join',
     'A new branch joins two different subtrees, records as its count the sum of the leaf counts of both and as its key the key of one of the leaves below it; a subtree carried into a new tree keeps its own count and key, and a single leaf counts as one.',
     ['inputs', 'histories'], 'every tree shape and every insertion', 'No test reads the recorded counts, and the key only matters to later operations on particular keys.', [MB, TU],
     [('merging', MB + ': merge_nodes, split_nodes, traverse_tree')], tech=AI + 'relational values of the tree references', note=TRUST)
prop('C27', 'Nodes of the wrong kind and missing nodes are reported as corruption',
     'A data node met inside the tree, or a node that is not data below a leaf, makes lookups, insertions and proof generation return an error. So does a missing node that an insertion or a proof must walk through, and a leaf\'s missing data in a batch lookup.',
     ['fault_sequences', 'inputs'], 'every corrupted or partially lost store', 'Tests never corrupt the store.', [MB],
     [('kind checks', MB + ': get, get_one, traverse_tree, split_nodes, generate_inclusion_proof')], tech=AI + 'node kind and presence on every non-error path', note=TRUST)

prop('C32', 'An operation refuses, or answers absent, only for a stated reason',
     'An operation on a sound tree never fails because of how large a number is, what a key or value contains, or how often something occurs: it returns an error only when its arguments are invalid (an insertion with an empty, unequal or duplicate batch, a proof that is too short or does not fit), the depth limit is exceeded, a node is missing or of the wrong kind, a proof is asked for a key that is not there, or a call it relies on failed. A single lookup answers absent only where a branch whose prefix the key does not share, or the leaf of another key, or a missing node says so.',
     ['inputs', 'histories'], 'every key, value, batch, proof and tree, however large', 'A limit or special case far outside the sampled sizes and contents is never reached by a test.', [MB, TU],
     [('refusals', MB + ': every Err made in get, get_one, insert, insert_one, remove, generate_inclusion_proof, verify_inclusion_proof'), ('absent answers', MB + ': get_one'), ('key helpers', TU + ': choose_zero, split_pairs, check_descendants, calc_min_split_index')],
     tech=AI + 'each refusing path must carry a fact from the table of reasons; facts that only single out some inputs are no reason', note=TRUST)
prop('C33', 'A generated proof is complete and in verification order',
     'A proof that is generated for a key holds the data hash first, then the leaf hash, then exactly one entry for each branch between the leaf and the root, nearest to the leaf first: no entry is left out, repeated, moved or taken out again, whatever the depth of the key. The verifier therefore accepts every generated proof together with the stored value.',
     ['inputs', 'histories'], 'every tree, key and depth', 'Proofs in tests are short and of a few shapes; a proof that is wrong only from some depth on, or for some sizes, is not noticed.', [MB],
     [('gathering', MB + ': generate_inclusion_proof')], tech=AI + 'one entry per step of the walk, nothing removed afterwards, and the parity of reversals from gathering to return', note=TRUST)
prop('C34', 'Every operation comes to an end',
     'Every call of get, get_one, insert, insert_one, remove, generate_inclusion_proof and verify_inclusion_proof returns, whatever keys, values and proof it is given and whatever nodes are in the store or missing from it: each pass of each of their loops steps a finite iterator, takes an entry off a work list and adds only nodes below the one it took, shortens a list or moves a counter one way. No pass leaves everything as it was, and no node goes back on the work list as it was taken off.',
     ['inputs', 'histories'], 'every loop of the tree operations and the key helpers they use (loops inside the standard library, the backends and the caller\'s own codecs and hashers are taken to end; addresses are hashes, so the links of a store have no cycle)', 'A test that hangs for some input or damaged store is only seen when that input is tried.', [MB, TU],
     [('work lists', MB + ': get, get_one, remove, traverse_tree, generate_inclusion_proof'), ('joining', MB + ': create_tree, merge_nodes'), ('key helpers', TU)], tech=AI + 'for each path from the head of a loop back to it, what it changed: iterator stepped, entry taken and only its children added, counter moved under the path facts, or nothing', note=TRUST)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec_units.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec_units.py')) else None

NA = [
    ('C28', 'Reading back what was inserted, over any history',
     'After any sequence of insertions and removals, looking up a key under a live root gives the value last inserted for it on the way to that root, and nothing for other keys.',
     ['histories', 'inputs'], 'every history', 'Tests sample histories.', [MB],
     'The end-to-end statement needs an inductive invariant relating an unbounded, content-addressed store to an abstract map across operations; no dataflow or typestate argument in reach establishes it. Its static parts are claimed as C01, C02, C09, C10, C11, C19, C21, C26.'),
    ('C29', 'The root depends only on the content, not on the path to it',
     'Two trees holding the same key/value pairs under the same hasher have the same root, whatever sequence of insertions led to them.',
     ['histories', 'inputs'], 'every pair of histories with the same final content', 'Tests compare a few histories.', [MB, TU],
     'A relational property of two unbounded executions over the shape of the compressed trie; it depends on the arithmetic of the pointer-chasing merge. Static parts are claimed as C01, C12, C16, C26.'),
    ('C30', 'A crash in the middle of an insertion leaves older roots readable',
     'If the process stops at any point of an insertion or removal, roots that were live before still read as before.',
     ['crash_points'], 'every crash point', 'Tests do not crash.', [MB, 'src/tree_db/rocksdb.rs'],
     'Decided by what the external storage engine does with a write batch at a crash, which is outside the source; the part visible in the source (batching, flushing, immutability) is claimed as C02, C06 and C13.'),
    ('C31', 'No operation panics on any stored state',
     'Insertion, removal, lookups and proof generation never panic, whatever the store contains.',
     ['inputs', 'fault_sequences'], 'every store content, including corrupt ones', 'Tests use well-formed stores.', [MB, TU],
     'False for corrupt stores as the code stands (a stored split position beyond the key length indexes out of bounds), and for well-formed ones it needs numeric invariants of the merge bookkeeping that quantify over runtime data. The verifier, which takes untrusted input, is claimed as C25.'),
]

if __name__ == '__main__':
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        rows = [(p['id'], p['title'], p['statement'], p['over'], p['qtext'], p['why'], p['files'], p['mech'], p['state']) for p in P]
        rows += [(i, t, s, o, q, w, fl, [('see the files', fl[0])], None) for i, t, s, o, q, w, fl, r in NA]
        for i, t, s, o, q, w, fl, m, st in rows:
            assert len(t) <= 80, (i, len(t))
            assert s.count('. ') <= 2, (i, s.count('. '))
            a = {'files': fl, 'mechanism': [{'name': n, 'where': x} for n, x in m]}
            f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': o, 'text': q}, 'why_tests_cant': w, 'anchors': a}) + '\n')
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['claim']:
            man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 analyzer/check.py ' + p['id'], 'thorough_cmd': 'python3 analyzer/check.py ' + p['id'] + ' --thorough',
                                  'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
    for i, t, s, o, q, w, fl, r in NA:
        man['not_applicable'].append({'property': i, 'reason': r})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')

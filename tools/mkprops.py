#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

OPS, PT, NB, TH, SUB, UT = "src/trie_ops.rs", "src/partial_trie.rs", "src/nibbles.rs", "src/trie_hashing.rs", "src/trie_subsets.rs", "src/utils.rs"

p("C01", "Lookup returns exactly what the history of updates stored",
  "After any sequence of insertions (one at a time, in bulk, or by building from an iterator), overwrites and deletions of non-empty values, looking up a key returns the value most recently stored under exactly that key, and nothing if that key was never stored or was deleted since. Keys are nibble sequences of 0 to 64 nibbles; a key that is a prefix or an extension of a stored key is a different key. Lookup never panics, whatever key is asked for, and both trie types behave alike.",
  ["histories", "inputs"], "for every history of insert/extend/from_iter/delete, every set of keys (including keys that are prefixes of each other) and every looked-up key",
  "The tests look up keys that were inserted, over random keys that practically never are prefixes of one another; they never ask for an absent key that shares a path with stored ones, and never mix deletes with prefix keys.",
  [OPS, PT, NB], [("insertion recursion", "src/trie_ops.rs insert_into_trie_rec"), ("lookup recursion", "src/trie_ops.rs trie_get_intern"), ("deletion recursion", "src/trie_ops.rs delete_intern")],
  observe=["PartialTrie::get"])
p("C02", "The shape of a trie depends only on its contents",
  "Any two histories of insertions, overwrites and deletions of non-empty values that leave the same key/value contents leave tries that compare equal, and in canonical Ethereum form: no branch with fewer than two occupants (children plus value), no extension that is empty or leads to anything but a branch (or a hashed-out node). Inserting a new key and deleting it again restores an equal trie; deleting every key leaves the empty trie.",
  ["histories"], "for every pair of histories with equal final contents",
  "Tests compare root hashes after deletes against another library for one seeded set of random keys without prefix keys; structure is never compared.",
  [OPS, PT], [("branch collapsing on delete", "src/trie_ops.rs delete_intern, collapse_ext_node_if_needed"), ("splitting on insert", "src/trie_ops.rs place_branch_and_potentially_ext_prefix")],
  observe=["PartialEq of tries", "Node structure"])
p("C03", "The root hash is the Ethereum Merkle-Patricia root of the contents",
  "For every set of key/value pairs with non-empty values, the root hash of the trie holding them equals the root defined by the Ethereum yellow paper (hex-prefix paths, RLP node encodings, nodes shorter than 32 bytes inlined, Keccak-256 of the rest, Keccak-256 of RLP of the empty string for the empty trie). Both trie types report it, whatever the value lengths and however the trie was built.",
  ["inputs", "histories"], "for every contents: key lengths and overlaps, value lengths and bytes",
  "Tests compare with eth_trie on random 32-byte values and byte-aligned keys, so inlined small nodes, odd paths, branch values, RLP length boundaries (single byte, 55/56 bytes) are hardly met.",
  [TH, NB, PT, OPS], [("node encoding", "src/trie_hashing.rs rlp_encode_and_hash_node"), ("32-byte rule", "src/trie_hashing.rs hash_bytes_if_large_enough"), ("hex prefix", "src/nibbles.rs to_hex_prefix_encoding")],
  observe=["PartialTrie::hash"])
p("C04", "A cached hash never goes stale",
  "A hash-caching trie reports at every moment the same root hash as a freshly built, never-hashed trie with the same nodes, no matter how hashing, insertion, deletion, bulk insertion, cloning, subset creation, diffing and direct mutable access to its nodes are interleaved. It always agrees with the non-caching trie type given the same history.",
  ["histories"], "for every interleaving of hashing with updates, clones, subset creation and direct node mutation",
  "Tests hash after each insert of one trie; they never hash a clone after updating the other copy, and never mutate nodes after a hash was cached at the root.",
  [PT, TH, SUB], [("cache invalidation", "src/partial_trie.rs set_hash"), ("cache fill", "src/partial_trie.rs hash_intern")],
  state=[dict(name="cached hash cell", meaning="the node's hash if known", where="src/partial_trie.rs HashedPartialTrie")], observe=["PartialTrie::hash"])
p("C05", "Deletion reports what it removed and touches nothing else",
  "Deleting a key that holds a value returns exactly that value, and afterwards every other key still has its value and that key has none. Deleting a key that holds no value returns nothing and leaves the trie equal to what it was, with the same root hash. Deletion panics only when its path runs into a hashed-out node.",
  ["histories", "inputs"], "for every trie contents and every deleted key, present or absent, including keys ending inside or at inner nodes",
  "Tests delete present keys of a random trie without prefix keys, and two hand-picked absent keys.",
  [OPS, PT], [("deletion recursion", "src/trie_ops.rs delete_intern")], observe=["PartialTrie::delete", "PartialTrie::get"])
p("C06", "Iteration yields every entry exactly once under its full key",
  "Iterating over a trie yields each stored key/value pair exactly once with its complete key, and each hashed-out node exactly once with the complete path to it and its hash, and nothing else. The key-only and value-only iterators yield the same entries in the same order.",
  ["inputs"], "for every trie shape: nesting of branches and extensions, any occupied child slots, branch values, hashed-out nodes below branches and extensions",
  "Tests iterate tries of random keys and compare as sets; deep mixed shapes with branch values and hashed nodes, and duplicates, are not covered.",
  [OPS, PT], [("iterator stack and running key", "src/trie_ops.rs PartialTrieIter")], observe=["PartialTrie::items", "PartialTrie::keys", "PartialTrie::values"])
p("C07", "Cloned tries are independent snapshots",
  "After a trie is cloned, no insertion, bulk insertion, deletion, direct node mutation, hashing or subset creation on either copy changes what the other copy looks up, iterates, compares equal to, or reports as its root hash.",
  ["histories"], "for every contents, every point of cloning and every later history on either copy",
  "One test clones a non-caching trie and inserts into the original; hash caching, deletes and mutation of the clone are not covered.",
  [PT, OPS], [("copy-on-write nodes", "src/partial_trie.rs WrappedNode"), ("cache cell of a clone", "src/partial_trie.rs HashedPartialTrie")], observe=["get/items/hash/== of both copies"])
p("C08", "A trie subset has the root hash of the original",
  "For every trie (possibly already partly hashed out) and every collection of keys, present or absent, the subset created for those keys has the same root hash as the original trie, and creating it leaves the original unchanged. Nodes whose encoding is shorter than 32 bytes are never replaced by hashes.",
  ["inputs"], "for every trie and every set of keys",
  "Tests use fixed-length random keys with 32-byte values and one hand-made trie; inlined nodes, absent keys and partially hashed inputs hardly occur.",
  [SUB, TH, PT], [("hashing out untouched nodes", "src/trie_subsets.rs create_partial_trie_subset_from_tracked_trie")], observe=["PartialTrie::hash of subset and original"])
p("C09", "A trie subset answers every requested key like the original",
  "For every key the subset was created for, present in the original or not, looking it up in the subset gives the same answer as in the original, and the whole path that settles the answer is retained rather than hashed out. Creating a subset never panics; it fails with an error exactly when some requested key leads into a node that the original already has hashed out with part of the key still to go.",
  ["inputs"], "for every trie and every set of keys: present, absent, shorter or longer than stored keys, leading into hashed-out nodes",
  "Tests request keys that exist in the trie, or one unrelated key.",
  [SUB], [("marking of needed nodes", "src/trie_subsets.rs mark_nodes_that_are_needed")], observe=["create_trie_subset", "PartialTrie::get"])
p("C10", "A trie subset hashes out everything not requested, as high as possible",
  "In a subset, every node not visited by looking up one of the requested keys, whose encoding is at least 32 bytes and whose parent was visited (or which is the root), is replaced by a hash node carrying its hash; visited nodes and nodes too small to be hashed are kept as in the original, with children treated the same way.",
  ["inputs"], "for every trie and every set of keys",
  "Tests count retained nodes for two key sets on one hand-made trie.",
  [SUB], [("touched flags and hashing out", "src/trie_subsets.rs TrackedNodeInfo, create_partial_trie_subset_from_tracked_trie")], observe=["Node structure of the subset"])
p("C11", "Subsets created in one batch equal subsets created one by one",
  "Creating several subsets of a trie in one call gives, position by position, tries equal to those obtained by creating each subset separately from the same trie with the same keys, whatever keys the earlier subsets in the batch asked for.",
  ["inputs", "histories"], "for every trie, every sequence of key sets",
  "Tests only check that requested leaves are present and hashes match for batches; leftovers from earlier key sets go unnoticed.",
  [SUB], [("state reset between subsets", "src/trie_subsets.rs reset_tracked_trie_state")], observe=["create_trie_subsets vs create_trie_subset"])
p("C12", "Updating a partial trie gives the root hash of updating the full trie",
  "Take a full trie and a subset of it created for some keys: after any sequence of insertions, overwrites and deletions of those keys, applied to both, the two have the same root hash and give the same answers for those keys. The one exception is a deletion that leaves a hashed-out node as the only occupant of a branch, where the partial trie lacks the information.",
  ["histories", "inputs"], "for every full trie, key set and update sequence on those keys",
  "No test updates a subset and compares it with the updated full trie.",
  [OPS, SUB, TH, PT], [("hash nodes kept intact by updates", "src/trie_ops.rs insert_into_trie_rec, delete_intern")], observe=["PartialTrie::hash", "PartialTrie::get"])
p("C13", "Hashed-out nodes are opaque and faithful stand-ins",
  "Storing the hash of a subtrie (of 32 bytes or more when encoded) under its path in place of the subtrie's entries, in any insertion order, gives a trie with the same root hash. Looking up a key inside a hashed-out part gives nothing, insertions and deletions beside it leave it in place, and an insertion or deletion whose path enters it panics.",
  ["inputs", "histories"], "for every trie, every replaced subtrie, every later operation",
  "Tests replace direct children of one root branch and insert random hashes without checking updates around them.",
  [OPS, TH, PT], [("hash insertion", "src/trie_ops.rs create_node_from_insert_val"), ("panic on traversal", "src/trie_ops.rs insert_into_trie_rec, delete_intern")], observe=["PartialTrie::insert with a hash", "hash", "get", "items"])
p("C14", "Nibble sequences behave as sequences",
  "For nibble sequences of up to 64 nibbles, reading a nibble, taking ranges, popping, pushing and truncating at either end, splitting, merging and reversing give exactly what the same operation gives on a plain list of nibbles, with leading zero nibbles preserved. Every result is a well-formed sequence (no stray bits beyond its length), and operations documented as non-mutating leave their argument unchanged.",
  ["inputs"], "for every sequence of length 0..64 over all nibble values, and every index, range or amount in range",
  "Tests use 4-nibble literals; nothing beyond 16 nibbles (one machine word), no leading zeros.",
  [NB, UT], [("packed representation with shifts and masks", "src/nibbles.rs Nibbles"), ("mask creation", "src/utils.rs create_mask_of_1s")], observe=["Nibbles methods"])
p("C15", "Out-of-range nibble operations are refused, never silently wrong",
  "An operation asked for a nibble, range, split point or number of nibbles beyond the sequence panics, as does pushing or merging beyond 64 nibbles or pushing a nibble value above 15; a panic never happens for an in-range request. Truncation alone accepts any amount and gives the empty sequence when the amount exceeds the length.",
  ["inputs"], "for every sequence of length 0..64 and every argument, in builds with and without overflow checks",
  "Tests check one out-of-range split and one too-large nibble.",
  [NB], [("asserts and checked arithmetic", "src/nibbles.rs nibble_append_safety_asserts, get_nibble_range, split_at_idx")], observe=["Nibbles methods"])
p("C16", "Key conversions keep every nibble",
  "Converting bytes (big or little endian), 256-bit hashes and unsigned integers to nibble sequences gives the nibbles of the value in big-endian order with the documented length: all bytes for byte strings and hashes, no leading zeros for integers, rounded up to whole bytes for the byte-padded form. Converting back to bytes or to a 256-bit integer returns the original value; byte strings that are empty or too long are rejected with an error.",
  ["inputs"], "for every byte string of length 0..40, every 256-bit hash, every integer of each supported type",
  "Tests convert a few small literals.",
  [NB], [("conversions", "src/nibbles.rs impl_to_nibbles, from_bytes, from_h256_common, bytes_be, try_into_u256")], observe=["Nibbles constructors and bytes_be"])
p("C17", "Hexadecimal text round-trips",
  "Formatting a nibble sequence in lower or upper case hexadecimal prints 0x followed by exactly one digit per nibble, leading zeros included, and parsing that text (with or without 0x) gives back the same sequence. Parsing never panics; it accepts exactly strings of hex digits that fit the supported size and rejects all others with an error.",
  ["inputs"], "for every sequence of length 0..64 and every short input string",
  "Tests parse four literals.",
  [NB], [("formatting", "src/nibbles.rs as_hex_str"), ("parsing", "src/nibbles.rs FromStr for Nibbles")], observe=["Display, LowerHex, UpperHex, FromStr"])
p("C18", "Hex-prefix encoding follows the specification and decodes back",
  "Encoding a nibble sequence of up to 64 nibbles gives the yellow paper's hex-prefix bytes: flag nibble with leaf and odd-length bits, a zero padding nibble for even lengths, then the nibbles. Decoding an encoded extension path returns the same sequence, decoding an encoded leaf path returns it followed by the two-nibble terminator 1,0; input of more than 33 bytes or with an invalid flag nibble is rejected with an error, and non-empty input never causes a panic.",
  ["inputs"], "for every sequence of length 0..64, both leaf flags, and every byte string of length 1..40",
  "Tests encode two 4- and 5-nibble keys and decode a handful of literals.",
  [NB], [("encoder", "src/nibbles.rs to_hex_prefix_encoding"), ("decoder", "src/nibbles.rs from_hex_prefix_encoding")], observe=["to_hex_prefix_encoding", "from_hex_prefix_encoding"])
p("C19", "Key comparisons agree with the nibbles",
  "Two nibble sequences are equal exactly when they have the same length and nibbles; the prefix test says yes exactly when the shorter sequence is a prefix of the longer; the search for the first difference returns the index of the first differing nibble, or the shorter length if there is none.",
  ["inputs"], "for every pair of sequences of length 0..64",
  "Tests compare literals of 4 and 5 nibbles.",
  [NB], [("prefix test", "src/nibbles.rs nibbles_are_identical_up_to_smallest_count"), ("first difference", "src/nibbles.rs find_nibble_idx_that_differs_between_nibbles_equal_lengths, find_nibble_idx_that_differs_between_nibbles_different_lengths")], observe=["Nibbles comparison functions"])
p("C20", "Trie values made from integers are their big-endian bytes",
  "Turning an unsigned integer of any supported width into a trie value gives its big-endian bytes at the full width of its type, a byte vector or slice gives the same bytes, and a 256-bit hash gives a hash entry; none of these conversions panics. Reading a value or hash entry back yields what was put in, and asking for the wrong kind panics.",
  ["inputs"], "for every value of u8, u16, u32, u64, U128, U256, U512, H256 and every short byte string",
  "No test converts integers to trie values.",
  [OPS], [("conversions", "src/trie_ops.rs impl_eth_type_from_for_val_variant, impl_prim_int_from_for_val_variant")], observe=["From<..> for ValOrHash", "expect_val", "expect_hash"])
p("C21", "Trie equality is node-by-node equality",
  "Two tries of the same type compare equal exactly when all their nodes match: same kinds, same paths, same values, same hashes, same children in the same slots. Whether hashes have been computed or cached makes no difference, and equal tries have equal root hashes.",
  ["inputs", "histories"], "for every pair of tries",
  "Tests compare one trie with itself and with an entirely different one.",
  [PT], [("structural comparison", "src/partial_trie.rs PartialEq for Node, HashedPartialTrie")], observe=["== on tries"])
p("C22", "Trie statistics count every node",
  "The statistics of a trie report the exact number of empty, hash, branch, extension and leaf nodes, the greatest node depth of a leaf or hash node, and the mean depths of leaf and hash nodes; comparing two statistics relates each figure of the first to the same figure of the second.",
  ["inputs"], "for every trie",
  "Tests count nodes of one hand-made trie and of flat generated ones.",
  ["src/debug_tools/stats.rs"], [("counting recursion", "src/debug_tools/stats.rs get_trie_stats_rec")], observe=["Display of TrieStats and TrieComparison"])
p("C23", "A trie diff reports a real difference exactly when there is one",
  "Diffing two tries reports no difference exactly when their root hashes are equal, and never panics. A reported difference names a key path that exists in both tries (following matching branches and extensions), where the two nodes found have different hashes, and the reported node information is that of those two nodes. Differences in the kind or path of nodes take precedence over differences in content only, and among those that count the one reported has a longest key.",
  ["inputs"], "for every pair of tries, including tries of different shape and tries differing only in a branch value",
  "One test diffs two single-leaf tries; seven more are unimplemented stubs.",
  ["src/debug_tools/diff.rs", "src/debug_tools/common.rs"], [("simultaneous descent", "src/debug_tools/diff.rs find_latest_diff_point_between_tries_rec")], observe=["create_diff_between_tries"])
p("C24", "A path query reports the path a lookup takes",
  "Querying a key reports the sequence of nodes a lookup of that key visits, in order, with each node's own key piece, and says that the node was found exactly when the key has a value in the trie or names a hashed-out node. It never panics.",
  ["inputs"], "for every trie and every key, present or absent, shorter or longer than stored keys",
  "There are no tests of the query tool.",
  ["src/debug_tools/query.rs", "src/debug_tools/common.rs"], [("query recursion", "src/debug_tools/query.rs get_path_from_query_rec")], observe=["Display of DebugQueryOutput"])
p("C25", "Serialised tries and keys come back unchanged",
  "Serialising a trie or a nibble sequence through serde and deserialising it again gives an equal value with the same root hash and the same lookups, whether or not hashes had been cached before.",
  ["inputs", "histories"], "for every trie and every nibble sequence of length 0..64",
  "No test serialises anything.",
  [PT, NB], [("derived serde implementations", "src/partial_trie.rs, src/nibbles.rs")], observe=["serde Serialize/Deserialize"])
p("C26", "Concurrent hashing of shared tries agrees with sequential hashing",
  "When several threads hash the same trie, or one thread hashes a trie while another updates or hashes its clone, every reported hash is the one a sequential execution would report and no thread deadlocks.",
  ["schedules"], "for every schedule of two threads over shared hash-caching tries",
  "The tests are single-threaded with respect to one trie.",
  [PT], [("lock around the cached hash", "src/partial_trie.rs get_hash, set_hash, hash_intern")], observe=["PartialTrie::hash"])
p("C27", "A subset depends only on which keys are asked for",
  "Asking for the subset of a trie for the same keys again, in another order or with keys repeated, gives an equal subset with the same nodes left out, whether or not the trie or an earlier subset was hashed in between; it succeeds again or fails again. A subset taken from a subset, for keys the first one was created for, equals the subset taken from the original trie for those keys.",
  ["inputs"], "for every trie, every collection of keys, every order and repetition of them and every part of them asked for again",
  "The tests create one subset per trie and compare its nodes to the expected ones; they take no subset twice and none from a subset.",
  [SUB], [("marking of the nodes on the way to a key", "src/trie_subsets.rs mark_nodes_that_are_needed"), ("subset from the marked trie", "src/trie_subsets.rs create_partial_trie_subset_from_tracked_trie")], observe=["create_trie_subset"])
p("C28", "A trie rebuilt from its entries is the same trie",
  "Building a trie from everything another trie yields (values and hashed-out nodes, each under its full key) gives an equal trie with the same root hash. This holds for entries given in bulk or inserted one by one, in any order, and when the entries are split in two parts, a trie is built of each, and the entries of one are added to the other.",
  ["inputs"], "for every trie, with or without hashed-out nodes, every way to split its entries in two and the given orders of them",
  "The tests compare iterated entries to the inserted ones as sets and build no second trie from them, and their hash nodes lie in empty slots of a trie of random keys rather than where an entry or a common prefix was.",
  [OPS], [("iteration", "src/trie_ops.rs PartialTrieIter"), ("insertion of values and hash nodes", "src/trie_ops.rs insert_into_trie_rec")], observe=["PartialTrie::items", "PartialTrie::extend", "PartialTrie::hash"])
p("C29", "Errors describe the input that was refused",
  "An error from converting a byte string to nibbles or decoding a hex-prefix path names what was wrong with it: that it was empty, its actual length, its actual flag nibble, or its bytes in hexadecimal with its length, both in the error value and under the right label in its message. The error of a subset that cannot be created carries, in value and message, exactly the nibbles of the first such requested key that lie below the hashed-out node it runs into.",
  ["inputs"], "for every byte string that is refused, every trie with hashed-out nodes and every requested key",
  "The tests look only at whether an error is returned, never at what it carries or says.",
  [NB, SUB], [("length limit of byte strings", "src/nibbles.rs from_bytes"), ("hex-prefix decoding", "src/nibbles.rs from_hex_prefix_encoding"), ("error of a subset", "src/trie_subsets.rs SubsetTrieError")], observe=["BytesToNibblesError", "FromHexPrefixError", "SubsetTrieError"])
p("C30", "Logging changes nothing",
  "With a logger installed that formats every message at the finest level, lookups, insertions, deletions, iteration, hashing and subsets give the same answers and the same tries as with logging off, and nothing panics that does not panic with logging off.",
  ["inputs"], "for every history of insertions and deletions and every key looked up, inserted or deleted after it",
  "The tests compare no run with logging on to one with logging off, and most install no logger, so that the arguments of messages are never evaluated.",
  [OPS], [("trace messages of updates and lookups", "src/trie_ops.rs trace!")], observe=["PartialTrie::insert", "PartialTrie::delete", "PartialTrie::get"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

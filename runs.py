"""Which harnesses decide which property, with which parameters per tier."""
import re

BASE = ["the code under check is the LLVM IR rustc emits for the optimised build with overflow checks and debug assertions on; what the code generator makes of it is covered only by the replays",
        "memory allocation never fails"]
HASH = ["Keccak-256 is a function without collisions: equal inputs give equal hashes, different inputs different ones (concrete inputs are hashed by the real algorithm)"]

VALS = {"1": "one free byte", "2": "one free byte or 33 bytes (first free)", "3": "33 bytes (first free)", "5": "all short, all long, or in turn", "6": "7 lengths between 1 and 1000 bytes (first free)", "7": "every third long, the others a byte of which 7 bits are free, past the fortieth fixed"}


def nibs(al):
    return {"2": "the nibbles 0 and 15", "3": "the nibbles 0, 7 and 15", "4": "the nibbles 0, 5, 10 and 15"}.get(al, "all nibbles")


def fam(p):
    """description of the family of tries, and the parameters left over"""
    if p[0] == "0":
        return "tries after up to %s insertions%s of keys of 0..%s nibbles over %s, values: %s" % (p[1], " and deletions" if p[5] == "1" else "", p[2], nibs(p[3]), VALS[p[4]]), p[6:]
    if p[0] == "1":
        return "tries of three keys of %s nibbles (%s), two of them parting from the first (or one ending on it) at any two multiples of %s, values: %s" % (p[1], {"0": "one free, the others fixed", "1": "all free", "2": "all zeros but where they part", "3": "all fifteens but where they part"}[p[3]], p[2], VALS[p[4]]), p[5:]
    if p[0] == "2":
        return "tries of one branch of 0..%s children filled from either end, with or without value, at the root or below a nibble, values: %s; probed at %s" % (p[1], VALS[p[2]], nibs(p[3])), p[4:]
    if p[0] == "5":
        return "tries of the 16n keys of two nibbles of which the first is less than n (%s..16), values: %s; probed at %s" % (p[1], VALS[p[2]], nibs(p[3])), p[4:]
    if p[0] == "4" and int(p[1]) > 100:
        return "tries of one key of 64 nibbles and others parting from it at every %sth position, inserted from either end, values: %s; probed at %s of the positions" % (int(p[1]) - 100, VALS[p[2]], p[3]), p[4:]
    if p[0] == "4":
        return "tries of one key of 64 nibbles and others parting from it at every position, or every second up to every %s, inserted from either end, values: %s; probed at %s of the positions" % (p[1], VALS[p[2]], p[3]), p[4:]
    return "tries of %s keys each 1..%s nibbles longer than the one before, values: %s" % (p[1], p[2], VALS[p[3]]), p[4:]


def family(tail):
    def f(p):
        t, rest = fam(p)
        t += "; " + (tail % tuple(rest) if rest else tail)
        return re.sub(r"(up to |1\.\.)100 probed keys", "all its keys or all but one out of eight of them", t)
    return f


def text(t):
    return lambda p: t % tuple(p) if "%s" in t else t


def run(entry, quick, thorough, covers, bounds, **kw):
    d = {"entry": entry, "quick": quick, "thorough": thorough, "covers": covers, "bounds": bounds}
    d.update(kw)
    return d


CHECKS = {}


def check(prop, assumptions, *runs):
    CHECKS[prop] = {"assumptions": assumptions, "runs": list(runs)}


HIST = text("up to %s inserts and deletes of keys of 0..%s nibbles out of %s, one-byte values, then a lookup of any key up to one longer")
LONG = text("two keys of %s free nibbles parting at any multiple of %s (or one ending there), possibly one deleted, then a lookup of a key, of a prefix of it or of it with one nibble changed (anywhere: %s; otherwise near the ends and the parting)")
DEEP = text("a chain of %s keys each 1..%s nibbles longer than the one before, inserted from either end, then one insert or delete and one lookup of any prefix of the longest with or without its last nibble changed")
BULK = text("trie made from up to %s entries, extended by up to %s, keys of 0..%s nibbles out of %s, values of 1 or 2 bytes, then a lookup")
check("C01", BASE,
      run("c01_history_std", "2,2,16", "3,1,16", [1, 2, 3, 4], HIST),
      run("c01_history_std", "3,3,2", "4,3,2", [1, 2, 3, 4], HIST),
      run("c01_history_std", "5,1,2", "6,1,2", [1, 2, 3, 4], HIST),
      run("c01_history_hashed", "3,2,2", "4,2,2", [1, 2, 3, 4], HIST),
      run("c01_bulk_std", "2,1,2,2", "2,1,2,3", [3, 4, 5], BULK),
      run("c01_bulk_hashed", "1,1,2,2", "2,1,1,4", [3, 4, 5], BULK),
      run("c01_long_std", "64,1,0", "64,1,1", [1, 3, 4, 6, 7], LONG),
      run("c01_long_hashed", "63,4,0", "63,1,0", [1, 3, 4, 6, 7], LONG),
      run("c01_three_std", "64,1,2", "64,1,4", [1, 3, 4],
          text("three keys of %s free nibbles, two of them parting from (or one ending on) the first at any two multiples of %s, both orders, then the lookup of each after nothing or one of the last %s-1 keys was deleted")),
      run("c01_wide_std", "16,1", "8,2", [1, 2, 3, 4],
          text("a branch (at the root or below one nibble) of 0..%s children filled from either end, with or without value, one insert or delete of a key of 0..%s nibbles, then any such lookup")),
      run("c01_deep_std", "8,2", "12,3", [1, 2, 3, 4], DEEP),
      run("c01_deep_hashed", "5,2", "8,2", [1, 2, 3, 4], DEEP),
      run("c01_values_std", "10", "10", [1, 3, 4],
          text("two keys of 0..2 nibbles out of 2, values of %s lengths between 1 and 1000 bytes (first and last byte free), possibly one deleted")))

SHAPE = family("compared with the trie of the same contents inserted in order, in reverse, or with any one entry last")
UNDO = family("any probed absent key inserted and deleted again")
CLEAR = family("all keys deleted one by one from either end")
check("C02", BASE,
      run("c02_shape_std", "0,4,2,2,1,1", "0,4,3,2,1,1", [1, 101], SHAPE),
      run("c02_shape_std", "0,3,1,16,1,1", "0,3,2,4,1,1", [1, 101], SHAPE),
      run("c02_shape_std", "0,2,2,16,1,1", "0,5,1,3,1,1", [1, 101], SHAPE),
      run("c02_shape_std", "1,64,2,0,3", "1,64,1,0,3", [1], SHAPE),
      run("c02_shape_std", "2,16,1,2", "2,16,1,2", [1], SHAPE),
      run("c02_shape_std", "3,10,4,1", "3,20,3,1", [1], SHAPE),
      run("c02_shape_hashed", "0,3,2,2,1,1", "0,4,2,2,1,1", [1, 101], SHAPE),
      run("c02_undo_std", "0,3,2,2,1,0", "0,3,3,2,1,0", [1], UNDO),
      run("c02_undo_std", "0,2,2,4,1,0", "0,2,2,16,1,0", [1], UNDO),
      run("c02_undo_std", "1,64,5,0,1", "1,64,2,0,1", [1], UNDO),
      run("c02_undo_std", "2,16,1,16", "2,16,1,16", [1], UNDO),
      run("c02_undo_std", "3,8,4,1", "3,16,4,1", [1], UNDO),
      run("c02_clear_std", "0,3,2,2,1,0", "0,4,2,2,1,0", [1, 2], CLEAR),
      run("c02_clear_std", "1,64,3,0,1", "1,64,1,0,1", [1, 2], CLEAR),
      run("c02_clear_std", "2,16,1,2", "2,16,1,2", [1, 2], CLEAR),
      run("c02_clear_std", "3,10,4,1", "3,20,3,1", [1, 2], CLEAR))

ROOT = family("root hash compared with an independent implementation of the yellow paper's definition")
LEAF = text("one entry: every key of 0..%s nibbles, %s value lengths between 1 and 1000 bytes around all RLP boundaries")
PAIR = text("two keys with a free common part of 0..%s nibbles and tails of up to %s, values of the lengths number %s up to %s of the boundary list")
check("C03", BASE + HASH,
      run("c03_family_std", "0,3,2,2,2,1", "0,3,3,2,2,1", [1, 101], ROOT),
      run("c03_family_std", "0,2,2,16,2,1", "0,4,2,2,3,1", [1, 101], ROOT),
      run("c03_family_std", "1,64,2,0,5", "1,64,1,0,5", [1], ROOT),
      run("c03_family_std", "2,16,5,2", "2,16,5,2", [1], ROOT),
      run("c03_family_std", "3,12,4,5", "3,20,3,5", [1], ROOT),
      run("c03_family_hashed", "0,3,2,2,2,1", "0,3,2,3,2,1", [1, 101], ROOT),
      run("c03_family_hashed", "1,63,5,1,5", "1,63,2,1,5", [1], ROOT),
      run("c03_leaf_std", "64,20", "64,20", [1], LEAF),
      run("c03_leaf_hashed", "64,20", "64,20", [1], LEAF),
      run("c03_pair_std", "5,3,0,15", "8,4,0,20", [1], PAIR),
      run("c03_pair_hashed", "4,2,2,15", "6,3,0,20", [1], PAIR),
      run("c03_branch_std", "16", "16", [1], text("a branch with a value of 20 lengths and 1..%s children of 7 sizes around 32 bytes")))

STEPS = text("up to %s steps (keys of 0..%s nibbles, alphabet %s, values %s) of the first %s kinds out of insert, delete, change in place, clone, bulk insert, subset, diff, on a hashed trie of %s insertions, hashed or not after every step")
FAMH = family("hashed after every operation, every second, or never, then a probed key deleted and inserted, in step with the non-caching type")
NESTED = family("nodes hashed on their own (children or parents first, or not), then a part taken out, or the trie put under other nodes, or changed in place (subsets included: %s)")
check("C04", BASE + HASH,
      run("c04_steps", "3,1,2,3,4,1", "3,1,2,3,4,2", [1, 2, 6, 10, 11, 12], STEPS),
      run("c04_steps", "2,1,2,3,7,1", "2,1,2,3,7,2", [1, 2, 3, 4, 5, 6, 10, 11, 12], STEPS),
      run("c04_family", "0,2,2,2,2,1", "0,3,1,2,3,1", [7, 101], FAMH),
      run("c04_family", "1,64,31,0,5", "1,64,9,0,5", [7], FAMH),
      run("c04_family", "2,4,5,2", "2,16,5,3", [7], FAMH),
      run("c04_family", "3,5,2,5", "3,8,3,5", [7], FAMH),
      run("c04_nested", "0,2,2,2,2,0,0", "0,2,2,2,2,0,1", [10, 11, 12, 21, 22, 23, 24], NESTED),
      run("c04_nested", "0,2,1,2,2,0,1", "0,3,1,2,3,0,1", [10, 11, 12, 20, 21, 22, 23, 24], NESTED),
      run("c04_nested", "1,64,63,0,5,0", "1,64,31,0,5,0", [21, 22, 23, 24], NESTED),
      run("c04_nested", "2,2,5,2,0", "2,4,5,2,0", [21, 22, 23, 24], NESTED),
      run("c04_nested", "3,3,2,5,1", "3,5,2,5,1", [20, 21, 22, 23, 24], NESTED))

DEL = family("any probed key deleted (tries hashed: %s)")
BESIDE = family("up to %s of the nodes replaced by hash nodes, any probed key deleted")
check("C05", BASE + HASH,
      run("c05_delete_std", "0,3,2,2,1,0,0", "0,4,2,2,1,0,0", [1, 2], DEL),
      run("c05_delete_std", "0,2,1,16,1,0,0", "0,2,2,16,1,0,0", [1, 2], DEL),
      run("c05_delete_hashed", "0,2,2,3,2,0,1", "0,3,2,2,2,0,1", [1, 2], DEL),
      run("c05_delete_std", "1,64,5,0,3,0", "1,64,2,0,3,0", [1, 2], DEL),
      run("c05_delete_hashed", "1,64,9,0,5,1", "1,64,5,0,5,1", [1, 2], DEL),
      run("c05_delete_std", "2,16,1,16,0", "2,16,1,16,0", [1, 2], DEL),
      run("c05_delete_std", "3,10,4,1,0", "3,20,3,1,0", [1, 2], DEL),
      run("c05_beside_hash_std", "0,3,2,2,1,0,2", "0,3,2,3,1,0,2", [3, 4, 110], BESIDE),
      run("c05_beside_hash_std", "2,5,1,16,2", "2,9,1,16,2", [3, 4, 110], BESIDE),
      run("c05_beside_hash_std", "1,64,21,0,1,2", "1,64,5,0,1,2", [3, 4, 110], BESIDE),
      run("c05_beside_hash_std", "3,5,3,1,2", "3,8,3,1,2", [3, 4, 110], BESIDE))

ITEMS = family("all items, keys and values compared with the contents")
PITEMS = family("up to %s of the nodes replaced by hash nodes, all items, keys and values compared with a walk over the nodes")
check("C06", BASE,
      run("c06_contents_std", "0,4,2,2,1,1", "0,4,3,2,1,1", [1, 101], ITEMS),
      run("c06_contents_std", "0,3,1,16,1,1", "0,3,2,4,1,1", [1, 101], ITEMS),
      run("c06_contents_std", "0,3,3,2,1,0", "0,4,3,2,1,0", [1], ITEMS),
      run("c06_contents_std", "1,64,1,0,3", "1,64,1,1,3", [1], ITEMS),
      run("c06_contents_std", "2,16,1,2", "2,16,1,2", [1], ITEMS),
      run("c06_contents_std", "3,15,4,1", "3,30,2,1", [1], ITEMS),
      run("c06_contents_hashed", "0,3,2,2,2,1", "0,4,2,2,1,1", [1, 101], ITEMS),
      run("c06_partial_std", "0,3,2,2,1,0,3", "0,4,2,2,1,0,3", [1, 110], PITEMS),
      run("c06_partial_std", "2,16,1,2,2", "2,16,1,2,3", [1, 110], PITEMS),
      run("c06_partial_std", "1,64,3,0,1,2", "1,64,2,0,1,3", [1, 110], PITEMS),
      run("c06_partial_std", "3,8,3,1,2", "3,12,3,1,3", [1, 110], PITEMS))

SNAP = family("cloned, then up to %s operations (insert, delete, change in place, bulk insert, subset) on either copy, hashing in between: %s")
check("C07", BASE + HASH,
      run("c07_snapshot_std", "0,2,2,2,1,0,2,0", "0,3,2,2,1,0,2,0", [1, 2, 3, 4, 5, 6], SNAP),
      run("c07_snapshot_hashed", "0,2,1,2,3,0,1,1", "0,2,1,2,3,0,2,1", [1, 2, 3, 4, 5, 6], SNAP),
      run("c07_snapshot_hashed", "0,2,2,2,3,0,1,1", "0,3,2,2,3,0,1,1", [1, 2, 3, 4, 5, 6], SNAP),
      run("c07_snapshot_hashed", "2,3,5,2,1,1", "2,4,5,3,1,1", [1, 2, 3, 4, 5, 6], SNAP),
      run("c07_snapshot_hashed", "3,4,2,5,1,1", "3,8,2,5,1,1", [1, 2, 3, 4, 5, 6], SNAP),
      run("c07_snapshot_hashed", "1,64,63,0,3,1,1", "1,64,13,0,3,1,1", [1, 2, 3, 4, 5, 6], SNAP))

SUB8 = family("up to %s nodes replaced by their hashes beforehand, subset for up to %s probed keys, original hashed before or not")
check("C08", BASE + HASH,
      run("c08_root_hashed", "0,2,2,2,2,0,0,2", "0,3,2,2,2,0,0,2", [1, 2], SUB8),
      run("c08_root_std", "0,2,2,2,2,0,1,1", "0,3,2,2,2,0,1,1", [1, 2, 3, 110], SUB8),
      run("c08_root_hashed", "0,2,1,16,3,0,0,1", "0,2,2,4,2,0,1,1", [1, 2], SUB8),
      run("c08_root_hashed", "1,64,13,0,5,0,1", "1,64,5,0,5,0,1", [1, 2], SUB8),
      run("c08_root_hashed", "2,16,5,3,0,1", "2,16,5,16,0,1", [1, 2], SUB8),
      run("c08_root_hashed", "2,3,5,2,1,1", "2,6,5,3,2,1", [1, 2, 3, 110], SUB8),
      run("c08_root_hashed", "3,5,2,5,1,1", "3,8,3,5,1,1", [1, 2, 3, 110], SUB8))
check("C09", BASE + HASH,
      run("c09_answers_std", "0,2,2,2,2,0,0,2", "0,3,2,2,2,0,0,2", [1, 2, 4], SUB8),
      run("c09_answers_std", "0,2,2,2,2,0,1,1", "0,3,2,2,2,0,1,1", [1, 2, 3, 4, 110], SUB8),
      run("c09_answers_std", "0,3,2,2,3,0,0,1", "0,3,3,2,3,0,0,1", [1, 2, 4], SUB8),
      run("c09_answers_hashed", "0,2,1,16,2,0,0,1", "0,2,2,4,2,0,1,1", [1, 2, 4], SUB8),
      run("c09_answers_hashed", "1,64,9,0,5,0,1", "1,64,3,0,5,0,1", [1, 2, 4], SUB8),
      run("c09_answers_hashed", "1,64,31,0,3,1,1", "1,64,13,0,3,1,1", [1, 2, 4, 3], SUB8),
      run("c09_answers_hashed", "2,16,5,3,0,1", "2,16,5,16,0,1", [1, 2, 4], SUB8),
      run("c09_answers_hashed", "2,4,5,2,1,1", "2,6,5,3,2,1", [1, 2, 3, 4, 110], SUB8),
      run("c09_answers_hashed", "3,6,2,5,1,1", "3,8,3,5,1,1", [1, 2, 3, 4, 110], SUB8))
check("C10", BASE + HASH,
      run("c10_exact_std", "0,2,2,2,2,0,0,2", "0,2,2,2,2,0,1,2", [1, 201, 202], SUB8),
      run("c10_exact_std", "0,2,2,2,2,0,1,1", "0,3,2,2,2,0,1,1", [1, 110, 201, 202], SUB8),
      run("c10_exact_std", "0,3,2,2,3,0,0,1", "0,3,3,2,3,0,0,1", [1, 201, 202], SUB8),
      run("c10_exact_hashed", "0,2,1,16,3,0,0,1", "0,2,2,4,2,0,1,1", [1, 201, 202], SUB8),
      run("c10_exact_hashed", "1,64,13,0,5,0,1", "1,64,5,0,5,0,1", [1, 201, 202], SUB8),
      run("c10_exact_hashed", "2,16,5,3,0,1", "2,16,5,16,0,1", [1, 201, 202], SUB8),
      run("c10_exact_hashed", "2,4,5,2,1,1", "2,6,5,3,2,1", [1, 110, 201, 202], SUB8),
      run("c10_exact_hashed", "3,5,2,5,1,1", "3,8,3,5,1,1", [1, 110, 201, 202], SUB8))
BATCH = family("up to %s nodes replaced by their hashes beforehand, batches of up to %s key sets of up to %s probed keys")
check("C11", BASE + HASH,
      run("c11_batch_std", "0,2,2,2,3,0,0,2,1", "0,3,2,2,3,0,0,2,1", [1], BATCH),
      run("c11_batch_std", "0,2,1,2,2,0,1,2,1", "0,2,2,2,2,0,1,2,1", [1, 2, 110], BATCH),
      run("c11_batch_std", "0,2,1,2,3,0,0,2,2", "0,2,2,2,3,0,0,2,2", [1], BATCH),
      run("c11_batch_hashed", "0,2,1,2,3,0,0,3,1", "0,3,1,2,3,0,0,3,1", [1], BATCH),
      run("c11_batch_hashed", "1,64,63,0,3,0,2,1", "1,64,21,0,3,0,2,1", [1], BATCH),
      run("c11_batch_hashed", "2,4,3,2,0,2,1", "2,16,5,3,0,2,1", [1], BATCH),
      run("c11_batch_hashed", "3,5,2,3,0,2,1", "3,8,2,3,0,2,1", [1], BATCH))
UPD = family("subset for 1..%s probed keys, then 1..%s insertions and deletions of those keys on both")
check("C12", BASE + HASH,
      run("c12_update_std", "0,3,1,2,3,0,1,2", "0,3,1,2,3,0,2,2", [1, 2, 3, 4], UPD),
      run("c12_update_std", "0,3,2,2,3,0,1,1", "0,3,2,2,3,0,1,2", [1, 2, 3, 4], UPD),
      run("c12_update_std", "0,2,1,2,2,0,2,1", "0,2,2,2,2,0,2,2", [1, 2, 3, 4], UPD),
      run("c12_update_hashed", "2,4,5,2,1,2", "2,5,5,3,2,2", [1, 2, 3, 4], UPD),
      run("c12_update_std", "2,16,5,4,1,1", "2,16,5,16,1,1", [1, 2, 3, 4], UPD),
      run("c12_update_std", "1,64,63,0,3,1,2", "1,64,13,0,5,1,2", [1, 2, 3, 4], UPD),
      run("c12_update_hashed", "1,64,13,0,3,1,1", "1,64,5,0,3,1,1", [1, 2, 3, 4], UPD),
      run("c12_update_std", "3,5,2,5,1,2", "3,8,3,5,1,2", [1, 2, 4], UPD))
STAND = family("any one subtrie of 32 bytes or more stored as its hash before or after any of the other entries, then a lookup, insertion or deletion of any probed key")
TWO = family("any two disjoint subtries of 32 bytes or more stored as their hashes, before or after the other entries")
check("C13", BASE + HASH,
      run("c13_stand_in_std", "0,2,2,2,2,0", "0,3,2,2,3,0", [1, 2, 3, 4], STAND),
      run("c13_stand_in_std", "0,3,1,2,3,0", "0,3,1,3,3,0", [1, 2, 3, 4], STAND),
      run("c13_stand_in_hashed", "2,5,5,2", "2,16,5,3", [1, 2, 3, 4], STAND),
      run("c13_stand_in_std", "1,64,63,0,3", "1,64,13,0,3", [1, 2, 3, 4], STAND),
      run("c13_stand_in_std", "3,5,3,5", "3,8,3,5", [1, 2, 3, 4], STAND),
      run("c13_two_std", "0,3,2,2,3,0", "0,4,2,2,3,0", [5], TWO),
      run("c13_two_std", "1,64,9,0,3", "1,64,3,0,3", [5], TWO),
      run("c13_two_std", "2,9,5,2", "2,16,5,2", [5], TWO))

check("C14", BASE,
      run("c14_plain", "64", "64", [1, 2, 3, 4, 5, 6], text("every sequence of 0..%s free nibbles: reverse, pop one, push one free nibble, merge one, size")),
      run("c14_at", "64", "64", [1, 2, 3, 4, 5, 6, 7, 8], text("every sequence of 0..%s free nibbles, every position or amount in range: read, take, pop, split, truncate")),
      run("c14_range", "64,5", "64,1", [1], text("sequences of free nibbles of length %s down to 0 in steps of %s, every range")),
      run("c14_two", "64", "64", [1], text("every two sequences of free nibbles of at most %s nibbles together: merge, push in front")),
      run("c14_chain", "3,3", "4,4", [1], text("every sequence of 0..%s free nibbles, every chain of %s operations")),
      run("c14_chain", "10,2", "40,2", [1], text("every sequence of 0..%s free nibbles, every chain of %s operations")))

REFUSED = text("every sequence of 0..%s free nibbles, requests 1..%s beyond its end, at wrap-around boundaries, and any 64-bit amount beyond")
for_both = lambda r: [r, dict(r, build="unchecked")]
check("C15", BASE + ["the same again for the build without overflow checks and debug assertions"],
      *[x for r in (
          run("c15_refused", "64,66", "64,200", [1], REFUSED),
          run("c15_empty", "0", "0", [1], text("the empty sequence")),
          run("c15_overfull", "64", "64", [2], text("every two sequences of free nibbles of 65..128 nibbles together (each at most 64), and one more nibble on 64 (excess up to %s)")),
          run("c15_large_nibble", "64", "64", [1], text("every sequence of fewer than %s free nibbles, every nibble value 16..255")),
          run("c15_accepted", "64,66", "64,200", [1], REFUSED),
          run("c15_fits", "64", "64", [1], text("every sequence of 0..%s free nibbles, every request that just fits")),
      ) for x in for_both(r)])

MUCH = "byte strings of 22 lengths from 41 to 65569, the first and last four bytes free"
check("C16", BASE,
      run("c16_from_bytes", "40", "80", [1, 2], text("every byte string of 0..%s free bytes, both byte orders, and back to bytes")),
      run("c16_from_many_bytes", "0", "0", [1], text(MUCH)),
      run("c16_from_hash", "0", "0", [1], text("every 256-bit hash, both byte orders, and back to bytes")),
      run("c16_from_int", "0", "0", [1, 2], text("every u8, u16, u32, u64, U128, U256 and U512, plain and byte-padded")),
      run("c16_back", "66", "100", [1, 2], text("every sequence of 0..%s free nibbles to bytes and to a 256-bit integer")))

check("C17", BASE,
      run("c17_print", "64", "64", [1], text("every sequence of 0..%s free nibbles, lower case, upper case and default")),
      run("c17_parse", "64,1", "64,3", [1], text("texts of 0..%s digits in either case with and without 0x, %s of the digits (adjacent, anywhere) free, the others fixed with and without leading zeros")),
      run("c17_any_text", "131,1", "131,2", [1, 2], text("texts of 0..%s digits with %s free ASCII characters (adjacent, anywhere), with and without 0x")),
      run("c17_short_text", "5", "8", [1, 2], text("every ASCII text of 0..%s characters")),
      run("c17_long_text", "0", "0", [2], text("texts of 20 lengths from 132 to 1000 digits with one free ASCII character at four places")),
      run("c17_foreign_text", "70", "131", [1], text("texts of 0..%s digits with one character beyond ASCII anywhere")))

check("C18", BASE,
      run("c18_encode", "64", "64", [1], text("every sequence of 0..%s free nibbles as leaf and as extension, encoded and decoded again")),
      run("c18_decode", "40", "80", [1, 2], text("every byte string of 1..%s free bytes")),
      run("c18_decode_many", "0", "0", [1], text(MUCH)))

check("C19", BASE,
      run("c19_compare", "64,2", "64,1", [1, 2, 3], text("every two sequences of free nibbles, the longer of length %s down to 0 in steps of %s, by every place of the first difference")),
      run("c19_zeros", "64", "64", [1], text("every sequence of free nibbles against itself with leading zeros, up to %s nibbles")),
      run("c19_unequal", "64", "64", [1], text("every two sequences of different lengths up to %s")))

check("C20", BASE,
      run("c20_ints", "0", "0", [1, 2], text("every u8, u16, u32, u64, U128, U256 and U512")),
      run("c20_bytes", "40", "200", [1, 2], text("every byte string of 0..%s free bytes")),
      run("c20_many_bytes", "0", "0", [1, 2], text(MUCH)),
      run("c20_hash", "0", "0", [1, 2], text("every 256-bit hash")))

ALTERED = family("against the same trie with one node changed in one respect (kind, path, value, hash, slots of children) or none, %s nodes replaced by hash nodes, hashes computed beforehand: %s")
check("C21", BASE + HASH,
      run("c21_altered_std", "0,3,2,2,1,0,0,0", "0,3,3,2,1,0,0,0", [1, 2, 120], ALTERED),
      run("c21_altered_hashed", "0,2,2,2,1,0,0,1", "0,3,2,2,1,0,0,1", [1, 2, 120], ALTERED),
      run("c21_altered_std", "0,2,2,2,5,0,1,0", "0,3,2,2,5,0,2,0", [1, 2, 110, 120], ALTERED),
      run("c21_altered_hashed", "0,2,2,2,5,0,1,0", "0,2,2,4,5,0,2,0", [1, 2, 110, 120], ALTERED),
      run("c21_altered_std", "1,64,21,0,5,0,0", "1,64,9,0,5,0,0", [1, 2, 120], ALTERED),
      run("c21_altered_std", "2,8,5,2,0,0", "2,16,5,2,0,0", [1, 2, 120], ALTERED),
      run("c21_altered_std", "3,5,2,1,0,0", "3,8,3,1,0,0", [1, 2, 120], ALTERED),
      run("c21_two_std", "0,2,2,2,1,0", "0,3,2,2,1,0", [1, 2], family("against any other of them")),
      run("c21_two_hashed", "0,2,2,2,1,0", "0,3,1,2,1,0", [1, 2], family("against any other of them")))

STATS = family("any up to %s nodes replaced by hash nodes")
check("C22", BASE,
      run("c22_stats_std", "0,3,2,2,1,0,2", "0,3,3,2,1,0,3", [1, 2, 110], STATS),
      run("c22_stats_hashed", "0,2,2,16,1,0,1", "0,3,2,3,1,0,2", [1, 2, 110], STATS),
      run("c22_stats_std", "1,64,9,0,1,3", "1,64,3,0,1,3", [1, 2, 110], STATS),
      run("c22_stats_std", "2,16,1,2,2", "2,16,1,2,3", [1, 2, 110], STATS),
      run("c22_stats_std", "3,6,2,1,2", "3,12,3,1,3", [1, 2, 110], STATS),
      run("c22_compare_std", "0,3,2,2,1,0,2", "0,3,3,2,1,0,2", [1, 110], STATS),
      run("c22_compare_std", "2,16,1,2,2", "2,16,1,2,2", [1, 110], STATS),
      run("c22_compare_std", "3,6,2,1,2", "3,10,3,1,2", [1, 110], STATS))

DIFF = family("%s nodes replaced by hash nodes, against the same trie changed (1: one node in one respect, 2: by an insertion, 3: by a deletion, 4: by hash nodes in place of nodes, 5: two nodes in one respect each): %s; both ways round")
check("C23", BASE + HASH,
      run("c23_pair", "0,2,2,2,1,0,0,1", "0,3,2,2,1,0,0,1", [1, 2, 3, 120], DIFF),
      run("c23_pair", "0,2,2,2,5,0,1,1", "0,2,3,2,5,0,1,1", [1, 2, 3, 120], DIFF),
      run("c23_pair", "0,2,2,2,1,0,0,2", "0,3,2,2,1,0,0,2", [1, 2, 3], DIFF),
      run("c23_pair", "0,3,1,2,5,0,0,3", "0,3,2,2,1,0,0,3", [1, 2], DIFF),
      run("c23_pair", "0,2,2,2,5,0,1,4", "0,3,2,2,5,0,2,4", [1, 110], DIFF),
      run("c23_pair", "1,64,63,0,3,0,1", "1,64,21,0,3,0,1", [1, 2, 3, 120], DIFF),
      run("c23_pair", "2,4,5,2,0,2", "2,16,5,2,0,2", [1, 2], DIFF),
      run("c23_pair", "3,4,2,1,0,1", "3,6,3,1,0,1", [1, 2, 3, 120], DIFF),
      run("c23_pair", "3,3,1,3,0,5", "3,3,2,5,0,5", [1, 2, 3, 120], DIFF),
      run("c23_apart", "60,15,33", "62,1,33", [1, 2, 3, 4], text("two keys below an extension of any length 0..%s in steps of %s beside keys below shorter nodes, values of %s bytes, each key kept, changed or missing in the other trie")),
      run("c23_apart", "60,15,2", "62,2,2", [1, 2, 3, 4], text("two keys below an extension of any length 0..%s in steps of %s beside keys below shorter nodes, values of %s bytes, each key kept, changed or missing in the other trie")),
      run("c23_two", "0,2,1,4,1,0", "0,2,2,2,1,0", [1, 2], family("against any other of them")))

QUERY = family("%s nodes replaced by hash nodes, any probed key, with or without node types, key pieces and node values in the report")
check("C24", BASE,
      run("c24_query_std", "0,2,2,2,1,0,1", "0,3,2,2,1,0,1", [1, 2, 3, 110], QUERY),
      run("c24_query_hashed", "0,2,2,16,1,0,0", "0,2,2,16,1,0,1", [1, 2, 3], QUERY),
      run("c24_query_std", "1,64,63,0,1,1", "1,64,21,0,1,1", [1, 2, 3, 110], QUERY),
      run("c24_query_std", "2,16,1,2,1", "2,16,1,3,1", [1, 2, 3, 110], QUERY),
      run("c24_query_std", "3,5,2,1,1", "3,8,3,1,1", [1, 2, 3, 110], QUERY))

WIRE = family("%s nodes replaced by hash nodes, hashes cached beforehand: %s, the copy updated afterwards: %s; structures written by position or by field name")
check("C25", BASE + HASH + ["the serialisation format is a lossless list of tokens, by position or by field name"],
      run("c25_nibbles", "64,1,0", "64,2,0", [1, 2], text("every sequence length 0..%s, %s free nibbles at the front, %s at the back")),
      run("c25_nibbles", "64,0,1", "64,1,2", [1, 2], text("every sequence length 0..%s, %s free nibbles at the front, %s at the back")),
      run("c25_nibbles", "4,2,2", "6,3,3", [1, 2], text("every sequence length 0..%s, %s free nibbles at the front, %s at the back")),
      run("c25_trie_std", "0,2,2,2,1,0,0,0,0", "0,3,2,2,1,0,0,0,0", [1], WIRE),
      run("c25_trie_hashed", "0,2,2,2,3,0,1,1,0", "0,2,2,4,3,0,1,1,0", [1, 110], WIRE),
      run("c25_trie_hashed", "0,2,1,2,5,0,0,1,1", "0,2,2,2,5,0,0,1,1", [2], WIRE),
      run("c25_trie_hashed", "1,64,63,0,5,0,0,0", "1,64,21,0,5,0,0,0", [1], WIRE),
      run("c25_trie_std", "2,16,5,2,0,0,0", "2,16,5,3,0,0,0", [1], WIRE))

THREADS = family("the threads do %s and %s (0 hash the shared trie, 1 hash a clone, 2 insert into a clone and hash it, 3 delete from a clone and hash it), every schedule with at most %s unforced switches, switches possible before every attempt to take a lock; hashes cached beforehand: %s")
check("C26", BASE + HASH + ["the locks are those of the stand-in for parking_lot in harness26/parking_lot, run by the engine's scheduler; between lock operations threads run without interruption",
                            "sequentially consistent memory"],
      run("c26_threads", "0,2,2,2,3,0,0,0,1,1", "0,2,2,2,3,0,0,0,2,0", [1], THREADS),
      run("c26_threads", "0,1,2,2,5,0,0,0,3,0", "0,1,2,2,5,0,0,0,4,1", [1], THREADS),
      run("c26_threads", "0,2,1,2,3,0,0,1,1,1", "0,2,1,2,3,0,0,1,2,1", [1], THREADS),
      run("c26_threads", "0,2,1,2,3,0,0,2,1,1", "0,2,2,2,3,0,0,2,1,0", [1], THREADS),
      run("c26_threads", "0,2,1,2,3,0,0,3,1,1", "0,2,2,2,3,0,0,3,1,0", [1], THREADS),
      run("c26_threads", "0,1,1,2,3,0,2,3,2,1", "0,2,1,2,3,0,2,3,1,1", [1], THREADS))

# tries that are deep, full or hold long values: many entries, few things left open
FAM1 = family("any probed key inserted, deleted or neither, then it and every stored key looked up")
PARTIAL = family("against the same trie with up to %s nodes replaced by their own hashes, hashes computed beforehand or not")

def also(prop, *runs):
    CHECKS[prop]["runs"] += runs

also("C01",
     run("c01_family_std", "3,64,1,1", "3,64,1,1", [1, 2, 3, 4], FAM1),
     run("c01_family_std", "4,2,1,5", "4,3,1,9", [1, 2, 3, 4], FAM1),
     run("c01_family_std", "0,2,1,2,6,1", "0,3,1,2,6,1", [1, 2, 3, 4, 101], FAM1),
     run("c01_family_std", "5,15,7,4", "5,14,7,16", [1, 2, 3, 4], FAM1),
     run("c01_family_hashed", "4,1,7,4", "4,2,7,9", [1, 2, 3, 4], FAM1))
also("C02",
     run("c02_shape_std", "3,64,1,1", "3,64,1,1", [1], SHAPE),
     run("c02_shape_std", "4,2,1,4", "4,4,1,9", [1], SHAPE),
     run("c02_shape_std", "5,15,7,2", "5,14,7,2", [1], SHAPE),
     run("c02_undo_std", "3,64,1,1", "3,64,1,1", [1], UNDO),
     run("c02_undo_std", "4,2,1,4", "4,4,1,9", [1], UNDO),
     run("c02_undo_std", "5,16,7,3", "5,14,7,16", [1], UNDO),
     run("c02_clear_std", "3,32,1,1", "3,36,1,1", [1, 2], CLEAR),
     run("c02_clear_std", "4,108,1,2", "4,106,1,2", [1, 2], CLEAR),
     run("c02_shape_std", "0,2,1,2,6,0", "0,3,1,2,6,0", [1], SHAPE),
     run("c02_undo_std", "0,2,1,2,6,0", "0,3,1,2,6,0", [1], UNDO))
also("C03",
     run("c03_family_std", "3,64,1,7", "3,64,1,7", [1], ROOT),
     run("c03_family_std", "4,1,7,4", "4,4,7,4", [1], ROOT),
     run("c03_family_hashed", "4,1,7,4", "4,4,7,4", [1], ROOT),
     run("c03_family_hashed", "5,15,7,2", "5,8,7,2", [1], ROOT),
     run("c03_family_std", "0,2,1,2,6,0", "0,3,1,2,6,0", [1], ROOT),
     run("c03_huge_std", "0", "0", [1], text("one or two entries, the value of the first of 5 lengths around 65536 bytes (first free)")))
also("C04",
     run("c04_family", "3,20,1,7", "3,30,1,7", [7], FAMH),
     run("c04_family", "4,108,7,2", "4,106,7,3", [7], FAMH),
     run("c04_nested", "3,12,1,7,0", "3,16,1,7,0", [10, 11, 12, 21, 22, 23, 24], NESTED),
     run("c04_nested", "4,121,7,2,0", "4,116,7,2,0", [10, 11, 12, 21, 22, 23, 24], NESTED))
also("C05",
     run("c05_delete_std", "3,64,1,1,0", "3,64,1,1,0", [1, 2], DEL),
     run("c05_delete_std", "4,2,1,4,0", "4,4,1,9,0", [1, 2], DEL),
     run("c05_delete_std", "5,16,7,4,0", "5,15,7,16,0", [1, 2], DEL),
     run("c05_delete_hashed", "4,1,7,3,1", "4,2,7,5,1", [1, 2], DEL),
     run("c05_delete_hashed", "0,2,1,2,6,0,1", "0,3,1,2,6,0,1", [1, 2], DEL),
     run("c05_beside_hash_std", "0,2,1,2,6,0,2", "0,2,1,3,6,0,2", [3, 4, 110], BESIDE),
     run("c05_beside_hash_std", "4,104,1,4,1", "4,103,1,5,1", [3, 4, 110], BESIDE))
also("C06",
     run("c06_contents_std", "3,64,1,1", "3,64,1,1", [1], ITEMS),
     run("c06_contents_std", "4,2,1,4", "4,8,1,4", [1], ITEMS),
     run("c06_contents_hashed", "5,14,7,2", "5,8,7,2", [1], ITEMS),
     run("c06_contents_std", "0,2,1,2,6,0", "0,3,1,2,6,0", [1], ITEMS),
     run("c06_partial_std", "4,1,1,4,1", "4,2,1,4,1", [1, 110], PITEMS),
     run("c06_partial_std", "3,64,1,1,1", "3,64,1,1,1", [1, 110], PITEMS),
     run("c06_partial_std", "5,16,7,2,1", "5,14,7,2,1", [1, 110], PITEMS))
also("C07",
     run("c07_snapshot_std", "4,108,7,3,1,0", "4,106,7,4,1,0", [1, 2, 3, 4, 5, 6], SNAP),
     run("c07_snapshot_hashed", "3,16,1,7,1,1", "3,20,1,7,1,1", [1, 2, 3, 4, 5, 6], SNAP),
     run("c07_snapshot_std", "0,2,1,2,6,0,1,0", "0,2,1,2,6,0,1,0", [1, 2, 3, 4, 5, 6], SNAP),
     run("c07_snapshot_hashed", "5,16,7,2,1,1", "5,16,7,2,1,1", [1, 2, 3, 4, 5, 6], SNAP))
also("C08",
     run("c08_root_hashed", "3,64,1,7,0,1", "3,64,1,7,0,1", [1, 2], SUB8),
     run("c08_root_hashed", "4,1,7,3,0,1", "4,2,7,5,0,1", [1, 2], SUB8),
     run("c08_root_hashed", "2,16,7,2,0,100", "2,5,3,2,0,100", [1], SUB8),
     run("c08_root_hashed", "4,8,7,3,0,100", "4,8,7,3,0,100", [1], SUB8),
     run("c08_root_std", "5,16,7,2,0,100", "5,15,7,2,0,100", [1], SUB8),
     run("c08_root_std", "0,2,1,2,6,0,0,1", "0,2,1,3,6,0,0,1", [1, 2], SUB8))
also("C09",
     run("c09_answers_hashed", "3,64,1,7,0,1", "3,64,1,7,0,1", [1, 2, 4], SUB8),
     run("c09_answers_std", "4,1,7,3,0,1", "4,2,7,5,0,1", [1, 2, 4], SUB8),
     run("c09_answers_std", "2,16,5,2,0,100", "2,16,5,2,0,100", [1, 4], SUB8),
     run("c09_answers_std", "4,8,7,3,0,100", "4,8,7,3,0,100", [1, 4], SUB8),
     run("c09_answers_std", "5,16,7,2,0,100", "5,15,7,2,0,100", [1, 4], SUB8),
     run("c09_answers_std", "0,2,1,2,6,0,0,1", "0,2,1,3,6,0,0,1", [1, 2, 4], SUB8))
also("C10",
     run("c10_exact_hashed", "3,64,1,7,0,1", "3,64,1,7,0,1", [1, 201, 202], SUB8),
     run("c10_exact_std", "4,1,7,3,0,1", "4,2,7,5,0,1", [1, 201, 202], SUB8),
     run("c10_exact_std", "2,16,5,2,0,100", "2,16,5,2,0,100", [1, 201, 202], SUB8),
     run("c10_exact_std", "4,8,7,3,0,100", "4,8,7,3,0,100", [1, 201, 202], SUB8),
     run("c10_exact_std", "5,16,7,2,0,100", "5,15,7,2,0,100", [1, 201, 202], SUB8),
     run("c10_exact_std", "0,2,1,2,6,0,0,1", "0,2,1,3,6,0,0,1", [1, 201, 202], SUB8))
also("C11",
     run("c11_batch_hashed", "4,8,7,2,0,2,1", "4,8,7,2,0,2,1", [1], BATCH),
     run("c11_batch_std", "2,8,3,2,0,2,100", "2,16,3,2,0,2,100", [1], BATCH),
     run("c11_batch_std", "4,116,7,2,0,2,100", "4,112,7,2,0,2,100", [1], BATCH),
     run("c11_batch_std", "0,2,1,2,6,0,0,2,1", "0,2,1,3,6,0,0,2,1", [1], BATCH))
also("C12",
     run("c12_update_std", "3,64,1,7,1,1", "3,64,1,7,1,1", [1, 2, 3, 4], UPD),
     run("c12_update_std", "4,4,7,3,1,1", "4,4,7,5,1,1", [1, 2, 3, 4], UPD),
     run("c12_update_std", "2,4,3,2,100,1", "2,6,3,2,100,1", [1, 2, 4], UPD),
     run("c12_update_std", "4,112,7,2,100,1", "4,108,7,2,100,1", [1, 2, 4], UPD),
     run("c12_update_std", "0,2,1,2,6,0,1,1", "0,2,1,3,6,0,1,1", [1, 2, 3, 4], UPD))
also("C13",
     run("c13_stand_in_std", "3,10,1,7", "3,14,1,7", [1, 2, 3, 4], STAND),
     run("c13_stand_in_std", "4,116,7,2", "4,112,7,3", [1, 2, 3, 4], STAND),
     run("c13_two_std", "4,112,7,2", "4,110,7,2", [5], TWO))
also("C21",
     run("c21_partial_std", "0,3,2,2,3,0,2", "0,3,2,2,5,0,2", [1, 2, 110], PARTIAL),
     run("c21_partial_hashed", "0,2,2,2,5,0,2", "0,3,2,2,5,0,2", [1, 2, 110], PARTIAL),
     run("c21_partial_hashed", "2,3,5,2,2", "2,5,5,2,2", [1, 2, 110], PARTIAL),
     run("c21_partial_hashed", "4,121,7,2,1", "4,116,7,2,1", [1, 2, 110], PARTIAL),
     run("c21_partial_hashed", "3,64,1,7,1", "3,64,1,7,1", [1, 2, 110], PARTIAL),
     run("c21_altered_std", "3,12,1,7,0,0", "3,20,1,7,0,0", [1, 2, 120], ALTERED),
     run("c21_altered_std", "4,116,7,2,0,0", "4,108,7,2,0,0", [1, 2, 120], ALTERED),
     run("c21_altered_std", "0,2,1,2,6,0,0,0", "0,2,1,3,6,0,0,0", [1, 2, 120], ALTERED))
also("C22",
     run("c22_stats_std", "3,64,1,1,1", "3,64,1,1,1", [1, 2, 110], STATS),
     run("c22_stats_std", "4,2,1,2,1", "4,4,1,2,1", [1, 2, 110], STATS),
     run("c22_stats_std", "5,16,7,2,1", "5,15,7,2,1", [1, 2, 110], STATS),
     run("c22_compare_std", "5,16,7,2,1", "5,15,7,2,1", [1, 110], STATS),
     run("c22_compare_std", "4,2,1,2,1", "4,4,1,2,1", [1, 110], STATS))
also("C23",
     run("c23_pair", "3,24,1,7,0,2", "3,32,1,7,0,2", [1, 2, 3], DIFF),
     run("c23_pair", "4,108,7,3,0,2", "4,106,7,4,0,2", [1, 2, 3], DIFF),
     run("c23_pair", "4,116,7,3,0,3", "4,108,7,4,0,3", [1, 2, 3], DIFF),
     run("c23_pair", "4,121,7,3,0,1", "4,116,7,3,0,1", [1, 2, 3, 120], DIFF),
     run("c23_pair", "0,1,1,2,6,0,0,2", "0,2,1,2,6,0,0,2", [1, 2], DIFF))
also("C24",
     run("c24_query_std", "3,64,1,7,0", "3,64,1,7,0", [1, 2, 3], QUERY),
     run("c24_query_std", "4,2,7,4,0", "4,4,7,6,0", [1, 2, 3], QUERY),
     run("c24_query_std", "5,16,7,3,0", "5,15,7,4,0", [1, 2, 3], QUERY),
     run("c24_query_std", "0,2,1,2,6,0,0", "0,3,1,2,6,0,0", [1, 2, 3], QUERY))
also("C25",
     run("c25_trie_std", "3,32,1,7,0,0,0", "3,48,1,7,0,0,0", [1], WIRE),
     run("c25_trie_hashed", "4,4,7,2,0,0,0", "4,8,7,2,0,0,0", [1], WIRE),
     run("c25_trie_std", "5,16,7,2,0,0,0", "5,15,7,2,0,0,0", [1], WIRE),
     run("c25_trie_std", "0,2,1,2,6,0,0,0,0", "0,2,1,3,6,0,0,0,0", [1], WIRE))

AGAIN = family("up to %s nodes replaced by their hashes beforehand, subset for up to %s probed keys, again for the same in another order or each twice, hashed in between or not")
INNER = family("up to %s nodes replaced by their hashes beforehand, subset for up to %s probed keys, then one for all, none or every second of them from it and from the original")
check("C27", BASE + HASH,
      run("c27_again_std", "0,2,2,2,3,0,0,2", "0,3,2,2,2,0,0,2", [1], AGAIN),
      run("c27_again_hashed", "0,2,2,2,3,0,1,2", "0,2,2,2,2,0,1,2", [1, 2, 110], AGAIN),
      run("c27_nested_std", "0,2,2,2,3,0,0,2", "0,3,2,2,2,0,0,2", [1], INNER),
      run("c27_nested_hashed", "0,2,2,2,5,0,1,1", "0,3,2,2,2,0,1,1", [1, 2, 110], INNER),
      run("c27_again_hashed", "1,64,31,0,5,0,1", "1,64,13,0,5,0,1", [1], AGAIN),
      run("c27_nested_hashed", "1,64,63,0,5,0,1", "1,64,13,0,5,0,1", [1], INNER),
      run("c27_nested_hashed", "2,3,3,2,0,2", "2,5,3,2,0,2", [1], INNER),
      run("c27_nested_std", "3,32,1,7,0,1", "3,64,1,7,0,1", [1], INNER),
      run("c27_again_hashed", "5,16,7,2,0,100", "5,15,7,2,0,100", [1], AGAIN),
      run("c27_nested_std", "4,108,7,3,0,100", "4,16,7,3,0,100", [1], INNER))

REBUILT = family("up to %s nodes replaced by hash nodes, built again from its items, in bulk or one by one, in order, in reverse or from both ends")
PARTS = family("up to %s nodes replaced by hash nodes, its items split in two anywhere, a trie made of each part and one added to the other, hashed before or not")
check("C28", BASE + HASH,
      run("c28_rebuilt_std", "0,3,2,2,3,0,2", "0,3,2,2,2,0,3", [1, 110], REBUILT),
      run("c28_rebuilt_std", "0,4,1,2,1,0,1", "0,4,2,2,1,0,1", [1, 110], REBUILT),
      run("c28_rebuilt_hashed", "0,2,2,4,1,0,2", "0,2,2,16,1,0,2", [1, 110], REBUILT),
      run("c28_rebuilt_std", "1,64,9,0,5,1", "1,64,3,0,5,2", [1, 110], REBUILT),
      run("c28_rebuilt_std", "2,9,5,2,1", "2,16,5,2,1", [1, 110], REBUILT),
      run("c28_rebuilt_std", "3,64,1,7,1", "3,64,1,7,1", [1, 110], REBUILT),
      run("c28_rebuilt_hashed", "4,2,7,3,0", "4,8,7,3,0", [1], REBUILT),
      run("c28_rebuilt_hashed", "5,15,7,3,0", "5,10,7,3,0", [1], REBUILT),
      run("c28_rebuilt_std", "0,2,1,2,6,0,1", "0,2,1,3,6,0,1", [1, 110], REBUILT),
      run("c28_parts_std", "0,3,2,2,3,0,0", "0,3,2,2,2,0,1", [2], PARTS),
      run("c28_parts_hashed", "0,3,1,2,5,0,1", "0,3,2,2,5,0,1", [2, 110], PARTS),
      run("c28_parts_hashed", "2,5,5,2,1", "2,9,5,2,1", [2, 110], PARTS),
      run("c28_parts_std", "1,64,31,0,5,1", "1,64,9,0,5,1", [2, 110], PARTS),
      run("c28_parts_std", "4,108,7,2,0", "4,104,7,2,0", [2], PARTS))

REFUSED = family("up to %s nodes replaced by hash nodes, subset of up to %s probed keys, the error of the first key that runs into a hash node")
check("C29", BASE + HASH,
      run("c29_bytes", "40", "80", [1, 2], text("the empty byte string, every byte string of 34..%s free bytes, and " + MUCH)),
      run("c29_prefix", "40", "80", [1, 2], text("every byte string of 1..%s free bytes, and " + MUCH)),
      run("c29_unexpected_std", "0,2,2,2,3,0,1,2", "0,3,2,2,3,0,1,2", [1, 2, 110], REFUSED),
      run("c29_unexpected_hashed", "0,3,1,2,3,0,2,1", "0,3,2,2,2,0,2,1", [1, 2, 110], REFUSED),
      run("c29_unexpected_std", "1,64,31,0,3,1,1", "1,64,9,0,3,1,1", [1, 2, 110], REFUSED),
      run("c29_unexpected_std", "2,4,3,2,1,1", "2,16,3,2,1,1", [1, 2, 110], REFUSED),
      run("c29_unexpected_std", "4,116,7,2,1,1", "4,108,7,2,1,1", [1, 2, 110], REFUSED))

ALOUD = family("up to %s nodes replaced by hash nodes, a probed key looked up and deleted or inserted with and without logging")
HEARD = family("up to %s nodes replaced by hash nodes, iterated, hashed and a subset taken for a probed key with and without logging")
check("C30", BASE + HASH + ["the logger takes every message at the finest level, formats it and drops the text"],
      run("c30_updates_std", "0,2,2,2,3,0,1", "0,3,2,2,3,0,1", [1, 2, 3, 110], ALOUD),
      run("c30_updates_hashed", "0,2,1,2,5,1,0", "0,3,2,2,5,1,0", [1, 2, 101], ALOUD),
      run("c30_updates_hashed", "0,3,1,2,1,0,0", "0,2,2,4,1,0,0", [1, 2], ALOUD),
      run("c30_updates_std", "3,4,1,1,0", "3,8,1,1,0", [1, 2], ALOUD),
      run("c30_reads_hashed", "0,2,2,2,3,0,1", "0,3,2,2,3,0,1", [4, 5, 110], HEARD),
      run("c30_reads_hashed", "1,64,63,0,5,0", "1,64,9,0,5,1", [4], HEARD))

# keys of extreme digits, whose numbers hide leading zeros or fill the word
for fill in "23":
    def ends(step, rest):
        return "1,64,%d,%s,%s" % (step, fill, rest)
    also("C02",
         run("c02_shape_std", ends(3, "3"), ends(1, "3"), [1], SHAPE),
         run("c02_undo_std", ends(13, "3"), ends(5, "3"), [1], UNDO),
         run("c02_clear_std", ends(7, "3"), ends(3, "3"), [1, 2], CLEAR))
    also("C03", run("c03_family_std", ends(7, "5"), ends(3, "5"), [1], ROOT))
    also("C04", run("c04_family", ends(63, "5"), ends(31, "5"), [7], FAMH))
    also("C05", run("c05_delete_std", ends(9, "3,0"), ends(3, "3,0"), [1, 2], DEL),
         run("c05_beside_hash_std", ends(63, "1,2"), ends(21, "1,2"), [3, 4, 110], BESIDE))
    also("C06", run("c06_contents_std", ends(3, "3"), ends(1, "3"), [1], ITEMS),
         run("c06_partial_std", ends(9, "1,2"), ends(3, "1,3"), [1, 110], PITEMS))
    also("C09", run("c09_answers_hashed", ends(31, "5,0,1"), ends(9, "5,0,1"), [1, 2, 4], SUB8))
    also("C10", run("c10_exact_hashed", ends(31, "5,0,1"), ends(9, "5,0,1"), [1, 201, 202], SUB8))
    also("C12", run("c12_update_std", ends(31, "3,1,1"), ends(13, "3,1,1"), [1, 2, 3, 4], UPD))
    also("C21", run("c21_altered_std", ends(63, "5,0,0"), ends(21, "5,0,0"), [1, 2, 120], ALTERED))
    also("C22", run("c22_stats_std", ends(31, "1,3"), ends(9, "1,3"), [1, 2, 110], STATS))
    also("C24", run("c24_query_std", ends(63, "1,1"), ends(31, "1,1"), [1, 2, 3, 110], QUERY))
    also("C28", run("c28_rebuilt_std", ends(21, "5,1"), ends(9, "5,1"), [1, 110], REBUILT))

# longer short keys
also("C02", run("c02_undo_std", "0,2,4,2,1,0", "0,3,4,2,1,0", [1], UNDO))
also("C05", run("c05_delete_std", "0,2,4,2,1,0,0", "0,3,4,2,1,0,0", [1, 2], DEL))

//! The root hash is the Ethereum Merkle-Patricia root of the contents.
use crate::model::*;
use crate::mpt::*;
use crate::sym::*;
use crate::world::*;
use eth_trie_utils::partial_trie::*;

fn agrees<T: PartialTrie>(t: &T, m: &Map) {
    check(same_hash(t.hash(), &root(m)), 1);
    trace(m.e.len() as u64);
    cover(1);
}

/// every trie of a family
fn family<T: PartialTrie>() {
    let w = World::<T>::new(&mut P(0));
    agrees(&w.t, &w.m);
}

const LENS: [usize; 20] = [1, 2, 26, 27, 28, 29, 30, 31, 32, 33, 54, 55, 56, 57, 58, 128, 255, 256, 257, 1000];

/// one entry: any key length, any of the value lengths
/// params: longest key, number of value lengths
fn leaf<T: PartialTrie>() {
    let k = Key::packed(choice(param(0) + 1));
    let v = value_sized(LENS[choice(param(1))]);
    let mut t = T::default();
    let mut m = Map::default();
    t.insert(k.nibbles(), v.clone());
    m.insert(&k, &v);
    agrees(&t, &m);
}

/// two entries that part after any number of nibbles and go on for few: nodes around 32 bytes inside extension and branch
/// params: longest common part, longest tails, first and last+1 of the value lengths tried
fn pair<T: PartialTrie>() {
    let pre = Key::packed(choice(param(0) + 1));
    let mut t = T::default();
    let mut m = Map::default();
    let lens = &LENS[param(2)..param(3)];
    for i in 0..2 {
        let mut k = pre.clone();
        let tail = choice(param(1) + 1 + i);
        for j in 0..tail {
            k.n.push(if j == 0 { [3, 12][i] } else { 9 });
        }
        let v = value_sized(lens[choice(lens.len())]);
        crate::note!("key {}", hex(&k.n));
        t.insert(k.nibbles(), v.clone());
        m.insert(&k, &v);
    }
    agrees(&t, &m);
}

/// a branch with value of any of the lengths and `n` children of a size around 32 bytes
fn branch_value<T: PartialTrie>() {
    let n = 1 + choice(param(0));
    let mut t = T::default();
    let mut m = Map::default();
    let pre = choice(2);
    let k = Key { n: vec![4; pre] };
    let v = value_sized(LENS[choice(20)]);
    t.insert(k.nibbles(), v.clone());
    m.insert(&k, &v);
    let l = [1, 28, 29, 30, 31, 32, 33][choice(7)];
    for i in 0..n {
        let mut k = k.clone();
        k.n.push(i as u8);
        let mut v = if l == 1 && i > 0 { vec![var(7) as u8] } else { value_sized(l) };
        if l > 1 {
            v[1] = i as u8;
        }
        t.insert(k.nibbles(), v.clone());
        m.insert(&k, &v);
    }
    agrees(&t, &m);
}

/// values around the size where the length takes three bytes, in a leaf or in a branch
fn huge<T: PartialTrie>() {
    let v = value_sized([65531, 65535, 65536, 66000, 70000][choice(5)]);
    let mut t = T::default();
    let mut m = Map::default();
    let k = Key { n: vec![5; choice(3)] };
    t.insert(k.nibbles(), v.clone());
    m.insert(&k, &v);
    if choice(2) == 1 {
        let k = Key { n: vec![5; 4] };
        t.insert(k.nibbles(), vec![9]);
        m.insert(&k, &[9]);
    }
    agrees(&t, &m);
}

harnesses! {
    c03_huge_std = huge::<StandardTrie>;
    c03_family_std = family::<StandardTrie>;
    c03_family_hashed = family::<HashedPartialTrie>;
    c03_leaf_std = leaf::<StandardTrie>;
    c03_leaf_hashed = leaf::<HashedPartialTrie>;
    c03_pair_std = pair::<StandardTrie>;
    c03_pair_hashed = pair::<HashedPartialTrie>;
    c03_branch_std = branch_value::<StandardTrie>;
}

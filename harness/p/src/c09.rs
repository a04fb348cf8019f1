//! C09: Merkle commitments: every leaf has a proof that leads to the root, and a root commits to every leaf and its position.
//! bound: binary trees of 0..=17 arbitrary leaves; two trees compared differ in at most one leaf or in the order of two; tries of 0..=3, 17 or 20 arbitrary values of 1, 31, 32 or 70 bytes, or of 2..=3 at chosen positions up to 65536 (in lists longer than 3, two values are arbitrary), compared pairwise for 1..=5 values, proved for 1..=3 or 17 values
//! outside: larger trees; collisions of keccak-256
use crate::gen::*;
use common_merkle::{Merkle, TrieMerkle};
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use symrt as s;

fn node(a: &H256, b: &H256) -> H256 { H256(s::keccak(&[a.0, b.0].concat())) }
fn fold(leaf: H256, p: &[common_merkle::ProofNode]) -> H256 { p.iter().fold(leaf, |h, n| if n.is_right { node(&h, &n.hash) } else { node(&n.hash, &h) }) }
fn leaves(n: usize) -> Vec<H256> { (0..n).map(|_| h256("leaf")).collect() }
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c09_proofs() {
    let n = s::choose("@n", 0, 17) as usize;
    let ls = leaves(n);
    let t = Merkle::from_hashes(ls.clone());
    let root = t.get_root_hash();
    s::check(root.is_some() == (n > 0), "c09.root");
    if n == 1 { s::check(root == Some(ls[0]), "c09.single"); }
    let depth = n.next_power_of_two().trailing_zeros() as usize;
    for i in 0..n {
        match t.get_proof_by_input_index(i) {
            Some(p) => { s::check(Some(fold(ls[i], &p)) == root, "c09.proof"); s::check(p.len() == depth || p.len() + 1 == depth, "c09.proof_length"); }
            None => s::check(false, "c09.proof"),
        }
    }
    let i = s::choose("beyond", 0, 2) as usize + n.max(1);
    s::check(t.get_proof_by_input_index(i).is_none(), "c09.no_proof_beyond");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c09_binds() {
    let n = s::choose("@n", 1, 12) as usize;
    let a = leaves(n);
    let mut b = a.clone();
    let i = s::choose("i", 0, n as u64 - 1) as usize;
    if s::choose("swap", 0, 1) == 1 { b.swap(i, 0); } else { b[i] = h256("other"); }
    let (ta, tb) = (Merkle::from_hashes(a.clone()), Merkle::from_hashes(b.clone()));
    s::check((ta.get_root_hash() == tb.get_root_hash()) == (a == b), "c09.binds");
    // a proof of position i proves no other leaf
    let p = ta.get_proof_by_input_index(i).unwrap();
    s::check((Some(fold(b[i], &p)) == ta.get_root_hash()) == (a[i] == b[i]), "c09.proof_binds");
}
/// The yellow paper's trie, over arbitrary distinct keys of which none is a prefix of another.
fn compact(n: &[u8], leaf: bool) -> Vec<u8> {
    let flag = if leaf { 0x20u8 } else { 0 };
    let mut out = vec![];
    let rest = if n.len() % 2 == 1 { out.push(flag | 0x10 | n[0]); &n[1..] } else { out.push(flag); n };
    for c in rest.chunks(2) { out.push(c[0] << 4 | c[1]); }
    out
}
fn link(node: Vec<u8>) -> Vec<u8> { if node.len() < 32 { node } else { crate::spec::string(&s::keccak(&node)) } }
fn trie(items: &[(Vec<u8>, Vec<u8>)], at: usize) -> Vec<u8> {
    use crate::spec::{list, string};
    if items.len() == 1 { return list(&[string(&compact(&items[0].0[at..], true)), string(&items[0].1)]); }
    let mut common = at;
    while items.iter().all(|x| x.0.len() > common && x.0[common] == items[0].0[common]) { common += 1; }
    if common > at { return list(&[string(&compact(&items[0].0[at..common], false)), link(trie(items, common))]); }
    let mut kids: Vec<Vec<u8>> = vec![];
    for d in 0..16u8 {
        let sub: Vec<_> = items.iter().filter(|x| x.0.len() > at && x.0[at] == d).cloned().collect();
        kids.push(if sub.is_empty() { string(&[]) } else { link(trie(&sub, at + 1)) });
    }
    kids.push(string(&items.iter().find(|x| x.0.len() == at).map(|x| x.1.clone()).unwrap_or_default()));
    list(&kids)
}
fn key(i: usize) -> Vec<u8> { let b = (i as u64).to_be_bytes(); let k = b.iter().position(|x| *x != 0).unwrap_or(8); crate::spec::string(&b[k..]) }
fn trie_root(vals: &[Vec<u8>]) -> [u8; 32] { trie_root_at(vals, &(0..vals.len()).collect::<Vec<_>>()) }
fn trie_root_at(vals: &[Vec<u8>], at: &[usize]) -> [u8; 32] {
    if vals.is_empty() { return s::keccak(&[0x80]); }
    let items: Vec<(Vec<u8>, Vec<u8>)> = vals.iter().zip(at).map(|(v, i)| (key(*i).iter().flat_map(|b| [b >> 4, b & 15]).collect(), v.clone())).collect();
    s::keccak(&trie(&items, 0))
}
/// Arbitrary values; in a list of more than three, all but the last two are fixed.
fn values(n: usize, len: usize) -> Vec<Vec<u8>> { (0..n).map(|i| if n > 3 && i + 2 < n { vec![i as u8; len] } else { s::vec("v", len) }).collect() }
/// The receipt root is Ethereum's trie root over the RLP-encoded positions.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c09_trie() {
    let n = [0usize, 1, 2, 3, 17, 20][s::choose("@n", 0, 5) as usize];
    let vs = values(n, [1usize, 31, 32, 70][s::choose("len", 0, 3) as usize]);
    let want = trie_root(&vs);
    let mut t = TrieMerkle::from_receipts(&vs.iter().map(|v| Bytes::from(v.clone())).collect::<Vec<_>>());
    let root = t.root_hash().unwrap();
    s::check(root.0 == want, "c09.trie_root");
    let d: Vec<DBBytes> = vs.iter().map(|v| DBBytes(v.clone().into())).collect();
    let mut u = TrieMerkle::from_iter(d.iter().enumerate());
    s::check(u.root_hash().unwrap() == root, "c09.trie_same");
}
/// Positions whose key has two or three bytes.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c09_trie_far() {
    let at: &[usize] = [&[127usize, 128][..], &[0, 128, 129], &[1, 255, 256], &[128, 300, 65535], &[128, 65536]][s::choose("@at", 0, 4) as usize];
    let vs = values(at.len(), [1usize, 40][s::choose("len", 0, 1) as usize]);
    let d: Vec<DBBytes> = vs.iter().map(|v| DBBytes(v.clone().into())).collect();
    let mut t = TrieMerkle::from_iter(at.iter().copied().zip(d.iter()));
    s::check(t.root_hash().unwrap().0 == trie_root_at(&vs, at), "c09.trie_far");
}
/// Two lists of the same length have one root exactly when they are the same list.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c09_trie_binds() {
    let n = s::choose("@n", 1, 5) as usize;
    let a = values(n, [1usize, 32, 40][s::choose("len", 0, 2) as usize]);
    let mut b = a.clone();
    let i = s::choose("i", 0, n as u64 - 1) as usize;
    if s::choose("swap", 0, 1) == 1 { b.swap(i, 0); } else { b[i] = s::vec("w", a[i].len()); }
    let by = |l: &[Vec<u8>]| TrieMerkle::from_receipts(&l.iter().map(|v| Bytes::from(v.clone())).collect::<Vec<_>>()).root_hash().unwrap();
    s::check((by(&a) == by(&b)) == (a == b), "c09.trie_binds");
    let mut longer = a.clone();
    longer.push(s::vec("w", 2));
    s::check(by(&longer) != by(&a), "c09.trie_length");
}
/// A proof of a position leads from the root to that position's value, and only from that root.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c09_trie_proof() {
    let n = [1usize, 2, 3, 17][s::choose("@n", 0, 3) as usize];
    let vs = values(n, [1usize, 40][s::choose("len", 0, 1) as usize]);
    let mut t = TrieMerkle::from_receipts(&vs.iter().map(|v| Bytes::from(v.clone())).collect::<Vec<_>>());
    let root = t.root_hash().unwrap();
    let i = s::choose("i", 0, n as u64) as usize;
    let proof = t.get_proof_by_index(i).unwrap();
    let checker = protocol::trie::PatriciaTrie::new(std::sync::Arc::new(protocol::trie::MemoryDB::new(false)), std::sync::Arc::new(hasher::HasherKeccak::new()));
    let got = protocol::trie::Trie::verify_proof(&checker, &root.0, &key(i), proof.clone());
    s::check(matches!(&got, Ok(v) if v.as_ref() == vs.get(i)), "c09.trie_proof");
    s::check(!proof.is_empty() && s::keccak(&proof[0]) == root.0, "c09.trie_proof_starts_at_root");
}

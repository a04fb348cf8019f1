//! C16: Light-client proofs: a trie or CKB transaction proof is accepted exactly when it leads from the claimed element to the root.
//! bound: tries of 1..=3 or 17 arbitrary values of 1 or 40 bytes, proofs with one node replaced by any other of its length, dropped, repeated, added or reordered; CKB trees of 1..=4 leaves, proofs of one leaf with 0..=3 arbitrary lemmas and any index below 16, and of two leaves altered in any one place
//! outside: larger tries and trees; collisions of keccak-256 and blake2b
use crate::gen::*;
use axon_tools::precompile::{verify_proof, Proof, VerifyProofPayload};
use axon_tools::verify_trie_proof;
use common_merkle::TrieMerkle;
use protocol::types::*;
use symrt as s;

fn key(i: usize) -> Vec<u8> { let b = (i as u64).to_be_bytes(); let k = b.iter().position(|x| *x != 0).unwrap_or(8); crate::spec::string(&b[k..]) }
fn values(n: usize, len: usize) -> Vec<Vec<u8>> { (0..n).map(|i| if n > 3 && i + 2 < n { vec![i as u8; len] } else { s::vec("v", len) }).collect() }
/// Root and the proof of position `i`.
fn proved(vs: &[Vec<u8>], i: usize) -> (H256, Vec<Vec<u8>>) {
    let mut t = TrieMerkle::from_receipts(&vs.iter().map(|v| Bytes::from(v.clone())).collect::<Vec<_>>());
    (t.root_hash().unwrap(), t.get_proof_by_index(i).unwrap())
}
/// A proof the node gives is accepted and yields the element, or its absence.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c16_trie() {
    let n = [1usize, 2, 3, 17][s::choose("@n", 0, 3) as usize];
    let vs = values(n, [1usize, 40][s::choose("len", 0, 1) as usize]);
    let i = s::choose("i", 0, n as u64) as usize;
    let (root, proof) = proved(&vs, i);
    s::check(matches!(verify_trie_proof(root, &key(i), proof), Ok(v) if v.as_ref() == vs.get(i)), "c16.trie_accepts");
}
/// No altered proof yields anything but the element: it yields the element or is refused.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c16_trie_altered() {
    let n = [1usize, 2, 3, 17][s::choose("@n", 0, 3) as usize];
    let vs = values(n, [1usize, 40][s::choose("len", 0, 1) as usize]);
    let i = s::choose("i", 0, n as u64) as usize;
    let (root, mut proof) = proved(&vs, i);
    let k = s::choose("node", 0, proof.len() as u64 - 1) as usize;
    let mut same = true;
    match s::choose("how", 0, 4) {
        0 => { let new = s::vec("node", proof[k].len()); same = s::same(&proof[k], &new); proof[k] = new; }
        1 => { proof.remove(k); same = false; }
        2 => { let c = proof[k].clone(); proof.push(c); }
        3 => { let l = s::choose("len2", 0, 2) as usize; proof.insert(k, s::vec("added", [0usize, 33, 40][l])); }
        _ => proof.reverse(),
    }
    match verify_trie_proof(root, &key(i), proof) {
        Ok(v) => s::check(v.as_ref() == vs.get(i), "c16.trie_binds"),
        Err(_) => s::check(!same, "c16.trie_tolerates"),
    }
}
/// A proof is accepted under no other root.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c16_trie_root() {
    let n = [1usize, 2, 3, 17][s::choose("@n", 0, 3) as usize];
    let vs = values(n, 40);
    let i = s::choose("i", 0, n as u64) as usize;
    let (root, proof) = proved(&vs, i);
    let other = h256("root");
    // the nodes below the root are tries of their own
    for p in &proof[1..] { s::assume(s::keccak(p) == root.0 || s::keccak(p) != other.0); }
    match verify_trie_proof(other, &key(i), proof) {
        Ok(v) => s::check(other == root && v.as_ref() == vs.get(i), "c16.trie_root"),
        Err(_) => s::check(other != root, "c16.trie_root_refused"),
    }
}

fn merge(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] { ckb_hash::blake2b_256([*l, *r].concat()) }
fn payload(kind: u8, raw: [u8; 32], wit: [u8; 32], tx: [u8; 32], proof: Proof) -> VerifyProofPayload {
    VerifyProofPayload { verify_type: kind, transactions_root: tx, witnesses_root: wit, raw_transactions_root: raw, proof }
}
/// One leaf with any lemmas at any index, under arbitrary roots.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c16_ckb_one() {
    let index = s::choose("@index", 0, 15) as u32;
    let lemmas: Vec<[u8; 32]> = (0..s::choose("lemmas", 0, 4)).map(|_| s::arr("lemma")).collect();
    let leaf: [u8; 32] = s::arr("leaf");
    let (mut at, mut h, mut used) = (index, leaf, 0usize);
    while at > 0 && used < lemmas.len() {
        h = if at & 1 == 1 { merge(&h, &lemmas[used]) } else { merge(&lemmas[used], &h) };
        at = (at - 1) / 2;
        used += 1;
    }
    let leads = at == 0 && used == lemmas.len();
    let kind = s::choose("kind", 0, 2) as u8;
    // each root is the right one or an arbitrary one
    let own = |ok: bool, v: [u8; 32], n: &str| if ok { v } else { s::arr(n) };
    let good = s::choose("good", 0, 3);
    let (raw, wit) = (own(good & 1 == 1, h, "raw"), own(good & 2 == 2, h, "wit"));
    let tx = own(s::choose("bound", 0, 1) == 1, merge(&raw, &wit), "tx");
    let want = leads && tx == merge(&raw, &wit) && h == if kind == 0 { raw } else { wit };
    let r = verify_proof(payload(kind, raw, wit, tx, Proof { indices: vec![index], lemmas, leaves: vec![leaf] }));
    s::check(r.is_ok() == want, "c16.ckb_one");
}
/// Trees of up to four leaves: proofs of one or two leaves are accepted; altered in any one place, they are not.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c16_ckb_tree() {
    let n = s::choose("@n", 1, 4) as usize;
    let ls: Vec<[u8; 32]> = (0..n).map(|_| s::arr("leaf")).collect();
    // nodes of the complete binary tree, leaves last
    let mut nodes = vec![[0u8; 32]; n - 1];
    nodes.extend(ls.iter().cloned());
    for i in (0..n - 1).rev() { nodes[i] = merge(&nodes[2 * i + 1], &nodes[2 * i + 2]); }
    let i = s::choose("i", 0, n as u64 - 1) as usize;
    let j = s::choose("j", i as u64, n as u64 - 1) as usize;
    let mut at: Vec<usize> = vec![i + n - 1];
    if j > i { at.push(j + n - 1); }
    // the siblings needed, from the deepest level up
    let (mut lemmas, mut level) = (vec![], at.clone());
    level.sort(); level.reverse();
    while level[0] != 0 {
        let x = level.remove(0);
        let sib = ((x + 1) ^ 1) - 1;
        if level.first() == Some(&sib) { level.remove(0); } else { lemmas.push(nodes[sib]); }
        level.push((x - 1) / 2);
    }
    // the leaves in any order; indices in the order of their leaves
    let mut leaves: Vec<[u8; 32]> = at.iter().map(|x| nodes[*x]).collect();
    let mut indices: Vec<u32> = at.iter().map(|x| *x as u32).collect();
    if at.len() == 2 && nodes[at[1]] < nodes[at[0]] { indices.swap(0, 1); }
    if s::choose("flip", 0, 1) == 1 { leaves.reverse(); }
    let kind = s::choose("kind", 0, 1) as u8;
    let other: [u8; 32] = s::arr("other");
    let (raw, wit) = if kind == 0 { (nodes[0], other) } else { (other, nodes[0]) };
    let mut p = payload(kind, raw, wit, merge(&raw, &wit), Proof { indices, lemmas, leaves });
    let alter = s::choose("alter", 0, 6);
    let mut same = true;
    let x: [u8; 32] = s::arr("x");
    match alter {
        0 => {}
        1 => { same = p.transactions_root == x; p.transactions_root = x; }
        2 => { same = p.raw_transactions_root == x; p.raw_transactions_root = x; }
        3 => { same = p.witnesses_root == x; p.witnesses_root = x; }
        4 => { if let Some(l) = p.proof.lemmas.last_mut() { same = *l == x; *l = x; } }
        5 => { p.proof.lemmas.push(x); same = false; }
        _ => { p.proof.leaves.pop(); same = false; }
    }
    s::check(verify_proof(p).is_ok() == same, "c16.ckb_tree");
}
/// No proof, however malformed, makes the verification crash.
//@ shards=1
#[no_mangle]
pub extern "C" fn h_c16_ckb_total() {
    let n = s::choose("n", 0, 2) as usize;
    let indices: Vec<u32> = if n == 1 { vec![s::u32("any")] } else { vec![] }.into_iter().chain((0..if n == 2 { 2 } else { 0 }).map(|_| [0u32, 1, 2, 5, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff][s::choose("index", 0, 6) as usize])).collect();
    let lemmas: Vec<[u8; 32]> = (0..s::choose("lemmas", 0, 2)).map(|_| s::arr("lemma")).collect();
    let leaves: Vec<[u8; 32]> = (0..s::choose("leaves", 0, 2)).map(|k| [k as u8; 32]).collect();
    let (raw, wit) = (s::arr("raw"), s::arr("wit"));
    let p = payload(s::u8("kind"), raw, wit, merge(&raw, &wit), Proof { indices, lemmas, leaves });
    s::no_panic("c16.ckb_total", || verify_proof(p).is_ok());
}
/// The payload's encoding is the list of its fields.
//@ shards=1
#[no_mangle]
pub extern "C" fn h_c16_payload() {
    use crate::spec::{list, n, string};
    let words = |n: &str| -> Vec<[u8; 32]> { (0..s::choose(n, 0, 2)).map(|_| s::arr("word")).collect() };
    let indices: Vec<u32> = (0..s::choose("indices", 0, 2)).map(|k| if k == 0 { s::u32("index") } else { 7 }).collect();
    let (lemmas, leaves) = (words("lemmas"), words("leaves"));
    let p = payload(s::u8("kind"), s::arr("raw"), s::arr("wit"), s::arr("tx"), Proof { indices, lemmas, leaves });
    let strings = |v: &[[u8; 32]]| list(&v.iter().map(|x| string(x)).collect::<Vec<_>>());
    let num = n;
    let want = list(&[num(p.verify_type as u64), string(&p.transactions_root), string(&p.witnesses_root), string(&p.raw_transactions_root),
        list(&[list(&p.proof.indices.iter().map(|x| num(*x as u64)).collect::<Vec<_>>()), strings(&p.proof.lemmas), strings(&p.proof.leaves)])]);
    s::check(s::same(&want, &rlp::encode(&p)), "c16.payload");
}

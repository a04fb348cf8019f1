//! Independent statements of the encodings, written from the Ethereum documents.
//! RLP: a string of one byte below 0x80 is itself; up to 55 bytes 0x80+len;
//! longer 0xb7+len-of-len; lists likewise with 0xc0/0xf7.  Integers are minimal
//! big-endian strings.
fn head(base: u8, n: usize, out: &mut Vec<u8>) {
    if n <= 55 { out.push(base + n as u8); return; }
    let be = (n as u64).to_be_bytes();
    let z = be.iter().take_while(|b| **b == 0).count();
    out.push(base + 55 + (8 - z) as u8);
    out.extend_from_slice(&be[z..]);
}
pub fn string(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 { return b.to_vec(); }
    let mut o = Vec::new();
    head(0x80, b.len(), &mut o);
    o.extend_from_slice(b);
    o
}
pub fn int(be: &[u8]) -> Vec<u8> {
    let mut k = 0;
    while k < be.len() && be[k] == 0 { k += 1; }
    string(&be[k..])
}
pub fn n(v: u64) -> Vec<u8> { int(&v.to_be_bytes()) }
pub fn u(v: &protocol::types::U256) -> Vec<u8> { let mut b = [0u8; 32]; v.to_big_endian(&mut b); int(&b) }
pub fn list(items: &[Vec<u8>]) -> Vec<u8> {
    let mut body = Vec::new();
    for i in items { body.extend_from_slice(i); }
    let mut o = Vec::new();
    head(0xc0, body.len(), &mut o);
    o.extend_from_slice(&body);
    o
}
use protocol::types::*;
fn to(a: &TransactionAction) -> Vec<u8> { match a { TransactionAction::Call(t) => string(&t.0), TransactionAction::Create => string(&[]) } }
fn acl(a: &AccessList) -> Vec<u8> {
    let items: Vec<Vec<u8>> = a.iter().map(|i| { let k: Vec<Vec<u8>> = i.storage_keys.iter().map(|h| string(&h.0)).collect(); list(&[string(&i.address.0), list(&k)]) }).collect();
    list(&items)
}
/// The bytes an Ethereum wallet signs (`sig` empty) or sends: EIP-155 legacy, EIP-2930, EIP-1559.
/// `sig` holds the encoded r and s; `v` the parity.
pub fn tx(t: &UnsignedTransaction, chain: Option<u64>, sig: Option<(u8, Vec<u8>, Vec<u8>)>) -> Vec<u8> {
    match t {
        UnsignedTransaction::Legacy(t) => {
            let mut f = vec![n(t.nonce.as_u64()), n(t.gas_price.as_u64()), n(t.gas_limit.as_u64()), to(&t.action), u(&t.value), string(&t.data)];
            match (chain, sig) {
                (Some(c), Some((v, r, s))) => { f.push(n(c * 2 + 35 + v as u64)); f.push(r); f.push(s); }
                (None, Some((v, r, s))) => { f.push(n(27 + v as u64)); f.push(r); f.push(s); }
                (Some(c), None) => { f.push(n(c)); f.push(n(0)); f.push(n(0)); }
                (None, None) => {}
            }
            list(&f)
        }
        UnsignedTransaction::Eip2930(t) => {
            let mut f = vec![n(chain.unwrap()), n(t.nonce.as_u64()), n(t.gas_price.as_u64()), n(t.gas_limit.as_u64()), to(&t.action), u(&t.value), string(&t.data), acl(&t.access_list)];
            if let Some((v, r, s)) = sig { f.push(n(v as u64)); f.push(r); f.push(s); }
            [vec![1u8], list(&f)].concat()
        }
        UnsignedTransaction::Eip1559(t) => {
            let mut f = vec![n(chain.unwrap()), n(t.nonce.as_u64()), n(t.max_priority_fee_per_gas.as_u64()), n(t.gas_price.as_u64()), n(t.gas_limit.as_u64()), to(&t.action), u(&t.value), string(&t.data), acl(&t.access_list)];
            if let Some((v, r, s)) = sig { f.push(n(v as u64)); f.push(r); f.push(s); }
            [vec![2u8], list(&f)].concat()
        }
    }
}
pub fn log(l: &Log) -> Vec<u8> {
    let t: Vec<Vec<u8>> = l.topics.iter().map(|h| string(&h.0)).collect();
    list(&[string(&l.address.0), list(&t), string(&l.data)])
}

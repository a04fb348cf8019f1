//! C06: epoch metadata, consensus configuration, validators and hardfork records keep their meaning through encoding, storage form and conversion.
//! bound: one field at a time takes every value, the others are full width or one encoded byte; keys up to 3 bytes in the codecs and 33 or 65 bytes in the conversion; at most 2 validators, 2 propose counters, 3 hardfork activations
//! outside: decompression of public keys (an arbitrary deterministic function)
use crate::gen::*;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use symrt as s;

fn rt<T: Encodable + Decodable + PartialEq + ProtocolCodec>(x: &T, id: &str) {
    let wire = x.rlp_bytes();
    s::observe("wire", &wire);
    s::check(matches!(<T as Decodable>::decode(&Rlp::new(&wire)), Ok(y) if y == *x), id);
    s::check(matches!(<T as ProtocolCodec>::decode(&ProtocolCodec::encode(x).unwrap()), Ok(y) if y == *x), id);
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c06_metadata() {
    let m = metadata(Sel::pick(METADATA_FIELDS));
    rt(&m, "c06.metadata");
    let (inner, config) = m.clone().into_part();
    s::check(inner.version == m.version && inner.epoch == m.epoch && inner.verifier_list == m.verifier_list && inner.propose_counter == m.propose_counter && config == m.consensus_config, "c06.parts");
    s::check(Metadata::from_parts(inner, config) == m, "c06.from_parts");
}
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c06_inner() {
    let m = metadata(Sel { focus: s::choose("@focus", 0, METADATA_FIELDS - 1), other: C::Wide });
    let (inner, config) = m.into_part();
    rt(&inner, "c06.metadata_inner");
    let old = ConsensusConfigV0::from(config.clone());
    s::check(old.gas_limit == config.gas_limit && old.interval == config.interval && old.propose_ratio == config.propose_ratio && old.prevote_ratio == config.prevote_ratio && old.precommit_ratio == config.precommit_ratio && old.brake_ratio == config.brake_ratio && old.tx_num_limit == config.tx_num_limit && old.max_tx_size == config.max_tx_size, "c06.config_v0");
    rt(&old, "c06.config_v0_codec");
    rt(&config, "c06.config_codec");
    let new = ConsensusConfig::from(old.clone());
    s::check(new == ConsensusConfig { max_contract_limit: 0x6000, ..config.clone() }, "c06.config_upgrade");
    s::check(ConsensusConfigV0::from(new) == old, "c06.config_v0_back");
}
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c06_validators() {
    let p = Sel::pick(4);
    let v = validator(p, 0);
    rt(&v, "c06.validator_extend");
    let c = ConsensusValidator::from(&v);
    s::check(s::same(&c.pub_key, v.pub_key.as_ref()) && c.propose_weight == v.propose_weight && c.vote_weight == v.vote_weight, "c06.consensus_validator");
    rt(&c, "c06.consensus_validator_codec");
    rt(&plain_validator(p, 0), "c06.validator");
    let w = ValidatorExtend { bls_pub_key: hex("bls2", p.at(0), 3), ..v.clone() };
    let by_key = v.bls_pub_key.as_ref().cmp(w.bls_pub_key.as_ref());
    s::check(v.cmp(&w) == by_key && v.partial_cmp(&w) == Some(by_key), "c06.validator_order");
}
#[no_mangle]
pub extern "C" fn h_c06_small() {
    let p = Sel::pick(2);
    rt(&version(p, 0), "c06.version");
    let c = ProposeCount { address: h160("a"), count: n64("count", p.at(0)) };
    rt(&c, "c06.propose_count");
    s::check(ProposeCount::from((c.address, c.count)) == c, "c06.propose_count_of");
    if c.count < u64::MAX { let mut d = c.clone(); d.increase(); s::check(d.count == c.count + 1 && d.address == c.address, "c06.propose_count_increase"); }
    rt(&CkbRelatedInfo { metadata_type_id: h256("1"), checkpoint_type_id: h256("2"), xudt_args: h256("3"), stake_smt_type_id: h256("4"), delegate_smt_type_id: h256("5"), reward_smt_type_id: h256("6") }, "c06.ckb_info");
    let h = HardforkInfoInner { block_number: n64("bn", p.at(1)), flags: h256("flags") };
    rt(&h, "c06.hardfork_inner");
    let n = s::choose("n", 0, 2);
    rt(&HardforkInfo { inner: (0..n).map(|_| h.clone()).collect() }, "c06.hardfork");
}
#[no_mangle]
pub extern "C" fn h_c06_contains() {
    let (a, b, n) = (s::u64("a"), s::u64("b"), s::u64("n"));
    s::check(MetadataVersion::new(a, b).contains(n) == (n >= a && n <= b), "c06.contains");
}
/// The chain specification's metadata: validators gain the address of their key.
#[no_mangle]
pub extern "C" fn h_c06_spec() {
    let n = s::choose("@n", 0, 2);
    let p = Sel { focus: 99, other: C::Wide };
    let keys: Vec<Vec<u8>> = (0..n).map(|_| s::vec("key", 65)).collect();
    let vs: Vec<Validator> = keys.iter().map(|k| Validator { pub_key: Hex::encode(k), ..plain_validator(p, 0) }).collect();
    let spec = SpecMetadata { version: version(p, 0), epoch: s::u64("epoch"), verifier_list: vs.clone(), propose_counter: vec![ProposeCount { address: h160("pc"), count: s::u64("pcn") }], consensus_config: consensus_config(p, 0) };
    rt(&spec, "c06.spec_codec");
    let m = Metadata::from(spec.clone());
    s::check(m.version == spec.version && m.epoch == spec.epoch && m.propose_counter == spec.propose_counter && m.consensus_config == spec.consensus_config && m.verifier_list.len() == vs.len(), "c06.spec_metadata");
    for (i, v) in m.verifier_list.iter().enumerate() {
        s::check(v.address.0 == s::keccak(&keys[i][1..])[12..] && v.pub_key == vs[i].pub_key && v.bls_pub_key == vs[i].bls_pub_key && v.propose_weight == vs[i].propose_weight && v.vote_weight == vs[i].vote_weight, "c06.spec_validator");
    }
    let cc = m.consensus_config.clone();
    let d = overlord::DurationConfig::from(m);
    s::check(d.propose_ratio == cc.propose_ratio && d.prevote_ratio == cc.prevote_ratio && d.precommit_ratio == cc.precommit_ratio && d.brake_ratio == cc.brake_ratio, "c06.durations");
}
fn or(a: H256, b: H256) -> H256 { let mut c = a; for i in 0..32 { c.0[i] |= b.0[i]; } c }
/// Hardfork records: heights and flag sets only grow, earlier records stay, a feature is recorded at the height it was first activated.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c06_hardfork_push() {
    let n = s::choose("@n", 1, 4);
    let mut info = HardforkInfo::default();
    for _ in 0..n {
        // two arbitrary flag bytes; the rest of the mask is zero
        let mut f = H256::zero();
        f.0[0] = s::u8("f0");
        f.0[31] = s::u8("f31");
        let (bn, before) = (s::u64("bn"), info.clone());
        info.push(HardforkInfoInner { block_number: bn, flags: f });
        let now = &info.inner;
        let k = before.inner.len();
        match before.inner.last() {
            None => s::check(now.len() == 1 && now[0].block_number == bn && now[0].flags == f, "c06.first_hardfork"),
            Some(last) => {
                let all = or(last.flags, f);
                let stale = bn < last.block_number || all == last.flags;
                if stale { s::check(info == before, "c06.stale_hardfork"); }
                else if bn == last.block_number { s::check(now.len() == k && now[..k - 1] == before.inner[..k - 1] && now[k - 1].block_number == bn && now[k - 1].flags == all, "c06.merged_hardfork"); }
                else { s::check(now.len() == k + 1 && now[..k] == before.inner[..] && now[k].block_number == bn && now[k].flags == all, "c06.new_hardfork"); }
            }
        }
        for w in now.windows(2) { s::check(w[0].block_number < w[1].block_number && w[0].flags != w[1].flags && or(w[0].flags, w[1].flags) == w[1].flags, "c06.hardfork_monotone"); }
    }
}

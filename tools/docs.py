#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the records below and tools/checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, C, M = "protocol/src/types/", "protocol/src/codec/", "core/mempool/src/"
TESTS = "The existing tests try one or a few sample values; the statement ranges over every value of every field."
# id: (title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)])
P = {
"C01": ("Transactions survive their wire encoding",
  "A transaction of any kind (legacy, access-list, dynamic-fee; Ethereum or interoperability signature) that is encoded and decoded again is the same transaction: same fields, signature, chain id and hash. A signed transaction that is stored or gossiped keeps its sender and public key as well.",
  ["inputs"], "every value of every transaction field, every kind, signed or not, within the length bounds of the evidence", TESTS + " Two sample transactions are round-tripped today.",
  [C + "transaction.rs", T + "transaction.rs", C + "mod.rs"], [("field order and list lengths per kind", C + "transaction.rs"), ("codec wrappers", C + "mod.rs")]),
"C02": ("Decoders are total: no bytes from outside crash them",
  "Every byte string offered to a decoder of transactions, blocks, headers, proposals, receipts, metadata, batches or their parts yields a value or an error, never a panic. What a decoder accepts encodes and decodes to the same value again, and a raw transaction is accepted only in its canonical encoding. Looking at the sender of whatever was accepted does not crash either.",
  ["inputs"], "every byte string of up to 4 bytes and every truncation, extension and two-byte overwrite of an encoding, for each of about 30 decoders", "Tests decode only what the encoders produced; crashes and ambiguities live in what they did not.",
  [C + "transaction.rs", C + "block.rs", C + "receipt.rs", C + "executor.rs", C + "mod.rs", T + "interoperation.rs", T + "batch.rs"], [("RLP decoders", C), ("signature to cell dependency decoding", T + "interoperation.rs")]),
"C03": ("Signing payload, hash and sender follow Ethereum's rules",
  "The hash a signature is made over and the transaction hash are the Keccak digests of the payloads the Ethereum documents define for the transaction's kind and chain id, the sender is the account that made the signature over that digest, and the v value of a legacy signature carries the chain id per EIP-155. Changing any one signed field changes both hashes; the signature and the stored hash influence neither the signing digest nor the check. A transaction whose stored hash does not match is refused.",
  ["inputs"], "every value of every field, chain id and recovery value; pairs of transactions differing in one field", TESTS + " Binding quantifies over pairs of transactions.",
  [T + "transaction.rs", C + "transaction.rs", "common/crypto/src/lib.rs"], [("signing payload and hash", T + "transaction.rs"), ("replay protection", T + "transaction.rs"), ("payload encoding", C + "transaction.rs")]),
"C04": ("Blocks, headers and proposals survive encoding; hashes bind all fields",
  "A block, header, proposal or commit proof that is encoded (for storage, for peers or for the consensus engine) and decoded is the same value, unknown versions are refused, and turning a proposal into a block and back keeps every field. Two headers or proposals that differ in any field have different hashes, and equal ones have equal hashes. The execution environment built for a block carries that block's own numbers.",
  ["inputs"], "every value of every field; pairs that differ in one field", TESTS + " Binding quantifies over pairs.",
  [T + "block.rs", C + "block.rs", T + "executor.rs"], [("field order and counts", C + "block.rs"), ("hashing and conversions", T + "block.rs"), ("environment of a block", T + "executor.rs")]),
"C05": ("Receipts, logs and execution results are faithful",
  "Each transaction of a block gets exactly one receipt, in order, carrying its own result, block, position and logs, with log positions numbered through the block, and its filter covers exactly its logs. Receipts and execution results survive their storage encoding, and a receipt's commitment form carries status, gas, filter and logs in Ethereum's layout. A block's filter covers the logs of its transactions.",
  ["inputs", "histories"], "every execution result and field value, blocks of up to 3 transactions with up to 2 logs each", TESTS + " One random receipt is round-tripped; numbering and filters are not tested.",
  [T + "receipt.rs", C + "receipt.rs", T + "executor.rs", C + "executor.rs", T + "block.rs"], [("receipt numbering", T + "receipt.rs"), ("filter", T + "executor.rs, " + T + "block.rs"), ("codecs", C + "receipt.rs, " + C + "executor.rs")]),
"C06": ("Epoch metadata, consensus limits and hardfork records keep their meaning",
  "Epoch metadata, consensus configuration, validator sets, propose counters and hardfork records read back from storage as they were written, and converting between the wire, storage and specification forms loses nothing. An epoch covers exactly the heights from its first to its last. Activated features and their activation heights are never lost or moved by later activations.",
  ["inputs", "histories"], "every value of every field; sequences of up to 3 activations", TESTS + " Histories of activations are tested at one point.",
  [T + "block.rs", C + "block.rs", T + "primitive.rs"], [("metadata and configuration codecs", C + "block.rs"), ("conversions and range", T + "primitive.rs"), ("hardfork records", T + "primitive.rs")]),
"C07": ("Hexadecimal text and keys parse exactly or not at all",
  "Writing bytes as hexadecimal text and reading them back gives the bytes, integers are written in their shortest form, and a text that is not an optional prefix followed by digit pairs is refused. Key texts are read only when they have the right shape, and neither they nor any other text crash the reader.",
  ["inputs"], "every byte string up to 70 bytes, every text up to 7 bytes, one-character changes of key texts, every 256-bit integer", "Tests try a handful of texts; the refusals and crash-freedom range over all texts.",
  ["common/crypto/src/lib.rs", T + "primitive.rs", C + "mod.rs"], [("hex reading and writing", C + "mod.rs"), ("hex text type", T + "primitive.rs"), ("key text", T + "primitive.rs")]),
"C08": ("Addresses are derived, printed and parsed consistently",
  "The address of a public key is the tail of the key's Keccak digest, every construction of the same address agrees, and an address prints in checksummed form and parses back to itself. A text is accepted as an address only when it is the exact checksummed form of one, and no text or byte string of a wrong length crashes the parser.",
  ["inputs"], "every key, hash and 20-byte string; every one-character replacement in checksummed texts; texts of other lengths", "Tests parse a few good and bad addresses.",
  [T + "primitive.rs"], [("construction, parsing, printing", T + "primitive.rs")]),
"C09": ("Merkle commitments bind every element and its position",
  "Every element of a list has an inclusion proof that leads to the root of the list, and two lists of equal length have the same root only when they are the same list in the same order. The receipt and transaction trie root is Ethereum's trie root over the positions, and trie proofs lead from the root to the element.",
  ["inputs"], "every list of up to 17 (binary tree) or 20 (trie) arbitrary elements; pairs of lists that differ in an element or an order", "One list is hashed by the tests; binding quantifies over pairs and positions.",
  ["common/merkle/src/lib.rs"], [("binary tree", "common/merkle/src/lib.rs"), ("positional trie", "common/merkle/src/lib.rs")]),
"C10": ("A transaction's parts, cost and kind are what its fields say",
  "Recipient, value, data, nonce, gas limit, prices, access list and type read off a transaction of any kind are the values it carries, replacing the action or data changes nothing else, and the bytes offered for signing or sending begin with the type's envelope. The most a transaction may cost its sender is its effective price times its gas limit plus its value, capped at 2^256-1 and never wrapped. Peer tags with the same name are the same tag and reserved names cannot be taken.",
  ["inputs"], "every value of every field of every kind", TESTS + " The cost formula is not tested.",
  [T + "transaction.rs", "protocol/src/traits/network.rs"], [("accessors and cost", T + "transaction.rs"), ("peer tags", "protocol/src/traits/network.rs")]),
"C11": ("CKB values and gossip batches keep their content across forms",
  "Cells, scripts, dependencies, out points and witnesses survive their wire encoding, which has the documented layout, and become CKB's own molecule values field by field. Batches of transactions or blocks sent to peers arrive with the same items in the same order, and one cut short or followed by more is refused. The sender of an interoperability transaction is the address of the key in its signature, and signatures of any mode but the supported one are refused.",
  ["inputs"], "every value of every field, batches of up to 2 items of every kind", TESTS + " A batch is tested with one transaction, so losing the second goes unseen.",
  [T + "interoperation.rs", T + "batch.rs", T + "transaction.rs", C + "transaction.rs"], [("CKB value types", T + "interoperation.rs"), ("batches", T + "batch.rs"), ("sender of interoperability transactions", T + "transaction.rs")]),
"C13": ("Tools read and write hexadecimal text exactly, or refuse it",
  "The client tool library writes bytes and integers as hexadecimal text that reads back to the same value, and refuses a text that is not an optional single prefix followed by hexadecimal digits, or a number that does not fit its type, with an error. No text makes it panic or return a different number than the one written.",
  ["inputs"], "every byte string up to 40 bytes, every text up to 5 bytes, numbers of up to 70 digits with any byte in any place, every integer", "The tests read a few well-formed texts.",
  ["devtools/axon-tools/src/hex.rs", "devtools/axon-tools/src/types.rs"], [("hex decoding", "devtools/axon-tools/src/hex.rs"), ("number texts", "devtools/axon-tools/src/types.rs")]),
"C14": ("A block proof is accepted exactly when enough validators signed it",
  "The client tool library's proof verification accepts a block, its parent's state root, a validator list and a proof exactly when the proof names this block's hash and more than two thirds of the validators - those marked in the bitmap, each counted once - made the aggregated signature over exactly this vote. Changing the block, the vote, the bitmap, the signature or the validators makes it refuse, and the order in which validators are listed does not matter.",
  ["inputs", "fault_sequences"], "every bitmap and signature, up to 4 validators in any order, every value of every block field", "The tests verify one recorded proof; what is refused is not sampled at all.",
  ["devtools/axon-tools/src/proof.rs", "devtools/axon-tools/src/types.rs", "devtools/axon-tools/src/hash.rs"], [("verification and quorum", "devtools/axon-tools/src/proof.rs"), ("proposal of a block", "devtools/axon-tools/src/types.rs")]),
"C15": ("Client types encode exactly as the node's types",
  "The client library's own copies of blocks, headers, proposals, votes, proofs, metadata and their parts have, for equal field values, the same encoding as the node's types, and hence the same hashes; its digest function is the node's.",
  ["inputs"], "every value of each field; up to 2 extra data items, 3 transaction hashes, 2 validators", "The tests compare one sample; agreement quantifies over all values of all fields.",
  ["devtools/axon-tools/src/types.rs", "devtools/axon-tools/src/rlp_codec.rs", C + "block.rs"], [("mirrored types", "devtools/axon-tools/src/types.rs"), ("encodings", "devtools/axon-tools/src/rlp_codec.rs")]),
"C16": ("Trie and CKB transaction proofs prove exactly what is in the tree",
  "The client tool library accepts a trie proof given by the node and reads the element, or its absence, from it; no altered, shortened or extended proof makes it report anything but the truth under that root. A CKB transaction proof is accepted exactly when the leaves lead to the raw-transactions or witnesses root named by its type and both roots make up the transactions root. No proof, however malformed, makes verification panic.",
  ["inputs", "fault_sequences"], "every content of tries of up to 3 and 17 elements and CKB trees of up to 4 leaves, every replacement of a node, lemma, leaf or root", "The tests verify one recorded proof; forged proofs are not tried.",
  ["devtools/axon-tools/src/proof.rs", "devtools/axon-tools/src/precompile.rs", "common/merkle/src/lib.rs"], [("trie proofs", "devtools/axon-tools/src/proof.rs"), ("CKB proofs", "devtools/axon-tools/src/precompile.rs")]),
"C17": ("The pool offers each sender's transactions in order, and loses none",
  "What the transaction pool offers for a block is, for every sender, that sender's pending transactions from the account's next nonce on, without gaps and in nonce order, up to the number asked for; calls of the system contracts come first, one for each payload. Committed transactions leave the pool with everything they make obsolete and give their room back, transactions that waited too long leave, a full pool refuses instead of forgetting, and two calls running at the same time neither lose a transaction, count it twice, nor block each other for ever.",
  ["histories", "inputs", "schedules"], "every history of up to 5 transactions of 2 senders with any prices and nonces, a flush of any subset at any point, every limit; two concurrent calls interleaved at every lock, queue and map operation", "The mempool's tests insert many transactions in one order and count them; orders, gaps, replacements and interleavings are not explored.",
  [M + "pool.rs", M + "lib.rs", M + "tx_wrapper.rs"], [("pending and packaging queues", M + "pool.rs"), ("pool size and flush", M + "lib.rs")]),
"C18": ("Only valid transactions enter the pool or a voted proposal",
  "A transaction enters the pool exactly when its signature was made by its sender's key over its content, its chain id is this chain's, its nonce is not behind the account's nor too far ahead, the balance pays for what it may cost, its price and gas limit are within the chain's bounds, its size within the limit, and it is not committed already; calls of the system contracts need a validator's key. A proposal's transactions are all fetched and verified, and come back in the order of the proposal, or the proposal is refused.",
  ["inputs", "fault_sequences"], "every nonce, price, gas limit, value, chain id, balance, account nonce, key and signature; every answer of a peer with up to 3 transactions", "The mempool's tests use a mock adapter that accepts every transaction.",
  [M + "adapter/mod.rs", M + "lib.rs"], [("authorization, nonce, balance and limits", M + "adapter/mod.rs"), ("proposal transactions", M + "lib.rs")]),
"C19": ("What consensus writes ahead survives a stop of the machine",
  "After the machine stops at any point, with or without losing what was not yet on disk, the record consensus reads back is the last one it finished writing, or the one it was writing; a damaged or unreadable file is passed over and reading always ends. Transactions kept ahead for a proposal are found under exactly its height and hash, whole or not at all, whatever else is kept. Removing them up to a height removes exactly those.",
  ["crash_points", "fault_sequences", "histories"], "every history of up to 3 writes with the clock moving either way, a stop at any file system call or inside any write, every cut of unsynced data, a damaged file of any content, batches under hashes differing in any byte", "The tests write and read without a stop, on a clock that only goes forward.",
  ["core/consensus/src/wal.rs", T + "batch.rs"], [("consensus record", "core/consensus/src/wal.rs"), ("transactions ahead", "core/consensus/src/wal.rs"), ("batch encoding", T + "batch.rs")]),
"C20": ("Only right proposals, upon a quorum's proof, are voted for",
  "A node votes for a proposal only if it comes under its own hash, is for the height being decided, follows the last block in hash, state and proof, is no older than it and not from the future, has this chain's id, gas limit and fee, and roots that are its transactions'; a right proposal, such as another node in the same state makes, passes. A proof counts only when validators of over two thirds of the weight signed that very block, height and round, and no proposal or answer of a peer makes the node panic.",
  ["inputs", "fault_sequences"], "every value of each field of a proposal, its hash and height, every bitmap and round of a proof, every weight of up to 2 validators (255 with 3, 7 with 4), every set of signers", "The consensus crate's tests never build an engine or a proof; each field has 2^64 or more wrong values.",
  ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs", "core/consensus/src/util.rs", "core/consensus/src/types.rs"], [("proposals", "core/consensus/src/engine.rs"), ("blocks and proofs", "core/consensus/src/adapter.rs"), ("votes", "core/consensus/src/util.rs")]),
"C21": ("A decided block is kept whole and once, whatever fails on the way",
  "Committing the decided block of the next height keeps exactly that block, its transactions, receipts and proof, executes it once, moves the node's status and pool to it and answers with the next height's validators in their order; the same height again answers the same and does nothing more, any other height is refused. When a write fails nothing the node goes on from has moved, and the commit done again, after a restart too and with the transactions from the write-ahead log, ends as if nothing had failed. What is proposed upon the block is accepted by this node restarted and by others that commit it. At an epoch's end exactly the next validators' votes count, and a node told to stop at a height commits none after it.",
  ["fault_sequences", "histories", "inputs"], "every height, every value of the block's free fields and of the proof, a failing write at each place and again on the retry, restarts, a pool that has lost transactions, every stop height", "The tests' engine never commits; a fault at each write and the state after it are not looked at.",
  ["core/consensus/src/engine.rs", "core/consensus/src/adapter.rs", "core/consensus/src/stop_signal.rs", "core/consensus/src/status.rs"], [("commit and status", "core/consensus/src/engine.rs"), ("storage and validators", "core/consensus/src/adapter.rs"), ("stop", "core/consensus/src/stop_signal.rs")]),
}
NA = {}
LEVEL = {}
NOTE = "Every path of every entry within the bounds stated in the evidence was executed symbolically from the compiled code of the current tree and each assertion was decided by the solver for all values of that path; counterexamples are replayed natively before they count. Trusts the symbolic executor (its paths are cross-checked against native runs on every run) and takes keccak-256 as collision-free and secp256k1/BLS as arbitrary deterministic functions."

def main():
    crates = json.load(open(os.path.join(V, "tools/checks.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for i, (title, st, over, text, why, files, mech) in sorted(P.items()):
            assert len(title) <= 80, title
            f.write(json.dumps(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + "\n")
    checks = []
    for i in sorted(P):
        if i in NA: continue
        assert i in crates, i
        checks.append(dict(property=i, quick_cmd=f"python3 tools/run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/run.py {i}", evidence_file=f"evidence/{i}.json",
                           technique="symbolic execution of the compiled code (LLVM IR) with SMT-decided assertions", level="model_checking", level_note=LEVEL.get(i, NOTE)))
    m = dict(version=1, setup_cmd="python3 tools/run.py --setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__":
    main()

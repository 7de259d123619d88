#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one JSON object per line)."""
import json, os
S = "stacks/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Clarity values serialize to the exact consensus bytes and back",
  "For every Clarity value within the protocol limits, of any type, size and nesting, serialization yields exactly the byte string the Stacks consensus format (SIP-005) prescribes, and the reported length, emptiness and hex forms describe those same bytes. Decoding these bytes, both through the expected type and through the self-describing entry point, and also when followed by unrelated bytes, gives back a value with the same type, structure and contents.",
  ["inputs"], "all Clarity values: every type, integer, buffer/string/list length (including 0, 255/256, 65535/65536), principal, nesting and tuple layout",
  "Unit tests round-trip about one hand-written value per type (random ones only for the two integers); element counts over 15, lengths over 255, mixed nesting and integer boundaries inside containers are never reached.",
  [S+"clarity/impl.rs", S+"clarity/mod.rs", S+"clarity/macro.rs"],
  [("per-type encode/decode", S+"clarity/impl.rs"), ("tag dispatch decode_clarity_type", S+"clarity/mod.rs"), ("len/hex/hex_prefixed defaults", S+"clarity/mod.rs")],
  ["encode", "decode", "decode_clarity_type", "len", "is_empty", "hex", "hex_prefixed"])

p("C02", "Decoding arbitrary bytes is total, strict and canonical",
  "Given any byte string whatsoever (truncated, corrupted, hostile lengths, wrong type), every Clarity decoder terminates and returns either a value or an error: it never panics, aborts or over-allocates. A value is returned exactly when the input starts with a well-formed serialization of the type asked for (correct type tag, all bytes present, ASCII strings ASCII, UTF-8 strings and names valid UTF-8, names at most 128 bytes, known address versions), and serializing the returned value reproduces exactly that prefix of the input.",
  ["inputs"], "all byte strings, for each typed decoder and for the self-describing one",
  "No existing test feeds a decoder anything but the library's own valid output.",
  [S+"clarity/impl.rs", S+"clarity/mod.rs"],
  [("tag and length checks in each decode", S+"clarity/impl.rs"), ("unknown-tag rejection", S+"clarity/mod.rs")],
  ["decode of every type", "decode_clarity_type", "encode of the result"])

p("C03", "Values outside the protocol limits are never serialized",
  "Serialization fails with an error, and produces no bytes, for anything the protocol cannot carry: non-ASCII content in an ASCII string, contract, function, asset or tuple-key names longer than 128 bytes, transfer memos longer than 34 bytes, and principals whose address is not a valid Stacks address; this holds at any nesting depth and inside lists, tuples, function arguments, payloads, post-conditions and whole transactions. Everything at or below those limits is accepted.",
  ["inputs"], "all values with at least one component at, just below or beyond a limit, anywhere in the structure",
  "The tests check two non-ASCII strings at top level; no limit boundary, nesting or propagation through containers, payloads or transactions is exercised.",
  [S+"clarity/impl.rs", S+"transaction/payload.rs", S+"crypto/c32.rs", S+"transaction/condition.rs"],
  [("BadStringLength / BadStringType checks", S+"clarity/impl.rs"), ("memo limit", S+"transaction/payload.rs"), ("address validation on encode", S+"crypto/c32.rs")],
  ["encode", "len", "hex", "Transaction encode/sign"])

p("C04", "Equality, cloning and casting follow the identity of the value",
  "Two Clarity values of one type compare equal exactly when they denote the same value (valid canonical values compare equal if and only if their serializations are identical), whatever characters their strings and names contain. A clone equals its original and stays independent of later changes to it; casting a dynamically typed value succeeds exactly for its real type, hands back the unchanged value, and otherwise reports an error; conversions to and from native types are lossless.",
  ["inputs"], "all pairs of same-typed values, in particular pairs that differ in one leaf or that print similarly; all (value, target type) pairs",
  "Tests only compare values expected to be equal and cast to the right type; two different values that compare equal, or a wrong cast that succeeds, would go unnoticed.",
  [S+"clarity/macro.rs", S+"clarity/impl.rs", S+"clarity/mod.rs"],
  [("PartialEq generated by macro", S+"clarity/macro.rs"), ("Cast impls", S+"clarity/macro.rs"), ("Clone impls", S+"clarity/impl.rs")],
  ["==", "clone", "cast", "cast_as", "From/Into", "into_value", "value"])

p("C05", "Text form of a Clarity value is its exact literal, at any nesting",
  "The printed form of every Clarity value is its Clarity literal: decimal integers (unsigned ones prefixed with u), 0x-prefixed lower-case hex buffers, quoted strings (UTF-8 ones prefixed with u), addresses, address.contract, and (ok x), (err x), (some x), none, true, false, (list a b), (tuple (k v) ...) built from the printed forms of the parts, in order. Printing never fails and never alters the value.",
  ["inputs"], "all values of all types and nestings",
  "Tests print a dozen fixed values; large integers, large buffers, empty and nested containers are not covered.",
  [S+"clarity/impl.rs", S+"crypto/hex.rs"],
  [("Display impls", S+"clarity/impl.rs"), ("bytes_to_hex", S+"crypto/hex.rs")],
  ["to_string / Display"])

p("C06", "Tuples behave as insertion-ordered maps under any operation history",
  "Under any sequence of insert, lookup, in-place update and remove, a tuple with distinct keys behaves as an insertion-ordered map: a lookup returns the value last stored under exactly that key or nothing, inserting under an existing key replaces its value in place, inserting a new key appends it, and removing returns the stored value and drops only that entry. Key iteration, value iteration, consumption, text form and serialization all list the same entries in that same order.",
  ["histories", "inputs"], "all sequences of tuple operations over any keys, including keys that are prefixes or case variants of one another and the empty key",
  "One test performs a single insert and a single remove; repeated keys, removal in the middle and interleavings with iteration are not exercised.",
  [S+"clarity/impl.rs"],
  [("Tuple get/get_mut/insert/remove/keys/values/into_iter", S+"clarity/impl.rs")],
  ["get", "get_mut", "insert", "remove", "keys", "values", "into_iter", "encode", "to_string"],
  [("entries", "ordered key/value pairs of the tuple", S+"clarity/mod.rs")])

p("C07", "Stacks addresses (C32/C32Check) decode only if genuine, and losslessly",
  "C32 text encoding and decoding are exact inverses on every byte string, and every 20-byte hash with a known address version maps to its one canonical Stacks address and back to the same hash and version. Decoding an address accepts exactly the strings that start with S, consist of C32 characters (either case, with O read as 0 and I or L as 1), carry a known version and a 20-byte hash, and have a matching checksum; every other string yields an error and never a panic or a different address.",
  ["inputs"], "all byte strings, all hashes (any number of leading zero bytes) and versions, all strings including every corruption of a valid address",
  "Tests only round-trip random data through both directions of the same code; leading zeros, rejection of corrupted, wrong-length, wrong-version or non-C32 strings are never tested.",
  [S+"crypto/c32.rs"],
  [("c32_encode/c32_decode", S+"crypto/c32.rs"), ("c32check checksum", S+"crypto/c32.rs"), ("c32_address/c32_address_decode", S+"crypto/c32.rs"), ("Address::from_str", S+"crypto/c32.rs")],
  ["c32_encode", "c32_decode", "c32check_encode", "c32check_decode", "c32_address", "c32_address_decode", "Address::from_str"])

p("C08", "Base58, Base58Check and hex conversions are lossless and reject junk",
  "Base58 and hex encoding produce the standard text for every byte string (including empty and all-zero ones) and decoding is their exact inverse; Base58Check additionally returns the same payload and version. Decoding any other text, with characters outside the alphabet, odd-length hex, a payload too short to hold version and checksum, or a wrong checksum, yields an error, never a panic or wrong bytes.",
  ["inputs"], "all byte strings (any number of leading zeros), all versions, all Unicode strings",
  "Randomised tests draw long random arrays, which practically never are all zero or zero-prefixed; junk tests stay within Latin-1 and nothing corrupts a checksum.",
  [S+"crypto/b58.rs", S+"crypto/hex.rs"],
  [("b58_encode/b58_decode", S+"crypto/b58.rs"), ("base58check_*", S+"crypto/b58.rs"), ("hex_to_bytes/bytes_to_hex", S+"crypto/hex.rs")],
  ["b58_encode", "b58_decode", "base58check_encode", "base58check_decode", "hex_to_bytes", "bytes_to_hex"])

p("C09", "Hashes, key hashes and signature containers match their definitions",
  "For every input, the SHA-256, double-SHA-256, SHA-512/256 and HASH160 digests, their 4-byte checksums and hex forms, and the P2PKH, P2WPKH, P2SH and P2WSH hashes of any keys and thresholds equal the published definitions. The 65-byte recoverable signature form stores the recovery id first, converts to and from a recoverable signature without loss, rejects any other length, and the pre-sign and post-sign hashes chain the fields as SIP-005 prescribes.",
  ["inputs"], "all byte strings of any length, all key sets of 1 to 15 keys with any threshold, all signatures",
  "Only one fixed vector per script type is tested; digests, checksums and signature conversion have no direct tests.",
  [S+"crypto/hash.rs", S+"crypto/c32.rs"],
  [("from_slice hashers", S+"crypto/hash.rs"), ("hash_p2pkh/p2wpkh/p2sh/p2wsh", S+"crypto/c32.rs"), ("MessageSignature, SignatureHash", S+"crypto/hash.rs")],
  ["Sha256Hash", "DSha256Hash", "Sha512_256Hash", "Hash160", "hash_p2*", "MessageSignature", "SignatureHash"])

p("C10", "Transaction payloads encode exactly and decode to the same request",
  "Every token-transfer payload (recipient principal, amount, memo) and contract-call payload (contract address and name, function, arguments) is serialized exactly as SIP-005 prescribes, and decoding, directly or through the self-describing entry point, recovers the same recipient, amount, memo (up to its NUL padding), contract, function and arguments. Decoding arbitrary bytes returns a payload or an error without panicking, and a decoded payload re-serializes to exactly the prefix of the input it was read from.",
  ["inputs"], "all payloads (any amount, memo of 0 to 34 bytes, name lengths up to 128, any argument list) and all byte strings",
  "A handful of fixed payloads with one amount, one memo and short names are tested; malformed payload bytes never are.",
  [S+"transaction/payload.rs", S+"clarity/impl.rs"],
  [("TokenTransferPayload/ContractCallPayload codec", S+"transaction/payload.rs"), ("Payload dispatch", S+"transaction/payload.rs")],
  ["encode", "decode", "Box<dyn Payload> decode"])

p("C11", "Post-conditions state exactly the asset, principal, amount and code given",
  "Every STX, fungible and non-fungible post-condition is serialized exactly as SIP-005 prescribes for its principal (standard or contract), condition code, 64-bit amount, asset (address, contract, asset name) and asset value, and a set of conditions is its 32-bit count followed by the conditions in the order given, whether built by constructor or by macro. A condition on anything but a principal is an error.",
  ["inputs"], "all conditions: three kinds, seven codes, both principal kinds, any amount, asset names and values; sets of any size and order",
  "Six fixed encodings with a single amount and two or three codes are tested.",
  [S+"transaction/condition.rs"],
  [("condition encoders", S+"transaction/condition.rs"), ("post_condition! macro", S+"transaction/condition.rs"), ("AssetInfo", S+"transaction/condition.rs")],
  ["encode of each condition and of PostConditions", "post_condition!"])

p("C12", "Built transactions carry exactly what the caller asked for",
  "For every combination of builder inputs (network, sender key, fee, nonce, anchor mode, post-condition mode and post-conditions, and the transfer or call itself), the serialized transaction, read by an independent SIP-005 parser, contains exactly those choices in every field, nothing else and no trailing bytes, with documented defaults for whatever was left out and the sender's key hash as signer. Later fee or nonce changes alter only that field, and the transaction hash is SHA-512/256 of the serialization.",
  ["inputs", "configurations"], "all builder configurations for both transaction kinds on mainnet, testnet and mocknet",
  "Eight golden transactions share one key, one recipient, one amount and two fee/nonce pairs; fields that coincide or are zero there cannot reveal swapped, truncated or ignored inputs.",
  [S+"transaction/builder.rs", S+"transaction/base.rs", S+"transaction/network.rs", S+"transaction/auth.rs"],
  [("builders", S+"transaction/builder.rs"), ("Transaction encode", S+"transaction/base.rs"), ("network constants", S+"transaction/network.rs")],
  ["builder ... transaction()", "encode", "hash", "set_fee", "set_nonce", "Network accessors"])

p("C13", "Signing yields a signature the network accepts and changes nothing else",
  "Signing any transaction with its sender's key yields a transaction identical to the unsigned one except for the signature, from which an independent SIP-005 verifier recovers exactly that sender's public key; the signature commits to the network, fee, nonce, anchor mode, post-conditions and payload present at signing time. Signing is deterministic, and signing an already signed single-signature transaction is refused without altering it.",
  ["inputs", "histories"], "all single-signature transactions (both key-hash modes) and keys, with fee/nonce edits before signing",
  "The golden tests fix one key; nothing verifies a signature, and wrong commitments would only show for inputs that differ from the goldens.",
  [S+"transaction/base.rs", S+"transaction/signer.rs", S+"transaction/auth.rs", S+"crypto/hash.rs"],
  [("TransactionSigner::sign_origin", S+"transaction/signer.rs"), ("initial_hash / Auth::reset", S+"transaction/base.rs"), ("SignatureHash::next_signature", S+"crypto/hash.rs")],
  ["Transaction::sign", "TransactionSigner", "encode", "hash"])

p("C14", "Multi-signature and sponsored signing follows the protocol in every session",
  "In any session of origin signatures, appended public keys and sponsor signatures, including sessions that hand over a partially signed transaction and resume from it, every accepted step adds exactly one field, signed over the SIP-005 hash chain of all previous signatures, and the serialized authorization matches what an independent model of the session prescribes. Steps that are not allowed (signing beyond the required count, touching the origin once the sponsor stage began, appending keys to a single-signature origin, sponsoring a non-sponsored transaction or one whose origin does not verify) are refused with the matching error and leave the transaction unchanged.",
  ["histories", "inputs"], "all sequences of signer operations for standard and sponsored transactions with single- and multi-signature conditions of 1 to 6 keys, with hand-over at every point",
  "No existing test performs a multi-signature or sponsored signing at all; only the unsigned encoding of one condition is checked.",
  [S+"transaction/signer.rs", S+"transaction/auth.rs", S+"transaction/base.rs"],
  [("TransactionSigner guards and running hash", S+"transaction/signer.rs"), ("SpendingConditionMultiSig", S+"transaction/auth.rs"), ("sign_and_append", S+"transaction/base.rs")],
  ["TransactionSigner::{new,new_sponser,sign_origin,append_origin,sign_sponsor,transaction}", "Transaction::sign", "encode"],
  [("hash", "running signature hash of the session", S+"transaction/signer.rs"), ("fields", "signatures and public keys collected so far", S+"transaction/auth.rs")])

p("C15", "Verification accepts only genuine, untampered authorizations",
  "Verifying an authorization succeeds when every signature is genuine, the required number is present and the keys hash to the signer, for standard and sponsored, single- and multi-signature conditions. It fails with an error, and never panics, as soon as anything signed over (transaction contents, fee, nonce), any signature, the key set, its order or the threshold does not match, or signatures are missing.",
  ["inputs", "histories"], "all authorizations of 1 to 15 keys and all single or multiple alterations of them or of the transaction",
  "Verification is not exercised by any existing test.",
  [S+"transaction/auth.rs", S+"crypto/hash.rs", S+"transaction/base.rs"],
  [("Auth::verify / verify_origin", S+"transaction/auth.rs"), ("SpendingCondition::verify", S+"transaction/auth.rs"), ("SignatureHash::next_verify", S+"crypto/hash.rs")],
  ["Auth::verify", "Auth::verify_origin", "SpendingCondition::verify", "TransactionSigner::new_sponser"])

p("C16", "Wallet accounts depend only on the secret phrase and the index",
  "For every valid BIP-39 phrase, the wallet key and the account at every index are the ones BIP-39/BIP-32 define for path m/44'/5757'/0'/0 and its child, with matching private key, public key and address for each address version. The result of fetching an account never depends on which accounts were fetched before, in which order or how often, or on clones of the wallet, except that an explicitly set account is returned for its own index; invalid phrases are rejected.",
  ["inputs", "histories"], "all phrases of 12 to 24 words, all 32-bit indices, all sequences of get/set/clone",
  "Two tests use one phrase and indices 0 and 1 on fresh wallets.",
  [S+"wallet.rs", S+"crypto/c32.rs"],
  [("from_secret_key", S+"wallet.rs"), ("get_account cache", S+"wallet.rs"), ("StacksAccount::derive/get_address", S+"wallet.rs")],
  ["from_secret_key", "get_account", "set_account", "private_key", "public_key", "get_address"],
  [("accounts", "cache of derived accounts by index", S+"wallet.rs")])

p("C17", "Each RPC call sends exactly one request with exactly the right content",
  "Every call of the node client sends exactly one HTTP request (further ones only if the node redirects it), to the configured base URL, with the method and path the Stacks node API defines for it and with exactly the caller's data: broadcast posts the serialized transaction bytes as an octet stream, fee estimation posts the payload in hex and the transaction length, read-only calls post the sender and the serialized arguments in order, account lookup names the address. If the data cannot be serialized, an error is returned and nothing is sent.",
  ["inputs", "fault_sequences"], "all transactions, addresses, contract and function names and argument lists, under all server behaviours",
  "The client has no tests at all (they would need a node).",
  [S+"rpc.rs"], [("StacksRPC methods", S+"rpc.rs")],
  ["bytes received by a loopback HTTP server", "return value"])

p("C18", "RPC replies are reported faithfully and failures become errors",
  "Every field of a well-formed node reply is handed to the caller unchanged; a rejected broadcast or fee estimation and a failed read-only call are reported as such with the node's reason, never as success. Any other outcome (error status, malformed or incomplete JSON, wrong types, truncated body, broken connection) makes the call return an error, without panicking and without inventing data.",
  ["inputs", "fault_sequences"], "all reply contents and all faults: status codes, malformed bodies, truncation and disconnect at any byte, chunking and fragmentation",
  "The client has no tests at all.",
  [S+"rpc.rs"], [("response types and status mapping", S+"rpc.rs")],
  ["return value of each StacksRPC method"])

p("C19", "Derived structs receive exactly the tuple's values or an error",
  "A struct derived from a tuple receives in each field exactly the value stored under that field's key, for every supported field type (integers, booleans, buffers, text, lists of text, optionals, ok-responses and nested structs), regardless of entry order and of additional entries. A missing key or a value of any other type makes the conversion fail with an error naming the key; no value is silently dropped, defaulted or taken from another key.",
  ["inputs", "programs"], "all tuples for a family of derived structs covering every supported field type",
  "One positive test with small values; missing keys, wrong types, extra or permuted entries and optionals holding the wrong type are not tested.",
  ["stacks_derive/src/from_tuple.rs", S+"derive.rs", S+"clarity/impl.rs"],
  [("generated TryFrom<Tuple>", "stacks_derive/src/from_tuple.rs"), ("Cast", S+"clarity/macro.rs")],
  ["TryFrom<Tuple> of derived structs"])

p("C20", "Results are independent of threads, order and earlier calls; memory-safe",
  "Every operation of the library (codecs, hashing, building, signing, verifying, deriving accounts) is a function of its arguments: repeated, reordered, interleaved with other calls and run from many threads at once, including on shared values, it returns the same result as when run alone. None of these executions shows a data race, invalid memory access or other undefined behaviour.",
  ["schedules", "histories", "inputs"], "all interleavings of any operations on any number of threads, and all call orders",
  "The existing tests call each function once or in isolation and never compare results across threads, orders or repetitions.",
  [S+"clarity/impl.rs", S+"crypto/hash.rs", S+"transaction/base.rs", S+"transaction/signer.rs", S+"wallet.rs"],
  [("absence of shared mutable state; Send + Sync values", S+"clarity/mod.rs")],
  ["results of all public operations under concurrent load", "ThreadSanitizer / AddressSanitizer reports"])

p("C21", "A wallet's transaction reaches the node as asked, properly authorized",
  "A transaction made from wallet accounts in the documented way (accounts derived from a phrase, nonce looked up, built or assembled, fee estimated and set, signed by one account, several accounts or an origin and a sponsor with hand-overs, then broadcast, possibly again after a rejection or an unanswered attempt) reaches the node as one complete SIP-005 transaction that carries exactly the caller's choices and the looked-up nonce and chosen fee, and whose authorization an independent node accepts as given by exactly those accounts. Its id, as computed from the received bytes, is the hash the library reports.",
  ["histories", "inputs", "fault_sequences"], "all wallets, accounts, requests, orders of the steps and failed attempts in between; several transactions per client",
  "No existing test goes through more than one module, signs with a wallet account, sets fee or nonce after building, or broadcasts.",
  [S+"wallet.rs", S+"transaction/builder.rs", S+"transaction/base.rs", S+"transaction/auth.rs", S+"transaction/signer.rs", S+"rpc.rs"],
  [("get_account", S+"wallet.rs"), ("builders", S+"transaction/builder.rs"), ("set_fee / set_nonce / sign", S+"transaction/base.rs"), ("TransactionSigner", S+"transaction/signer.rs"), ("StacksRPC::{address,estimate_fee,broadcast}", S+"rpc.rs")],
  ["bytes received by a loopback node model", "return values"])

p("C22", "Contract reads deliver exactly the arguments and the returned value",
  "A read-only call hands the contract exactly the Clarity arguments the caller passed, in order, as an independent node reads them; and the value the contract returns, taken from the reply in hex, converted to bytes and decoded, is exactly that value: same type, structure and contents, same literal when printed, same bytes when serialized again, same entries when converted to a derived struct, whether bare or wrapped in an ok response.",
  ["inputs", "histories"], "all argument lists and all returned values, several calls per client",
  "No existing test combines the client, the hex and Clarity codecs and the derived structs.",
  [S+"rpc.rs", S+"clarity/impl.rs", S+"clarity/mod.rs", S+"crypto/hex.rs", "stacks_derive/src/from_tuple.rs"],
  [("StacksRPC::read_only", S+"rpc.rs"), ("decode_clarity_type", S+"clarity/mod.rs"), ("hex_to_bytes", S+"crypto/hex.rs"), ("generated TryFrom<Tuple>", "stacks_derive/src/from_tuple.rs")],
  ["request received by a loopback node model", "decoded value", "derived struct"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))

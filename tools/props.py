TX = "every *Transaction package and btcLikeTxDriver"
TRUST = "Trusted: go/types, x/tools SSA, the analyser, and the models of library calls listed in the evidence (hash, codec, signature primitives). "
prop("P01", "Verification accepts only when every required signature checks out",
 "A transaction verification operation reports success only on executions in which the signature primitive accepted a signature for every input or signer that the transaction requires, and for a multi-signature input at least the required number of signatures under distinct keys. No input, signature list (empty, short, repeated or over-long) or key list makes it report success otherwise.",
 ["inputs"], "all raw transactions, signature lists, key lists and unlock data given to any verification entry point",
 "A test shows that some bad signatures are refused; the guarantee is about every path to the accepting return for lists of any length and content.",
 ["btcTransaction/transaction.go", "btcLikeTxDriver/transaction.go", "bytomTransaction/transaction.go", "ontologyTransaction/transaction.go", "vollarTransaction/transaction.go"],
 [("27 exported verification operations", "VerifyRawTransaction / VerifyAndCombine* of " + TX), ("signature primitive status", "owcrypt.Verify result compared with SUCCESS")],
 "path-sensitive typestate over SSA: acceptance implies verified",
 TRUST + "Sound for the accepting paths of the 27 entry points: each is shown to be preceded by a successful check per signature, with loops summarised by invariants (every element checked, distinct keys counted). Assumes the primitive itself is right.")
prop("P02", "Failures are reported, never turned into a plausible result",
 "When decoding, parsing, signing or any internal step fails, the public operation that needed it reports failure. It never reports success with an empty or partial result made from the data that could not be decoded.",
 ["inputs"], "all inputs of all exported operations, all points at which a step can fail",
 "Each step has its own malformed inputs; tests exercise a few of several hundred failure points.",
 ["btcTransaction/transaction.go", "polkadotTransaction/txStruct.go", "waykichainTransaction/txStruct.go", "addressEncoder/addressEncoder.go", "owkeychain/extendedkey.go"],
 [("failure signals", "every call in the module that returns an error or an owcrypt status"), ("reporting returns", "error, bool and empty results of the functions around them")],
 "path-sensitive dataflow: every failure signal reaches a failing return",
 TRUST + "Every error or status produced by a call is followed on all paths of its function: it must be tested before any return that means success, and the failing side must end in a failing return. Calls that cannot fail (hex of a string produced by hex encoding, and the like) are proved so; four drops are listed with reasons.")
prop("P05", "Private keys and seeds never leave through output, errors or wrong results",
 "No private key, seed or value that reveals one is written to standard output, logs, files, error texts, panics or package state. It reaches the caller only in the results whose purpose is to carry it.",
 ["inputs"], "all operations that take or derive secret material, all their paths",
 "A test cannot look at every sink on every error path for every key.",
 ["owkeychain/extendedkey.go", "owkeychain/hdprofile.go", "btcTransaction/transaction.go", "fiiiTransaction/transaction.go"],
 [("secret sources", "key parameters of signing operations, ExtendedKey private material, seeds"), ("sinks", "fmt, log, os, errors, panic, package variables, returned values")],
 "interprocedural taint analysis by abstract interpretation",
 TRUST + "All callees are inlined; hashing and one-way primitives end the taint, encodings and copies keep it. Control-flow (timing) leaks are not covered.")
prop("P06", "Operations keep no hidden state between calls and are safe to run concurrently",
 "No operation writes package-level memory or anything reachable from it after initialisation. The outcome of a call therefore depends on its arguments only, never on earlier or concurrent calls.",
 ["schedules", "histories"], "all histories of calls and all interleavings of concurrent calls",
 "Interference needs a particular history or interleaving that tests do not sample.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/bech32/bech32.go", "btcTransaction/base58.go", "owkeychain/base58.go"],
 [("package variables", "all package-level variables of the module, including arrays and slices reached from them")],
 "effect analysis: writes to memory reachable from package variables",
 TRUST + "Abstract interpretation with an object-based heap from every exported operation, all callees inlined; a write through any alias of a package variable, including append into spare capacity, is reported.")
prop("P07", "Operations leave the caller's arguments unchanged",
 "No operation modifies the memory behind the slices, maps, structures and pointers it is given (including spare capacity of slices), except the objects it exists to update. The same arguments can be reused for signing, verification and retries with the same outcome.",
 ["inputs", "histories"], "all arguments, aliasing patterns and slice capacities, all sequences of calls that reuse them",
 "Corruption shows only when an argument is reused or has spare capacity; tests build fresh arguments.",
 ["btcTransaction/txIn.go", "btcLikeTxDriver/transaction.go", "addressEncoder/addressEncoder.go", "cosmosTransaction/txStruct.go"],
 [("arguments", "parameters and receivers of all exported operations"), ("in-place helpers", "reverseBytes, append on argument slices")],
 "effect analysis: writes to memory reachable from parameters",
 TRUST + "Same heap analysis as P06 with every parameter's memory as the protected region. Intended updates are a short table of setters and in-place operations.")
prop("P08", "What is signed, verified and emitted depends on the whole transaction",
 "The digest that is signed or verified and the transaction that is emitted depend on every field the caller supplied (inputs, outputs, amounts, sequence, lock time, fees, nonces, chain identifiers, scripts, signature and key), each taken whole. No field is dropped, cut short, or replaced by another or by a constant on any successful path.",
 ["inputs"], "all field values and all successful paths of every transaction operation",
 "A dropped or truncated field shows only for values that differ in that field; tests use fixed vectors.",
 ["btcTransaction/txHash.go", "btcTransaction/txStruct.go", "bytomTransaction/txStruct.go", "rippleTransaction/txStruct.go", "moacchainTransaction/txStruct.go"],
 [("dependence table", "about 1,200 (operation, result part, input) dependences of " + TX)],
 "must-dependence analysis (information flow) by abstract interpretation",
 TRUST + "Must-dependences are computed for all paths and inputs; each dependence confirmed on the reviewed tree is an obligation. It decides that a value goes in whole, not that it is laid out in the chain's format.")
VG = "value-graph comparison with a reviewed reference (translation validation): gated SSA normalised to terms"
VGN = TRUST + "Trusted too: the reviewed reference in /verif/reference, read against the chains' formats and repaired where it was wrong (see known_findings.txt). Equality of value graphs is shown for all inputs; a difference is reported only when a consistent path leads to certainly different outcomes; a difference that is neither shown equal nor certain stays silent and is listed in the evidence, so this is a bug finder with proofs of equality, not a proof of every change. "
prop("P03", "Decoders refuse every string that is not a valid encoding",
 "Decoding or checking an address, an extended key or any other text form succeeds only for strings that are complete, well-formed encodings: every character in the alphabet, the right length and layout, and a checksum that matches the whole payload under the scheme's own checksum function. It then yields exactly the payload that the string encodes. Anything else, however close to a valid string, is refused.",
 ["inputs"], "all strings given to any decoder, address check or transaction operation that takes addresses",
 "One corrupted character in a test says nothing about the other positions, lengths, alphabets and schemes.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/base58.go", "addressEncoder/bech32/bech32.go", "addressEncoder/bech32m/bech32m.go", "addressEncoder/base32PolyMod/base32PolyMod.go", "addressEncoder/eip55/eip55.go", "owkeychain/owencode.go", "btcTransaction/base58.go"],
 [("decoders", "addressEncoder.AddressDecode/AddressCheck/VerifyChecksum/DecodeData and the Decode/DecodeCheck/Bech32Decode operations of every package"), ("refusal conditions", "the condition under which each decoder refuses, as a term over its input")],
 VG, VGN)
prop("P04", "Addresses stay bound to their coin, network and script kind",
 "An address operation given a profile or coin accepts only addresses of that coin's network, version prefix or human-readable part, payload length and kind, and encodes with exactly that profile. An address of another network, prefix, witness version or length is refused, never reinterpreted, by the address library and by the transaction operations that pay to addresses.",
 ["inputs"], "all addresses, profiles and coins, in both directions",
 "There are more than a hundred profiles and each can be confused with any other; tests use the right one.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/addressCheck.go", "addressEncoder/encoderProfile.go", "btcTransaction/txOut.go", "owkeychain/hdprofile.go"],
 [("profiles", "exported AddressType variables of addressEncoder"), ("prefix tests", "prefix, human-readable part and length tests of the decoders, and the address dispatch in newTxOut* of the transaction packages")],
 VG, VGN)
prop("P09", "Transactions and digests have exactly the chain's byte layout",
 "Every transaction that is built, completed or re-encoded, and every digest prepared for signing, consists of exactly the fields of the chain's format: each in its place, byte order, width and length prefix, for every number and kind of inputs and outputs, amounts and optional parts, and the digest is the chain's hash over exactly the prescribed preimage. A well-formed request is never refused.",
 ["inputs"], "all transactions that can be expressed, for every transaction package",
 "Test vectors fix a few transactions; layout depends on counts, sizes, thresholds of length prefixes, flags and kinds of script.",
 ["btcTransaction/txStruct.go", "btcTransaction/txHash.go", "btcLikeTxDriver/txStruct.go", "rippleTransaction/txStruct.go", "ontologyTransaction/txStruct.go", "waykichainTransaction/txStruct.go", "polkadotTransaction/txStruct.go", "bytomTransaction/txStruct.go"],
 [("serialisers", "ToBytes / encodeToBytes / GetHash of the transaction structures"), ("exported operations", "about 470 operations of " + TX)],
 VG, VGN)
prop("P10", "Encoding an address or key yields exactly the specified string",
 "Encoding a public key, hash, script or extended key yields the string its scheme prescribes: the profile's prefix and suffix, the prescribed hash of the given data, the scheme's checksum over exactly the prescribed bytes, and the alphabet's digits, for every payload including those with leading zeros and of every permitted length.",
 ["inputs"], "all payloads, profiles and schemes",
 "Leading zeros, length boundaries and rarely used schemes are not in the vectors, and a wrong address loses funds.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/base58.go", "addressEncoder/bech32/bech32.go", "addressEncoder/base32PolyMod/base32PolyMod.go", "addressEncoder/eip55/eip55.go", "owkeychain/owencode.go"],
 [("encoders", "AddressEncode, EncodeData, CalcChecksum and the Encode/EncodeCheck/Bech32Encode operations of every package")],
 VG, VGN)
prop("P11", "Malformed transactions, scripts and requests are refused",
 "A transaction operation refuses input that does not satisfy its format: truncated or over-long data, impossible counts and lengths, unknown types and flags, missing inputs, outputs, keys or unlock data, values out of range, inconsistent lists. It never interprets such input as a transaction.",
 ["inputs"], "all byte strings, structures and parameter values given to transaction operations",
 "The refusal conditions number in the hundreds and each guards inputs that no test contains.",
 ["btcTransaction/txStruct.go", "btcTransaction/txIn.go", "btcTransaction/txOut.go", "bytomTransaction/txIn.go", "btcLikeTxDriver/txStruct.go", "ontologyTransaction/txStruct.go", "moacchainTransaction/txStruct.go"],
 [("refusal conditions", "the condition under which each exported operation of " + TX + " refuses")],
 VG, VGN)
prop("P12", "Hierarchical keys are derived exactly as specified",
 "For every seed, path, index, curve and depth the derivation yields the specified key: the master key from the seed, hardened and normal children, private and public, chain code, parent fingerprint, depth and index; hardened children never come from public keys; seeds, paths, indices, depths and intermediate values outside the permitted range are refused. Serialised extended keys carry all of it.",
 ["inputs"], "all seeds, paths, indices, curves and depths",
 "Derivation has many branches per curve, index range and key kind, and rare values (leading zeros, overflow of the curve order) no vector contains.",
 ["owkeychain/extendedkey.go", "owkeychain/hdkey.go", "owkeychain/hdprofile.go", "owkeychain/owencode.go"],
 [("derivation", "InitRootKeyFromSeed, GenPrivateChild, GenPublicChild, DerivedPrivateKeyWithPath, DerivedPublicKeyFromPath"), ("coin types and prefixes", "exported variables of owkeychain")],
 VG, VGN)
prop("P13", "Text encoders and decoders fit each other",
 "What an encoder of the library produces, its decoder accepts and turns back into the same payload, for base58 and its checked forms, bech32 and bech32m, the cash address form, base32 and base64, EIP-55, extended keys and multi-signature shares: same alphabet, digit order, padding, checksum and length rules on both sides.",
 ["inputs"], "all payloads of every permitted length and all schemes",
 "A mismatch shows for particular digits, lengths or leading bytes only.",
 ["addressEncoder/base58.go", "addressEncoder/base32.go", "addressEncoder/base64.go", "addressEncoder/bech32/bech32.go", "owkeychain/base58.go", "btcTransaction/bech32.go", "rippleTransaction/base58.go"],
 [("codec pairs", "Encode*/Decode* operations of addressEncoder, owkeychain and the transaction packages")],
 VG, VGN + "The round trip is not computed: each side is held to the reviewed pair. ")
prop("P14", "Published protocol constants keep their values",
 "Every exported constant and package variable that callers and the operations take protocol values from (address profiles, prefixes and alphabets, coin types, curve and hash choices, operation codes, flags, default fees and versions) has the value its chain prescribes, under the name that says so.",
 ["inputs"], "all exported constants and variables of the module",
 "A test uses some of the several hundred values, often on both sides of a comparison, so that a wrong one goes unnoticed.",
 ["addressEncoder/encoderProfile.go", "owkeychain/hdprofile.go", "btcTransaction/txProfile.go", "rippleTransaction/txProfile.go", "waykichainTransaction/txProfile.go"],
 [("profiles and constants", "exported constants and variables, about 740")],
 "abstract evaluation of package initialisers to constants, compared by name", TRUST + "The values are those of the reviewed reference. How a value is written down does not matter: initialisers are evaluated to terms.")
prop("P16", "Signatures are emitted in the one form the chain accepts",
 "The signature that a signing or combining operation emits has the chain's form for every key and digest: r and s at full fixed width or minimal DER as the chain prescribes, leading zero bytes kept or stripped accordingly, the low-s form where required, recovery identifiers, type bytes and lengths right, the public key in the prescribed form, each in its place in the transaction. No valid signature is garbled because its numbers have unusual lengths or high bits.",
 ["inputs"], "all keys, digests, signatures and positions",
 "Only one signature in 128 or fewer has the leading bytes that matter; fixed test keys never show it.",
 ["btcTransaction/SignaturePubkey.go", "rippleTransaction/txUtils.go", "btcLikeTxDriver/signaturepubkey.go", "moacchainTransaction/txStruct.go", "fiiiTransaction/txStruct.go"],
 [("signature encoders", "SignaturePubkey.encode*, serilizeS and the Sign*/VerifyAndCombine*/Insert* operations")],
 VG, VGN)
prop("P18", "Multi-signature addresses and transactions follow the m-of-n rule",
 "A multi-signature address or redeem script commits to exactly the given keys, in the given order, and the required number; inputs with impossible numbers of keys or signatures are refused. A multi-signature input is complete only with the required number of signatures, placed in the order and form the script prescribes, and its parts decode to the same data. Shares of multi-signature keys carry all their fields.",
 ["inputs", "histories"], "all key sets, thresholds, orders of signing and share data",
 "Combinations of threshold, key count and signing order are not sampled by tests.",
 ["btcTransaction/SignaturePubkey.go", "btcTransaction/txHash.go", "bytomTransaction/txHash.go", "btcLikeTxDriver/transaction.go", "owkeychain/multisig.go"],
 [("multi-signature operations", "CreateMultiSig, PadMultiSig, encodeToScript, GetMultiSigShareData, ChianEncode/ChainDecode and the combine and verify operations that use them")],
 VG, VGN)
prop("P15", "Operations are deterministic and depend on nothing but their arguments",
 "Encoding, decoding, hashing, signing preparation, combination, verification and key derivation give the same outcome for the same arguments on every machine and at every time. Only the operations that stamp a new transaction with the time or a random nonce use the clock or random numbers; no operation reads the environment, files, the network, the iteration order of maps or the order in which goroutines run.",
 ["inputs", "schedules", "histories"], "all calls of all exported operations, all environments and schedules",
 "A run that depends on map order, the clock or the schedule can pass any number of times.",
 ["addressEncoder/addressEncoder.go", "bigbangTransaction/txStruct.go", "ontologyTransaction/transaction.go", "fiiiTransaction/txStruct.go", "owkeychain/hdkey.go"],
 [("exported operations", "about 540 exported operations and everything they reach"), ("ambient inputs", "time, rand, os, net, runtime, go statements, select, range over maps")],
 "call-graph reachability and effect analysis of ambient inputs",
 TRUST + "Library code outside the module is classified by package and function, not analysed; map iteration is allowed where its order cannot show. Which operations may stamp transactions is read from the reviewed reference.")
prop("P17", "Signing and verification agree on curve, digest and key form",
 "What a package signs, it also verifies: both sides use the same curve, the same digest of the same preimage, the same signature and key form, so that a signature made over the prepared digest with the right key is accepted by the verification of the completed transaction, and one made for another digest, key or transaction is not.",
 ["inputs"], "all keys, transactions and digests of every transaction package",
 "Whether both sides agree depends on kinds of input, hash types and key forms that the vectors of one chain do not combine.",
 ["btcTransaction/transaction.go", "btcTransaction/txHash.go", "bytomTransaction/transaction.go", "ontologyTransaction/transaction.go", "waykichainTransaction/transaction.go", "ontologyTransaction/txSigPub.go"],
 [("signature and verification calls", "owcrypt.Signature and owcrypt.Verify call sites"), ("operations", "Sign*, Verify*, CreateRawTransactionHashForSig of " + TX)],
 VG + "; agreement of curve constants per package", VGN)
prop("P19", "Reading a transaction back yields the fields that were written",
 "Decoding a serialised transaction yields its fields with the values and in the order in which the serialiser wrote them, for every number and kind of inputs and outputs, length form and optional part, and consumes exactly the transaction.",
 ["inputs"], "all serialised transactions",
 "Length forms, optional parts and counts combine in ways that vectors do not contain.",
 ["btcTransaction/txStruct.go", "btcTransaction/txIn.go", "btcTransaction/txOut.go", "btcLikeTxDriver/txStruct.go", "bytomTransaction/txStruct.go", "vollarTransaction/txStruct.go"],
 [("decoders", "DecodeRawTransaction and the operations that decode a transaction to verify, hash or complete it")],
 VG, VGN + "The round trip is not computed: each side is held to the reviewed pair. ")
NA += [
("N01", "Encoding then decoding returns the payload, as arithmetic",
 "For every payload p and profile t, decoding the encoding of p under t returns p, and encoding a decoded string returns the string: the change of base (58, 32, 16) and the checksum are mutually inverse.",
 ["inputs"], "all payloads of all lengths and all profiles",
 "Payload lengths and leading zeros are unbounded.",
 ["addressEncoder/addressEncoder.go", "addressEncoder/bech32/bech32.go"],
 [("codecs", "Base58checkEncode/Decode, bech32.Encode/Decode, eip55")],
 "That a change of base is invertible is an induction over numbers of unbounded length and not a fact of dataflow; P03, P10 and P13 hold both sides to the reviewed pair instead."),
("N02", "Private and public child derivation commute",
 "For every extended private key and non-hardened index, deriving the child and taking its public key equals taking the public key and deriving its child.",
 ["inputs"], "all keys and indices",
 "The key space cannot be sampled meaningfully.",
 ["owkeychain/hdkey.go"],
 [("derivation", "GenPrivateChild, GenPublicChild")],
 "A group law of elliptic curves computed in the external owcrypt library; no static argument over this repository's source reaches it. P12 decides that the calls that realise it are made with the specified arguments."),
("N03", "Hash, curve and signature primitives compute their standards",
 "The hash functions, curve operations and signature algorithms compute the published functions for every input.",
 ["inputs"], "all messages and keys",
 "Agreement with a standard on vectors does not settle all inputs.",
 ["addressEncoder/blake256/blake256block.go", "owkeychain/hdkey.go"],
 [("primitives", "owcrypt (external), addressEncoder/blake256, blake2b")],
 "Functional correctness of a compression function or curve arithmetic is not a dataflow or typestate question, and most of it lies in the external C library owcrypt."),
("N04", "No input makes an operation panic or run forever",
 "Every exported operation returns, with a result or an error, for every argument.",
 ["inputs"], "all arguments, malformed ones included",
 "Malformed inputs are unbounded in length and shape.",
 ["btcTransaction/txStruct.go", "addressEncoder/addressEncoder.go", "rippleTransaction/txUtils.go"],
 [("index and slice expressions", "all decoders")],
 "Most index expressions are guarded by relations between runtime lengths read from the data itself, which no sound static bound here discharges without hundreds of false alarms; and the reviewed tree does panic on some short inputs (see DESIGN.md), so the property as stated does not hold."),
]

MON = 'runtime monitoring: '
TRUST = 'Observes the executions of this run only. Trusts the oracle in harness/src, rust-bitcoin, secp256k1 and rust-miniscript.'
V2 = 'src/v2/mod.rs'; GL = 'src/v2/map/global.rs'; IN = 'src/v2/map/input.rs'; OUT = 'src/v2/map/output.rs'
SER = 'src/serialize.rs'; RAW = 'src/raw.rs'
V0 = 'src/v0/bitcoin/mod.rs'; V0S = 'src/v0/bitcoin/serialize.rs'; V0G = 'src/v0/bitcoin/map/global.rs'; V0I = 'src/v0/bitcoin/map/input.rs'; V0O = 'src/v0/bitcoin/map/output.rs'

prop('C01', 'Parsing a v2 PSBT never panics, hangs or exhausts memory',
 'For every byte string (and every text given to the base64 parser) parsing as a version 2 PSBT returns a PSBT or an error: it never panics, aborts or loops. The memory used is bounded by a constant plus a multiple of the input length, whatever lengths and counts the input claims.',
 ['inputs'], 'All byte strings: valid PSBTs, PSBTs with mutated structure, lying lengths and counts, truncations, random bytes, text.',
 'The tests parse about a hundred fixed vectors; a hostile length, count or nesting is one of unboundedly many inputs and none of the vectors claims more than it holds.',
 [V2, GL, IN, OUT, SER, RAW], [('Psbt::deserialize', V2), ('Pair::decode', RAW), ('Deserialize impls', SER)],
 MON + 'hostile parsing workload under a counting allocator, panic hook, overflow checks and a supervisor process', TRUST)
prop('C02', 'Parsing a v0 PSBT never panics, hangs or exhausts memory',
 'For every byte string (and every text given to the base64 parser) parsing as a version 0 PSBT returns a PSBT or an error: it never panics, aborts or loops. The memory used is bounded by a constant plus a multiple of the input length, whatever lengths and counts the input claims.',
 ['inputs'], 'All byte strings, as for the version 2 parser.',
 'Fixed vectors only; see the version 2 parser.',
 [V0S, V0G, V0I, V0O, 'src/v0/bitcoin/raw.rs'], [('Psbt::deserialize', V0S), ('Pair::decode', 'src/v0/bitcoin/raw.rs')],
 MON + 'hostile parsing workload under a counting allocator, panic hook, overflow checks and a supervisor process', TRUST)
prop('C03', 'A v2 PSBT survives serialization unchanged',
 'For every version 2 PSBT value, serializing and parsing gives back an equal PSBT, and the bytes written hold exactly the key-value pairs that BIP-174, BIP-370, BIP-371 and BIP-375 assign to its fields, each once. Values at the edge of a field (zero amounts, empty scripts, extreme indices) are no exception.',
 ['inputs'], 'All PSBT values, every combination of present fields and map sizes.',
 'The tests round-trip a few hand-made PSBTs; a field combination that is dropped, doubled or mis-typed needs to be in one of them to be seen.',
 [V2, GL, IN, OUT, SER, RAW], [('get_pairs', IN), ('get_pairs', OUT), ('get_pairs', GL), ('Serialize impls', SER)],
 MON + 'generated PSBTs; serialized bytes compared with an independently written field-to-pair table, reparse compared for equality', TRUST)
prop('C04', 'Parsing and re-serializing a valid v2 PSBT loses nothing',
 'Every well-formed version 2 PSBT is accepted, whatever the order of the pairs in its maps, and re-serializing it yields the same set of key-value pairs in every map, including proprietary and unknown ones. Parsing depends only on the set of pairs, not on their order.',
 ['inputs'], 'All well-formed version 2 PSBTs and all orders of their pairs.',
 'Vectors from the BIPs all use one canonical order of pairs and few unknown fields.',
 [V2, GL, IN, OUT, SER, RAW], [('insert_pair', IN), ('insert_pair', OUT), ('Global::decode', GL)],
 MON + 'generated and reordered PSBTs, key-value level comparison by an independent codec', TRUST)
prop('C05', 'A malformed v2 PSBT is rejected',
 'A byte string that breaks the version 2 format is refused: wrong magic, duplicate keys, key data where none belongs or missing where required, values of the wrong length or that do not decode, missing mandatory fields, fields excluded from version 2, counts that do not match the maps, preimages that do not match their hash, trailing data. Nothing that is refused is ever silently repaired or dropped.',
 ['inputs'], 'All byte strings that violate the format rules of BIP-174, BIP-370, BIP-371 and BIP-375.',
 'The invalid vectors of the BIPs hold one instance per rule; each rule applies to every field, position and value.',
 [V2, GL, IN, OUT, SER, RAW, 'src/macros.rs'], [('insert_pair', IN), ('insert_pair', OUT), ('Global::decode', GL), ('v2_impl_psbt_insert_pair', 'src/macros.rs')],
 MON + 'structure-aware mutation, acceptance compared with an independent format oracle (accept / reject / unspecified)', TRUST)
prop('C06', 'A v0 PSBT survives serialization unchanged',
 'For every version 0 PSBT value, serializing and parsing gives back an equal PSBT, and the bytes written hold exactly the key-value pairs that BIP-174 and BIP-371 assign to its fields, each once.',
 ['inputs'], 'All PSBT values, every combination of present fields and map sizes.',
 'As for version 2: a handful of fixed values is round-tripped.',
 [V0S, V0G, V0I, V0O], [('get_pairs', V0I), ('get_pairs', V0O), ('get_pairs', V0G)],
 MON + 'generated PSBTs; serialized bytes compared with an independently written field-to-pair table, reparse compared for equality', TRUST)
prop('C07', 'Parsing and re-serializing a valid v0 PSBT loses nothing',
 'Every well-formed version 0 PSBT is accepted, whatever the order of the pairs in its maps, and re-serializing it yields the same set of key-value pairs in every map, including proprietary and unknown ones (a version pair that says 0 may be left out).',
 ['inputs'], 'All well-formed version 0 PSBTs and all orders of their pairs.',
 'Vectors use one order of pairs and few unknown fields.',
 [V0S, V0G, V0I, V0O], [('insert_pair', V0I), ('insert_pair', V0O), ('decode_global', V0G)],
 MON + 'generated and reordered PSBTs, key-value level comparison by an independent codec', TRUST)
prop('C08', 'A malformed v0 PSBT is rejected',
 'A byte string that breaks the version 0 format is refused: wrong magic, duplicate keys, wrong key data, undecodable or trailing values, a missing, signed or malformed unsigned transaction, maps missing or in excess, version 2 fields, preimages that do not match their hash, trailing data.',
 ['inputs'], 'All byte strings that violate the format rules of BIP-174 and BIP-371, or use fields excluded by BIP-370.',
 'The invalid vectors hold one instance per rule.',
 [V0S, V0G, V0I, V0O], [('insert_pair', V0I), ('insert_pair', V0O), ('decode_global', V0G)],
 MON + 'structure-aware mutation, acceptance compared with an independent format oracle (accept / reject / unspecified)', TRUST)
prop('C09', 'The two PSBT versions are never confused',
 'No byte string is accepted by both parsers: the version 2 parser accepts only PSBTs that say version 2, the version 0 parser only those that say 0 or nothing and carry no version 2 field. What one version writes the other refuses.',
 ['inputs'], 'All byte strings; all values serialized by either version; all version numbers.',
 'The tests hold a few vectors with excluded fields; none feeds every field of one version to the other.',
 [V2, GL, V0G, V0I, V0O, 'src/version.rs'], [('PSBT_GLOBAL_VERSION', GL), ('excluded keys', V0G)],
 MON + 'cross-parsing of everything either side produces, plus grafted foreign fields and version numbers', TRUST)
prop('C17', 'Combining v2 PSBTs loses nothing and invents nothing',
 'When two version 2 PSBTs for the same transaction are combined, the result holds every key-value pair of both, in the map it came from, and nothing else. Where both state different values for one key the result holds one of the two; modifiable flags are merged so that nothing either party froze becomes modifiable again.',
 ['inputs', 'histories'], 'All pairs of version 2 PSBTs for the same transaction, including conflicting values.',
 'The tests combine a few PSBTs with one or two fields; each of about fifty fields has its own merge line, and a dropped one is noticed only if that field is on one side alone.',
 [V2, GL, IN, OUT, 'src/macros.rs'], [('combine_with', V2), ('Input::combine', IN), ('Output::combine', OUT), ('Global::combine', GL)],
 MON + 'parties\' random partial copies combined; result compared pair by pair with the union', TRUST)
prop('C18', 'Combining v2 PSBTs is commutative, associative and idempotent',
 'For version 2 PSBTs that agree on shared fields, combining in any order and any grouping gives the same PSBT, combining a PSBT with itself or with something already merged changes nothing, and with conflicts the set of keys still does not depend on order. For conflicting xpub origins the longer derivation path with a matching suffix wins and other conflicts are refused, in both orders, without a panic.',
 ['histories', 'inputs'], 'All multisets of partial copies, all orders and groupings.',
 'Tests combine two PSBTs in one order, so an order-dependent merge passes them.',
 [V2, GL, IN, OUT], [('combine_with', V2), ('Global::combine', GL)],
 MON + 'algebraic monitors over real combinations of three generated copies', TRUST)
prop('C19', 'Only v2 PSBTs for the same transaction can be combined',
 'The version 2 combiner accepts two PSBTs if and only if their unique ids agree: a difference in an outpoint, an amount, a script, the transaction version, the lock time or the number or order of inputs and outputs is refused, while sequences and all metadata may differ. A refusal is an error value, never a panic.',
 ['inputs'], 'All pairs of version 2 PSBTs that differ in at least one identity-deciding or metadata field.',
 'The tests cover one mismatch.',
 [V2, GL, IN, OUT], [('combine_with', V2), ('Global::combine', GL), ('id', V2)],
 MON + 'pairs differing in exactly one thing; acceptance compared with a reference computation of the unique id', TRUST)
prop('C20', 'The v0 combiner is lossless, order independent and selective',
 'Combining version 0 PSBTs with the same unsigned transaction gives the union of their key-value pairs, independent of order, grouping and repetition, with one of the two values where they conflict. PSBTs with different unsigned transactions or irreconcilable xpub origins are refused with an error.',
 ['inputs', 'histories'], 'All multisets of version 0 PSBTs, all orders and groupings.',
 'Tests combine two PSBTs once, in one order.',
 [V0, V0G, V0I, V0O], [('combine', V0), ('combine', V0G), ('combine', V0I)],
 MON + 'as for version 2: partial copies combined, union and algebra monitors', TRUST)
GK = 'src/v2/mod.rs'
prop('C21', 'Signatures made by the v2 Signer are valid and for the right keys',
 'Every signature the version 2 Signer adds is by a key the caller holds and the input lists, carries the sighash type the input asks for (ALL if it asks for none), and verifies against the transaction that will be extracted, whatever the output type. Signing changes nothing else in the PSBT: existing signatures and all other fields stay, apart from the modifiable flags.',
 ['inputs', 'histories'], 'All PSBTs over P2PK, P2PKH, multisig, P2SH, P2WPKH, P2WSH and nested inputs, all standard sighash types, sequences and lock times, key holders of every kind.',
 'The tests sign one fixed PSBT and compare with a fixed result; the digest depends on every field of the transaction, the output type and the sighash type.',
 [V2, IN, GL], [('Psbt::sign', V2), ('bip32_sign_ecdsa', V2), ('sighash_ecdsa', V2), ('unsigned_tx_in', IN)],
 MON + 'signed scenarios; each signature verified with secp256k1 against independent legacy and BIP-143 digests', TRUST)
prop('C22', 'The v2 Signer signs all it can and reports exactly what it did',
 'For every ECDSA input whose data is complete the version 2 Signer signs with every listed key the caller holds, found by derivation path or by public key, and reports exactly those keys for that input; other inputs are unaffected. An input that cannot be signed although a key for it is held is reported as an error, one for which no key is held is not, and no combination of missing or unusable data makes signing panic.',
 ['inputs', 'fault_sequences'], 'All scenarios, all subsets of held keys, key holders that fail, missing scripts and UTXOs, odd sighash types.',
 'The tests hold all keys or none, and no test has an input that fails to sign.',
 [V2, IN], [('Psbt::sign', V2), ('bip32_sign_ecdsa', V2), ('signing_algorithm', V2)],
 MON + 'signing with random key subsets and injected faults; report compared with the expected set', TRUST)
prop('C23', 'Modifiable flags follow the signatures that were added',
 'After signing, the transaction is no longer marked as modifiable in a way that would invalidate a signature: inputs stay modifiable only if every added signature is ANYONECANPAY, outputs only if every one is NONE, and the has-SINGLE flag is set if and only if it was set or a SINGLE signature was added. If no signature was added the flags do not change.',
 ['inputs', 'histories'], 'All flag values, all combinations of sighash types over several inputs, all subsets of held keys.',
 'The tests check a few flag values one at a time, not mixes of sighash types over inputs.',
 [V2, GL], [('clear_tx_modifiable', V2), ('ecdsa_clear_tx_modifiable', V2), ('set_sighash_single_flag', GL)],
 MON + 'flags after real signing compared with a reference transition; all transitions enumerated', TRUST)
prop('C24', 'The v2 signature hash is the consensus signature hash',
 'The digest a version 2 PSBT offers for signing an ECDSA input equals the legacy or BIP-143 digest of the transaction the PSBT describes, with the input\'s sighash type, for any input, order of calls and output type. It is refused, without a panic, for an index out of range, taproot inputs, non-standard sighash types and missing scripts or UTXOs.',
 ['inputs'], 'All scenarios, all inputs, all sighash types, standard or not.',
 'The tests cover few output types and only SIGHASH_ALL.',
 [V2, IN], [('sighash_ecdsa', V2), ('output_type', V2), ('ecdsa_hash_ty', IN)],
 MON + 'digests compared with an independent implementation of both algorithms', TRUST)
prop('C25', 'Key lookup returns exactly the key that was asked for',
 'Asking a key holder (an extended private key, or a map of keys) for a derivation path or a public key, in either version, yields the private key for exactly that request, or nothing if the holder has no such key. A request by public key never yields a different key, one by path never a key under a different master or path.',
 ['inputs'], 'All derivation paths, hardened and not, empty to deep, held and unheld keys, masters and derived extended keys.',
 'The tests ask for one path.',
 [V2, V0], [('GetKey', V2), ('GetKey', V0)],
 MON + 'lookups compared with an independent derivation of the expected key', TRUST)
prop('C30', 'The v0 signer makes valid signatures and reports what it did',
 'Every signature the version 0 signer adds (ECDSA, taproot key path or script path) is by a key the caller holds, of the requested type, and verifies for the transaction; every input that can be signed with held keys is signed under every listed key and leaf, and the report names exactly these keys. Inputs that cannot be signed are reported as errors, nothing else in the PSBT changes, and nothing panics.',
 ['inputs', 'fault_sequences'], 'All PSBTs over all output types including taproot trees, all sighash types, subsets of held keys, missing data.',
 'The tests sign fixed PSBTs with all keys at hand.',
 [V0, V0I], [('Psbt::sign', V0), ('bip32_sign_ecdsa', V0), ('bip32_sign_schnorr', V0), ('sighash_taproot', V0)],
 MON + 'signatures verified against independent legacy, BIP-143 and BIP-341 digests, reports compared with the expected set', TRUST)
prop('C31', 'The v0 signature hash is the consensus signature hash',
 'The digest a version 0 PSBT offers for signing an ECDSA input equals the legacy or BIP-143 digest of its unsigned transaction with the input\'s sighash type. It is refused, without a panic, for an index out of range, taproot inputs, non-standard sighash types and missing or too short data.',
 ['inputs'], 'All scenarios, all inputs, all sighash types, standard or not.',
 'The tests cover few output types and types.',
 [V0, V0I], [('sighash_ecdsa', V0), ('output_type', V0), ('spend_utxo', V0)],
 MON + 'digests compared with an independent implementation of both algorithms', TRUST)
FZ = 'src/v2/miniscript/finalize.rs'; SAT = 'src/v2/miniscript/satisfy.rs'; M2 = 'src/v2/miniscript/mod.rs'; EX = 'src/v2/extract.rs'
VF = 'src/v0/miniscript/finalizer.rs'; VM = 'src/v0/miniscript/mod.rs'
prop('C26', 'A finalized v2 PSBT is a valid transaction',
 'If finalizing a version 2 PSBT succeeds, every input carries a final script and witness that satisfy the script of the output it spends in the transaction the PSBT describes, and the extracted transaction is that transaction with these filled in. An input whose signatures, preimages or time locks do not satisfy its script is never finalized.',
 ['inputs'], 'All output types and policies (keys, multisigs, hash locks, absolute and relative time locks, thresholds, taproot trees) with all subsets of signatures and preimages, some invalid.',
 'The tests finalize two fixed PSBTs.',
 [FZ, SAT, 'src/raw_pkh.rs'], [('Finalizer::finalize', FZ), ('finalize_input', FZ), ('InputSatisfier', SAT)],
 MON + 'every finalized transaction run through an independently written script interpreter', TRUST)
prop('C27', 'The v2 finalizer finalizes whatever can be finalized',
 'A version 2 PSBT all of whose inputs hold the signatures, preimages and scripts needed to spend their outputs under the transaction\'s time locks is finalized. Otherwise finalizing gives an error and never panics, and the finalizer is refused for PSBTs without funding outputs, a lock time or signatures of the requested sighash types.',
 ['inputs'], 'As for validity of the result, plus PSBTs with missing or contradicting fields.',
 'The tests finalize two fixed PSBTs that succeed.',
 [FZ, SAT, 'src/raw_pkh.rs'], [('Finalizer::new', FZ), ('Finalizer::finalize', FZ), ('InputSatisfier', SAT)],
 MON + 'result compared with an independent decision whether the available data satisfies each policy', TRUST)
prop('C28', 'Finalizing a v2 PSBT keeps what it should and clears the rest',
 'Finalizing a version 2 PSBT changes nothing but the inputs, and in each keeps the previous output, sequence, required lock times, UTXOs and unknown and proprietary fields, and removes the data that is no longer needed (partial signatures, sighash type, scripts, derivations, preimages). The result serializes and parses to an equal PSBT describing the same transaction.',
 ['inputs'], 'All PSBTs that can be finalized, with any fields set.',
 'The tests do not compare the fields of finalized inputs.',
 [FZ, IN], [('finalize_input', FZ), ('Input::finalize', IN)],
 MON + 'fields before and after finalizing compared with the BIP-174 rule, result reparsed', TRUST)
prop('C29', 'The v2 interpreter check accepts exactly valid final inputs',
 'The interpreter check of a version 2 PSBT passes if every input\'s final script and witness satisfy the output it spends, and gives an error if any input does not, is not final, or its spent output is unknown. It never panics and never changes the verdict because of other fields.',
 ['inputs'], 'All finalized PSBTs over all output types, each also with tampered signatures, scripts, witnesses, amounts, sequences and lock times.',
 'The tests call it through finalize with valid signatures only.',
 [M2], [('interpreter_check', M2), ('interpreter_inp_check', M2)],
 MON + 'verdict compared with an independently written script interpreter on valid and tampered inputs', TRUST)
prop('C32', 'Extracting a v2 PSBT yields its transaction within the fee limit',
 'The extractor accepts a version 2 PSBT only if all inputs are final, and yields exactly the described transaction with the final scripts and witnesses. A fee rate above the limit, a negative fee, sums that overflow or unknown input amounts are errors, decided exactly at the limit; the unchecked variant skips only this.',
 ['inputs'], 'All final PSBTs, versions, amounts near and beyond all limits, arbitrary fee limits.',
 'The tests extract one transaction with one fee.',
 [EX, V2], [('extract_tx_fee_rate_limit', EX), ('internal_extract_tx_with_fee_rate_limit', EX), ('Psbt::fee', V2)],
 MON + 'transaction, fee and decision compared with a reference in wide integers', TRUST)
prop('C33', 'Extracting a v0 PSBT yields its transaction within the fee limit',
 'Extracting a version 0 PSBT yields its unsigned transaction with exactly the final scripts and witnesses of its inputs. A fee rate above the limit, a negative fee, overflowing sums or unknown input amounts are errors, decided exactly at the limit and carrying the transaction where promised; the unchecked variant skips only this and nothing panics.',
 ['inputs'], 'All PSBTs, amounts near and beyond all limits, arbitrary fee limits, missing UTXO data.',
 'The tests extract a few transactions with fixed fees.',
 [V0], [('extract_tx_with_fee_rate_limit', V0), ('internal_extract_tx_with_fee_rate_limit', V0), ('fee', V0)],
 MON + 'transaction, fee and decision compared with a reference in wide integers', TRUST)
prop('C34', 'The v0 finalizer makes valid inputs, all that can be made',
 'Whatever entry point of the version 0 finalizer is used, an input that becomes final satisfies the script it spends, an input that can be satisfied becomes final, others (those with ECDSA signatures of another sighash type than the specified one among them) stay unchanged and are reported, and nothing else in the PSBT changes. Final inputs keep UTXOs and unknown fields and lose the data no longer needed. Checked extraction yields only valid transactions.',
 ['inputs'], 'All output types and policies with subsets of signatures and preimages, some invalid, through ten entry points (malleable or not, whole PSBT or one input).',
 'The tests finalize a few fixed PSBTs, mostly through one entry point.',
 [VF, VM, V0], [('finalize_mut', VM), ('finalize_inp_mut', VM), ('finalize_helper', VF), ('extract', VM)],
 MON + 'finalized inputs run through an independently written script interpreter; result compared with an independent satisfiability decision', TRUST)
SU = 'src/serde_utils.rs'; SHT = 'src/sighash_type.rs'; DL = 'src/v2/dleq.rs'
prop('C10', 'The base64 text of a PSBT is exactly its bytes',
 'Displaying a PSBT of either version gives the standard padded base64 of its serialization, and parsing accepts a text if and only if it is base64 of a byte string the binary parser accepts, with the same result. Anything else is an error that says which of the two steps failed; nothing panics.',
 ['inputs'], 'All PSBTs and all strings: texts with a character changed, inserted, dropped, other alphabets, padding errors, white space, non-ASCII.',
 'The tests compare a handful of texts.',
 [V2, V0], [('display_from_str', V2), ('display_from_str', V0)],
 MON + 'texts compared with an independent base64 codec and with the binary parser on every string', TRUST)
prop('C11', 'Serde round-trips every PSBT in every format',
 'Serializing a PSBT (or any of its maps and value types) of either version with serde and deserializing it gives back an equal value, in human-readable and in binary formats, from borrowed and from owned input. Values that do not describe a PSBT, such as an unsupported version number, are errors; nothing panics.',
 ['inputs'], 'All PSBTs with any combination of fields, through a JSON string, JSON reader, JSON value and a compact binary format; damaged documents.',
 'Serde is tested for two small values in one format.',
 [SU, V2, V0, 'src/version.rs', DL], [('btreemap_byte_values', SU), ('btreemap_as_seq', SU), ('btreemap_as_seq_byte_values', SU), ('hex_bytes', SU)],
 MON + 'generated PSBTs carried through four serde formats, one of them written for this purpose, compared for equality', TRUST)
prop('C12', 'Sighash types convert and print faithfully',
 'Every 32-bit number survives the conversion to a PSBT sighash type, through its text, and back; it is an ECDSA or taproot type exactly if it is one of the standard numbers of that kind. An input without a type means ALL for ECDSA and DEFAULT for taproot. Text is accepted only if it is a standard name or a hexadecimal number of at most 32 bits.',
 ['inputs'], 'All numbers and all strings.',
 'The tests try nine names and two numbers.',
 [SHT, IN, V0I], [('PsbtSighashType', SHT), ('ecdsa_hash_ty', IN), ('taproot_hash_ty', IN)],
 MON + 'every 16-bit number and random 32-bit ones checked against the standard tables, random strings against a reference parser', TRUST)
prop('C38', 'Preimages are held only if they hash to their key',
 'A PSBT of either version is parsed with preimage pairs only if each preimage hashes, under the function of its type, to the key it is stored under; it is then held under that hash, in the map for that function. A single preimage that does not match, or a hash of the wrong length, makes the whole PSBT an error.',
 ['inputs'], 'All four hash functions, any preimages, keys wrong by a bit, a byte, another function or length, in any order among other pairs.',
 'The tests hold one wrong preimage per hash function.',
 [IN, V0I], [('insert_pair', IN), ('psbt_insert_hash_pair', V0I)],
 MON + 'acceptance and resulting maps compared with the four hash functions computed separately', TRUST)
prop('C39', 'Silent payment fields follow BIP-375',
 'A version 2 PSBT with silent payment fields is accepted if and only if every ECDH share, DLEQ proof, payment info and label has keys and values of the form BIP-375 gives, shares come with proofs, and labels with payment info. What is accepted is held under its scan key and written back unchanged; proofs are exactly 64 bytes wherever they are made.',
 ['inputs'], 'All combinations of the six fields in all maps with key and value lengths around the right one and points on or off the curve.',
 'The tests build one proof and one share.',
 [GL, IN, OUT, DL], [('sp_ecdh_shares', GL), ('sp_dleq_proofs', IN), ('sp_v0_info', OUT), ('DleqProof', DL)],
 MON + 'acceptance, held values and written bytes compared with an independent reading of BIP-375', TRUST)
prop('C13', 'The lock time is the one BIP-370 determines',
 'The lock time of a version 2 PSBT is the largest required one of a kind (height or time) that every input with a requirement states, heights preferred, or the fallback, or zero. If no kind serves all inputs, every role that needs a transaction refuses the PSBT; otherwise each uses exactly this lock time in the transaction it shows.',
 ['inputs'], 'All patterns of required heights and times over the inputs, all fallbacks, all values.',
 'The tests cover the patterns of the BIP-370 vectors with one value each.',
 [V2, IN, EX, FZ], [('determine_lock_time', V2), ('unsigned_tx', V2), ('requires_time_based_lock_time', IN)],
 MON + 'lock time, role decisions and unsigned transactions compared with an independent reading of BIP-370 over all patterns of up to four inputs and random larger ones', TRUST)
prop('C14', 'The unique id identifies the transaction and nothing else',
 'The unique id a role gives for a version 2 PSBT is the hash of its unsigned transaction with all sequences zero, the same in every role. It never changes by setting sequences, adding or removing any other data, combining, signing, finalizing or serializing, and always changes if the version, lock time, an outpoint, amount, script, or the number or order of inputs or outputs does.',
 ['inputs', 'histories'], 'All PSBTs whose outputs have scripts, and all changes to them.',
 'The tests compute the id of one PSBT.',
 [V2, EX, FZ], [('Psbt::id', V2), ('Updater::id', V2), ('Extractor::id', EX), ('Finalizer::id', FZ)],
 MON + 'ids compared with an independent computation, before and after changes that must keep or must change them', TRUST)
prop('C15', 'Creator and Constructor build exactly what they are told',
 'Whatever sequence of settings, additions, completions and hand-overs builds a version 2 PSBT, it holds exactly the inputs and outputs added, in order, with matching counts, and the version, fallback lock time and modifiable flags that were set. A constructor is refused exactly if the flags forbid it, and turning to the updater ends modifiability.',
 ['histories', 'inputs'], 'All programs over the operations of the two roles, handed on through bytes, text and serde.',
 'The tests run a few fixed programs.',
 [V2, GL], [('Creator', V2), ('Constructor', V2), ('set_inputs_modifiable_flag', GL)],
 MON + 'random programs run against a model of the two roles, compared whenever a PSBT is shown', TRUST)
prop('C16', 'Updater and builders change only what they name',
 'Setting a sequence through the updater changes that field of that input and nothing else, and an index out of bounds is an error that names index and length. Inputs and outputs made by their constructors and builders hold exactly the given fields, whatever the order and repetition of the builder calls.',
 ['inputs', 'histories'], 'All PSBTs, indices, sequences and builder programs.',
 'The tests set one sequence.',
 [V2, IN, OUT], [('set_sequence', V2), ('checked_input_mut', V2), ('InputBuilder', IN), ('OutputBuilder', OUT)],
 MON + 'results compared field by field with a model', TRUST)
prop('C37', 'The funding output of an input is found or its absence reported',
 'For an input of either version the funding output is the witness UTXO, else the output of the previous transaction that the input spends, else an error telling a missing UTXO from an index out of bounds; no accessor panics. An input is final exactly if both final fields are present, empty or not, and a PSBT if all its inputs are.',
 ['inputs'], 'All inputs with and without UTXO data, indices in and out of bounds, through every accessor.',
 'The tests fetch one witness UTXO.',
 [IN, V2, V0], [('funding_utxo', IN), ('iter_funding_utxos', V2), ('iter_funding_utxos', V0), ('spend_utxo', V0), ('is_finalized', IN)],
 MON + 'accessors compared with the rule on generated inputs', TRUST)
prop('C42', 'Many parties complete a transaction in any order',
 'Take any set of outputs to spend, split the building, the knowledge about inputs, the keys and the preimages among parties, and let the PSBT travel between them as bytes, text, JSON or binary, combined in any order. The result is finalized exactly if the parties together hold enough, the transaction extracted is the intended one and valid, and the id stays the same all along.',
 ['histories', 'schedules', 'inputs'], 'All output types, splits of fields, keys and preimages, orders of combining, sequential and parallel signing, for version 2 through all roles and for version 0.',
 'The tests and examples run one history with two parties.',
 [V2, IN, GL, FZ, EX, V0, VM], [('combine_with', V2), ('Signer::sign', V2), ('Finalizer::finalize', FZ), ('Extractor', EX), ('finalize_mall', VM)],
 MON + 'complete multi-party histories with an online monitor of the id and, at the end, an independent script interpreter and satisfiability decision', TRUST)
prop('C35', 'Descriptors fill in exactly the data of their output',
 'Updating a version 0 input or output with the descriptor of its output sets the scripts, key origins, taproot tree, root and control blocks that belong to the descriptor, keeps all other data, and changes nothing when repeated. With a descriptor of another output, missing or contradictory UTXO data, or an index out of bounds, the right error is returned and the PSBT is unchanged.',
 ['inputs'], 'All descriptors without wildcards over all output types, taproot trees and ways to write keys; all PSBTs around them.',
 'The tests update one PSBT per kind of descriptor.',
 [VM, VF], [('update_input_with_descriptor', VM), ('update_output_with_descriptor', VM), ('update_with_descriptor_unchecked', VM), ('update_item_with_descriptor_helper', VM)],
 MON + 'descriptors written for generated outputs whose scripts, trees and origins the generator knows, the updated maps compared field by field', TRUST)
prop('C36', 'Version 0 PSBTs start from unsigned transactions only',
 'A version 0 PSBT is made from a transaction exactly if every script signature and every witness in it is empty; otherwise the error tells which was found. The result holds that transaction, one empty map per input and output and nothing else, and serializes to exactly the bytes BIP-174 gives for that.',
 ['inputs'], 'All transactions, with script signatures and witnesses of any shape on any inputs.',
 'The tests create PSBTs from a few fixed transactions.',
 [V0], [('from_unsigned_tx', V0), ('unsigned_tx_checks', V0)],
 MON + 'decision, result and bytes for generated transactions compared with the rule', TRUST)
prop('C47', 'Signer checks follow BIP-174',
 'The signer checks of a version 0 PSBT fail if and only if an input violates a check that BIP-174 demands of signers: a previous transaction with the wrong id, a witness UTXO where a non-witness signature would be made, a redeem script that is not for the output, or a witness script that is not for the P2WSH output or redeem script. The error names a violated check, and scripts without a UTXO to check against are an error.',
 ['inputs'], 'All combinations of output types, UTXO data and scripts, right, wrong and missing, on any number of inputs.',
 'The existing tests check one PSBT per error.',
 ['src/v0/mod.rs', V0], [('signer_checks', 'src/v0/mod.rs'), ('output_type', V0), ('spend_utxo', V0)],
 MON + 'the verdict on damaged scenarios compared with an independent reading of the BIP-174 list',
 TRUST + ' Left open by BIP-174 and not judged: a witness script beside an output that is neither P2WSH nor P2SH, and P2SH inputs whose redeem script is missing.')
prop('C48', 'The message to sign is the one consensus defines',
 'The signature message of a version 0 input is the consensus digest for its output type, script, amount and sighash type: legacy, BIP-143, or BIP-341 for the key path or for the given leaf, whatever the state of the cache and order of calls. Missing UTXOs or scripts, sighash types that do not fit and indices out of bounds are reported as such.',
 ['inputs', 'schedules'], 'All output types, policies, sighash types, leaves, orders of calls with a shared cache, and missing data.',
 'No test of the crate calls it with more than one input.',
 [VM, VF], [('sighash_msg', VM), ('to_secp_msg', VM)],
 MON + 'messages compared with an independent implementation of the three digest algorithms', TRUST)
prop('C49', 'Finalizing refuses inputs whose scripts do not fit',
 'Finalizing refuses an input whose redeem or witness script is missing, does not hash to what the spent output (or the redeem script) commits to, or is one that a P2WSH, P2SH or bare output cannot have, and an input paying to the hash of a key that none of its signatures is for. The error names the input and says which of these it is, in both versions and for every entry point; the other inputs of a version 0 PSBT become what they would otherwise.',
 ['inputs'], 'All output kinds, policies, defects of one input at every position among complete ones, and entry points of both finalizers.',
 'Two vectors of one P2SH input are all the tests have.',
 [FZ, VF], [('get_descriptor', FZ), ('get_descriptor', VF)],
 MON + 'refusals of defective inputs are compared with the kind of output and of defect, the other inputs with the same PSBT without the defect', TRUST)
prop('C50', 'The version 0 satisfier reports exactly what the input holds',
 'For every input of a version 0 PSBT, the satisfier made for it finds the signature of a key (or of a leaf and key, or of a key hash), the listed key of a hash, the scripts and the preimage of a hash of each of the four kinds if and only if that input holds it (and a preimage only if it is of 32 bytes). Absolute and relative time locks are reported met exactly if the transaction lock time, its version and the sequence number of that input meet them by BIP-65, BIP-68 and BIP-112.',
 ['inputs'], 'All PSBTs, inputs, keys in both forms, hashes, leaves and time locks, of the input, of other inputs and unknown.',
 'The tests only see the satisfier through three finalized PSBTs.',
 [VM], [('PsbtInputSatisfier', VM), ('lookup_raw_pkh_ecdsa_sig', VM), ('check_older', VM)],
 MON + 'every lookup compared with an independent scan of the fields and the rules of the BIPs', TRUST)
prop('C51', 'Proprietary keys and raw keys convert into each other',
 'A proprietary key of either version, with whatever subtype, becomes a raw key of type 0xFC whose data is prefix length, prefix, subtype and key data, and comes back from it equal. Raw keys of other types and truncated ones are errors; the text of a raw key tells its type and data.',
 ['inputs'], 'All prefixes, subtypes (also of user-defined types), data up to 1024 bytes, all key types and all truncations.',
 'The tests have one proprietary key.',
 ['src/raw.rs', 'src/v0/bitcoin/raw.rs'], [('to_key', 'src/raw.rs'), ('to_key', 'src/v0/bitcoin/raw.rs')],
 MON + 'conversions compared with the layout of BIP-174 assembled by hand', TRUST)
prop('C40', 'Every error describes itself and its causes',
 'Every error of the crate has a text that is not empty and is made without a panic, and a chain of causes that ends and of which each has a text. Errors of different kinds from one operation, and those with different kinds of causes, can be told apart by these texts.',
 ['inputs'], 'All errors that parsing hostile data, operations on PSBTs of every origin, and all roles return, in both versions.',
 'The tests match on a few errors and show none.',
 ['src/error.rs', 'src/v2/error.rs', V2, EX, V0, 'src/v0/bitcoin/error.rs'], [('write_err', 'src/error.rs'), ('DeserializeError', V2), ('ExtractTxError', EX), ('SignError', V0)],
 MON + 'every error any operation returns is shown, its causes walked, and texts compared between kinds', TRUST)
prop('C41', 'The library never writes to the terminal',
 'No operation of the library, on any data, writes to standard output or standard error: what it has to say is in what it returns.',
 ['inputs'], 'All public operations of both versions on PSBTs of every origin.',
 'Test runners hide what is printed.',
 [FZ, V2, VF, V0], [('finalize', FZ), ('Psbt', V2)],
 MON + 'processes run every operation with their output captured; one byte is a violation', TRUST)
prop('C43', 'No operation on a decoded version 2 PSBT panics',
 'Whatever bytes a version 2 PSBT was decoded from, every public operation on it and every role made from it returns a value or an error, with any index, other PSBT, key holder or fee rate as argument. None panics, none overflows.',
 ['inputs', 'histories'], 'All PSBTs that decode, of random, hostile and half finished origin, and all arguments.',
 'The tests call operations on well-formed PSBTs.',
 [V2, GL, IN, OUT, FZ, SAT, M2, EX], [('deserialize', V2), ('sign', V2), ('finalize', FZ), ('interpreter_check', M2), ('Extractor', EX)],
 MON + 'every operation on PSBTs of every origin, built with overflow checks and debug assertions, under a panic monitor',
 TRUST + ' Combining with another PSBT, conversions and roles are included; functions documented to panic are not called against their contract.')
prop('C44', 'No operation on a decoded version 0 PSBT panics',
 'Whatever bytes a version 0 PSBT was decoded from, every public operation on it, including the descriptor, finalizer and interpreter extensions, returns a value or an error, with any index, descriptor, other PSBT, key holder or fee rate as argument. None panics, none overflows.',
 ['inputs', 'histories'], 'All PSBTs that decode, of random, hostile and half finished origin, and all arguments.',
 'The tests call operations on well-formed PSBTs.',
 [V0, V0G, V0I, V0O, VM, VF], [('deserialize', V0), ('sign', V0), ('PsbtExt', VM), ('finalize_input', VF)],
 MON + 'every operation on PSBTs of every origin, built with overflow checks and debug assertions, under a panic monitor',
 TRUST + ' One panic inside rust-miniscript is a known finding.')
prop('C45', 'Both versions, and the same version twice, give the same answer',
 'For the same transaction and data the two versions give the same funding outputs, fee, ECDSA sighashes, signatures and keys used, final scripts, verdict of the interpreter and extracted transaction, and read, refuse and write the fields they share alike. Every operation repeated on equal arguments gives an equal answer.',
 ['inputs', 'histories'], 'All spends at every stage with complete, missing and spoiled data; all pairs of shared fields, valid or not.',
 'The tests of the two versions share no data.',
 [V2, V0, IN, V0I, FZ, VF], [('sighash_ecdsa', V2), ('sighash_ecdsa', V0), ('finalize', FZ), ('finalize_input', VF), ('funding_utxo', IN)],
 MON + 'the two implementations run side by side on the same spends and fields, and each twice, all answers compared',
 TRUST + ' Where the versions are designed to differ (taproot signing, finalizing all inputs or none, inputs of unknown type passed over) nothing is compared.')
prop('C46', 'Features and compiler settings do not change answers',
 'A build of the crate with other features (none, std, rand, silent payments) or without overflow checks and debug assertions gives the same answers to the same operations on the same PSBTs and bytes. Only fields of the silent payments feature differ: without it they are carried as unknown pairs; and with rand Schnorr signatures differ, but verify.',
 ['configurations', 'inputs'], 'Four builds of the crate; PSBTs of every origin, hostile bytes, and the operations each build has.',
 'The tests run in one configuration and compare with nothing.',
 ['Cargo.toml', 'src/lib.rs', V2, IN, OUT, GL, V0, 'src/error.rs'], [('insert_pair', IN), ('insert_pair', OUT), ('sign', V0)],
 MON + 'the same cases run in processes of four builds, all answers compared, random signatures verified', TRUST)

# Single source of properties.jsonl and MANIFEST.json.  P(id, title, statement, over, text, why, files, mechanism, observe, hook, note)
PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe, hook, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, observe=observe, hook=hook, note=note))

S = "src/"
P("C01", "Account address text is a checksummed bijection",
  "Every 32-byte account address prints as exactly 58 characters of unpadded base32 that parse back to the same address, matching an independent implementation of the encoding (SHA-512/256 checksum, last 4 bytes). Any other text - of any length or alphabet, lower case, with a wrong checksum or non-canonical trailing bits - is rejected with an error, never accepted and never a panic. Short and ordered forms agree with the bytes of the address.",
  ["inputs"], "all 2^256 addresses and all texts offered as an address",
  "the unit tests parse a handful of fixed addresses; the checksum and canonicality rules quantify over every text",
  [S+"data/basics/address.rs"], [("checksum comparison and re-encoding", S+"data/basics/address.rs from_str/to_string")],
  ["Address::from_str", "Address::to_string"], None,
  "random and mutated texts against an independent base32/SHA-512/256 reference")
P("C02", "Mnemonics and keys convert both ways without loss",
  "Every 32-byte key turns into exactly 25 words of the published list that convert back to the same key, equal to an independent implementation (11-bit little-endian groups plus one checksum word). Any other word sequence - wrong count, unknown word, wrong checksum word, non-zero padding bits - is refused with an error and never yields a key.",
  ["inputs"], "all 256-bit keys, and all word sequences",
  "tests round-trip random keys with no independent reference and check two malformed inputs",
  [S+"crypto/mnemonic.rs"], [("11-bit regrouping and checksum word", S+"crypto/mnemonic.rs")],
  ["key_to_mnemonic", "mnemonic_to_key"], None, "random and edited mnemonics against an independent bit-packing reference")
P("C03", "Digests and transaction ids parse exactly; hashes are domain separated",
  "A digest or transaction id prints as 52 characters of unpadded base32 that parse back to it, and every other text is refused. Hashing a typed message equals SHA-512/256 over its fixed type prefix followed by its encoding, so messages of different kinds never share a hashed byte string.",
  ["inputs"], "all digests, all texts, all hashable values",
  "tests hash a few constants; injectivity over all texts and kinds is out of their reach",
  [S+"crypto/hashable.rs", S+"data/transactions/mod.rs", S+"protocol/mod.rs"], [("prefix table and canonical base32 check", S+"crypto/hashable.rs")],
  ["CryptoHash::from_str", "TxID", "Hashable::hash_rep"], None, "independent SHA-512/256 and base32 references")
P("C04", "Merkle array proofs produced by a tree always verify",
  "For an array of any length and any set of positions in range, the tree's root equals an independently computed root and the proof it returns verifies against that root with those elements. Positions out of range are refused with an error, and building, proving and verifying agree regardless of the order in which positions were given.",
  ["inputs"], "all array lengths and all position sets",
  "the tests sweep some lengths with one position pattern and no independent root",
  [S+"crypto/merklearray/merkle.rs", S+"crypto/merklearray/partial.rs", S+"crypto/merklearray/layer.rs"], [("layer construction and partial-layer walk", S+"crypto/merklearray/")],
  ["Tree::build", "Tree::root", "Tree::prove", "merklearray::verify"], None, "independent recursive Merkle reference")
P("C05", "Merkle array verification accepts only true members",
  "Verification against a root succeeds only if every claimed (position, element) pair is in the array the root commits to and the proof is exactly the required hints. Changed elements, shifted positions, edited, truncated, extended or reordered proofs and foreign roots are all rejected with an error, never a panic.",
  ["inputs"], "all roots, proofs, positions and claimed elements, including adversarial ones",
  "tests try a wrong element and an empty proof; soundness quantifies over every forged proof",
  [S+"crypto/merklearray/merkle.rs", S+"crypto/merklearray/partial.rs"], [("partial-layer verification", S+"crypto/merklearray/partial.rs")],
  ["merklearray::verify"], None, "structured and random forgeries judged by an independent verifier")
P("C06", "The Merkle trie is a set with a root that depends only on its content",
  "After any sequence of additions and deletions the trie answers additions and deletions exactly like a set (duplicates and absences reported, wrong-length keys refused) and its root is zero when empty and otherwise equals an independently computed function of the set alone, whatever the order and history. This holds for elements of every length, sets of every size and each storage behind the trie.",
  ["histories"], "all operation histories over keys of one length",
  "tests exercise a few thousand ops in one or two orders without a model",
  [S+"crypto/merkletrie/trie.rs", S+"crypto/merkletrie/node.rs", S+"crypto/merkletrie/cache.rs"], [("path-compressed nodes rehashed along the mutation path", S+"crypto/merkletrie/node.rs")],
  ["Trie::add", "Trie::delete", "Trie::root_hash"], None, "history replay against a BTreeSet and an independent root function")
P("C07", "The trie's storage mirrors the trie, and its faults surface as errors",
  "After every operation the trie's storage holds exactly the nodes of the current set: nodes loaded anew from it give the same root and contents, and no removed node stays behind. Each storage backend returns exactly what was last stored under an id, and a failing load or store surfaces as an error of the operation, never a panic or a silently wrong root or answer.",
  ["histories", "fault_sequences"], "all histories of operations, all cache losses and all failing storage calls",
  "tests use a perfect in-memory store and inspect it once at the end; nothing injects storage errors",
  [S+"crypto/merkletrie/trie.rs", S+"crypto/merkletrie/storage.rs", S+"crypto/merkletrie/cache.rs"], [("page store/load through the storage interface", S+"crypto/merkletrie/storage.rs")],
  ["Trie::add", "Trie::delete", "Trie::root_hash", "Storage::store_node", "Storage::load_node"], None, "fault enumeration over storage calls plus model replay")
P("C08", "Trie node encoding is canonical and safe on any bytes",
  "Every node serializes to bytes that deserialize to the same node and consume exactly those bytes. Bytes cut inside the payload, the kind or a child entry are refused, and arbitrary bytes are decoded or refused without panic, over-read or allocation out of proportion to the input.",
  ["inputs"], "all nodes and all byte strings",
  "tests round-trip one hand-built node",
  [S+"crypto/merkletrie/node.rs", S+"crypto/merkletrie/bitset.rs"], [("length-prefixed node codec", S+"crypto/merkletrie/node.rs")],
  ["Node::serialize", "Node::deserialize"], None, "mutation of encodings with an allocation monitor")
P("C09", "Multisignatures verify exactly when the threshold is truly met",
  "A multisignature verifies for an address and message if and only if its version is the known one, its threshold lies between one and the number of its keys, both with the ordered keys hash to that address and at least threshold subkeys carry signatures, every one of which is valid for the message. Missing, swapped, foreign or corrupted signatures, altered keys, thresholds, versions or messages are rejected, and a configuration that can never be met has no address.",
  ["inputs"], "all key lists, thresholds, signer subsets and tampering",
  "tests build a few 2-of-3 cases",
  [S+"crypto/multisig.rs"], [("address derivation and per-subkey verification", S+"crypto/multisig.rs")],
  ["MultisigSignature::verify", "batch_verify"], "verif_from_pks / verif_sign / verif_batch_verify", "truth-table oracle over signer subsets and tampering")
P("C10", "Combining multisignatures keeps signatures and loses none",
  "Combining partial multisignatures of the same group yields the union of their signatures, in any order and grouping, and verifies exactly when the union meets the threshold. Combining parts of different groups or with two different signatures for one key is refused with an error, and no part is altered by a failed combination.",
  ["inputs", "histories"], "all sets of partial signatures and all combination orders",
  "tests combine two fixed partial signatures",
  [S+"crypto/multisig.rs"], [("subset union with conflict detection", S+"crypto/multisig.rs")],
  ["multisig_assemble", "add_sigs", "merge"], "verif_assemble / verif_add_sigs / verif_merge", "algebraic-law monitor with a set model")
P("C11", "Batch signature verification equals verifying each one",
  "A batch accepts if and only if every enqueued (key, message, signature) triple is individually valid, for any batch size, order, duplication and position of a bad entry. An empty batch and every mixture of message kinds is handled without panic.",
  ["inputs"], "all batches",
  "tests place one bad signature in a small batch",
  [S+"crypto/batch_verifier.rs"], [("signature enqueueing and batch verification", S+"crypto/batch_verifier.rs")],
  ["BatchVerifier::enqueue_signature", "BatchVerifier::verify"], None, "conjunction oracle from individual verification")
P("C12", "One-time signature keys: available in range, gone after deletion",
  "A participation key signs every identifier in its range that has not been deleted and each signature verifies for exactly that identifier, message and key. After deletion up to an identifier nothing earlier can be signed and no retained secret allows it, while every later identifier still can. This holds for every dilution, identifier position (including the ends of the number range) and order of deletions.",
  ["histories"], "all key ranges, dilutions and deletion/sign histories",
  "tests walk one small range in order",
  [S+"crypto/ots.rs"], [("two-level ephemeral keys with batch expansion and deletion", S+"crypto/ots.rs")],
  ["OTSSecrets::sign", "delete_before_fine_grained", "OTSVerifier::verify"], "OTSSecrets::verif_held_secrets", "history model plus inspection of retained secrets")
P("C13", "One-time signatures are bound to every part and survive storage",
  "Changing any byte of a one-time signature, its identifier, message or key makes verification fail. Saved and restored signing state behaves identically to the original, and a snapshot is unaffected by later use of the original.",
  ["inputs", "histories"], "all signatures, tampering and snapshot points",
  "tests tamper with a few fields once",
  [S+"crypto/ots.rs"], [("chained signatures batch->offset->message", S+"crypto/ots.rs")],
  ["OTSSignature", "OTSSecrets::snapshot"], None, "tampering sweep and differential replay of restored state")
P("C14", "VRF proofs are unique, complete and judged exactly as the standard says",
  "Every generated VRF proof verifies under its own key and message, and proof, verdict and output equal an independent implementation of the curve arithmetic, on honest and hostile inputs alike. For one key and message no two accepted proofs give different outputs. Keys that are not valid curve points or have small order, and malformed proofs, are rejected with an error, never a panic.",
  ["inputs"], "all keys, messages and 80-byte proofs, including those made by a dishonest prover",
  "tests check fixed vectors and one tampered bit pattern; uniqueness quantifies over all proofs",
  [S+"crypto/vrf.rs"], [("proof decoding, challenge recomputation, cofactor clearing", S+"crypto/vrf.rs")],
  ["VrfPrivkey::prove", "VrfPublicKey::verify", "VrfProof::hash"], "VrfProof/VrfPublicKey::verif_from_bytes", "independent big-integer ECVRF reference and adversarial proof generator")
P("C15", "Sortition selects exactly the binomial quantile of the VRF output",
  "The number of sub-users selected equals the binomial quantile of the VRF output taken as a fraction, for a given stake, total stake and expected committee size, up to the rounding of the probability arithmetic. It never exceeds the stake, is zero for zero stake, never decreases as the output grows, and works for the full range of realistic stakes without panic.",
  ["inputs"], "all stakes, totals, committee sizes and VRF outputs",
  "the test checks one statistical mean",
  [S+"data/committee/sortition.rs"], [("binomial CDF walk", S+"data/committee/sortition.rs")],
  ["sortition::select"], None, "independent log-domain binomial CDF with a derived tolerance")
P("C16", "Committee credentials are bound to key, selector, role and stake",
  "A credential verifies only with the account's own selection key over the same seed, round, period and step, and only if its stake selects it at least once; the resulting weight equals sortition over its VRF output. Its tie-breaking value is the least hash over all of its sub-users, bound to VRF output and owner, and comparing credentials is a strict order that agrees with those values.",
  ["inputs"], "all accounts, selectors, stakes and tampering",
  "tests check selection rates for fixed parameters",
  [S+"data/committee/credential.rs", S+"data/committee/mod.rs"], [("credential verification, hashable credential", S+"data/committee/credential.rs")],
  ["UnauthenticatedCredential::verify", "Credential::lowest_output"], "verif_prove_credential / verif_verify_credential / Credential::verif_*", "recomputation of weight and tie-break from the VRF output")
P("C17", "Stored and transmitted values encode canonically and decode exactly",
  "Encoding a transaction, signed transaction, block header, block, account record or upgrade state is deterministic, equal values always give equal bytes and different values different bytes, and decoding the bytes returns the same value. The order in which maps were filled makes no difference; hostile bytes are decoded or refused without panic, fixed-length values are refused at any other length, and an encoding recorded earlier still stands for the same value.",
  ["inputs"], "all values of the encodable types and all byte strings",
  "tests encode one transaction",
  [S+"protocol/mod.rs", S+"data/transactions/", S+"data/bookkeeping/block.rs", S+"data/basics/user_balance.rs"], [("msgpack encoding with omitted defaults", S+"protocol/mod.rs")],
  ["protocol::encode", "protocol::decode"], None, "round-trip/injectivity monitor over generated values and single-field edits")
P("C18", "Transaction ids, signatures and block hashes commit to every field",
  "Changing any single field of a transaction changes its id and invalidates an existing signature over it, and a signature verifies only for the key that made it. Changing any field of a block header changes the block's hash, and changing any field or the address of a balance record changes what is hashed for it.",
  ["inputs"], "all transactions and headers, and all their single-field changes",
  "tests compare one id",
  [S+"data/transactions/transaction.rs", S+"data/bookkeeping/block.rs", S+"crypto/mod.rs"], [("hash of the canonical encoding", S+"data/transactions/transaction.rs")],
  ["Transaction::id", "Transaction::sign", "Block hash"], "verif accessors for transaction internals", "field-perturbation sweep over generated values")
P("C19", "A transaction is well formed exactly when the protocol rules say so",
  "For every protocol version and every transaction, the well-formedness verdict equals an independent statement of the consensus rules: enabled features, validity window, note and group limits, fee floor, per-kind field rules, application limits and no fields of another kind. It never panics or overflows on extreme field values.",
  ["inputs", "configurations"], "all transactions under all supported protocol versions",
  "tests check a dozen fixed transactions under the current protocol",
  [S+"data/transactions/transaction.rs", S+"data/transactions/application.rs", S+"config/consensus.rs"], [("well-formedness check", S+"data/transactions/transaction.rs is_well_formed")],
  ["Transaction::is_well_formed"], None, "independent rule table over generated and boundary-mutated transactions")
P("C20", "Transactions are alive only inside their window on their own chain",
  "A transaction is accepted as alive for a round exactly when the round lies within its first and last valid round and its genesis id and hash agree with the block context and the protocol's rules. Accounts reported as touched, amounts and receivers agree with the transaction's kind and fields.",
  ["inputs"], "all headers, rounds, genesis values and protocols",
  "tests do not cover liveness at all",
  [S+"data/transactions/transaction.rs", S+"data/transactions/mod.rs"], [("liveness check", S+"data/transactions/transaction.rs")],
  ["Header::alive"], "Header::verif_alive, Transaction::verif_relevant_addrs", "reference predicate at and around every boundary")
P("C21", "Group fees pool exactly: credit equals fees above the required minimum",
  "For a group of transactions the pooled credit equals the sum of fees minus the minimum fee for each transaction other than compact certificates, and is refused with an error exactly when that is negative; the sum of fees saturates instead of wrapping. Group ids are the hash of the ordered member ids, so changing, reordering or dropping a member changes the id.",
  ["inputs"], "all groups",
  "no test covers group fees",
  [S+"data/transactions/transaction.rs", S+"data/signed_tx_group.rs", S+"data/transactions/mod.rs"], [("fee credit accumulation", S+"data/signed_tx_group.rs")],
  ["fee_credit", "TxGroup hash"], "verif_tx_group_hash", "arithmetic reference over generated groups")
P("C22", "Blocks produced from a parent pass validation; altered ones do not",
  "A block made from a valid parent has the next round, the parent's hash as link, the correct genesis identity and protocol, monotonic bounded time, and passes header validation against that parent. Changing any of those fields makes validation fail with an error, and no chain of blocks makes production or validation panic.",
  ["histories", "inputs"], "all chains of parents, protocols and timestamps, all single-field alterations",
  "no test produces or validates a block",
  [S+"data/bookkeeping/block.rs"], [("block production and pre-check", S+"data/bookkeeping/block.rs")],
  ["Block::new", "BlockHeader::pre_check"], None, "chain generator with single-field alterations judged by a reference")
P("C23", "Protocol upgrades follow the vote, threshold, deadline and delay rules",
  "Over any sequence of block votes the upgrade state evolves exactly as the reference rules: one proposal at a time, approvals counted only while voting is open, proposals dropped at the deadline without enough approvals, switched exactly at the announced round otherwise, never to anything but the proposed version. Invalid votes are refused with an error and change nothing.",
  ["histories", "configurations"], "all vote histories under all protocol parameters",
  "no test covers upgrade votes",
  [S+"data/bookkeeping/block.rs", S+"config/consensus.rs"], [("upgrade state transition", S+"data/bookkeeping/block.rs apply_upgrade_vote")],
  ["UpgradeState", "process_upgrade_params"], "UpgradeState::verif_apply_upgrade_vote", "lock-step reference state machine")
P("C24", "Reward level and residue conserve every micro-unit paid out",
  "At every round the reward level rises by exactly the whole number of rewards per unit, and residue plus distributed rewards equal the rate plus the previous residue. The rate is refreshed exactly at its refresh round from what the pool can spend above its minimum balance and no state is reached by overflow: an arithmetic overflow leaves rewards unchanged.",
  ["histories", "configurations"], "all reward-state histories, pool balances and unit totals",
  "no test covers rewards",
  [S+"data/bookkeeping/block.rs"], [("reward state transition", S+"data/bookkeeping/block.rs next_state")],
  ["RewardsState::next_state"], None, "lock-step reference with 128-bit arithmetic and a conservation monitor")
P("C25", "Account rewards, minimum balance and normalized balance are exact",
  "Rewards accrued by an account are its whole reward units times the reward-level difference, never more than once and never for non-participating accounts, and combine over successive levels without double counting. Minimum balance is the sum over assets, applications, schemas and pages, saturating rather than wrapping, and the normalized online balance orders accounts by balance independent of reward timing, for every balance up to the total supply.",
  ["inputs", "histories", "configurations"], "all accounts, reward levels and protocol parameters",
  "no test covers these",
  [S+"data/basics/user_balance.rs", S+"data/basics/units.rs", S+"data/basics/teal.rs"], [("reward units arithmetic", S+"data/basics/user_balance.rs")],
  ["AccountData"], "AccountData::verif_*", "128-bit reference arithmetic")
P("C26", "Block transaction lists encode and commit exactly",
  "A signed transaction stored in a block decodes to the same transaction with its genesis identity restored, and encoding is refused when the genesis identity does not match. The block's transaction commitment equals an independently computed root over the ordered list, changes with any change, reorder, addition or removal, per-transaction proofs verify, and unsupported or undecodable inputs give an error, never a panic.",
  ["inputs", "configurations"], "all blocks, protocols and tampering",
  "no test covers payset commitments",
  [S+"data/bookkeeping/block.rs", S+"data/bookkeeping/tx_merkle.rs"], [("payset commitment and transaction tree", S+"data/bookkeeping/tx_merkle.rs")],
  ["Block::payset_commit", "tx_merkle_tree", "encode_signed_tx"], "Block::verif_contents_match_header", "independent commitment reference")
P("C27", "Participation keys persist completely or not at all, and restore equal",
  "A store holds the participation keys last saved to it: read back they equal the originals and sign the same identifiers, and missing, damaged or unwritable storage is reported as an error rather than a panic. Saving and key deletion are durable once reported, and a crash at any write leaves the keys of the last completed save or of the one under way, whole, never a mixture and never keys that can sign what was durably deleted.",
  ["crash_points", "histories"], "all crash points during key storage and all key parameters",
  "tests restore one freshly generated key from an intact store",
  [S+"data/account.rs"], [("batched store of key parts", S+"data/account.rs")],
  ["Participation::persist", "Participation::restore", "Root::restore"], None, "process kill at every file-system write, then restore")
P("C28", "The account manager serves the right keys and deletes only spent ones",
  "The keys returned for a voting and balance round are exactly those added whose validity interval covers that round. Deleting old keys for a round advances each key exactly to the first round still needed (the next round, or earlier when certificate voting still needs it), whatever accounts, certificate rounds and protocols are known, without panic.",
  ["histories"], "all sets of keys and all round/deletion histories",
  "no test covers the account manager",
  [S+"data/account_manager.rs"], [("interval lookup and next-round computation", S+"data/account_manager.rs")],
  ["AccountManager::keys", "AccountManager::delete_old_keys"], "VerifAccountManager, OTSSecrets::verif_held_secrets, VrfPublicKey::verif_bytes", "lock-step reference model of key intervals and deletion")
P("C29", "The key tool's files and commands round-trip and stay private",
  "Generating, importing and exporting a key through the command-line tool with any key yields the same key, mnemonic, address and public key on every path, and signing a file of transactions yields those transactions in order, each validly signed by that key. Key files and participation key stores are readable by the owner only, every participation command uses just the store it names, and wrong input makes the tool fail with an error and a non-zero exit without overwriting or half-writing its output.",
  ["inputs", "histories"], "all keys, command sequences and malformed inputs",
  "the command-line tool has no tests",
  [S+"bin/algokey/", S+"crypto/mnemonic.rs"], [("subcommands over key files", S+"bin/algokey/")],
  ["algokey generate/import/export/sign/part"], None, "black-box run of the real binary in a scratch directory, files checked by independent code")
P("C30", "Configuration files override defaults field by field and survive saving",
  "Loading a local configuration gives the file's value for every key present and the default for every other (a listening node always archives and serves), saving and loading gives an equal configuration, and damaged or missing files give an error and change nothing, and bootstrap names and flags follow from the settings alone. Custom protocol definitions replace, add or delete exactly the named versions, whatever their order, and leave no upgrade path to a deleted one; saved protocols and phonebooks load back exactly.",
  ["inputs", "configurations"], "all configuration files",
  "tests load a few fixed files",
  [S+"config/mod.rs", S+"config/consensus.rs", S+"config/default.rs"], [("serde defaults and protocol merge", S+"config/mod.rs")],
  ["Local::load", "ConsensusProtocols::merge", "load_phonebook"], "Local::verif_*", "field-wise differential against a JSON-level model")
P("C31", "No data race or undefined behaviour in the library's own execution",
  "Parallel hashing, batch verification, shared key managers and lazily created global state run free of data races, invalid memory access and other undefined behaviour under concurrent use, and give the same result as sequential use. Concurrently replaced configuration directories are each handed back exactly once and the one set last stays, and participation keys restored while others are being saved are one saved record, whole, and never an older one than before.",
  ["schedules", "inputs"], "all thread schedules and inputs reaching parallel or unsafe code",
  "tests run without any sanitizer and mostly in one thread",
  [S+"crypto/merklearray/merkle.rs", S+"crypto/batch_verifier.rs", S+"data/account_manager.rs"], [("rayon parallel layers, locks around the key manager", S+"crypto/merklearray/merkle.rs")],
  ["Tree::build", "AccountManager"], None, "sanitized rebuild of the same workloads plus sequential/concurrent comparison")
P("C32", "Application state arithmetic saturates and stays within its schema",
  "Adding and subtracting state schemas saturates at zero and at the maximum instead of wrapping, counts of stored integers and byte strings equal the stored contents, and recorded state changes are accepted exactly when they respect the protocol's key, value and size limits. Indices into a call's accounts and applications resolve to the same entity in both directions.",
  ["inputs", "configurations"], "all schemas, stored states, state changes and index lookups",
  "no test covers these",
  [S+"data/basics/teal.rs", S+"data/transactions/teal.rs", S+"data/transactions/application.rs"], [("saturating schema arithmetic, delta validity", S+"data/basics/teal.rs")],
  ["StateSchema", "StateDelta::is_valid", "AppCallFields"], "StateDelta::verif_*, TealKeyValue::verif_new, AppCallFields::verif_address_by_index", "reference arithmetic and validity predicate")
P("C33", "The genesis block is determined by the genesis file",
  "The genesis block starts at round zero with the given time, protocol and genesis identity, a reward rate computed from what its rewards pool holds, and no transactions; without a rewards pool it is refused with an error. The genesis id is network and schema joined by a dash, the genesis hash changes with any change to the description, and a description file loads exactly or gives an error, never a panic.",
  ["inputs", "configurations"], "all genesis descriptions",
  "no test builds a genesis block",
  [S+"data/bookkeeping/genesis.rs", S+"data/bookkeeping/block.rs"], [("genesis block construction", S+"data/bookkeeping/genesis.rs")],
  ["Genesis::create_block", "Genesis::load_from_file"], "verif_genesis_block, VerifGenesis", "field-wise reference over generated genesis descriptions and files")
P("C34", "Key file names identify account and round range and nothing else",
  "The name built for a participation or root key file is recognised as that kind only, and yields back the same account name and, for partial keys, the same round range, for every account name. No other file name is taken for a key file.",
  ["inputs"], "all account names, round ranges and file names",
  "tests check one name of each kind",
  [S+"config/keyfile.rs"], [("name composition and pattern matching", S+"config/keyfile.rs")],
  ["config::keyfile"], "keyfile::verif_*", "round trip and cross-kind rejection over generated names")

P("C35", "Each protocol version carries its published limits and upgrade path",
  "Every supported protocol version has exactly the published value of every parameter, feature and limit, and deprecated versions are not supported. Committee thresholds lie between half and the whole of each committee, and approved upgrades lead in allowed delays through supported versions to the current one without a loop.",
  ["configurations"], "all protocol versions and all their parameters",
  "no test looks at the table of versions",
  [S+"config/consensus.rs", S+"protocol/consensus.rs"], [("table of consensus versions", S+"config/consensus.rs")],
  ["config::CONSENSUS"], None, "field-by-field comparison with an independently written parameter table plus table invariants")
P("C36", "Every round maps to one key and round arithmetic never wraps",
  "For every key dilution a round maps to exactly one key identifier, successive rounds to successive identifiers, and the round is recovered from it. Differences of rounds stop at zero and rounding up gives the least multiple not below the round whenever that is representable.",
  ["inputs"], "all rounds, dilutions and divisors",
  "tests sample a few rounds",
  [S+"data/basics/units.rs", S+"data/basics/mod.rs"], [("key identifier of a round", S+"data/basics/units.rs")],
  ["Round::ots_id"], "Round::verif_sub_capped, Round::verif_round_up_to_multiple_of", "128-bit reference arithmetic")
P("C37", "Bit sets, sizes, texts and accessors report exactly what a value holds",
  "After any sequence of setting and clearing, a 256-bit set holds exactly the bits last set, two sets are equal exactly when their bits are, and a set is zero exactly when it holds none. Account statuses read back only from their own names, program and encoded lengths are exact, wrapping a group loses nothing, and a block reports the round, seed, genesis and protocol of its header.",
  ["inputs", "histories"], "all histories of bit operations, all texts, programs, transactions and headers",
  "tests try one order of bits and no accessor",
  [S+"crypto/merkletrie/bitset.rs", S+"data/basics/user_balance.rs", S+"data/transactions/logicsig.rs", S+"data/transactions/signed_tx.rs", S+"data/bookkeeping/block.rs"], [("bit set, accessors", S+"crypto/merkletrie/bitset.rs")],
  ["Bitset", "Status", "LogicSig::len", "Block accessors"], None, "history monitor with a model set; recomputed sizes and fields")

P("C38", "Generated keys are fresh, fully random and never published",
  "Every secret that is generated (spending keys, selection keys and the one-time keys of every batch, offset and signature) differs from every other one in all of its parts, whatever the arguments and in whichever thread or process it is made, and each of its bits is random. Nothing the network gets to see (addresses, registrations, signatures, one-time signatures, proofs) contains a part of a secret or lets one be worked out.",
  ["histories", "schedules"], "all arguments, histories, threads and processes generating keys",
  "tests generate keys and never compare them",
  [S+"crypto/ots.rs", S+"crypto/vrf.rs", S+"data/account.rs"], [("key generation", S+"crypto/ots.rs"), ("seeds of stored keys", S+"data/account.rs")],
  ["OTSSecrets::generate", "OTSSecrets::delete_before", "OTSSecrets::sign", "Root::generate", "Participation::fill_db_with_participation_keys"], "OTSSecrets::verif_held_secrets, VrfPublicKey::verif_bytes, VrfProof::verif_bytes", "cross-comparison of all generated secrets by eight-byte words, bit statistics, search of published objects")

CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36 C37 C38".split()
LEVELS = {"C27": "fault_enumeration"}

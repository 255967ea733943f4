p("C16", "Derived conversions carry every field over, both ways",
  "For any two types with the same field and variant names whose fields convert into each other, the derive gives conversions in both directions, also from and to one to four version wrappers of the target. Each conversion moves every field (and every element of a list, option or box) into the field of the same name and every variant into the variant of the same name, whatever order the target declares them in, and sets each wrapper's version to the one of its type.",
  ["programs", "inputs"], "all pairs of structs and enums with plain, list, optional, boxed and nested fields, any number of targets, all their values",
  "Tests convert one hand-written struct, tuple struct and enum in which all fields have the same type.",
  ["protocol/serialization-types-macros/src/lib.rs", "protocol/serialization-types-macros/src/auto_from.rs", "protocol/versioned/src/lib.rs"],
  [("code generation for structs and enums", "protocol/serialization-types-macros/src/auto_from.rs"), ("wrapper conversions", "protocol/versioned/src/lib.rs")],
  "property-based testing: generated programs with random type pairs, compiled and run",
  "Random pairs of types are rendered as Rust programs, compiled with the derive and executed on random values against a conversion written out by the generator. No claim on shapes outside the generator; trusts rustc.")
p("C17", "The layout reader tool shows exactly what a file holds or fails",
  "Given a layout file and a data file, raw or as hex text, the tool prints (or writes to the requested output file) exactly the value the data denotes under the layout and exits successfully; with the round-trip option it does so only if that value re-encodes to exactly the data. If the layout or data is missing, malformed or does not decode, it exits with a failure, prints no value and leaves the output file alone.",
  ["inputs", "configurations"], "all layouts, data files and option combinations",
  "The tool has no tests.",
  ["apps/bin-prot-layout-reader/src/main.rs", BP + "loose_deserializer.rs"],
  [("main", "apps/bin-prot-layout-reader/src/main.rs")],
  "property-based testing: the built tool run on generated files, reference interpreter as oracle",
  "The tool is built from the tree and run as a process on generated files in a scratch folder." + TRUST)
p("C18", "The interop checker tool writes and reads real bin_prot",
  "Serialising any of the tool's test values writes exactly its bin_prot encoding to standard output, or replaces the given file by it and reports the number of bytes. Deserialising prints exactly the value the input denotes for the chosen test, from standard input or a file alike, and for bytes that are no encoding, unusable paths or unknown tests the tool fails without printing a value.",
  ["inputs", "configurations"], "all tests of the tool, all inputs, both sources and sinks",
  "The tool has no tests that run without the OCaml counterpart.",
  ["protocol/bin_prot_checker/src/main.rs", BP + "ser.rs", BP + "de.rs"],
  [("main", "protocol/bin_prot_checker/src/main.rs")],
  "property-based testing: the built tool run on generated input, reference codec as oracle",
  "The tool is built from the tree and run as a process on generated bytes. The number test is fed counts of at most 400 units." + TRUST)
WIDE = " The crate's git-only dependencies (the mina proof systems) are unreachable offline, so it is built from the tree against small stand-ins in /verif/standins; the stand-ins (field arithmetic, permutation, curve) are trusted and shared by oracle and code only where DESIGN.md says so. Generated-input search: no claim beyond the generated cases."
p("C21", "A Merkle tree's root depends on nothing but its sequence of leaves",
  "Whatever the history of additions, batches, root queries, metadata queries and proofs, a tree's root hash is the one its leaf sequence defines: leaves at the bottom level in order, missing subtrees as the empty hash, every inner node the hash of its two children with the node's own height and depth in the whole tree. Count, height and depth of tree and nodes are those of that tree, and growing the tree in any steps gives the same root as building it at once.",
  ["histories", "inputs"], "all leaf sequences, all interleavings of additions and queries, fixed and variable height trees",
  "Tests build a few trees of fixed size in one go and compare recorded hashes.",
  ["merkle/src/tree.rs", "merkle/src/tree_impl.rs", "merkle/src/metadata.rs", "merkle/src/hasher_poseidon.rs", "merkle/src/merger_poseidon.rs", "merkle/src/prefixes.rs"],
  [("add / node hashes / cached hashes", "merkle/src/tree_impl.rs"), ("metadata calculation", "merkle/src/metadata.rs")],
  "model-based property testing: generated operation histories against a recursive reference tree",
  "Histories of additions and queries on fixed- and variable-height trees against a recursive definition; string merges make every structural difference visible, the mina hasher runs on a stand-in Poseidon." + WIDE)
p("C22", "Merkle proofs verify for exactly the leaf and position they prove",
  "For every leaf of every tree, the proof obtained for it verifies against the tree's root. A proof that was altered in any part (item, siblings, order, length, position, peak) verifies only if what it states is true of that tree, and malformed proofs or proof paths are rejected with false or an error, never a panic. Proof paths read from JSON convert to proofs that recompute the same root.",
  ["inputs", "histories"], "all trees and leaf positions, all alterations of proofs, all JSON proof paths",
  "Tests verify the proofs of one fixed tree and one recorded path.",
  ["merkle/src/proof.rs", "merkle/src/tree_impl.rs", "merkle/src/path.rs"],
  [("get_proof", "merkle/src/tree_impl.rs"), ("verify", "merkle/src/proof.rs"), ("to_proof", "merkle/src/path.rs")],
  "property-based testing: generated trees, generated tampering, soundness decided by the reference tree",
  "Every leaf of generated trees, mutated proofs, arbitrary proofs and paths, and JSON paths with hostile fields." + WIDE)
p("C23", "Fork choice follows the consensus rule for every tip and candidate list",
  "Choosing among a tip and candidate chains gives exactly what the Samasika rule prescribes, taking candidates in order: on a short-range fork the longer chain wins; on a long-range fork a candidate with a malformed density window is skipped and otherwise the higher relative minimum window density wins, then the longer chain; equal lengths are decided by the larger hash of the last VRF output, then by the larger state hash, and the tip stays on a full tie. Nothing but those fields matters, extreme numbers never panic or wrap, and a chain only accepts a block one higher than its top.",
  ["inputs", "histories"], "all tips, all candidate lists, all values of the fields involved, all histories of pushes",
  "Tests compare recorded pairs of real blocks.",
  ["consensus/src/common.rs", "base/src/protocol_state.rs", "base/src/consensus_state.rs"],
  [("select_secure_chain / relative_min_window_density / is_short_range", "consensus/src/common.rs"), ("VRF digest", "base/src/consensus_state.rs")],
  "property-based testing: generated chains against a reference implementation of the selection rule",
  "Tips and candidates with clustered field values against a reference of the rule (own BLAKE2b), on a header type of the harness and on the real protocol states." + WIDE)
p("C27", "State, body and account hashes commit to every field in protocol order",
  "The hash of a protocol state (both generations), of its body and of an account is taken, under the domain string of its kind, over exactly the protocol's layout: every field in the prescribed order and width, field elements first, then the integers packed into elements of at most 254 bits, most significant first in the current form and as a little-endian bit string in the legacy form. Changing any hashed field changes the hash, and packing arbitrary sequences of items never overflows or drops bits. VRF outputs are 253-bit, timing slots below 2^32; zkapp contents are placeholders.",
  ["inputs"], "all states, bodies and accounts over canonical field elements, all sequences of appended items",
  "Tests compare the hash of a handful of recorded states.",
  ["proof-systems-shim/src/roinput.rs", "base/src/protocol_state.rs", "base/src/consensus_state.rs", "base/src/epoch_data.rs", "base/src/blockchain_state.rs", "base/src/blockchain_state_registers.rs", "base/src/global_slot.rs", "base/src/numbers.rs", "base/src/account/mod.rs", "base/src/account/permissions.rs", "base/src/account/timing.rs", "base/src/account/token_permissions.rs", "base/src/account/token_symbol.rs", "crypto/src/hash/types.rs"],
  [("packing", "proof-systems-shim/src/roinput.rs"), ("state hash", "base/src/protocol_state.rs"), ("account hash", "base/src/account/mod.rs")],
  "property-based testing: generated values against an independent layout model, one-leaf mutation",
  "Random states and accounts against a separately written layout over big integers; a copy with one leaf changed must hash differently. The permutation under the sponge is a stand-in." + WIDE)
p("C28", "A signed command verifies for its own payload, signer and network only",
  "A command signed for a network verifies on that network and stops verifying when the network, any signed part of the payload, the signer or the signature changes; a signer that is no curve point makes it fail, not panic. What is signed is exactly the protocol's layout of the payment or delegation under the network's domain string. A staged ledger diff or block verifies exactly if every command of every diff in it does, whatever their status, and the transfer builder puts every setting where it belongs.",
  ["inputs", "histories"], "all payloads, keys, networks and alterations, all blocks made of them, all orders of builder calls",
  "Tests sign four recorded payments.",
  ["base/src/user_commands/signed_command/mod.rs", "base/src/user_commands/signed_command/builder.rs", "base/src/user_commands/mod.rs", "base/src/staged_ledger_diff.rs", "base/src/external_transition.rs"],
  [("to_roinput / verify / from_payload", "base/src/user_commands/signed_command/mod.rs"), ("diff verification", "base/src/staged_ledger_diff.rs")],
  "property-based testing: generated commands and blocks, generated tampering, independent layout model",
  "Random keys, payloads and tampering; blocks with at most one broken command at a random position. The curve is the real one, the permutation under the challenge hash is a stand-in." + WIDE)
p("C24", "Human-readable forms stand for exactly one value each",
  "Hashes, keys, memos, VRF outputs, signatures, amounts, integers and field elements are written in Mina's text form (base58check with the kind's version byte, URL base64, hex, decimal with nine digits) and a text is read as the value it stands for, or refused: altered, cut or other-kind base58 texts, numbers outside their range or with more than nine decimals, hex of another length and numbers that are no field element are refused, never misread and never a panic. The text of any memo, and of GraphQL states, accounts, permissions and timing, is read field by field into the field it belongs to, and nothing stands in for a part of a timing that cannot be read. A block time is the date so many milliseconds after the epoch.",
  ["inputs"], "all values of these types and all texts, all GraphQL documents of the documented shape",
  "Tests convert a few recorded hashes, memos, amounts and documents.",
  ["crypto/src/hash/types.rs", "crypto/src/hex/mod.rs", "protocol/serialization-types/src/common.rs", "protocol/serialization-types/src/version_bytes.rs", "protocol/serialization-types/src/signatures.rs", "protocol/serialization-types/src/field_and_curve_elements.rs", "base/src/numbers.rs", "base/src/user_commands/memo.rs", "base/src/protocol_state.rs", "base/src/consensus_state.rs", "base/src/account/mod.rs", "base/src/account/permissions.rs"],
  [("hash texts", "crypto/src/hash/types.rs"), ("amounts", "base/src/numbers.rs"), ("json texts", "protocol/serialization-types/src/common.rs"), ("GraphQL permissions", "base/src/account/permissions.rs")],
  "property-based testing: generated values and edited texts against independent encoders and exact arithmetic",
  "Values and texts, valid and edited, against own base58check, base64, hex and decimal code; GraphQL documents rendered independently, with one leaf spoiled in half of the cases." + WIDE)
p("C25", "Wire form, domain type and JSON form of a value hold the same information",
  "For every protocol type with these forms (states, commands, statuses, coinbases, snark work, proofs, diffs, blocks, accounts), the wire value becomes a domain value and back without change, its JSON is exactly Mina's (names, order of variants' arguments, text form of every leaf), and that JSON is read back to the same value; only a block's protocol versions and callback, which its JSON does not hold, take their defaults. Reading a block's or account's bytes and writing them gives the same bytes; bytes after the value are noticed.",
  ["inputs"], "all values of these types; byte strings inside them that JSON cannot hold as text excepted",
  "Tests convert a few recorded blocks and default values.",
  ["protocol/serialization-types/src", "base/src/serialization_type_conversions", "base/src/external_transition.rs", "base/src/staged_ledger_diff.rs", "base/src/snark_work.rs", "base/src/user_commands", "base/src/protocol_state_proof", "base/src/account", "base/src/numbers.rs"],
  [("enum json", "protocol/serialization-types/src/macros.rs"), ("wire and JSON types", "protocol/serialization-types/src/staged_ledger_diff.rs"), ("domain types", "base/src/staged_ledger_diff.rs"), ("binary and JSON entry points", "protocol/serialization-types/src/type_annotations.rs")],
  "property-based testing: generated wire values, round trips through every form, independent JSON renderer",
  "Wire values generated through serde, their JSON compared with a renderer written from recorded blocks." + WIDE)
p("C26", "Malformed blocks, accounts and documents are refused, never a panic",
  "Bytes of a block or account, JSON of any protocol type, and GraphQL documents that are cut, edited, of another shape or that hold numbers that are no field element are refused with an error, or read as a value that is written and read back unchanged. Nothing panics, whatever the input.",
  ["inputs"], "all byte strings, JSON texts and GraphQL documents",
  "Tests read well-formed recorded blocks.",
  ["protocol/serialization-types/src/macros.rs", "protocol/serialization-types/src/signatures.rs", "protocol/serialization-types/src/common.rs", "protocol/serialization-types/src/field_and_curve_elements.rs", "protocol/serialization-types/src/protocol_state_proof.rs", "protocol/serialization-types/src/type_annotations.rs", "base/src/account", "base/src/protocol_state.rs"],
  [("enum json", "protocol/serialization-types/src/macros.rs"), ("keys and signatures", "protocol/serialization-types/src/signatures.rs"), ("single characters, byte strings, decimals", "protocol/serialization-types/src/common.rs")],
  "structure-aware fuzzing: generated documents and binaries spoiled at random nodes and bytes; no-panic and write-read oracle",
  "One to three nodes or bytes of a generated document are spoiled; what is still read must survive writing and reading. Decoding only: hashing a decoded hash that is no field element is outside." + WIDE)
p("C29", "Every block and every query reaches the other side, whatever the schedule",
  "While the message processor runs, every block the network delivers that converts reaches the frontier exactly once, the blocks of each sender in their order, and every query of the frontier reaches the network unchanged, exactly once and in order; a block that does not convert or is refused, and a query that fails, loses nothing else and stops nothing. The frontier and the network are never used by two at once, readers get their turn, one side hanging up does not stop the other, and the processor ends when both have.",
  ["schedules", "histories", "inputs"], "all schedules of peers, readers and the processor, all sequences of blocks, queries and failures; not both sides sending in place",
  "The crate's tests of the processor need a network and fixed exchanges; schedules are not varied.",
  ["network/src/processor/mod.rs", "network/src/processor/processor_impl.rs"],
  [("run / receive loops / guards", "network/src/processor/processor_impl.rs")],
  "property-based testing: generated schedules and message histories on a deterministic executor, invariants over the log",
  "Mock frontiers and networks with generated behaviour around the real processor, polled in generated order; the log is compared with what the plan requires. The channels and locks are the real tokio ones." + WIDE)
p("C30", "The frontier's tip and sparse ledger follow fork choice block by block",
  "After any history of blocks, the frontier's best chain is the one block that fork choice prescribes among the blocks so far (the first block is always taken, whatever its height), and its sparse ledger is the one that came with that block. A mainnet block with a command that does not verify for mainnet, and a block that cannot be compared, are refused and change nothing. A GraphQL response is read as its first protocol state and one merkle proof per address member, each with the root and position the path describes; a response whose state or any account is malformed is refused, never a panic.",
  ["histories", "inputs"], "all sequences of blocks of both networks, all GraphQL responses",
  "Tests read one recorded response.",
  ["network/src/processor/naive_transition_frontier.rs", "consensus/src/common.rs", "merkle/src/path.rs", "merkle/src/proof.rs"],
  [("add_block / reading of responses", "network/src/processor/naive_transition_frontier.rs")],
  "model-based property testing: generated block histories against a model of tip and ledger; documents against an independent reading",
  "Histories of blocks near each other against the reference fork choice of C23; responses, sound and spoiled, against an own reader and own merkle folding." + WIDE)
p("C31", "A wallet opens with its password only, and to its own key",
  "A wallet file sealed by the format (argon2i, XSalsa20-Poly1305, base58check fields) opens with its password to exactly the private key sealed in it, and a wallet that was read is written as the same file. With another password, or after any change of nonce, salt, limits or ciphertext, it does not open. Files of another shape, primitive, encoding or length, limits out of range and contents that are no key are refused with an error, never a panic.",
  ["inputs"], "all passwords, keys and wallet files, all alterations; limits small enough to compute; salts of 3 to 16 bytes for writing",
  "Tests open one recorded wallet.",
  ["secrets/src/secret_box/types_impls.rs", "secrets/src/secret_box/types.rs", "secrets/src/secret_box/utils.rs", "secrets/src/secret_box/constants.rs"],
  [("reading, writing, opening", "secrets/src/secret_box/types_impls.rs"), ("text fields", "secrets/src/secret_box/utils.rs")],
  "property-based testing: wallets sealed by an independent writer, generated tampering",
  "Wallets sealed by the harness with its own Argon2 and XSalsa20-Poly1305 (checked against the recorded wallet), opened, tampered with and malformed." + WIDE)
p("C32", "A genesis ledger holds exactly the accounts of its database, in order",
  "Reading a database-backed genesis ledger yields each account record exactly once in key order and nothing else the database holds; a record that does not decode gives an error naming it, a read error is reported, and neither ends the ledger early or hides an account. The merkle ledger made of it has depth 20, each account at its position, and the root that follows from the accounts and empty leaves, legacy and current hashing alike.",
  ["inputs", "fault_sequences"], "all databases of accounts among other records, all damaged records, a read error at any point",
  "Tests read one recorded ledger.",
  ["ledger/src/rocksdb_genesis_ledger.rs", "ledger/src/genesis_ledger.rs"],
  [("iteration and decoding", "ledger/src/rocksdb_genesis_ledger.rs"), ("merkle ledger", "ledger/src/genesis_ledger.rs")],
  "property-based testing: generated databases and injected read faults, independent reading and root",
  "The database is an in-memory stand-in for RocksDB (ordered keys, prefix iteration, an injected read error)." + WIDE)
p("C33", "The web node asks for exactly what it was told, and reports what comes back",
  "Each call of sendPayment, lockAccount, unlockAccount or accountInfo of the two web nodes sends exactly one POST request to the endpoint it is given, which carries a well-formed GraphQL document that asks for that operation with every setting of the caller (accounts, password, token, amount, fee, nonce, memo, expiry) as data, whatever characters it holds, and no setting that was not given. A setting that is no number of its kind is refused and nothing is sent. The JSON answer is handed back unchanged; a failed request or an answer that is no JSON is an error of the call. Nothing panics.",
  ["inputs", "fault_sequences"], "all settings of the calls, all texts in them, all answers and failures of the endpoint",
  "There are no tests of the web nodes' Rust code.",
  ["apps/wasm/mina-berkeley/src/payment.rs", "apps/wasm/mina-berkeley/src/js_exports.rs", "apps/wasm/mvp/src/payment.rs", "apps/wasm/mvp/src/js_exports.rs"],
  [("requests of the berkeley node", "apps/wasm/mina-berkeley/src/payment.rs"), ("requests of the mvp node", "apps/wasm/mvp/src/payment.rs")],
  "property-based testing: generated calls against a scripted endpoint, own GraphQL reader as oracle",
  "The exported functions run natively behind a stand-in for the JavaScript bindings and the HTTP client; what is sent is parsed by an own GraphQL reader and compared with the settings." + WIDE)
p("C34", "The network backends ask for the right blocks and hand them on unchanged",
  "A query of the web backends of the frontier fetches from the configured endpoints, through the real JavaScript helpers, exactly the documents it needs: on berkeley, from every endpoint the best chain and the accounts tracked, whatever other endpoints do; on mainnet, each of the ten latest blocks that the explorer lists, or the block of the given height and hash. A failing fetch of a block or of the list is tried three times in all, and then reported or left out without affecting the others. What is handed on is what was served: blocks with all their 64 bit integers, and protocol states with the genesis ledger hash set to the snarked ledger hash of the genesis block that was served with them. Lists of endpoints and accounts set from outside are kept in order, and a value that is no list of texts is refused.",
  ["inputs", "fault_sequences", "histories"], "all endpoints, accounts and answers, all patterns of failing and slow endpoints",
  "Tests fetch from the live network, and are not run.",
  ["network/src/processor/js/graphql_api_berkeley.rs", "network/src/processor/js/graphql_api_v1.rs", "network/js/graphql_berkeley_utils.js", "network/js/graphql_v1_utils.js", "apps/wasm/mina-berkeley/src/js_exports.rs"],
  [("berkeley backend", "network/src/processor/js/graphql_api_berkeley.rs"), ("mainnet backend", "network/src/processor/js/graphql_api_v1.rs"), ("javascript helpers", "network/js/graphql_v1_utils.js")],
  "property-based testing: scripted endpoints with generated answers and faults, own model of what is asked and handed on",
  "The Rust part runs natively behind stand-ins for the bindings, the JavaScript part runs in node; fetch is a scripted function that executes the GraphQL selection over a generated document." + WIDE)
p("C35", "The blocks crawler files every listed block once, by whether it parses",
  "A run of the crawler asks the explorer for as many blocks as it is told, and fetches each listed block that is not filed as succeeded exactly once, never more at a time than it is told. A block that parses is filed under succeeded, one that does not under failed, and no longer under failed when it was there before; the file holds the block as served, without the time at which it was scheduled. A block that cannot be fetched is not filed and does not keep the others from being handled; files of other blocks stay as they are.",
  ["inputs", "histories", "fault_sequences"], "all lists of blocks with distinct names, all served files and failures, all earlier output folders",
  "The tool has no tests that run offline.",
  ["apps/tools/blocks-crawler/src/main.rs", "apps/tools/blocks-crawler/src/blocks.rs"],
  [("check_block / write_json", "apps/tools/blocks-crawler/src/blocks.rs"), ("main", "apps/tools/blocks-crawler/src/main.rs")],
  "stateful property-based testing: the built tool run on scripted servers and generated folders, model of the folders",
  "The tool runs as a process in a scratch folder with a stand-in HTTP client that plays a script and logs requests. Whether a block parses is decided by the JSON types of the repository, which C24 to C26 check." + WIDE)
p("C36", "The p2p transport has the layers that its settings say",
  "Whatever sequence of settings a transport is built with, natively or for the web, its layers are the sockets of its platform, the pre-shared key layer with the BLAKE2b-256 hash of the last rendezvous string set, the noise handshake with the node's own identity, the multiplexer under the last protocol name set, and the last time limit; a given identity is the peer id that comes with it. Settings of one builder do not reach into its clones.",
  ["inputs", "configurations"], "all sequences of settings, identities, rendezvous strings",
  "Tests connect to live seed nodes, and are not run.",
  ["network/src/p2p/builder.rs", "network/src/p2p/config.rs"],
  [("builder", "network/src/p2p/builder.rs"), ("configurations", "network/src/p2p/config.rs")],
  "property-based testing: generated sequences of settings against a model of the layers",
  "libp2p is a stand-in that records the layers a transport is composed of; the hash is computed by an own BLAKE2b." + WIDE)
p("C37", "The web node passes on every status its peer sends, in order",
  "After connecting, the web node dials the given address once with the transport of the network and asks for the node status; each line of the answer that is the base64 of a status is emitted once, in order, with all fields, however the bytes are cut into pieces; other lines are passed over, and the request ends when the stream ends or fails. A connect request with a bad address, one that cannot be dialled and bytes that are no request are reported as failures, without a panic.",
  ["inputs", "schedules", "fault_sequences"], "all streams of lines, all ways of cutting and ending them, all connect requests",
  "There are no tests of the web node's Rust code.",
  ["apps/wasm/mvp/src/lib.rs", "apps/wasm/mvp/src/event_emitter.rs", "apps/wasm/mvp/src/js_exports.rs", "apps/wasm/mvp/src/utils.rs"],
  [("connect / read_response", "apps/wasm/mvp/src/lib.rs"), ("emitter", "apps/wasm/mvp/src/event_emitter.rs")],
  "property-based testing: generated streams with faults, expected events as oracle",
  "The node runs natively on a stand-in libp2p whose peer sends the generated bytes; events are decoded by an own protobuf reader." + WIDE)
p("C38", "The running web node's best chain is what fork choice makes of its polls",
  "After any number of polls, with its event loop running, the best chain that a web node's exports show is the result of fork choice over the blocks the polls brought, in the order they came: for the main network the blocks that parse and verify, shown by state hash and by the JSON of its state; for berkeley the states that convert, shown by state hash, together with as many accounts as were tracked when it came. What cannot be fetched, does not parse, does not verify or cannot be compared leaves the best chain as it was and does not stop the node; before the first block there is none.",
  ["inputs", "histories", "fault_sequences"], "all histories of polls, of settings between them, and of what the servers answer",
  "No test runs a web node; those of the backends need a browser and a network.",
  ["apps/wasm/mvp/src/js_exports.rs", "apps/wasm/mvp/src/frontier.rs", "apps/wasm/mina-berkeley/src/js_exports.rs", "apps/wasm/mina-berkeley/src/frontier.rs", "network/src/processor/processor_impl.rs", "network/src/processor/naive_transition_frontier.rs", "network/src/processor/js/graphql_api_v1.rs", "network/src/processor/js/graphql_api_berkeley.rs"],
  [("exports", "apps/wasm/mvp/src/js_exports.rs"), ("NetworkMessageProcessor::run", "network/src/processor/processor_impl.rs"), ("add_block", "network/src/processor/naive_transition_frontier.rs")],
  "stateful property-based testing: generated histories of polls of the whole node, a fork choice model as oracle",
  "A node is one per process, so every case is a process of its own that replays its tape; the shown chain is compared after every poll." + WIDE)

#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line) from the table below.
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
I=["inputs"];H=["histories"];IH=["inputs","histories"]
# ---- codec
p("C01","Decoding untrusted bytes never panics",
 "Decoding any byte string as any wire type (block, header, transaction, account, message of any type ID, peer address, signature proof, hash, bit set, interlink) through the beserial entry points, the types' own decoders or the message decoder returns either a value or an error. It never panics, whatever the bytes and however short the buffer is.",
 I,"all byte strings of all lengths, for every decodable wire type and every message type ID",
 "The beserial tests decode a handful of hand-written well-formed buffers; package wire has no tests at all, so no truncated or hostile buffer is ever decoded.",
 ["beserial/decode.go","wire/bitset.go","wire/block.go","wire/account.go","wire/tx.go","wire/p2p.go","wire/hash.go","wire/signature.go","wire/msg_p2p.go","wire/msg_types.go"],
 [("length checks before every slice and index","beserial.decodeState.pop and the UnmarshalBESerial methods in wire"),("explicit error returns for unknown type tags","WrapTx/WrapAccount/NetAddress/PeerAddress.UnmarshalBESerial")])
p("C02","Decoders report exactly what they consumed; strict entry points take all",
 "Every decoder returns a count of consumed bytes between zero and the input length, and on success that count is exactly the length of the item at the start of the input, so the next item begins there. The strict entry points (full decoding, message decoding, stored-account reading) fail when any byte is left over.",
 I,"all inputs of all wire types",
 "Tests compare counts for a few fixed buffers without trailing data; the wire types' counts are never checked.",
 ["beserial/decode.go","wire/account.go","wire/block.go","wire/bitset.go","wire/tx.go","wire/p2p.go","wire/signature.go","wire/msg_types.go"],
 [("consumption accounting","beserial.Unmarshal, UnmarshalBESerial return values"),("trailing data checks","beserial.UnmarshalFull, wire.UnmarshalMessage, accounts.GetAccount")])
p("C03","Re-encoding a decoded value reproduces the consumed bytes",
 "Whenever a wire value is decoded from a buffer, encoding the decoded value yields exactly the bytes that were consumed. Nothing is lost, reordered, normalised or invented on the way, so hashes and signatures over re-encoded values stay valid.",
 I,"all byte strings a decoder accepts, for every wire type",
 "Only beserial's own toy structs are round-tripped for a few values; no wire type with a hand-written codec is.",
 ["beserial/decode.go","beserial/encode.go","wire"],
 [("paired decode/encode code","value/marshal in beserial, UnmarshalBESerial/MarshalBESerial in wire")])
p("C04","Computed size equals the encoded length",
 "For every value of a wire type that can be encoded, the computed size equals the number of bytes the encoder appends.",
 I,"all values (not only decoded ones) of every wire type, including every slice length and optional field",
 "Size tests check few fixed beserial structs; wire types are untested.",
 ["beserial/size.go","wire"],[("paired size/encode code","valueSize/marshal, SizeBESerial/MarshalBESerial")])
p("C05","Bytes on the wire follow the Nimiq layout",
 "Every wire type is read and written in the fixed Nimiq field order and widths: big-endian integers, raw fixed-size arrays, sequences prefixed with their declared length width, booleans and optional markers of exactly 0 or 1, and the documented custom layouts (tagged transactions and accounts, bit sets, interlink, typed network addresses, protocol-dependent peer details). Inputs that follow the layout are accepted, others are rejected.",
 I,"all inputs of the wire types, all values",
 "No test contains a wire message, transaction or account; only blocks of the genesis files are decoded.",
 ["wire/block.go","wire/tx.go","wire/tx_basic.go","wire/tx_extended.go","wire/account.go","wire/p2p.go","wire/msg_p2p.go","wire/msg_inv.go","beserial/decode.go","beserial/encode.go"],
 [("struct field order, types and beserial tags","wire"),("generic encoding rules","beserial")])
p("C06","Message type IDs are mapped consistently",
 "Decoding a message with a given type ID yields a message that reports this same ID; every message type of the library that reports a known ID is decodable under that ID, and IDs without a decoder yield the unknown-message error. An encoded message starts with the 8-byte big-endian ID the message reports, followed by exactly its encoding, in a buffer of its own.",
 I,"all 64-bit message IDs and all message types",
 "There is no test of the message registry.",
 ["wire/msg_types.go","wire/msg_inv.go","wire/msg_p2p.go","wire/msg.go"],
 [("type switch on the message ID","wire.UnmarshalMessage"),("Type methods","wire message types"),("header writing","wire.MarshalMessage")])
p("C07","Length prefixes are never truncated",
 "When a sequence is encoded, the length written equals its number of elements; a sequence too long for its declared prefix width makes encoding fail instead of producing a wrong prefix.",
 I,"all sequence lengths and all prefix widths",
 "Tests only encode sequences of a few elements.",
 ["beserial/encode.go"],[("bounds check before the prefix is written","beserial length prefix encoding")])
p("C08","Decoding allocates no more than the input justifies",
 "While decoding untrusted bytes, every sequence allocation is preceded by a check that bounds the number of elements by the number of remaining input bytes, or has a size bounded by an 8-bit count. A short message can not cause a huge allocation.",
 I,"all inputs, including length prefixes far beyond the buffer",
 "No test decodes an oversized length prefix.",
 ["beserial/decode.go","wire/bitset.go","wire/block.go","wire/signature.go"],
 [("sanity check before allocation","beserial slice decoding")])
p("C09","Decoded values own their memory; encoders only append",
 "A decoded value shares no memory with the input buffer and decoding does not modify the input. Encoding and sizing do not modify the value, and encoding returns the given buffer's content unchanged followed by the encoding.",
 IH,"all inputs, and all later modifications of the input buffer or of the value",
 "Aliasing only shows when the buffer is reused after decoding, which no test does.",
 ["beserial/decode.go","beserial/encode.go","wire"],[("copy on decode","beserial slices, wire custom decoders"),("append on encode","MarshalBESerial")])
p("C10","Errors are never dropped",
 "When any step of decoding, encoding, sizing, block application, genesis loading or signing fails, the operation built from it fails as well (returns an error, or stops the program). No failure is ignored or overwritten.",
 ["inputs","fault_sequences"],"every failing step on every path",
 "Tests almost never make an inner step fail, so a swallowed error is invisible to them.",
 ["beserial","wire","accounts","genesis","wallet","cmd/gimiq/main.go"],[("error propagation","all error-returning call sites")])
p("C11","The generic codec honours its contract for every documented type",
 "For every type built from numbers of all widths, booleans, strings, arrays, slices with each length prefix width, structures, pointers, optional items and types with a codec of their own, decoding never panics, consumes exactly one item, accepts exactly the documented layout, encoding is its inverse and refuses lengths that do not fit the prefix, and the computed size is the encoded size. Unsupported types, nil and non-pointers are refused with an error (for a wrong argument an InvalidUnmarshalError).",
 I,"all types of the documented grammar and all their values","The wire types use a fraction of the documented grammar (two of four prefix widths, no signed numbers), so neither the library's own use nor its tests meet the rest.",
 ["beserial/decode.go","beserial/encode.go","beserial/size.go","beserial/tags.go","beserial/doc.go"],[("kind switches in decode, encode and size","decodeState.value, marshal, valueSize"),("struct tags","tags.parse")])
p("C12","Decoding replaces the target completely",
 "A successfully decoded value holds exactly what the input says, whatever the target held before: fields, pointers, slices and details left from an earlier use do not shine through, and memory the earlier content referred to is not changed.",
 ["inputs","histories"],"all inputs and all earlier contents of the target","Tests decode into fresh variables.",
 ["beserial/decode.go","wire"],[("assignment of every field","decodeState.value"),("details of peer addresses, interlinks, Merkle paths","custom decoders in wire")])
# ---- accounts
p("C13","Truncated input is reported as an unexpected end",
 "When decoding fails because the input ends before the item does, the error is ErrUnexpectedEOF or wraps it, at every depth of nesting, so a caller can tell a message that is still incomplete from one that is malformed. No other failure (bad tags and flags, unsupported types, trailing data) reports an unexpected end.",
 I,"all truncations and all malformed inputs of all wire types and of all types the generic codec supports","The beserial tests check the error of two truncated buffers; the wire decoders' errors are never looked at.",
 ["beserial/decode.go","beserial/errors.go","wire/bitset.go","wire/block.go","wire/signature.go","wire/p2p.go","wire/msg_p2p.go","wire/tx.go","wire/account.go","wire/hash.go"],
 [("length checks that return ErrUnexpectedEOF","decodeState.pop, slice decoding, UnmarshalBESerial methods"),("wrapping with %w","decodeState.value and the wire decoders")])
p("A01","Outgoing transactions debit exactly value plus fee, or fail",
 "Applying an outgoing transaction to an account of any kind yields an account of the same kind whose balance is lower by exactly value plus fee and which is otherwise unchanged. If value plus fee exceeds the balance (even where the sum does not fit 64 bits), applying fails.",
 I,"all balances, values, fees and heights, for basic, vesting and HTLC accounts",
 "The accounts test applies a single small transaction from a basic account.",
 ["wire/account.go"],[("balance check and subtraction","ApplyOutgoingTx methods")],
 [("Value","account balance","wire account structs")])
p("A02","Incoming funds and block rewards credit exactly",
 "An incoming transaction raises a basic account's balance by exactly the transaction value, and fails rather than wrapping around; contracts refuse incoming transactions. The miner is credited exactly once per block with the block reward of that height plus the sum of all fees in the block.",
 IH,"all balances and values, all blocks with any number of transactions",
 "One two-block test with zero fees.",
 ["wire/account.go","accounts/accounts.go"],[("addition with overflow check","BasicAccount.ApplyIncomingTx"),("coinbase construction","accounts inherents step")])
p("A03","Applying transactions never modifies accounts or transactions in place",
 "Applying an outgoing or incoming transaction leaves the given account, the transaction and the shared initial account untouched; the new state is a separate value. Reading balance, type or emptiness changes nothing either.",
 H,"all histories in which an account value or the shared initial account is used again after an application",
 "In-place modification is only visible when the old value is used again.",
 ["wire/account.go","accounts/accounts.go"],[("copy before modification","ApplyOutgoingTx/ApplyIncomingTx methods")],
 [("InitialAccount","shared account of all unknown addresses","wire/account.go")])
p("A04","HTLC funds only move under the HTLC conditions",
 "An HTLC pays out by a regular transfer only up to its timeout height with a proof quoting the contract's own hash algorithm and root and naming the recipient as signer; by early resolution only with proofs naming both the recipient and the sender as signers; by timeout resolution only after the timeout with a proof naming the sender as signer. Any other proof is rejected.",
 I,"all contracts, transactions, proofs and heights",
 "No test touches HTLCs.",
 ["wire/account.go"],[("proof type switch with timeout, hash and signer checks","HTLCAccount.ApplyOutgoingTx")])
p("A05","Vesting contracts release funds only as scheduled, to the owner",
 "A vesting contract releases nothing up to and including its start height, everything when it has no step size or step amount, and otherwise keeps at least the total amount minus step amount times the number of completed steps. Every release needs a proof naming the owner as signer.",
 I,"all contract parameters, balances, heights and transactions, including parameters near the 64-bit limit",
 "No test spends from a vesting contract.",
 ["wire/account.go"],[("locked amount computation and comparison","VestingAccount.ApplyOutgoingTx")])
p("A06","Contracts are created with exactly the parameters of the transaction",
 "A created vesting contract takes its owner and schedule from the 24, 36 or 44 byte creation data with the documented defaults (start zero; step amount and total amount equal to the transaction value), an HTLC takes sender, recipient, hash, hash count, timeout from the data and its total amount from the transaction value; the balance is the one passed in. Malformed creation data, a zero HTLC hash count, and basic transactions are rejected.",
 I,"all creation data and transactions",
 "One test creates one minimal vesting contract and does not look at it.",
 ["wire/account.go"],[("creation data decoding","VestingAccount.Init, HTLCAccount.Init")])
p("A07","Account types claimed by transactions are enforced",
 "A block is only accepted if every sender account and every recipient account of a non-creating transaction has exactly the type the transaction names; a contract-creating transaction names a vesting or HTLC recipient. Otherwise the block is rejected.",
 IH,"all blocks and account states",
 "Tests only push consistent transactions.",
 ["accounts/accounts.go"],[("type comparison before application","transaction step of block application"),("recipient type switch","contract creation step")])
p("A08","Accounts are pruned exactly when the block says so and is right",
 "A contract emptied by a transaction of the block is removed exactly if the block's prune list quotes that account with its exact content; the block is rejected if an emptied contract is missing or altered in the list, or if the list names an account that was not emptied.",
 IH,"all blocks, prune lists and account states",
 "The pruning test does not prune anything.",
 ["accounts/accounts.go"],[("comparison of emptied senders with the prune list, then leftovers check","prune step of block application")])
p("A09","A block is applied completely and in protocol order",
 "Pushing a valid block debits every sender, then credits every recipient, then creates every contract, then prunes, then pays the miner: each step for every transaction in block order, each exactly once, at the height of the block.",
 IH,"all blocks with any number of transactions",
 "Tests push blocks with at most one transaction, so order and completeness do not matter.",
 ["accounts/accounts.go"],[("sequence of steps over all transactions","accounts.Push")])
p("A10","Pushing any decoded block never panics",
 "Pushing a block that was decoded from arbitrary bytes (body missing, height zero, any mixture of transaction and account types) onto any account state returns success or an error, and does not panic.",
 IH,"all decodable blocks",
 "Tests only push well-formed blocks.",
 ["accounts/accounts.go","wire/account.go"],[("checks of body and height, checked type assertions, error returns","accounts.Push and account methods")])
p("A11","A rejected block leaves the state unchanged",
 "When pushing a block fails, the accounts state (every entry and the root hash) is the same as before; when it succeeds, all changes of the block are in the state.",
 ["histories","fault_sequences"],"all blocks failing at any step",
 "No test pushes an invalid block.",
 ["accounts/accounts.go","tree/store_overlay.go"],[("changes are collected in an overlay and written down at the end","accounts.Push, tree.OverlayStore")])
p("A12","Stored accounts read back as stored; unknown addresses are empty",
 "Reading an address without a stored entry gives an empty basic account; storing an empty basic account (or nothing) removes the entry, storing any other account writes its complete encoding, and reading decodes the complete entry and returns the account with the type and content that was stored.",
 H,"all accounts and addresses",
 "Only indirectly tested through one block.",
 ["accounts/accounts.go","wire/account.go"],[("encode on put, decode on get","Accounts.PutAccount, Accounts.GetAccount")])
p("A13","Consensus computations are deterministic",
 "Account, transaction, block, reward and tree computations depend only on their inputs: no floating point, no clock, no randomness, no environment, no goroutines, and no result or error-versus-success outcome that depends on map iteration order.",
 ["inputs","schedules","configurations"],"all runs on all machines",
 "Nondeterminism between nodes can not be observed in one process.",
 ["accounts","wire","tree","policy","beserial"],[("integer arithmetic only, order-independent map loops","everything reachable from accounts.Push, tree hashing and the codecs")])
p("A14","Signer addresses come from the proof's key and Merkle path",
 "The signer address of a signature proof is the first 20 bytes of the Merkle root computed from the hash of its public key, combining one path node per step on the side given by that step's branch bit. The address of a public key is the first 20 bytes of its Blake2b-256 hash.",
 I,"all public keys and Merkle paths",
 "No test computes a Merkle path.",
 ["wire/signature.go","wire/account.go"],[("iterative hashing","MerklePath.ComputeRoot, SignatureProof.SignerAddress, PublicKeyToAddress")])
p("A15","Account equality compares the complete account",
 "Two accounts compare equal only if they have the same type and agree in every field; missing accounts are equal to nothing. Each account reports its own balance, its own type tag, and is empty exactly if its balance is zero.",
 I,"all pairs of accounts","No test compares contract accounts.",
 ["wire/account.go"],[("struct comparison per type","AccountEq"),("accessors","Balance, Type, IsEmpty methods")])
# ---- tree
p("T01","The root hash is current after every update",
 "After every insertion, replacement or removal of an entry, the hash of every node on the path from the entry to the root has been invalidated and recomputed before the operation returns, so the root hash reflects the current content, and depends on nothing but the current entries, whatever updates led to them.",
 H,"all histories of tree updates","Tests check the hash of a few fixed trees only.",
 ["tree/tree.go"],[("hash invalidation along the path, then rehash","PMTree.PutEntry and its helpers")])
p("T02","Node hashes commit to the whole node",
 "The hash of a leaf covers its complete path and its complete value, and the hash of a branch covers its path, the number of its children, and the suffix (with its length) and hash of every existing child in index order, each preceded by its node-type tag.",
 I,"all nodes","Tests compare hashes of few fixed trees.",
 ["tree/node.go"],[("hash input construction","Leaf.Hash, Branch.Hash")])
p("T03","Overlay stores isolate until flushed",
 "Reads through an overlay see its own changes (including deletions) before the lower store's; no operation on the overlay or on nodes read through it changes the lower store until it is flushed; flushing applies every change, puts as puts and deletions as deletions, and empties the overlay.",
 H,"all histories of overlay operations","The overlay has no test.",
 ["tree/store_overlay.go","tree/tree.go"],[("diff map, copying branches on read","OverlayStore")],[("diffs","pending changes; nil marks a deletion","tree/store_overlay.go")])
p("T04","Nibble paths convert without loss",
 "Expanding a 20-byte key gives 40 nibbles, high half first, all below 16; packing 40 nibbles restores the key; compressing and hex formatting use every nibble, common-prefix and prefix tests compare every position, and none of these go out of bounds.",
 I,"all keys and nibble lists","Tests convert three fixed keys.",
 ["tree/store.go","wire/nibbles.go"],[("loops over all positions","Nibbles methods")])
p("T05","Tree entries read back, and change only when they differ",
 "Looking up a key gives the value last put, or nothing if absent or removed. A put reports a change exactly if the stored value differs, an empty value removes the entry, and an update of one key stores or deletes only that key's leaf.",
 H,"all histories of puts and gets","Tests use few fixed keys.",
 ["tree/tree.go"],[("lookup by full path","PMTree.GetEntry, PutEntry")])
# ---- policy
p("S01","The supply cache is only used under its lock",
 "Every access to the shared supply cache happens while its lock is held, and the lock is released on every way out, so concurrent supply and reward computations neither race nor deadlock.",
 ["schedules"],"all interleavings of concurrent callers","Tests are single-threaded.",
 ["policy/policy.go"],[("mutex around cache access","policy.SupplyAfter")],[("supplyCache","supply at multiples of the cache interval","policy/policy.go")])
p("S02","The supply at a height does not depend on earlier queries",
 "The supply after a height is the same whatever heights were asked for before and in whatever order: every cache entry holds the supply just before the height it stands for, and a result always continues from there exactly up to and including the requested height, also at the maximum height.",
 ["histories","inputs"],"all query histories and all heights","Tests ask for a few heights, in one order.",
 ["policy/policy.go"],[("cache index arithmetic","policy.SupplyAfter")])
p("S03","The block reward follows the emission formula",
 "The reward at a height is zero at genesis, the fixed tail reward once the tail height is reached while enough supply remains, and otherwise the remaining supply divided by the emission speed rounded down, where remaining means total minus current supply; no intermediate value wraps around for any reachable supply.",
 I,"all heights and all supplies up to the total","Tests check few values.",
 ["policy/policy.go"],[("reward computation","policy.BlockRewardBySupply, policy.BlockReward")])
# ---- wallet
p("W01","Signed content covers every effective field of the transaction",
 "What is signed for a transaction is its canonical content: data, sender and recipient with their types, value, fee, validity start height, network ID and flags, each taken from the corresponding field of that same transaction (for a basic transaction, the sender derived from its public key). Sender, recipient, amount and extended views of a transaction agree with it.",
 I,"all transactions","The wallet test checks few fixed transactions.",
 ["wire/tx_basic.go","wire/tx_extended.go","wallet/basic.go"],[("field mapping","AsTxContent, AsExtendedTx, GetSender, GetRecipient, Amount"),("signing","wallet.Basic")])
p("W02","The wallet signs only its own transactions and returns its own signature",
 "The wallet refuses to sign a basic transaction of another sender and leaves it untouched. A signature it produces is made with its private key over the encoded content of that transaction and ends up, complete, in the transaction together with the wallet's public key. The wallet's public key and address are those of its private key.",
 I,"all transactions and keys","Tests sign few transactions with the right key.",
 ["wallet/basic.go"],[("sender comparison before signing","SignBasicTx"),("proof construction","SignExtendedTx")])
p("W03","Peer address signing and verification agree",
 "Signing and verifying a peer address cover the same bytes: protocol, services and timestamp, big-endian, in that order; verification uses the address's own public key and signature, and signing stores the matching public key and signature.",
 I,"all peer addresses and keys","No test signs a peer address.",
 ["wire/p2p.go"],[("buffer construction","PeerAddress.Sign, PeerAddress.VerifySignature")])
p("W04","Peer identifiers and protocol numbers are Nimiq's",
 "The ID of a peer is the first 16 bytes of the Blake2b hash of its whole public key. Every exported number of the wire package (message IDs, service flags, transport protocols, network address, hash, account, transaction and inventory types) has the value the Nimiq protocol assigns to its name, and each transport protocol has its own URI scheme, every other protocol number being shown as invalid.",
 I,"all public keys, all protocol numbers and all named constants","No test looks at a peer ID, a scheme or a constant.",
 ["wire/p2p.go","wire/services.go","wire/msg_types.go","wire/msg_inv.go"],[("hash prefix","wire.GetPeerID"),("scheme table","wire.ProtocolScheme"),("constant blocks","package wire")])
p("E01","Rejections name what was wrong",
 "When pushing a block fails because an account does not have the type its transaction names (or the miner's account is not basic), the chain of the returned error holds an AccountTypeMismatchError with exactly the named and the actual type. When it fails over the prune list or an impossible contract type, the chain holds an InvalidPruneError with the address of the account or list entry concerned, or an InvalidForRecipientError with the recipient. When an account operation fails, the chain holds that operation's own error. An OverspendError never names more than the balance as available, and an amount greater than that as attempted (for a transaction of any amount above zero). Unwrap of an error gives the cause it was made with.",
 I,"all blocks, transactions, accounts and heights","No test looks at the content of an error.",
 ["accounts/accounts.go","wire/account.go"],[("type check of an account","accounts.pushTx"),("prune rejections","accounts.pruneAccounts"),("creation rejections","accounts.createContract"),("amount checks","wire.VestingAccount.ApplyOutgoingTx")])
# ---- address
p("D01","Malformed address strings are rejected",
 "Decoding a human-readable address ignores spaces and succeeds exactly if it has 36 non-space characters, starts with the country code, contains only allowed characters and its checksum is right, giving the bytes its 32 base-32 characters stand for; every other string gives an error, and no string makes it panic.",
 I,"all strings","Tests try about a dozen strings.",
 ["address/address.go"],[("sequence of checks before decoding","address.Decode")])
p("D02","Address formatting is canonical",
 "Formatting an address gives the country code, two check digits that complete the checksum, and the 32 base-32 characters of all 20 bytes in groups of four; decoding the result gives the same 20 bytes.",
 I,"all addresses","Tests format a few addresses.",
 ["address/address.go"],[("fixed layout construction","address.Encode")])
# ---- genesis / cli
p("G01","Genesis accounts are accepted only if they match the genesis block",
 "Initialising the state from a genesis profile inserts every genesis account, applies the genesis block, and reports success only if the resulting root hash equals the accounts hash in the block header.",
 ["inputs","configurations"],"all genesis profiles","Tests only load the two correct built-in profiles.",
 ["genesis/genesis.go"],[("root hash comparison","Profile.InitAccounts")])
p("G02","Genesis profiles are read completely or rejected",
 "Opening a profile reads the configuration, block and accounts of that same profile; every configuration entry of the shipped profiles reaches the returned configuration, and a missing, malformed or partly consumed file is an error.",
 ["inputs","configurations"],"all profile files","Tests open the two built-in profiles and do not look at the configuration.",
 ["genesis/genesis.go"],[("toml keys and strict decoding","genesis.OpenProfile")])
p("G03","Shared package state stays constant after initialisation",
 "Package-level variables that describe the protocol (initial account, target limit, encodings, embedded profiles, empty messages, errors) are never modified after start-up by the library, directly or through pointers it hands to modifying code.",
 ["histories","schedules"],"all histories of library calls","Modification of a global shows only in later unrelated calls.",
 ["wire/account.go","policy/policy.go","address/address.go","genesis/genesis.go","wire/msg_types.go"],[("read-only use of globals","whole library")])
p("X01","The replay tool stops at the first wrong block",
 "The command line tool counts a block as processed only after it decoded completely, was accepted by the accounts state, and the resulting root hash equals the accounts hash in its header; otherwise it stops with a failure.",
 I,"all block archives","The tool has no test.",
 ["cmd/gimiq/main.go"],[("checks before counting","main loop")])
p("U01","Compact difficulty encodes the leading target bytes",
 "The compact form of a target holds its length in bytes in the top byte and its three leading bytes below it, with a zero byte prepended (and counted) when the leading byte is 128 or more; it is computed for every non-negative target that fits, including zero and targets shorter than three bytes. The target of a positive difficulty is 2^240 divided by it, rounded down, and the compact form of a difficulty is the compact form of its target.",
 I,"all targets","No test converts a target.",
 ["wire/utils.go"],[("byte selection","wire.TargetToCompact")])
# ---- whole library
p("R01","Every operation ends",
 "Decoding, encoding and sizing values, applying blocks, reading and updating the state, computing supplies and rewards, verifying proofs, and parsing or formatting addresses always come to an end, with a result, an error or a panic: every loop makes a number of iterations bounded by the length of its inputs or by a 32-bit number, and every recursion is bounded.",
 I,"all inputs and states","A loop that does not end for some input is not met by the inputs a test tries; a value that makes the loop endless is typically one in billions or a length no test reaches.",
 ["accounts/accounts.go","tree/tree.go","beserial/","wire/","policy/policy.go","wallet/","address/address.go","genesis/genesis.go"],[("loops of codec, block processing, tree update, supply","beserial, wire, accounts.Push, PMTree.update, policy.SupplyAfter")])
# ---- not decidable statically
p("N02","Address checksum detects typing errors",
 "Replacing one digit of an address by another digit, or one letter by another letter, or swapping two neighbours of the same kind, always makes the checksum wrong.",
 I,"all addresses and errors","Sampling.",["address/address.go"],[("mod 97 arithmetic","addressCheck")])
p("N03","The emission curve sums to the total supply",
 "The rewards summed up to each height give the supply published for that height, and approach the total supply.",
 I,"all heights","Long numeric series.",["policy/policy.go"],[("emission formula","SupplyAfter")])
p("N04","Only holders of a key can move its funds",
 "No block is accepted that moves funds without a valid cryptographic signature.",
 I,"all blocks","Needs cryptographic verification, which this library leaves to its callers.",["accounts/accounts.go"],[("none in this package","-")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

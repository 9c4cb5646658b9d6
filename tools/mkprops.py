import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
CL="stacks/src/clarity/impl.rs"; CM="stacks/src/clarity/mod.rs"; MA="stacks/src/clarity/macro.rs"
C32="stacks/src/crypto/c32.rs"; B58="stacks/src/crypto/b58.rs"; HEX="stacks/src/crypto/hex.rs"; HASH="stacks/src/crypto/hash.rs"
TX="stacks/src/transaction/"
p("C01","Clarity values serialize to exactly their consensus bytes",
 "Encoding any Clarity value, at any nesting, yields exactly the SIP-005 consensus bytes of that value: type prefix, then big-endian 16-byte integers, 4-byte length prefixes for buffers, strings, lists and tuples, version plus 20-byte hash for principals, 1-byte length prefixes for names, and the encodings of the components in order. A value that has no consensus encoding (non-ASCII text in an ASCII string, a name or key over 128 bytes, an invalid address, a length over 2^32-1) is refused with an error, never encoded as something else. The reported encoded length equals the number of bytes produced.",
 ["inputs"],"every Clarity value of every type and nesting depth, including the function-argument list and length-prefixed names",
 "Tests encode about twenty fixed values; the value space is infinite and recursive, and the 20-byte and 128-byte limits are barely touched.",
 [CL,CM,MA],[("Codec::encode of each Clarity type",CL),("type identifiers",CM),("generated id()/new()/value()",MA)],["Codec::encode","Codec::len","Codec::hex"])
p("C02","Decoding an encoded Clarity value gives the same value back",
 "For every Clarity value that encodes successfully, decoding its bytes succeeds and yields a value equal to the original (addresses in canonical spelling), both through the type's own decoder and through the generic dispatcher, and also when arbitrary further bytes follow the encoding. Elements of lists, tuples and argument lists come back in order and complete.",
 ["inputs"],"every encodable Clarity value and every trailing byte string",
 "Tests round-trip a few dozen fixed values with nothing after them; element-boundary arithmetic depends on the unbounded combination of sizes and nestings.",
 [CL,CM],[("Codec::decode of each type",CL),("decode_clarity_type dispatch",CM),("offset advance by encoded length in List/Tuple/FnArguments decode",CL)],["decode_clarity_type","Codec::decode"])
p("C03","Decoding accepts only well-formed encodings of the right type",
 "Whenever decoding bytes as a Clarity value succeeds, re-encoding the result reproduces exactly the bytes that were consumed, and they are a prefix of the input. Bytes whose type prefix is not that of the requested type, unknown prefixes, text that is not valid for its string type, names over the limit and unknown address versions are rejected with an error.",
 ["inputs"],"every byte string and every requested Clarity type",
 "Tests decode only bytes their own encoder produced; malformed and mistagged inputs are an infinite set they never sample.",
 [CL,CM],[("tag checks and validity checks in Codec::decode",CL),("decode_clarity_type dispatch",CM)],["decode_clarity_type","Codec::decode"])
p("C04","Decoding untrusted bytes never panics",
 "Decoding any byte string as a Clarity value, a function-argument list, a length-prefixed name or a transaction payload terminates and returns either a value or an error: it never panics, reads out of bounds, overflows, or allocates memory out of proportion to the input because of a declared length.",
 ["inputs"],"every byte string, including empty, truncated at every position and with hostile length fields, for every decoder (nesting depth as far as the thread's stack allows)",
 "Tests decode only complete, well-formed inputs; truncations and lying length fields at every position are out of their reach.",
 [CL,CM,TX+"payload.rs"],[("bounds handling in Codec::decode",CL),("payload decoders",TX+"payload.rs")],["Codec::decode"])
p("C05","c32 encoding is a bijection between bytes and canonical c32 text",
 "c32-decoding the c32 encoding of any byte string, including empty ones and ones with leading zero bytes, returns exactly those bytes; the encoding uses only the 32-character alphabet and is the base-32 numeral of the bytes with one leading '0' per leading zero byte. Decoding accepts exactly the ASCII strings over the alphabet (either case, with O, I and L read as 0, 1 and 1), rejects every other string with an error, and never panics.",
 ["inputs"],"every byte string and every Unicode string",
 "The random round-trip test samples a few thousand byte strings; it can miss carries, leading-zero and bit-boundary cases, and never decodes arbitrary strings.",
 [C32],[("c32_encode bit packing",C32),("c32_decode bit unpacking",C32),("C32_ALPHABET and C32_BYTE_MAP",C32)],["c32_encode","c32_decode"])
p("C06","Stacks addresses round-trip and only genuine addresses are accepted",
 "For every 20-byte hash and each of the four address versions, formatting and then parsing the address gives back that hash and version; check-encoded c32 data of any length and version 0-31 round-trips likewise. Parsing an address succeeds only if it starts with 'S', its characters are valid, its 4-byte double-SHA-256 checksum over version and hash matches, it carries a 20-byte hash and one of the four known versions; otherwise an error is returned and nothing panics.",
 ["inputs"],"every hash, every version byte and every Unicode string offered as an address",
 "Tests use a handful of fixed addresses and random round-trips; they never offer truncated, mis-checksummed, wrong-length or unknown-version strings.",
 [C32],[("c32check_encode / c32check_decode",C32),("c32_address / c32_address_decode / Address::from_str",C32)],["c32_address","c32_address_decode","Address::from_str"])
p("C07","Base58 and Base58Check are faithful, checksummed and total",
 "Base58-decoding the Base58 encoding of any byte string returns exactly those bytes, with each leading zero byte written as one '1'. Base58Check encoding of any payload and version decodes back to both, and Base58Check decoding succeeds only when the trailing four bytes are the double-SHA-256 checksum of the version and payload. Any string with a character outside the alphabet, a bad checksum or too little data is rejected with an error, never a panic.",
 ["inputs"],"every byte string, every version byte and every Unicode string",
 "Tests sample random inputs whose leading bytes are rarely zero and never all zero, and never offer short or non-Latin strings.",
 [B58],[("b58_encode / b58_decode big-number loops",B58),("base58check_encode / base58check_decode",B58),("B58_ALPHABET and B58_BYTE_MAP",B58)],["b58_encode","b58_decode","base58check_encode","base58check_decode"])
p("C08","Hex conversion is exact and strict",
 "Hex-encoding any bytes yields two lower-case digits per byte in order, and hex-decoding that text returns the bytes. Hex-decoding succeeds exactly for even-length strings of hex digits in either case and returns the bytes they denote; every other string, whatever its characters, is rejected with an error and nothing panics.",
 ["inputs"],"every byte string and every Unicode string",
 "Tests round-trip random lower-case text and four bad strings; acceptance of arbitrary strings is unbounded.",
 [HEX],[("HexIterator",HEX),("hex_to_bytes / bytes_to_hex",HEX)],["hex_to_bytes","bytes_to_hex"])
p("C09","Hashes, signature bytes and signer scripts have their exact layout",
 "The hash types hold exactly SHA-256, double SHA-256, SHA-512/256 and RIPEMD-160 of SHA-256 of their input, with checksums being the first four bytes. The single-signature and multi-signature signer hashes are the HASH160 of exactly the prescribed scripts (bare key; 0 and 20 and the key hash; m, the length-prefixed keys in order, n, CHECKMULTISIG; and its witness form), and recoverable signatures convert to recovery-id-first 65-byte form and back without loss.",
 ["inputs"],"every input byte string, every key list and threshold within script limits, every recoverable signature",
 "Tests compare one fixed digest per function; key order, count and threshold positions are sampled once.",
 [HASH,C32],[("hash newtypes",HASH),("hash_p2pkh / hash_p2wpkh / hash_p2sh / hash_p2wsh",C32),("MessageSignature::from_recov / into_recov",HASH)],["hash_p2sh","Sha256Hash::from_slice","MessageSignature"])
p("C10","Transactions serialize to the exact wire format",
 "Encoding any transaction yields exactly the SIP-005 wire bytes: version, chain id, authorization (standard or sponsored, single- or multi-signature conditions with hash mode, signer, nonce, fee and signature fields in order), anchor mode, post-condition mode, post-conditions, payload. Token-transfer memos are zero-padded to 34 bytes and longer ones refused; contract-call payloads carry version, hash, names and arguments in order. A transaction with a component that cannot be encoded yields an error.",
 ["inputs"],"every transaction value: all auth kinds, hash modes, field lists, fees, nonces, modes, post-conditions and payloads",
 "Tests compare about ten complete transactions; field order and width errors in the untested combinations go unnoticed.",
 [TX+"base.rs",TX+"auth.rs",TX+"payload.rs",TX+"network.rs"],[("Codec::encode for Transaction",TX+"base.rs"),("Codec::encode for Auth and spending conditions",TX+"auth.rs"),("Codec::encode for payloads",TX+"payload.rs")],["Transaction::encode"])
p("C11","Post-conditions serialize to the exact wire format",
 "Encoding any post-condition yields exactly its SIP-005 bytes: condition type, principal type and principal, then for tokens the asset's address, contract and asset name, for non-fungible tokens the instance value, then the condition code and, where there is one, the 8-byte amount; a list is preceded by its 4-byte count. The constructors and the post_condition! macro build the conditions they are given, in order. A principal that is neither a standard nor a contract principal is refused with an error.",
 ["inputs"],"every post-condition of every kind, code, amount, principal and asset, in lists of every length",
 "Tests encode a few fixed conditions; most codes, principal kinds and combinations never run.",
 [TX+"condition.rs"],[("Codec::encode for STX/Fungible/NonFungible post-conditions, AssetInfo and PostConditions",TX+"condition.rs"),("post_condition! macro",TX+"condition.rs")],["PostConditions::encode"])
p("C12","Payload decoding inverts payload encoding",
 "For every payload that encodes successfully, decoding the bytes (directly or through the payload dispatcher) succeeds and yields a payload with the same fields, the memo being the zero-padded 34-byte text, and re-encoding it reproduces the same bytes. Bytes with any other payload type are rejected, and whenever decoding succeeds, re-encoding reproduces the consumed prefix.",
 ["inputs"],"every payload and every byte string",
 "Tests round-trip two fixed payloads; offsets depend on the unbounded sizes of principal, names and arguments.",
 [TX+"payload.rs"],[("Codec::decode for payloads",TX+"payload.rs")],["TokenTransferPayload::decode","ContractCallPayload::decode"])
p("C13","Signatures cover the transaction and signed transactions verify",
 "The hash a signer signs is SHA-512/256 over the current hash, the auth type, the fee and the nonce, starting from the hash of the transaction with its fees, nonces, signatures and sponsor cleared; each signature then extends the chain. A transaction signed by the matching keys in order, for single- and multi-signature origins and for sponsors, verifies successfully, and verification of each signature recomputes exactly the hash that was signed.",
 ["inputs","histories"],"every transaction, key set, threshold, fee, nonce and order of signing and key-appending steps",
 "Tests sign a few fixed transactions with fixed keys; the chain over arbitrary sequences of signatures and keys is not sampled.",
 [HASH,TX+"auth.rs",TX+"base.rs",TX+"signer.rs"],[("next_signature / next_verify / presign and postsign hashes",HASH),("Transaction::initial_hash, sign_and_append",TX+"base.rs"),("SpendingCondition::verify and reset",TX+"auth.rs")],["Transaction::sign","TransactionSigner","Auth::verify"])
p("C14","Verification accepts only authorized transactions",
 "Verifying an authorization succeeds only if every condition it contains (the origin of a standard one; origin and sponsor of a sponsored one) carries valid signatures over its hash chain, at least the required number of them for multi-signature, and the recovered and listed keys together hash to the declared signer. Otherwise an error is returned.",
 ["inputs"],"every authorization value and every starting hash",
 "Tests verify only correctly signed sponsored transactions; forged, missing, surplus and reordered signatures are not tried.",
 [TX+"auth.rs"],[("Auth::verify / verify_origin",TX+"auth.rs"),("SpendingCondition::verify for single- and multi-sig",TX+"auth.rs")],["Auth::verify","Auth::verify_origin"])
p("C15","The signing session keeps its rules in every sequence of steps",
 "In any sequence of signing calls, a condition never receives more signatures than it requires, the origin is never signed or extended after the sponsor has signed, a sponsor can only be attached to a sponsored transaction whose origin already verifies, and each successful step adds exactly one signature or key to the addressed condition and changes nothing else. A refused step returns an error and leaves the transaction and session unchanged.",
 ["histories"],"every sequence of sign-origin, sign-sponsor and append-key calls on every transaction",
 "Tests run three fixed sequences; the sequences are unbounded and the refused steps are hardly exercised.",
 [TX+"signer.rs",TX+"base.rs",TX+"auth.rs"],[("TransactionSigner methods",TX+"signer.rs"),("sign_and_append / append_next_origin",TX+"base.rs"),("SpendingCondition::modify / signatures",TX+"auth.rs")],["TransactionSigner"],
 [("origin_signed","sponsor has signed, origin is frozen",TX+"signer.rs"),("hash","current sighash of the chain",TX+"signer.rs")])
p("C16","Builders and setters produce exactly the requested transaction",
 "The token-transfer and contract-call builders produce an unsigned standard transaction whose version and chain id are those of the chosen network (mainnet 0x00 and 1; testnet and mocknet 0x80 and 0x80000000; base URLs https://api.mainnet.hiro.so, https://api.testnet.hiro.so and http://localhost:3999), whose signer is the P2PKH hash of the sender's key, and whose fee, nonce, modes, post-conditions and payload are exactly those supplied, with documented defaults. Changing fee or nonce later changes only that field, and a malformed contract address is reported as an error.",
 ["inputs","configurations"],"every combination of builder inputs and networks",
 "Tests build a few transactions with mostly default options.",
 [TX+"builder.rs",TX+"network.rs",TX+"base.rs",TX+"auth.rs"],[("STXTokenTransfer::transaction / STXContractCall::transaction",TX+"builder.rs"),("network constants",TX+"network.rs"),("set_fee / set_nonce",TX+"base.rs")],["builders","Network"])
p("C17","A wallet returns the same derived account for an index, always",
 "For every history of account requests on a wallet, requesting an index returns the account derived from the wallet's root at exactly that index, whether it is the first request or a later one and whatever other indices were requested before; its address is the c32 address of the P2PKH hash of its public key under the given version. Requesting accounts never changes previously returned ones or the root key.",
 ["histories","inputs"],"every sequence of account indices on every wallet",
 "Tests request a few fixed indices in one order.",
 ["stacks/src/wallet.rs"],[("StacksWallet::get_account cache",  "stacks/src/wallet.rs"),("StacksAccount::derive / get_address","stacks/src/wallet.rs")],["StacksWallet::get_account","StacksAccount::get_address"],
 [("accounts","cache of derived accounts by index","stacks/src/wallet.rs")])
p("C18","Clarity tuples behave as ordered maps",
 "In any sequence of insert, remove and lookup on a Clarity tuple, looking up a key returns the value most recently inserted under it and nothing once it has been removed; inserting an existing key replaces its value instead of duplicating the key. Other keys, their values and their order are unaffected, and keys and values are listed in the same order.",
 ["histories"],"every sequence of insert, remove, get and mutation on tuples with distinct keys",
 "One test inserts and removes one new key.",
 [CL],[("Tuple::get / get_mut / insert / remove / keys / values",CL)],["Tuple"])
p("C19","Derived struct conversion maps each field from its tuple key",
 "A struct deriving conversion from a Clarity tuple with distinct keys receives, in each field, exactly the value stored under that field's own key: an i128 or u128 the integer of that Clarity type (marked response, the integer inside an ok value), a bool the boolean, a String the value's display text, a Vec<u8> the buffer's bytes, a Vec<String> the display texts of the list's elements in order, an Option<i128> or Option<u128> Some of the integer inside a some value of that type and None for any other value, an Option<String> the display text inside a some value and None otherwise (also when the key is absent), and a struct deriving the conversion itself the conversion of the tuple under the key. If the key of a field (other than Option<String>) is missing, the conversion fails with an Extract error naming the key of such a field; if it holds a value the field cannot take, with a Cast or Match error naming the key of such a field. Keys the struct does not mention do not matter, nor does the order of keys.",
 ["programs","inputs"],"every struct definition the macro supports and every tuple with distinct keys",
 "Tests derive a dozen structs and convert one fixed tuple each; wrong types, missing keys and mixed-up keys are unbounded.",
 ["stacks_derive/src/from_tuple.rs","stacks/src/derive.rs"],[("FromTuple derive macro expansion","stacks_derive/src/from_tuple.rs")],["TryFrom<Tuple>"])
p("C20","RPC calls send the right request and return the node's answer",
 "Each RPC call sends exactly one HTTP request, to the documented endpoint below the client's base URL: info (GET /v2/info), address (GET /v2/accounts/ADDR), estimate_fee (POST /v2/fees/transaction with the JSON fields transaction_payload, the payload's encoding in hex, and estimated_len, the length of the transaction's encoding), broadcast (POST /v2/transactions with the transaction's encoding as application/octet-stream) and read_only (POST /v2/contracts/call-read/ADDR/CONTRACT/FUNCTION with the JSON fields sender and arguments, the encodings of the arguments in hex and in order). Arguments in the path are percent-encoded as UTF-8 except for letters, digits and -._~. When an argument or transaction has no encoding, nothing is sent and an error is returned. A success answer is returned as parsed (for broadcast, its text); a refusal by status is returned as the text (estimate_fee) or the parsed refusal (broadcast) and as an error by the other calls; a network fault or an answer that does not parse is an error. No answer is ever fabricated.",
 ["inputs","fault_sequences"],"every argument and every node response or network fault",
 "There are no offline tests of the RPC module; it needs a live node.",
 ["stacks/src/rpc.rs"],[("StacksRPC methods","stacks/src/rpc.rs"),("encode_segment","stacks/src/rpc.rs"),("BroadcastResponse / BroadcastErr Display","stacks/src/rpc.rs")],["StacksRPC"])
p("C21","Values enter and leave Clarity types unchanged and casts are exact",
 "Taking the content out of a Clarity value (by reference, by value, by conversion or by iteration) gives exactly the Rust value it was built from, elements complete and in order, whichever constructor, conversion or clarity! macro form built it; the boolean and none constants hold true, false and nothing. Cloning a value gives an equal value. Casting a boxed value, or the content of an ok, err or some value, to a type succeeds exactly when the value is of that type and then gives that very value; otherwise an error is returned.",
 ["inputs"],"every Clarity value of every type and every target type",
 "Tests cast a handful of fixed values, nearly always to the right type.",
 [MA,CL,CM],[("value / into_value / as_any / into_any / cast / cast_as generated for each type",MA),("From, IntoIterator, Clone and Default impls",CL)],["Cast::cast","Cast::cast_as","value","into_value","into_iter"])
p("C22","Text and equality of Clarity values are faithful",
 "Every Clarity value displays as its Clarity notation: integers in decimal (unsigned with a leading u), buffers as 0x and lower-case hex, true, false and none as words, principals as address or address.name, ok/err/some/list/tuple in parentheses with components in order separated by single spaces, strings in double quotes (u before UTF-8 ones); displaying never fails by itself. Two values of a type are equal exactly when they have the same text and the same consensus encoding (both, or neither, being encodable), so a value equals every copy of it and values that encode to different bytes are never equal.",
 ["inputs"],"every Clarity value and every pair of values of a type",
 "Tests compare a few fixed values with fixed texts; ambiguity of the text of nested values is outside them.",
 [MA,CL],[("PartialEq generated for each type",MA),("Display impls",CL)],["Display","PartialEq","to_string"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

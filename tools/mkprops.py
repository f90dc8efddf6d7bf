#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Initiator and responder derive the same initial session keys",
 "For every pair of identities, signed prekey, base key and optional one-time prekey, the initiator of a session and the responder derive the identical root key and the identical first chain key, and these are the HKDF of the X3DH secret (32 bytes of 0xFF followed by DH(IKa,SPKb), DH(EKa,IKb), DH(EKa,SPKb) and, only when a one-time prekey is used, DH(EKa,OPKb)). The first chains of the two ends also agree, so the first message sent decrypts.",
 ["inputs"], "all key pairs on both sides, with and without a one-time prekey",
 "The tests run one random handshake; agreement must hold for every key pair, and for the no-one-time-prekey variant which the tests never exercise.",
 ["ratchet/ratchet.go", "ratchet/sender.go", "ratchet/receiver.go", "kdf/hkdf.go", "keys/session/derived_secrets.go", "session/session.go"],
 [("key agreement as sender / receiver", "ratchet/ratchet.go: CalculateSenderSession, CalculateReceiverSession"), ("HKDF", "kdf/hkdf.go: DeriveSecrets")],
 observe=["root and chain key returned by both agreement functions"])

prop("C02", "Root, chain and message keys follow the Signal key schedule",
 "For every root key, ratchet key pair and chain key: a ratchet step yields HKDF-SHA256(DH, salt=root key, info=\"WhisperRatchet\", 64 bytes) split into new root key and chain key with counter 0; the next chain key is HMAC-SHA256(chain key, 0x02) with the counter one larger; the message keys are HKDF(HMAC(chain key, 0x01), info=\"WhisperMessageKeys\", 80 bytes) split 32/32/16 into cipher key, MAC key and IV and carry the chain key's counter. Deriving keys never changes the key they are derived from.",
 ["inputs"], "all key material and all counters",
 "No test compares key material with an independent derivation; both ends run the same code, so a wrong split, label or order passes every round-trip test.",
 ["keys/chain/key.go", "keys/root/key.go", "keys/message/key.go", "keys/session/derived_secrets.go", "kdf/hkdf.go"],
 [("chain ratchet", "keys/chain/key.go: NextKey, MessageKeys, BaseMaterial"), ("root ratchet", "keys/root/key.go: CreateChain")])

prop("C03", "Encrypting uses each message key once and persists the advance",
 "Every successful encryption in a pairwise session encrypts under the message key of the current sending chain position, labels the message with that position, the current ratchet key and the previous chain's length, moves the sending chain forward exactly one step and stores the session before the message is returned, so no two messages of a session share a key. A message is wrapped as a prekey message exactly while the session is unacknowledged. A failed encryption stores nothing and leaves the session unchanged.",
 ["inputs", "histories"], "all session states, plaintexts and call sequences",
 "Tests send a few messages and look only at plaintexts; key reuse, a skipped store or a wrong counter would still decrypt.",
 ["session/cipher.go", "state/record/state_session.go", "protocol/signal_message.go", "protocol/prekey_signal_message.go"],
 [("Encrypt", "session/cipher.go: Encrypt"), ("sender chain", "state/record/state_session.go: SenderChainKey, SetSenderChainKey")],
 state=[("senderChain", "current sending chain key and ratchet key pair", "state/record/state_session.go")],
 observe=["returned message's counter, ratchet key, MAC and ciphertext", "record handed to the session store"])

prop("C04", "Plaintext is released only for authenticated messages",
 "Decrypting a pairwise message returns a plaintext only if the message's version equals the session's and its 8-byte MAC equals HMAC-SHA256, under the MAC key of exactly that ratchet chain and counter, over sender identity, receiver identity, and the version and full message content (ratchet key, counter, previous counter and ciphertext); otherwise an error and no plaintext is returned. The MAC put on sent messages is the same function, with the two identities in the matching order.",
 ["inputs"], "all sessions, all (also adversarial) messages",
 "Tests decrypt honest messages only; rejection has to hold for every forged or altered message.",
 ["session/cipher.go", "protocol/signal_message.go"],
 [("MAC check", "protocol/signal_message.go: VerifyMac, getMac"), ("decrypt order", "session/cipher.go: DecryptWithState")],
 observe=["return values of the decrypt calls"])

prop("C05", "A rejected message leaves the session unchanged",
 "When decrypting a pairwise message fails for whatever reason (unknown session, wrong version, bad MAC, replay, too far ahead, undecodable body, failed key generation), the session record is exactly what it was before and nothing is stored, removed or marked as trusted; a later genuine message still decrypts. When the message is accepted by one of several session states, the other states are unchanged.",
 ["inputs", "histories"], "all sessions and messages, including forged ones with a new ratchet key or a far-ahead counter",
 "No test feeds a message that must be rejected; the damage of an early state change shows up only in later messages.",
 ["session/cipher.go", "session/session.go", "state/record/session.go", "state/record/state_session.go"],
 [("decrypt with state / record", "session/cipher.go: DecryptWithState, DecryptWithRecord, DecryptAndGetKey, DecryptMessageReturnKey")],
 state=[("session record", "current and archived states with chains, skipped keys and pending prekey", "state/record/session.go")])

prop("C06", "Messages decrypt at most once, in any order, within the window",
 "In every receiving chain, a counter ahead of the chain (at most 5000 ahead) is decrypted with that counter's key, the keys of all counters jumped over are kept (the newest 2000 per chain, in the newest 5 chains) and the chain ends one past the counter; a counter behind the chain is decrypted only if its key is kept, and that key alone is then deleted. Every other counter is refused, so no accepted message can be accepted again, and skipped messages remain decryptable.",
 ["inputs", "histories"], "all chain positions, counters, skipped-key lists and delivery orders",
 "The out-of-order test delivers one permutation of a short run; bounds, eviction and replay are never reached.",
 ["session/cipher.go", "state/record/state_session.go", "state/record/state_chain.go"],
 [("message key lookup and skipping", "session/cipher.go: getOrCreateMessageKeys, getOrCreateChainKey"), ("skipped keys", "state/record/state_session.go: HasMessageKeys, RemoveMessageKeys, SetMessageKeys, AddReceiverChain")],
 state=[("receiverChains", "receiving chains with skipped message keys", "state/record/state_session.go")])

prop("C07", "Symmetric encryption round-trips and rejects malformed ciphertext",
 "For every key of a valid AES size, every 16-byte IV and every plaintext, decrypting the encryption returns exactly the plaintext, and the ciphertext is AES-CBC of the PKCS#7-padded plaintext. A ciphertext whose length is not a positive multiple of the block size, or whose padding is not valid PKCS#7, gives an error rather than data.",
 ["inputs"], "all keys, IVs, plaintexts of any length, and all byte strings as ciphertext",
 "Tests encrypt a handful of short texts; block-boundary lengths and malformed padding are not sampled.",
 ["cipher/cbc.go", "cipher/cipher.go"],
 [("padding", "cipher/cbc.go: pad, unpad; cipher/cipher.go: pkcs7Pad, pkcs7Unpad"), ("CBC", "cipher/cbc.go: EncryptCbc, DecryptCbc; cipher/cipher.go: Encrypt, Decrypt")])

prop("C08", "Sessions are only established with trusted, correctly signed keys",
 "Building a session from a prekey bundle succeeds only if the identity store trusts the bundle's identity, a signed prekey is present and the bundle's signature over that prekey verifies under that identity; processing an incoming prekey message succeeds only if its sender identity is trusted and the prekeys it names exist. On any failure the existing session is unchanged and no session or identity is stored; on success the session's remote identity is exactly the verified one, which is then saved.",
 ["inputs", "configurations"], "all bundles, messages, stores and prior sessions",
 "Tests only process valid bundles with a trusting store; refusal and the absence of side effects are never observed.",
 ["session/session.go"],
 [("ProcessBundle", "session/session.go"), ("Process / processV3", "session/session.go")],
 observe=["return value, session record, calls on the session and identity stores"])

prop("C09", "A one-time prekey is consumed exactly once and never lost early",
 "After an incoming prekey message is decrypted, the one-time prekey it named is removed from the prekey store, and only after the session has been stored; nothing is removed when the message named no one-time prekey, named the reserved last-resort id, belonged to an already established session, or was rejected. A message that names a one-time prekey that is not available is refused, and a message without one is accepted; repeated prekey messages for an established session decrypt in that session without building a new one.",
 ["inputs", "histories", "crash_points"], "all prekey messages and store contents, order of effects",
 "Tests cover one first message with a one-time prekey; the no-prekey, last-resort and rejected cases and the order of effects are not observed.",
 ["session/session.go", "session/cipher.go", "util/optional/int.go"],
 [("prekey selection", "session/session.go: processV3"), ("removal", "session/cipher.go: DecryptMessageReturnKey")],
 observe=["calls on the prekey and session stores and their order"])

prop("C10", "Archiving and promoting session states loses and duplicates nothing",
 "Replacing the current session state puts the old one in front of the archived states and keeps the order and identity of the others, dropping only the oldest beyond 40; decrypting with an archived state makes exactly that state current, archives the previously current one and removes the promoted state from the archive, leaving the others in order. A session that has already been used is archived, not overwritten, when a new session is built.",
 ["inputs", "histories"], "all record contents with up to 40 archived states and every position of the matching state",
 "No test has more than one archived state, and none inspects the archive.",
 ["state/record/session.go", "session/cipher.go", "session/session.go"],
 [("PromoteState / ArchiveCurrentState", "state/record/session.go"), ("search and promotion", "session/cipher.go: DecryptWithRecord")],
 state=[("previousStates", "archived states, newest first, at most 40", "state/record/session.go")])

prop("C11", "Stored sessions, prekeys and sender keys restore to the same state",
 "Serialising a session record, session state, prekey record, signed prekey record or group sender-key record and restoring it from those bytes yields a record with the same observable content: every identity, ratchet and base key, private keys (present exactly when they were present), root and chain keys with counters, every skipped message key, pending prekey, ids, versions, signatures and the order of archived states.",
 ["inputs"], "all record contents: any number of chains, skipped keys, archived states, present and absent optional parts",
 "The serialisation test round-trips one freshly made record and compares bytes; missing or swapped fields of other shapes go unnoticed.",
 ["state/record/session.go", "state/record/state_session.go", "state/record/state_chain.go", "state/record/prekey.go", "state/record/signed_prekey.go", "state/record/state_pending_prekey.go", "groups/state/record/sender_key.go", "groups/state/record/state_sender_key.go", "groups/ratchet/sender_message_key.go", "serialize/json.go"],
 [("structure conversion", "state/record/*.go, groups/state/record/*.go: structure, New...FromStruct(ure)"), ("JSON", "serialize/json.go")])

prop("C12", "Wire messages round-trip exactly and bad versions are refused",
 "For each kind of wire message (signal, prekey, group sender-key and its distribution message), parsing the serialised form of a message the library can send yields a message with the same content, including whether a one-time prekey id is present. Messages whose version is legacy or from the future, or that miss a required field, are refused with an error.",
 ["inputs"], "all field values, both serialisation formats",
 "Tests serialise a few messages; absent optional ids, extreme values and refused versions are not covered.",
 ["protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go", "serialize/proto.go", "serialize/json.go"],
 [("parsing and checks", "protocol/*.go: New...FromStruct, New...FromBytes"), ("protobuf layout", "serialize/proto.go")])

prop("C13", "Malformed input from the network never crashes the receiver",
 "Parsing any byte string as any wire message, and decrypting or processing any message that parses, either succeeds or returns an error; it never panics. This includes empty and truncated input, keys that are too short or of unknown type, messages naming unknown keys or groups, and ciphertexts of any length.",
 ["inputs"], "all byte strings, all parsed messages, all valid sessions and stores",
 "Tests contain no malformed input.",
 ["serialize/proto.go", "serialize/json.go", "protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go", "ecc/curve.go", "cipher/cbc.go", "session/cipher.go", "session/session.go", "groups/cipher.go"],
 [("bounds and nil checks", "all parsing and decrypting functions")])

prop("C14", "Group plaintext is released only for correctly signed messages",
 "Decrypting a group message returns a plaintext only if the sender-key state named by the message exists and the message's 64-byte signature over its version, key id, iteration and ciphertext verifies under that state's signing key; an unsigned, altered or unknown-key message gives an error and leaves the stored sender key state unchanged. Messages produced by group encryption carry a valid signature over exactly those fields.",
 ["inputs"], "all group states and messages",
 "The group test only decrypts honest messages.",
 ["groups/cipher.go", "protocol/sender_key_message.go"],
 [("signature check", "groups/cipher.go: Decrypt, verifySignature"), ("signing", "protocol/sender_key_message.go: NewSenderKeyMessage")])

prop("C15", "Group chain keys: each iteration is usable once, in any order, in a window",
 "Group encryption uses the key of the current iteration, labels the message with it, advances the chain exactly one step and stores it before returning; group decryption of an iteration at or ahead of the chain (at most 2000 ahead) uses exactly that iteration's key, keeps the keys jumped over (the newest 2000) and moves the chain one past it, while an earlier iteration is accepted only if its key is kept, which is then deleted. Keys follow the sender-key schedule (HMAC 0x01 / 0x02, HKDF \"WhisperGroup\" split into 16-byte IV and 32-byte cipher key); a rejected message changes no stored state.",
 ["inputs", "histories"], "all iterations, kept-key lists and delivery orders",
 "The group test sends a short in-order sequence.",
 ["groups/cipher.go", "groups/ratchet/sender_chain_key.go", "groups/ratchet/sender_message_key.go", "groups/state/record/state_sender_key.go"],
 [("getSenderKey", "groups/cipher.go"), ("kept keys", "groups/state/record/state_sender_key.go")],
 state=[("sender key state", "chain key, iteration, kept message keys", "groups/state/record/state_sender_key.go")])

prop("C16", "Group distribution hands members exactly the sender's chain",
 "A distribution message carries the sender's current key id, iteration, chain key and public signing key, creating a group session twice reuses the existing sender key, and processing it gives the member a state with exactly those values and no private key; from then on the member decrypts every message the sender produces from that iteration on. Processing further distribution messages keeps the states already known, up to the stored maximum.",
 ["inputs", "histories"], "all sender states and member records",
 "The group test distributes once at iteration zero.",
 ["groups/session_builder.go", "protocol/sender_key_distribution_message.go", "groups/state/record/sender_key.go"],
 [("Create / Process", "groups/session_builder.go"), ("AddSenderKeyState", "groups/state/record/sender_key.go")])

prop("C17", "Displayed safety numbers are the same on both sides",
 "For any two fingerprints of at least 30 bytes, the displayed text consists of exactly 60 decimal digits, is the same whichever of the two is local and whichever is remote, and each half encodes its fingerprint as six groups of five digits, each the big-endian value of five consecutive bytes modulo 100000, so that fingerprints differing in any group display differently.",
 ["inputs"], "all pairs of fingerprints",
 "The fingerprint test prints one pair.",
 ["fingerprint/display.go", "util/bytehelper/byte.go"],
 [("DisplayText, encodedChunk", "fingerprint/display.go"), ("Bytes5ToInt64", "util/bytehelper/byte.go")])

prop("C18", "Public keys encode and decode exactly; generated keys are well formed",
 "Decoding the encoding of a public key, at any offset, gives the same 32 bytes; decoding fails with an error for a wrong type byte or fewer than 33 bytes. Every generated or imported private key is clamped for Curve25519 and is returned with its own public key; a failure of the random source is reported as an error, not as a key.",
 ["inputs", "fault_sequences"], "all byte strings, offsets and random-source outcomes",
 "Tests generate random keys but never check clamping, short input or a failing random source.",
 ["ecc/curve.go", "ecc/djb_ec_public.go", "ecc/djb_ec_private.go", "util/bytehelper/byte.go"],
 [("DecodePoint, GenerateKeyPair, CreateKeyPair", "ecc/curve.go")])

prop("C19", "Signatures verify for the signer's key and message and nothing else",
 "For every clamped private key, message and random value, the produced signature verifies under the matching public key and that message; verification equals Ed25519 verification under the Edwards form of the public key with the sign bit carried in the signature's last byte. The nonce is the SHA-512 of the prefix FE FF.. (32 bytes), the private key, the message and 64 fresh random bytes, reduced modulo the group order. Verification never depends on anything but key, message and signature, and does not change its inputs.",
 ["inputs"], "all keys, messages, random values and signature bytes",
 "Tests verify a few random signatures and no invalid one.",
 ["ecc/sign_curve25519.go", "ecc/curve.go", "ecc/edwards25519/edwards25519.go"],
 [("sign / verify", "ecc/sign_curve25519.go"), ("CalculateSignature / VerifySignature", "ecc/curve.go")])

prop("C20", "The library never modifies or retains write access to caller buffers",
 "Encrypting, decrypting, signing, verifying, padding, parsing and serialising leave every byte slice passed in unchanged, including the bytes between its length and capacity, and decrypting leaves the message object unchanged, so the same message object or plaintext buffer can be used again.",
 ["inputs"], "all calls, all buffers including those with spare capacity",
 "Tests pass literals and never look at their buffers afterwards.",
 ["cipher/cbc.go", "cipher/cipher.go", "protocol/signal_message.go", "session/cipher.go", "groups/cipher.go", "ecc/sign_curve25519.go", "util/bytehelper/byte.go"],
 [("copying before in-place work", "cipher/cbc.go, session/cipher.go: decrypt")])

prop("C21", "Provisioning messages are authenticated before they are decrypted",
 "Decrypting a provisioning envelope returns a text only if the envelope is well formed, has version 1 and its 32-byte HMAC over version, IV and ciphertext verifies under the key derived from the shared secret; the text is then the AES-CBC decryption under the derived key. Every other input, including truncated or malformed ones, gives an error and never a panic.",
 ["inputs"], "all private keys and envelope strings",
 "No test exercises provisioning.",
 ["provision/cipher.go"],
 [("Decrypt, verifyMAC", "provision/cipher.go")])

prop("C22", "In a symmetric handshake exactly one side acts as sender",
 "When two users who are both online derive a session symmetrically with different base keys, exactly one of them takes the sender role, and both derive the same root and chain key, for every pair of base keys.",
 ["inputs"], "all pairs of distinct base keys",
 "No test covers the symmetric handshake; equal-prefix keys are too rare to sample.",
 ["ratchet/ratchet.go", "ratchet/symmetric.go"],
 [("role choice", "ratchet/ratchet.go: isSender, CalculateSymmetricSession")])

prop("C23", "Generated prekeys have the promised ids and valid signatures",
 "Generating prekeys from one id up to another returns one fresh prekey for each id of the range, in order and each with its own key pair; a generated signed prekey carries the requested id and a signature over its encoded public key that verifies under the given identity; the last-resort prekey has the reserved last-resort id, so it is never consumed.",
 ["inputs"], "all ranges, ids and identities",
 "The prekey test generates one range and checks nothing but the absence of errors.",
 ["util/keyhelper/key.go", "state/record/prekey.go", "state/record/signed_prekey.go"],
 [("GeneratePreKeys, GenerateSignedPreKey, GenerateLastResortKey", "util/keyhelper/key.go")])

prop("C24", "Secrets cannot be computed without the keys (forward secrecy)",
 "An attacker who records all messages and later obtains a device's current state cannot compute keys of messages already decrypted or sent, and cannot compute future keys once a new ratchet exchange has taken place.",
 ["histories"], "all attackers and histories",
 "A statement about computational hardness cannot be tested.",
 ["session/cipher.go", "keys/root/key.go", "keys/chain/key.go"],
 [("ratchet", "session/cipher.go: getOrCreateChainKey")])

prop("C25", "Asynchronous variants report exactly one outcome",
 "Each asynchronous key generation, signing or verification call eventually invokes exactly one of its success and failure callbacks, exactly once, with the result of the synchronous operation.",
 ["schedules"], "all goroutine schedules and callbacks",
 "Tests wait for one callback under one schedule.",
 ["ecc/curve.go", "util/keyhelper/key.go"],
 [("goroutine with callbacks", "ecc/curve.go: VerifySignatureAsync, CalculateSignatureAsync; util/keyhelper/key.go: GenerateIdentityKeyPairAsync")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

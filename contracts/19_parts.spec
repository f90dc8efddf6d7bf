# Accessors and constructors: each returns, sets or stores exactly the field it is named for.
# (inline: callers see the bodies; the contracts are proved on their own)

func chain.NewStructFromKey(key) (r)
  labels C02
  inline
  fresh r
  modifies nothing
  ensures r.Key == key.key
  ensures r.Index == key.index

func chain.(*Key).Current(c) (r)
  labels C02
  inline
  modifies nothing
  ensures r == c

func chain.(*Key).Key(c) (r)
  labels C02
  inline
  modifies nothing
  ensures r == c.key

func chain.(*Key).SetKey(c, key) ()
  labels C02
  inline
  modifies c.key
  ensures c.key == key

func chain.(*Key).Index(c) (r)
  labels C02
  inline
  modifies nothing
  ensures r == c.index

func chain.(*Key).SetIndex(c, index) ()
  labels C02
  inline
  modifies c.index
  ensures c.index == index

func message.NewStructFromKeys(keys) (r)
  labels C02
  inline
  fresh r
  modifies nothing
  ensures r.CipherKey == keys.cipherKey
  ensures r.MacKey == keys.macKey
  ensures r.IV == keys.iv
  ensures r.Index == keys.index

func message.(*Keys).CipherKey(k) (r)
  labels C02
  inline
  modifies nothing
  ensures r == k.cipherKey

func message.(*Keys).MacKey(k) (r)
  labels C02
  inline
  modifies nothing
  ensures r == k.macKey

func message.(*Keys).Iv(k) (r)
  labels C02
  inline
  modifies nothing
  ensures r == k.iv

func message.(*Keys).Index(k) (r)
  labels C02
  inline
  modifies nothing
  ensures r == k.index

func ksession.(*DerivedSecrets).RootKey(d) (r)
  labels C02
  inline
  modifies nothing
  ensures r == d.rootKey

func ksession.(*DerivedSecrets).ChainKey(d) (r)
  labels C02
  inline
  modifies nothing
  ensures r == d.chainKey

func identity.(*KeyPair).PublicKey(k) (r)
  labels C18
  inline
  modifies nothing
  ensures r == k.publicKey

func identity.(*KeyPair).PrivateKey(k) (r)
  labels C18
  inline
  modifies nothing
  ensures r == k.privateKey

func prekey.(*Bundle).DeviceID(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.deviceID

func prekey.(*Bundle).PreKeyID(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.preKeyID

func prekey.(*Bundle).PreKey(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.preKeyPublic

func prekey.(*Bundle).SignedPreKeyID(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.signedPreKeyID

func prekey.(*Bundle).SignedPreKey(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.signedPreKeyPublic

func prekey.(*Bundle).SignedPreKeySignature(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.signedPreKeySignature

func prekey.(*Bundle).IdentityKey(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.identityKey

func prekey.(*Bundle).RegistrationID(b) (r)
  labels C08
  inline
  modifies nothing
  ensures r == b.registrationID

func root.(*Key).Bytes(k) (r)
  labels C02
  inline
  modifies nothing
  ensures r == k.key

func record.(*Session).SetState(r, sessionState) ()
  labels C11
  inline
  modifies r.sessionState
  ensures r.sessionState == sessionState

func record.(*Session).SessionState(r) (res)
  labels C11
  inline
  modifies nothing
  ensures res == r.sessionState

func record.(*Session).PreviousSessionStates(r) (res)
  labels C11
  inline
  modifies nothing
  ensures res == r.previousStates

func record.(*SignedPreKey).ID(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.structure.ID

func record.(*SignedPreKey).Timestamp(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.structure.Timestamp

func record.(*SignedPreKey).KeyPair(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.keyPair

func record.(*SignedPreKey).Signature(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.signature

func record.NewReceiverChainPair(receiverChain, index) (r)
  labels C11
  inline
  fresh r
  modifies nothing
  ensures r.ReceiverChain == receiverChain
  ensures r.Index == index

func record.NewChain(senderRatchetKeyPair, chainKey, messageKeys) (r)
  labels C11
  inline
  fresh r
  modifies nothing
  ensures r.senderRatchetKeyPair == senderRatchetKeyPair
  ensures r.chainKey == chainKey
  ensures r.messageKeys == messageKeys

func record.(*Chain).SenderRatchetKey(c) (r)
  labels C11
  inline
  modifies nothing
  ensures r == c.senderRatchetKeyPair

func record.(*Chain).SetSenderRatchetKey(c, key) ()
  labels C11
  inline
  modifies c.senderRatchetKeyPair
  ensures c.senderRatchetKeyPair == key

func record.(*Chain).ChainKey(c) (r)
  labels C11
  inline
  modifies nothing
  ensures r == c.chainKey

func record.(*Chain).SetChainKey(c, key) ()
  labels C11
  inline
  modifies c.chainKey
  ensures c.chainKey == key

func record.(*Chain).MessageKeys(c) (r)
  labels C11
  inline
  modifies nothing
  ensures r == c.messageKeys

func record.(*Chain).SetMessageKeys(c, keys) ()
  labels C11
  inline
  modifies c.messageKeys
  ensures c.messageKeys == keys

func record.NewPendingPreKey(preKeyID, signedPreKeyID, baseKey) (r)
  labels C11
  inline
  fresh r
  modifies nothing
  ensures r.preKeyID == preKeyID
  ensures r.signedPreKeyID == signedPreKeyID
  ensures r.baseKey == baseKey

func record.(*PreKey).KeyPair(p) (r)
  labels C11
  inline
  modifies nothing
  ensures r == p.keyPair

func record.NewPendingKeyExchange(sequence, localBaseKeyPair, localRatchetKeyPair, localIdentityKeyPair) (r)
  labels C11
  inline
  fresh r
  modifies nothing
  ensures r.sequence == sequence
  ensures r.localBaseKeyPair == localBaseKeyPair
  ensures r.localRatchetKeyPair == localRatchetKeyPair
  ensures r.localIdentityKeyPair == localIdentityKeyPair

func record.NewState(serializer) (r)
  labels C11
  inline
  fresh r
  modifies nothing
  ensures r.serializer == serializer

func record.(*State).Version(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.sessionVersion

func record.(*State).SetVersion(s, version) ()
  labels C11
  inline
  modifies s.sessionVersion
  ensures s.sessionVersion == version

func record.(*State).RemoteIdentityKey(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.remoteIdentityPublic

func record.(*State).SetRemoteIdentityKey(s, identityKey) ()
  labels C11
  inline
  modifies s.remoteIdentityPublic
  ensures s.remoteIdentityPublic == identityKey

func record.(*State).LocalIdentityKey(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.localIdentityPublic

func record.(*State).SetLocalIdentityKey(s, identityKey) ()
  labels C11
  inline
  modifies s.localIdentityPublic
  ensures s.localIdentityPublic == identityKey

func record.(*State).PreviousCounter(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.previousCounter

func record.(*State).SetPreviousCounter(s, previousCounter) ()
  labels C11
  inline
  modifies s.previousCounter
  ensures s.previousCounter == previousCounter

func record.(*State).RootKey(s) (r)
  labels C11
  requires s.rootKey != nil
  inline
  modifies nothing
  ensures r == s.rootKey

func record.(*State).SenderRatchetKeyPair(s) (r)
  labels C11
  requires s.senderChain != nil
  inline
  modifies nothing
  ensures r == s.senderChain.senderRatchetKeyPair

func record.(*State).PendingKeyExchangeSequence(s) (r)
  labels C11
  requires s.pendingKeyExchange != nil
  inline
  modifies nothing
  ensures r == s.pendingKeyExchange.sequence

func record.(*State).PendingKeyExchangeBaseKeyPair(s) (r)
  labels C11
  requires s.pendingKeyExchange != nil
  inline
  modifies nothing
  ensures r == s.pendingKeyExchange.localBaseKeyPair

func record.(*State).PendingKeyExchangeRatchetKeyPair(s) (r)
  labels C11
  requires s.pendingKeyExchange != nil
  inline
  modifies nothing
  ensures r == s.pendingKeyExchange.localRatchetKeyPair

func record.(*State).PendingKeyExchangeIdentityKeyPair(s) (r)
  labels C11
  requires s.pendingKeyExchange != nil
  inline
  modifies nothing
  ensures r == s.pendingKeyExchange.localIdentityKeyPair

func record.(*State).SetRemoteRegistrationID(s, registrationID) ()
  labels C11
  inline
  modifies s.remoteRegistrationID
  ensures s.remoteRegistrationID == registrationID

func record.(*State).RemoteRegistrationID(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.remoteRegistrationID

func record.(*State).SetLocalRegistrationID(s, registrationID) ()
  labels C11
  inline
  modifies s.localRegistrationID
  ensures s.localRegistrationID == registrationID

func record.(*State).LocalRegistrationID(s) (r)
  labels C11
  inline
  modifies nothing
  ensures r == s.localRegistrationID

func record.NewUnackPreKeyMessageItems(preKeyID, signedPreKeyID, baseKey) (r)
  labels C11
  inline
  fresh r
  modifies nothing
  ensures r.preKeyID == preKeyID
  ensures r.signedPreKeyID == signedPreKeyID
  ensures r.baseKey == baseKey

func record.(*UnackPreKeyMessageItems).PreKeyID(u) (r)
  labels C11
  inline
  modifies nothing
  ensures r == u.preKeyID

func record.(*UnackPreKeyMessageItems).SignedPreKeyID(u) (r)
  labels C11
  inline
  modifies nothing
  ensures r == u.signedPreKeyID

func record.(*UnackPreKeyMessageItems).BaseKey(u) (r)
  labels C11
  inline
  modifies nothing
  ensures r == u.baseKey

func record.(*UnackPreKeyMessageItems).structure(u) (r)
  labels C11
  requires u.baseKey != nil
  inline
  fresh r
  modifies nothing
  ensures r.PreKeyID == u.preKeyID
  ensures r.SignedPreKeyID == u.signedPreKeyID

func grecord.(*SenderKeyState).SigningKey(k) (r)
  labels C14 C15
  inline
  modifies nothing
  ensures r == k.signingKeyPair

func grecord.(*SenderKeyState).SenderChainKey(k) (r)
  labels C14 C15
  inline
  modifies nothing
  ensures r == k.senderChainKey

func grecord.(*SenderKeyState).KeyID(k) (r)
  labels C14 C15
  inline
  modifies nothing
  ensures r == k.keyID

func grecord.(*SenderKeyState).SetSenderChainKey(k, senderChainKey) ()
  labels C14 C15
  inline
  modifies k.senderChainKey
  ensures k.senderChainKey == senderChainKey

func gratchet.NewSenderMessageKeyFromStruct(structure) (r)
  labels C15
  inline
  fresh r
  modifies nothing
  ensures r.iteration == structure.Iteration
  ensures r.iv == structure.IV
  ensures r.cipherKey == structure.CipherKey
  ensures r.seed == structure.Seed

func gratchet.NewStructFromSenderMessageKey(key) (r)
  labels C15
  inline
  fresh r
  modifies nothing
  ensures r.CipherKey == key.cipherKey
  ensures r.Iteration == key.iteration
  ensures r.IV == key.iv
  ensures r.Seed == key.seed

func gratchet.(*SenderMessageKey).Iteration(k) (r)
  labels C15
  inline
  modifies nothing
  ensures r == k.iteration

func gratchet.(*SenderMessageKey).Iv(k) (r)
  labels C15
  inline
  modifies nothing
  ensures r == k.iv

func gratchet.(*SenderMessageKey).CipherKey(k) (r)
  labels C15
  inline
  modifies nothing
  ensures r == k.cipherKey

func gratchet.(*SenderMessageKey).Seed(k) (r)
  labels C15
  inline
  modifies nothing
  ensures r == k.seed

func gratchet.NewSenderChainKey(iteration, chainKey) (r)
  labels C15
  inline
  fresh r
  modifies nothing
  ensures r.iteration == iteration
  ensures r.chainKey == chainKey

func gratchet.NewSenderChainKeyFromStruct(structure) (r)
  labels C15
  inline
  fresh r
  modifies nothing
  ensures r.iteration == structure.Iteration
  ensures r.chainKey == structure.ChainKey

func gratchet.NewStructFromSenderChainKey(key) (r)
  labels C15
  inline
  fresh r
  modifies nothing
  ensures r.Iteration == key.iteration
  ensures r.ChainKey == key.chainKey

func gratchet.(*SenderChainKey).Iteration(k) (r)
  labels C15
  inline
  modifies nothing
  ensures r == k.iteration

func gratchet.(*SenderChainKey).Seed(k) (r)
  labels C15
  inline
  modifies nothing
  ensures r == k.chainKey

func groups.NewGroupCipher(builder, senderKeyID, senderKeyStore) (r)
  labels C14 C15
  inline
  fresh r
  modifies nothing
  ensures r.senderKeyID == senderKeyID
  ensures r.senderKeyStore == senderKeyStore
  ensures r.sessionBuilder == builder

func groups.NewGroupSessionBuilder(senderKeyStore, serializer) (r)
  labels C14 C15
  inline
  fresh r
  modifies nothing
  ensures r.senderKeyStore == senderKeyStore
  ensures r.serializer == serializer

func protocol.(*PreKeySignalMessage).MessageVersion(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.structure.Version

func protocol.(*PreKeySignalMessage).IdentityKey(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.identityKey

func protocol.(*PreKeySignalMessage).RegistrationID(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.structure.RegistrationID

func protocol.(*PreKeySignalMessage).PreKeyID(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.structure.PreKeyID

func protocol.(*PreKeySignalMessage).SignedPreKeyID(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.structure.SignedPreKeyID

func protocol.(*PreKeySignalMessage).BaseKey(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.baseKey

func protocol.(*PreKeySignalMessage).WhisperMessage(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.message

func protocol.(*PreKeySignalMessage).Type(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == PREKEY_TYPE

func protocol.(*SenderKeyDistributionMessage).ID(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.id

func protocol.(*SenderKeyDistributionMessage).Iteration(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.iteration

func protocol.(*SenderKeyDistributionMessage).ChainKey(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.chainKey

func protocol.(*SenderKeyDistributionMessage).SignatureKey(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.signatureKey

func protocol.(*SenderKeyDistributionMessage).Type(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == SENDERKEY_DISTRIBUTION_TYPE

func protocol.(*SenderKeyMessage).KeyID(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.keyID

func protocol.(*SenderKeyMessage).Iteration(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.iteration

func protocol.(*SenderKeyMessage).Ciphertext(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.ciphertext

func protocol.(*SenderKeyMessage).Version(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == p.version

func protocol.(*SenderKeyMessage).Type(p) (r)
  labels C12
  inline
  modifies nothing
  ensures r == SENDERKEY_TYPE

func protocol.NewSenderKeyName(groupID, sender) (r)
  labels C12
  inline
  fresh r
  modifies nothing
  ensures r.groupID == groupID
  ensures r.sender == sender

func protocol.(*SenderKeyName).GroupID(n) (r)
  labels C12
  inline
  modifies nothing
  ensures r == n.groupID

func protocol.(*SenderKeyName).Sender(n) (r)
  labels C12
  inline
  modifies nothing
  ensures r == n.sender

func protocol.(*SignalMessage).SenderRatchetKey(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == s.senderRatchetKey

func protocol.(*SignalMessage).MessageVersion(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == s.structure.Version

func protocol.(*SignalMessage).Counter(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == s.structure.Counter

func protocol.(*SignalMessage).Body(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == s.structure.CipherText

func protocol.(*SignalMessage).Type(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == WHISPER_TYPE

func protocol.(*SignalAddress).Name(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == s.name

func protocol.(*SignalAddress).DeviceID(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == s.deviceID

func session.NewCipher(builder, remoteAddress) (r)
  labels C03 C08
  requires builder != nil && builder.serializer != nil && remoteAddress != nil
  requires builder.serializer.PreKeySignalMessage != nil && builder.serializer.SignalMessage != nil
  inline
  fresh r
  modifies nothing
  ensures r.sessionStore == builder.sessionStore
  ensures r.preKeyMessageSerializer == builder.serializer.PreKeySignalMessage
  ensures r.signalMessageSerializer == builder.serializer.SignalMessage
  ensures r.preKeyStore == builder.preKeyStore
  ensures r.remoteAddress == remoteAddress
  ensures r.builder == builder
  ensures r.identityKeyStore == builder.identityKeyStore

func session.NewCipherFromSession(remoteAddress, sessionStore, preKeyStore, identityKeyStore, preKeyMessageSerializer, signalMessageSerializer) (r)
  labels C03 C08
  inline
  fresh r
  modifies nothing
  ensures r.sessionStore == sessionStore
  ensures r.preKeyMessageSerializer == preKeyMessageSerializer
  ensures r.signalMessageSerializer == signalMessageSerializer
  ensures r.preKeyStore == preKeyStore
  ensures r.remoteAddress == remoteAddress
  ensures r.identityKeyStore == identityKeyStore
  ensures r.builder == nil

func ratchet.(*SenderParameters).OurIdentityKey(s) (r)
  labels C01 C22
  inline
  modifies nothing
  ensures r == s.ourIdentityKeyPair

func ratchet.(*SenderParameters).OurBaseKey(s) (r)
  labels C01 C22
  inline
  modifies nothing
  ensures r == s.ourBaseKey

func ratchet.(*SenderParameters).TheirIdentityKey(s) (r)
  labels C01 C22
  inline
  modifies nothing
  ensures r == s.theirIdentityKey

func ratchet.(*SenderParameters).TheirSignedPreKey(s) (r)
  labels C01 C22
  inline
  modifies nothing
  ensures r == s.theirSignedPreKey

func ratchet.(*SenderParameters).TheirOneTimePreKey(s) (r)
  labels C01 C22
  inline
  modifies nothing
  ensures r == s.theirOneTimePreKey

func ratchet.(*SenderParameters).TheirRatchetKey(s) (r)
  labels C01 C22
  inline
  modifies nothing
  ensures r == s.theirRatchetKey

func ratchet.(*SenderParameters).SetOurIdentityKey(s, ourIdentityKey) ()
  labels C01 C22
  inline
  modifies s.ourIdentityKeyPair
  ensures s.ourIdentityKeyPair == ourIdentityKey

func ratchet.(*SenderParameters).SetOurBaseKey(s, ourBaseKey) ()
  labels C01 C22
  inline
  modifies s.ourBaseKey
  ensures s.ourBaseKey == ourBaseKey

func ratchet.(*SenderParameters).SetTheirIdentityKey(s, theirIdentityKey) ()
  labels C01 C22
  inline
  modifies s.theirIdentityKey
  ensures s.theirIdentityKey == theirIdentityKey

func ratchet.(*SenderParameters).SetTheirSignedPreKey(s, theirSignedPreKey) ()
  labels C01 C22
  inline
  modifies s.theirSignedPreKey
  ensures s.theirSignedPreKey == theirSignedPreKey

func ratchet.(*SenderParameters).SetTheirOneTimePreKey(s, theirOneTimePreKey) ()
  labels C01 C22
  inline
  modifies s.theirOneTimePreKey
  ensures s.theirOneTimePreKey == theirOneTimePreKey

func ratchet.(*SenderParameters).SetTheirRatchetKey(s, theirRatchetKey) ()
  labels C01 C22
  inline
  modifies s.theirRatchetKey
  ensures s.theirRatchetKey == theirRatchetKey

func ratchet.(*ReceiverParameters).OurIdentityKeyPair(r) (res)
  labels C01 C22
  inline
  modifies nothing
  ensures res == r.ourIdentityKeyPair

func ratchet.(*ReceiverParameters).OurSignedPreKey(r) (res)
  labels C01 C22
  inline
  modifies nothing
  ensures res == r.ourSignedPreKey

func ratchet.(*ReceiverParameters).OurOneTimePreKey(r) (res)
  labels C01 C22
  inline
  modifies nothing
  ensures res == r.ourOneTimePreKey

func ratchet.(*ReceiverParameters).OurRatchetKey(r) (res)
  labels C01 C22
  inline
  modifies nothing
  ensures res == r.ourRatchetKey

func ratchet.(*ReceiverParameters).TheirBaseKey(r) (res)
  labels C01 C22
  inline
  modifies nothing
  ensures res == r.theirBaseKey

func ratchet.(*ReceiverParameters).TheirIdentityKey(r) (res)
  labels C01 C22
  inline
  modifies nothing
  ensures res == r.theirIdentityKey

func ratchet.(*ReceiverParameters).SetOurIdentityKeyPair(r, ourIdentityKey) ()
  labels C01 C22
  inline
  modifies r.ourIdentityKeyPair
  ensures r.ourIdentityKeyPair == ourIdentityKey

func ratchet.(*ReceiverParameters).SetOurSignedPreKey(r, ourSignedPreKey) ()
  labels C01 C22
  inline
  modifies r.ourSignedPreKey
  ensures r.ourSignedPreKey == ourSignedPreKey

func ratchet.(*ReceiverParameters).SetOurOneTimePreKey(r, ourOneTimePreKey) ()
  labels C01 C22
  inline
  modifies r.ourOneTimePreKey
  ensures r.ourOneTimePreKey == ourOneTimePreKey

func ratchet.(*ReceiverParameters).SetOurRatchetKey(r, ourRatchetKey) ()
  labels C01 C22
  inline
  modifies r.ourRatchetKey
  ensures r.ourRatchetKey == ourRatchetKey

func ratchet.(*ReceiverParameters).SetTheirBaseKey(r, theirBaseKey) ()
  labels C01 C22
  inline
  modifies r.theirBaseKey
  ensures r.theirBaseKey == theirBaseKey

func ratchet.(*ReceiverParameters).SetTheirIdentityKey(r, theirIdentityKey) ()
  labels C01 C22
  inline
  modifies r.theirIdentityKey
  ensures r.theirIdentityKey == theirIdentityKey

func fingerprint.(*Fingerprint).Display(f) (r)
  labels C17
  inline
  modifies nothing
  ensures r == f.fingerprintDisplay

func fingerprint.(*Fingerprint).Scan(f) (r)
  labels C17
  inline
  modifies nothing
  ensures r == f.fingerprintScan

func ecc.(*ECKeyPair).PublicKey(e) (r)
  labels C18
  inline
  modifies nothing
  ensures r == e.publicKey

func ecc.(*ECKeyPair).PrivateKey(e) (r)
  labels C18
  inline
  modifies nothing
  ensures r == e.privateKey

func ecc.(*DjbECPrivateKey).PrivateKey(d) (r)
  labels C18
  inline
  modifies nothing
  ensures r == d.privateKey

func ecc.(*DjbECPrivateKey).Type(d) (r)
  labels C18
  inline
  modifies nothing
  ensures r == DjbType

func ecc.(*DjbECPublicKey).Type(d) (r)
  labels C18
  inline
  modifies nothing
  ensures r == DjbType

func optional.NewOptionalUint32(value) (r)
  labels C12
  inline
  fresh r
  modifies nothing
  ensures r.Value == value
  ensures r.IsEmpty == false

func optional.NewEmptyUint32() (r)
  labels C12
  inline
  fresh r
  modifies nothing
  ensures r.IsEmpty == true

func session.NewBuilder(sessionStore, preKeyStore, signedStore, identityStore, remoteAddress, serializer) (r)
  labels C08
  inline
  fresh r
  modifies nothing
  ensures r.sessionStore == sessionStore && r.preKeyStore == preKeyStore
  ensures r.signedPreKeyStore == signedStore && r.identityKeyStore == identityStore
  ensures r.remoteAddress == remoteAddress && r.serializer == serializer

func session.NewBuilderFromSignal(signalStore, remoteAddress, serializer) (r)
  labels C08
  inline
  fresh r
  modifies nothing
  ensures r.sessionStore == signalStore && r.preKeyStore == signalStore
  ensures r.signedPreKeyStore == signalStore && r.identityKeyStore == signalStore
  ensures r.remoteAddress == remoteAddress && r.serializer == serializer

func prekey.NewBundle(registrationID, deviceID, preKeyID, signedPreKeyID, preKeyPublic, signedPreKeyPublic, signedPreKeySig, identityKey) (r)
  labels C08
  inline
  fresh r
  modifies nothing
  ensures r.registrationID == registrationID && r.deviceID == deviceID && r.preKeyID == preKeyID
  ensures r.signedPreKeyID == signedPreKeyID && r.preKeyPublic == preKeyPublic && r.signedPreKeyPublic == signedPreKeyPublic
  ensures r.signedPreKeySignature == signedPreKeySig && r.identityKey == identityKey

func ratchet.NewSenderParameters(ourIdentityKey, ourBaseKey, theirIdentityKey, theirSignedPreKey, theirRatchetKey, theirOneTimePreKey) (r)
  labels C01 C22
  inline
  fresh r
  modifies nothing
  ensures r.ourIdentityKeyPair == ourIdentityKey && r.ourBaseKey == ourBaseKey && r.theirIdentityKey == theirIdentityKey
  ensures r.theirSignedPreKey == theirSignedPreKey && r.theirOneTimePreKey == theirOneTimePreKey && r.theirRatchetKey == theirRatchetKey

func ratchet.NewReceiverParameters(ourIdentityKey, ourSignedPreKey, ourOneTimePreKey, ourRatchetKey, theirBaseKey, theirIdentityKey) (r)
  labels C01 C22
  inline
  fresh r
  modifies nothing
  ensures r.ourIdentityKeyPair == ourIdentityKey && r.ourSignedPreKey == ourSignedPreKey && r.ourOneTimePreKey == ourOneTimePreKey
  ensures r.ourRatchetKey == ourRatchetKey && r.theirBaseKey == theirBaseKey && r.theirIdentityKey == theirIdentityKey

func message.NewKeys(cipherKey, macKey, iv, index) (r)
  labels C02
  inline
  fresh r
  modifies nothing
  ensures r.cipherKey == cipherKey && r.macKey == macKey && r.iv == iv && r.index == index

func message.NewKeysFromStruct(st) (r)
  labels C11
  inline
  fresh r
  modifies nothing
  ensures r.cipherKey == st.CipherKey && r.macKey == st.MacKey && r.iv == st.IV && r.index == st.Index

func chain.NewKeyFromStruct(st, k) (r)
  labels C11
  inline
  requires k == kdf.DeriveSecrets
  fresh r
  modifies nothing
  ensures r.key == st.Key && r.index == st.Index

func ksession.NewKeyPair(rk, ck) (r)
  labels C02
  inline
  fresh r
  modifies nothing
  ensures r.RootKey == rk && r.ChainKey == ck

func protocol.NewSignalAddress(name, deviceID) (r)
  labels C03
  inline
  fresh r
  modifies nothing
  ensures r.name == name && r.deviceID == deviceID

func record.NewSessionFromState(st, se) (r)
  labels C10
  inline
  fresh r
  modifies nothing
  ensures r.sessionState == st && len(r.previousStates) == 0 && !r.fresh && r.serializer == se

func record.(*State).HasPendingKeyExchange(s) (r)
  labels C11
  inline
  modifies nothing
  ensures iff(r, s.pendingKeyExchange != nil)

func record.(*State).HasSenderChain(s) (r)
  labels C03
  inline
  modifies nothing
  ensures iff(r, s.senderChain != nil)

func record.(*State).HasUnacknowledgedPreKeyMessage(s) (r)
  labels C03
  inline
  modifies nothing
  ensures iff(r, s.pendingPreKey != nil)

func record.(*State).SenderRatchetKey(s) (r)
  labels C03
  inline
  requires s.senderChain != nil && s.senderChain.senderRatchetKeyPair != nil
  modifies nothing
  ensures r == s.senderChain.senderRatchetKeyPair.publicKey

func record.(*State).SetPendingKeyExchange(s, sequence, base, rat, id) ()
  labels C11
  inline
  modifies s.pendingKeyExchange
  ensures s.pendingKeyExchange.sequence == sequence && s.pendingKeyExchange.localBaseKeyPair == base
  ensures s.pendingKeyExchange.localRatchetKeyPair == rat && s.pendingKeyExchange.localIdentityKeyPair == id

func record.(*State).SetSenderBaseKey(s, q) ()
  labels C09
  inline
  modifies s.senderBaseKey
  case POINTOK(b(q))
    ensures s.senderBaseKey.publicKey == b(q)[1:33]
  case !POINTOK(b(q))
    ensures s.senderBaseKey == nil

func record.(*PreKey).ID(p) (r)
  labels C09
  inline
  fresh r
  modifies nothing
  ensures r.Value == p.structure.ID && !r.IsEmpty

func grecord.(*SenderKey).IsEmpty(k) (r)
  labels C14
  inline
  modifies nothing
  ensures iff(r, len(k.senderKeyStates) == 0)

func keyhelper.GenerateSenderSigningKey() (r, err)
  labels C18
  inline
  case ok(err)
    fresh r
  case !ok(err)
    ensures r == nil

func record.NewPreKeyFromBytes(q, se) (r, err)
  labels C11
  inline
  modifies nothing
  case desok(se, b(q)) && POINTOK(des(se, b(q), PublicKey)) && len(des(se, b(q), PrivateKey)) >= 32
    ensures ok(err)
    fresh r
    ensures r.structure.ID == des(se, b(q), ID) && r.serializer == se
    ensures r.keyPair.publicKey.publicKey == des(se, b(q), PublicKey)[1:33]
    ensures r.keyPair.privateKey.privateKey == des(se, b(q), PrivateKey)[:32]
  case !(desok(se, b(q)) && POINTOK(des(se, b(q), PublicKey)))
    ensures !ok(err) && r == nil

func record.NewSignedPreKeyFromBytes(q, se) (r, err)
  labels C11
  inline
  modifies nothing
  case desok(se, b(q)) && POINTOK(des(se, b(q), PublicKey)) && len(des(se, b(q), PrivateKey)) >= 32 && len(des(se, b(q), Signature)) == 64
    ensures ok(err)
    fresh r
    ensures r.structure.ID == des(se, b(q), ID) && r.structure.Timestamp == des(se, b(q), Timestamp) && r.serializer == se
    ensures r.signature == des(se, b(q), Signature)
    ensures r.keyPair.publicKey.publicKey == des(se, b(q), PublicKey)[1:33]
    ensures r.keyPair.privateKey.privateKey == des(se, b(q), PrivateKey)[:32]
  case !(desok(se, b(q)) && POINTOK(des(se, b(q), PublicKey)))
    ensures !ok(err) && r == nil

# Logging: never fails, touches nothing but the logger itself.
func logger.toString(a) (r)
  inline
  labels C13
  modifies nothing

func logger.getCaller() (r)
  inline
  labels C13
  modifies nothing

func logger.(*defaultLogger).shouldLog(d, caller) (r)
  inline
  labels C13
  modifies d.namespaces

func logger.(*defaultLogger).ensureNamespaces(d) ()
  inline
  labels C13
  modifies d.namespaces
  ensures d.namespaces != nil

func logger.(*defaultLogger).log(d, level, caller, msg) ()
  labels C13
  modifies d.namespaces

func logger.(*defaultLogger).Debug(d, caller, msg) ()
  labels C13
  modifies d.namespaces

func logger.(*defaultLogger).Info(d, caller, msg) ()
  labels C13
  modifies d.namespaces

func logger.(*defaultLogger).Warning(d, caller, msg) ()
  labels C13
  modifies d.namespaces

func logger.(*defaultLogger).Error(d, caller, msg) ()
  labels C13
  modifies d.namespaces

func logger.(*defaultLogger).Configure(d, settings) ()
  labels C13
  modifies d.namespaces

# The name a store files things under: different addresses, different names.
func protocol.(*SignalAddress).String(s) (r)
  labels C12
  inline
  modifies nothing
  ensures r == cat(s.name, ":", ITOA(s.deviceID))

func protocol.(*SignalMessage).Structure(s) (r)
  labels C12
  inline
  modifies nothing
  fresh r
  ensures r.Version == s.structure.Version && r.Counter == s.structure.Counter && r.PreviousCounter == s.structure.PreviousCounter
  ensures b(r.RatchetKey) == b(s.structure.RatchetKey) && b(r.CipherText) == b(s.structure.CipherText) && b(r.Mac) == b(s.structure.Mac)

func identity.(*Key).Fingerprint(k) (r)
  labels C17
  inline
  requires hastype(k.publicKey, "*ecc.DjbECPublicKey")
  modifies nothing
  ensures r == HEX(cat("\x05", typed(k.publicKey, "*ecc.DjbECPublicKey").publicKey))

func keyhelper.GenerateSenderKeyID() (r)
  labels C23
  inline
  modifies nothing
  ensures nev("rand.Read") == 1
  let q = evarg("rand.Read", 0, 0)
  ensures imp(ok(evres("rand.Read", 0, 1)), r == nth(q, 0) + 256 * nth(q, 1) + 65536 * nth(q, 2) + 16777216 * nth(q, 3) || r == be(q, 4))

func bytehelper.Split(in, x, y) (r)
  inline
  labels C12
  requires 0 <= x && x <= len(in) && 0 <= y && y <= 1000000
  modifies nothing
  fresh r
  ensures len(r) == 2 && b(r[0]) == b(in)[:x] && imp(x + y <= len(in), b(r[1]) == b(in)[x:x+y])

func record.NewUnackPreKeyMessageItemsFromStruct(st) (r)
  labels C11
  modifies nothing
  fresh r
  ensures r.preKeyID == st.PreKeyID && r.signedPreKeyID == st.SignedPreKeyID && imp(POINTOK(b(st.BaseKey)), r.baseKey.publicKey == b(st.BaseKey)[1:33])

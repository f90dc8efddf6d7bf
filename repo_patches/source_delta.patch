From 078833f99ea0e5b30e1a8b84ef8d9dff38869b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 01/25] fix: DecodePoint reports short or empty input as an
 error

---
 ecc/curve.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..cbfcb06 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -18,10 +18,16 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	if offset < 0 || offset >= len(bytes) {
+		return nil, errors.New("No key type identifier")
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
 	case DjbType:
+		if len(bytes)-offset-1 < 32 {
+			return nil, errors.New("Bad key length")
+		}
 		keyBytes := [32]byte{}
 		copy(keyBytes[:], bytes[offset+1:])
 		return NewDjbECPublicKey(keyBytes), nil
-- 
2.43.0


From f18b75adae6897d6053c67489963ffb2e5eac347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 02/25] fix: CBC decryption returns an error for bad lengths
 and bad padding

---
 cipher/cbc.go    | 16 ++++++++++++++++
 cipher/cipher.go |  8 +++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..bf828d7 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,6 +42,13 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("iv length is not the block size: %d / %d", len(iv), aes.BlockSize)
+	}
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(ciphertext, ciphertext)
 
@@ -97,5 +104,14 @@ func unpad(src []byte) ([]byte, error) {
 		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
 	}
 
+	if padLen == 0 || padLen > aes.BlockSize {
+		return nil, fmt.Errorf("invalid padding length: %d", padLen)
+	}
+	for _, b := range src[length-padLen:] {
+		if int(b) != padLen {
+			return nil, fmt.Errorf("invalid padding: %d / %d", b, padLen)
+		}
+	}
+
 	return src[:(length - padLen)], nil
 }
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..8510e65 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,6 +18,12 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(ciphertext)%aes.BlockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("iv length is not the block size")
+	}
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(ciphertext, ciphertext)
 
@@ -93,7 +99,7 @@ func pkcs7Unpad(b []byte, blocksize int) ([]byte, error) {
 	}
 	c := b[len(b)-1]
 	n := int(c)
-	if n == 0 || n > len(b) {
+	if n == 0 || n > len(b) || n > blocksize {
 		return nil, ErrInvalidPKCS7Padding
 	}
 	for i := 0; i < n; i++ {
-- 
2.43.0


From df0400e6b348b07f612907f3ea29521f52f64094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 03/25] fix: CBC encryption returns an error for an iv of the
 wrong length

---
 cipher/cbc.go    | 4 ++++
 cipher/cipher.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index bf828d7..47ccd11 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -70,6 +70,10 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if iv != nil && len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("iv length is not the block size: %d / %d", len(iv), aes.BlockSize)
+	}
+
 	var ciphertext []byte
 	if iv == nil {
 		ciphertext = make([]byte, aes.BlockSize+len(plaintext))
diff --git a/cipher/cipher.go b/cipher/cipher.go
index 8510e65..c2f8eee 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -42,6 +42,9 @@ func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("iv length is not the block size")
+	}
 	paddedText, err := pkcs7Pad(plaintext, block.BlockSize())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b2ec8a31510c77e09027f1f21fd688dfcdb0b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 04/25] fix: symmetric encryption and decryption leave the
 input buffers unchanged

---
 cipher/cbc.go    | 9 ++++++---
 cipher/cipher.go | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 47ccd11..90f954e 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -50,9 +50,10 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 	}
 
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	plaintext := make([]byte, len(ciphertext))
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
@@ -97,7 +98,9 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	padded := make([]byte, 0, len(ciphertext)+padding)
+	padded = append(padded, ciphertext...)
+	return append(padded, padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
diff --git a/cipher/cipher.go b/cipher/cipher.go
index c2f8eee..0548d43 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -25,9 +25,10 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 		return nil, errors.New("iv length is not the block size")
 	}
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	plaintext := make([]byte, len(ciphertext))
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(plaintext, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b2899b381a293c8ebb786809269481cc825a4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 05/25] fix: Encrypt accepts the empty plaintext

---
 cipher/cipher.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cipher/cipher.go b/cipher/cipher.go
index 0548d43..c4872a2 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -78,9 +78,6 @@ func pkcs7Pad(b []byte, blocksize int) ([]byte, error) {
 	if blocksize <= 0 {
 		return nil, ErrInvalidBlockSize
 	}
-	if b == nil || len(b) == 0 {
-		return nil, ErrInvalidPKCS7Data
-	}
 	n := blocksize - (len(b) % blocksize)
 	pb := make([]byte, len(b)+n)
 	copy(pb, b)
-- 
2.43.0


From 94bccf3899c17efa147efc929186a8db295034f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 06/25] fix: previous counter of an unused sending chain is
 zero

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index e510317..7063f1b 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -339,7 +339,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From ca59bd6d0f55c2fa0c8096c3cd08f3f02719e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 07/25] fix: a prekey message naming an unknown signed prekey
 is refused

---
 session/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/session.go b/session/session.go
index 418b8a9..61eb308 100644
--- a/session/session.go
+++ b/session/session.go
@@ -20,6 +20,7 @@ import (
 const untrustedIdentityError string = "Untrusted identity"
 const noSignedPreKeyError string = "No signed prekey!"
 const invalidSignatureError string = "Invalid signature on device key!"
+const nilSignedPreKeyError string = "Prekey store returned a nil signed prekey! Was the key already rotated?"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
 
 // NewBuilder constructs a session builder.
@@ -120,6 +121,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		logger.Error(nilSignedPreKeyError)
+		return nil, errors.New(nilSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From 109dc4bf6056894bc4212273d89ef23c858c41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 08/25] fix: prekey messages without a one-time prekey or with
 the last resort prekey are processed

---
 session/session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/session/session.go b/session/session.go
index 61eb308..7977fa9 100644
--- a/session/session.go
+++ b/session/session.go
@@ -137,7 +137,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -171,10 +171,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
 
 	// Remove the PreKey from our store and return the message prekey id if it is valid.
-	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty && message.PreKeyID().Value != medium.MaxValue {
 		return message.PreKeyID(), nil
 	}
-	return nil, nil
+	return optional.NewEmptyUint32(), nil
 }
 
 // ProcessBundle builds a new session from a PreKeyBundle retrieved
-- 
2.43.0


From bb40c592b80707c414f82732beb239210eb7766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 09/25] fix: ProtoBuf prekey messages keep an absent one-time
 prekey id absent

---
 serialize/proto.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..ccd711b 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -113,7 +113,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -138,6 +138,11 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		return nil, err
 	}
 
+	preKeyID := optional.NewEmptyUint32()
+	if sm.PreKeyId != nil {
+		preKeyID = optional.NewOptionalUint32(sm.GetPreKeyId())
+	}
+
 	preKeySignalMessage := protocol.PreKeySignalMessageStructure{
 		Version:        version,
 		RegistrationID: sm.GetRegistrationId(),
@@ -145,7 +150,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		IdentityKey:    sm.GetIdentityKey(),
 		SignedPreKeyID: sm.GetSignedPreKeyId(),
 		Message:        sm.GetMessage(),
-		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
+		PreKeyID:       preKeyID,
 	}
 
 	return &preKeySignalMessage, nil
-- 
2.43.0


From b8f6500ffa7bdf5e905afb040f6c373c54af6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 10/25] fix: empty ProtoBuf messages are refused instead of
 causing a panic

---
 serialize/proto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serialize/proto.go b/serialize/proto.go
index ccd711b..c836be8 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,7 @@
 package serialize
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -129,6 +130,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty prekey signal message")
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -183,6 +187,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty senderkey distribution message")
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
-- 
2.43.0


From b91dd78aec43604faf4f3ec00d3dd270747af6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 11/25] fix: the sender of a symmetric session is chosen by
 comparing the whole base keys

---
 ratchet/ratchet.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..56ffe69 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -190,8 +190,5 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 // be calculated as the sender or receiver. It does so by converting the given
 // keys into integers and comparing the size of those integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From 4db94948a7b70baad68e6304af563688abb60b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 12/25] fix: restored prekey records have the public key that
 was stored

---
 state/record/prekey.go        | 5 ++++-
 state/record/signed_prekey.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..d8f8aa8 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,10 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..71a8875 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,10 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From 489172e7cdd23bb04e5a20dcc1dd679f16370563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 13/25] fix: the last resort prekey has the reserved last
 resort id

---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..e7c696b 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From 656293815cf963dbf8c678e8c71bbeece8ad18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 14/25] fix: malformed provisioning envelopes are refused
 instead of causing a panic

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..dd247b5 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("ProvisioningMessage too short: %d", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From 497ff86ed0c5a49f369c96dc22b49e7280673369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 15/25] fix: a session record is not fresh once a session has
 been established

---
 state/record/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..5c64566 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -111,7 +111,7 @@ func (r *Session) SetState(sessionState *State) {
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-	return r.fresh
+	return r.fresh && !r.sessionState.HasSenderChain()
 }
 
 // SessionState returns the session state object of the current
-- 
2.43.0


From 4ebd486c3c7e1af984bd317c959e5b406412bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 16/25] fix: a failed session setup leaves the session record
 unchanged

---
 session/session.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/session/session.go b/session/session.go
index 7977fa9..e54b1bf 100644
--- a/session/session.go
+++ b/session/session.go
@@ -148,17 +148,18 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 		parameters.SetOurOneTimePreKey(nil)
 	}
 
-	// If this is a fresh record, archive our current state.
+	derivedKeys, sessionErr := ratchet.CalculateReceiverSession(parameters)
+	if sessionErr != nil {
+		return nil, sessionErr
+	}
+
+	// If this is not a fresh record, archive our current state.
 	if !sessionRecord.IsFresh() {
 		sessionRecord.ArchiveCurrentState()
 	}
 
 	///////// Initialize our session /////////
 	sessionState := sessionRecord.SessionState()
-	derivedKeys, sessionErr := ratchet.CalculateReceiverSession(parameters)
-	if sessionErr != nil {
-		return nil, sessionErr
-	}
 	sessionState.SetVersion(protocol.CurrentVersion)
 	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
 	sessionState.SetLocalIdentityKey(parameters.OurIdentityKeyPair().PublicKey())
@@ -217,13 +218,6 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 	parameters.SetTheirRatchetKey(theirSignedPreKey)
 	parameters.SetTheirOneTimePreKey(theirOneTimePreKey)
 
-	// If this is a fresh record, archive our current state.
-	if !sessionRecord.IsFresh() {
-		sessionRecord.ArchiveCurrentState()
-	}
-
-	///////// Initialize our session /////////
-	sessionState := sessionRecord.SessionState()
 	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
 	if sessionErr != nil {
 		return sessionErr
@@ -242,6 +236,14 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 		return chainErr
 	}
 
+	// If this is not a fresh record, archive our current state.
+	if !sessionRecord.IsFresh() {
+		sessionRecord.ArchiveCurrentState()
+	}
+
+	///////// Initialize our session /////////
+	sessionState := sessionRecord.SessionState()
+
 	// Calculate the sender session.
 	sessionState.SetVersion(protocol.CurrentVersion)
 	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
-- 
2.43.0


From 950f168e1dbe05b22e7b73970aa5f7d1373c5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 17/25] fix: a promoted session state is removed from the
 archived states

---
 session/cipher.go       | 2 +-
 state/record/session.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index 7063f1b..be7fe37 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -217,7 +217,7 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 			}
 
 			// If successful, remove and promote the state.
-			previousStates = append(previousStates[:i], previousStates[i+1:]...)
+			sessionRecord.RemovePreviousState(i)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index 5c64566..de0032a 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -164,6 +164,14 @@ func (r *Session) PromoteState(promotedState *State) {
 	}
 }
 
+// RemovePreviousState removes the state at the given index from the list of
+// previous states.
+func (r *Session) RemovePreviousState(index int) {
+	states := make([]*State, 0, len(r.previousStates)-1)
+	states = append(states, r.previousStates[:index]...)
+	r.previousStates = append(states, r.previousStates[index+1:]...)
+}
+
 // Serialize will return the session as serialized bytes so it can be
 // persistently stored.
 func (r *Session) Serialize() []byte {
-- 
2.43.0


From 088ab5909c4c4c9361d2ce67a23a6e379cbec22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 18/25] fix: a rejected message leaves the session state
 unchanged

---
 session/cipher.go             |  5 +++++
 state/record/state_chain.go   |  9 +++++++++
 state/record/state_session.go | 20 ++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index be7fe37..2970fa5 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -247,6 +247,10 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 		return nil, nil, errors.New(err)
 	}
 
+	// Work on a copy of the state, so that the state is unchanged if the message is rejected.
+	originalState := sessionState
+	sessionState = originalState.Copy()
+
 	messageVersion := ciphertextMessage.MessageVersion()
 	theirEphemeral := ciphertextMessage.SenderRatchetKey()
 	counter := ciphertextMessage.Counter()
@@ -274,6 +278,7 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 	}
 
 	sessionState.ClearUnackPreKeyMessage()
+	originalState.Update(sessionState)
 
 	return plaintext, messageKeys, nil
 }
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..a3f7dfb 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -82,6 +82,15 @@ type Chain struct {
 	messageKeys          []*message.Keys
 }
 
+// Copy returns a copy of the chain that can be changed without changing
+// this chain.
+func (c *Chain) Copy() *Chain {
+	messageKeys := make([]*message.Keys, len(c.messageKeys))
+	copy(messageKeys, c.messageKeys)
+
+	return NewChain(c.senderRatchetKeyPair, c.chainKey, messageKeys)
+}
+
 // SenderRatchetKey returns the sender's EC keypair.
 func (c *Chain) SenderRatchetKey() *ecc.ECKeyPair {
 	return c.senderRatchetKeyPair
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..c27e5f0 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -134,6 +134,26 @@ type State struct {
 	sessionVersion       int
 }
 
+// Copy returns a copy of the state that can be changed without changing
+// this state.
+func (s *State) Copy() *State {
+	stateCopy := *s
+	if s.senderChain != nil {
+		stateCopy.senderChain = s.senderChain.Copy()
+	}
+	stateCopy.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		stateCopy.receiverChains[i] = s.receiverChains[i].Copy()
+	}
+
+	return &stateCopy
+}
+
+// Update replaces the content of this state with the content of the given state.
+func (s *State) Update(state *State) {
+	*s = *state
+}
+
 // SenderBaseKey returns the sender's base key in bytes.
 func (s *State) SenderBaseKey() []byte {
 	if s.senderBaseKey == nil {
-- 
2.43.0


From 9f52858f940d83010fc35767af3c29c40f427f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 19/25] fix: a rejected prekey message leaves session record
 and identity store unchanged

---
 session/cipher.go       |  8 ++++++--
 session/session.go      | 24 +++++++++++++++---------
 state/record/session.go | 11 +++++++++++
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index 2970fa5..9649912 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -166,8 +166,9 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
 	// Load or create session record for this session.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
-	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
+	// Work on a copy of it, so that it is unchanged if the message is rejected.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
+	unsignedPreKeyID, err := d.builder.process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -175,6 +176,9 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if err != nil {
 		return nil, nil, err
 	}
+	// Save the identity that the message was authenticated with.
+	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
+
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	if !unsignedPreKeyID.IsEmpty {
diff --git a/session/session.go b/session/session.go
index e54b1bf..85a51eb 100644
--- a/session/session.go
+++ b/session/session.go
@@ -83,25 +83,31 @@ type Builder struct {
 // key signal message.
 func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
-	// Check to see if the keys are trusted.
-	theirIdentityKey := message.IdentityKey()
-	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
-		return nil, errors.New(untrustedIdentityError)
-	}
-
-	// Use version 3 of the signal/axolotl protocol.
-	unsignedPreKeyID, err = b.processV3(sessionRecord, message)
+	unsignedPreKeyID, err = b.process(sessionRecord, message)
 	if err != nil {
 		return nil, err
 	}
 
 	// Save the identity key to our identity store.
-	b.identityKeyStore.SaveIdentity(b.remoteAddress, theirIdentityKey)
+	b.identityKeyStore.SaveIdentity(b.remoteAddress, message.IdentityKey())
 
 	// Return the unsignedPreKeyID
 	return unsignedPreKeyID, nil
 }
 
+// process builds a new session from a session record and pre key signal
+// message without saving the identity of the sender.
+func (b *Builder) process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
+	// Check to see if the keys are trusted.
+	theirIdentityKey := message.IdentityKey()
+	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
+		return nil, errors.New(untrustedIdentityError)
+	}
+
+	// Use version 3 of the signal/axolotl protocol.
+	return b.processV3(sessionRecord, message)
+}
+
 // ProcessV3 builds a new session from a session record and pre key
 // signal message. After a session is constructed in this way, the embedded
 // SignalMessage can be decrypted.
diff --git a/state/record/session.go b/state/record/session.go
index de0032a..4f9465a 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -102,6 +102,17 @@ type Session struct {
 	fresh          bool
 }
 
+// Copy returns a copy of the record whose current state and list of previous
+// states can be changed without changing this record.
+func (r *Session) Copy() *Session {
+	recordCopy := *r
+	recordCopy.sessionState = r.sessionState.Copy()
+	recordCopy.previousStates = make([]*State, len(r.previousStates))
+	copy(recordCopy.previousStates, r.previousStates)
+
+	return &recordCopy
+}
+
 // SetState sets the session record's current state to the given
 // one.
 func (r *Session) SetState(sessionState *State) {
-- 
2.43.0


From 79111691f500ed8efe66a909ac849b9bc4f41411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 20/25] fix: group messages for an unknown sender key are
 refused instead of causing a panic

---
 groups/cipher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..f7495e7 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -37,6 +37,9 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
@@ -73,7 +76,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
-- 
2.43.0


From 77d49edd223c105042cd16faa84f96b32f249ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 21/25] fix: a restored group member state has no private
 signing key

---
 groups/cipher.go                        | 5 +++++
 groups/state/record/state_sender_key.go | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index f7495e7..9826e33 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -45,6 +45,11 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 		return nil, err
 	}
 
+	// Only the owner of the sender key can sign messages.
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("No signing key for: " + c.senderKeyID.GroupID())
+	}
+
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
 	if err != nil {
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..8f7d8ed 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -67,7 +67,10 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) == 32 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From 5f338d877483e887100753d59d7d01e6914e3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 22/25] fix: a restored sender key record keeps the state
 serializer

---
 groups/state/record/sender_key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..3507815 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -45,6 +45,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
-- 
2.43.0


From b531f4fbd18fcaa524f4cda45e751056fc8ff10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 23/25] fix: a rejected group message leaves the sender key
 state unchanged

---
 groups/cipher.go                        |  5 +++++
 groups/state/record/state_sender_key.go | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/groups/cipher.go b/groups/cipher.go
index 9826e33..4ee2b2d 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -97,6 +97,10 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, errors.New("Sender Key State failed verification with given pub key!")
 	}
 
+	// Work on a copy of the state, so that the state is unchanged if the message is rejected.
+	originalState := senderKeyState
+	senderKeyState = originalState.Copy()
+
 	senderKey, err := c.getSenderKey(senderKeyState, senderKeyMessage.Iteration())
 	if err != nil {
 		return nil, err
@@ -109,6 +113,7 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 	}
 
 	// Store the sender key by id.
+	originalState.Update(senderKeyState)
 	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
 
 	return plaintext, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 8f7d8ed..24f5be9 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -108,6 +108,21 @@ type SenderKeyState struct {
 	serializer     SenderKeyStateSerializer
 }
 
+// Copy returns a copy of the state that can be changed without changing
+// this state.
+func (k *SenderKeyState) Copy() *SenderKeyState {
+	stateCopy := *k
+	stateCopy.keys = make([]*ratchet.SenderMessageKey, len(k.keys))
+	copy(stateCopy.keys, k.keys)
+
+	return &stateCopy
+}
+
+// Update replaces the content of this state with the content of the given state.
+func (k *SenderKeyState) Update(state *SenderKeyState) {
+	*k = *state
+}
+
 // SigningKey returns the signing key pair of the sender key state.
 func (k *SenderKeyState) SigningKey() *ecc.ECKeyPair {
 	return k.signingKeyPair
-- 
2.43.0


From 6b8fe7853f77d4da2063fc7b413fdc6419e3d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 24/25] fix: session states that are not established can be
 serialised and restored

---
 state/record/state_session.go | 67 +++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/state/record/state_session.go b/state/record/state_session.go
index c27e5f0..89e25bd 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -48,19 +48,38 @@ func NewStateFromStructure(structure *StateStructure, serializer StateSerializer
 	errors := errorhelper.NewMultiError()
 
 	// Convert our ecc keys from bytes into object form.
-	localIdentityPublic, err := ecc.DecodePoint(structure.LocalIdentityPublic, 0)
-	errors.Add(err)
-	remoteIdentityPublic, err := ecc.DecodePoint(structure.RemoteIdentityPublic, 0)
-	errors.Add(err)
-	senderBaseKey, err := ecc.DecodePoint(structure.SenderBaseKey, 0)
-	errors.Add(err)
+	// A state that has not been established yet has no keys.
+	var localIdentityPublic, remoteIdentityPublic *identity.Key
+	var senderBaseKey ecc.ECPublicKeyable
+	var rootKey *root.Key
+	var senderChain *Chain
+	var err error
+	if structure.LocalIdentityPublic != nil {
+		publicKey, err := ecc.DecodePoint(structure.LocalIdentityPublic, 0)
+		errors.Add(err)
+		localIdentityPublic = identity.NewKey(publicKey)
+	}
+	if structure.RemoteIdentityPublic != nil {
+		publicKey, err := ecc.DecodePoint(structure.RemoteIdentityPublic, 0)
+		errors.Add(err)
+		remoteIdentityPublic = identity.NewKey(publicKey)
+	}
+	if structure.SenderBaseKey != nil {
+		senderBaseKey, err = ecc.DecodePoint(structure.SenderBaseKey, 0)
+		errors.Add(err)
+	}
+	if structure.RootKey != nil {
+		rootKey = root.NewKey(kdf.DeriveSecrets, structure.RootKey)
+	}
 	var pendingPreKey *PendingPreKey
 	if structure.PendingPreKey != nil {
 		pendingPreKey, err = NewPendingPreKeyFromStruct(structure.PendingPreKey)
 		errors.Add(err)
 	}
-	senderChain, err := NewChainFromStructure(structure.SenderChain)
-	errors.Add(err)
+	if structure.SenderChain != nil {
+		senderChain, err = NewChainFromStructure(structure.SenderChain)
+		errors.Add(err)
+	}
 
 	// Build our receiver chains from structure.
 	receiverChains := make([]*Chain, len(structure.ReceiverChains))
@@ -76,16 +95,16 @@ func NewStateFromStructure(structure *StateStructure, serializer StateSerializer
 
 	// Build our state object.
 	state := &State{
-		localIdentityPublic:  identity.NewKey(localIdentityPublic),
+		localIdentityPublic:  localIdentityPublic,
 		localRegistrationID:  structure.LocalRegistrationID,
 		needsRefresh:         structure.NeedsRefresh,
 		pendingKeyExchange:   NewPendingKeyExchangeFromStruct(structure.PendingKeyExchange),
 		pendingPreKey:        pendingPreKey,
 		previousCounter:      structure.PreviousCounter,
 		receiverChains:       receiverChains,
-		remoteIdentityPublic: identity.NewKey(remoteIdentityPublic),
+		remoteIdentityPublic: remoteIdentityPublic,
 		remoteRegistrationID: structure.RemoteRegistrationID,
-		rootKey:              root.NewKey(kdf.DeriveSecrets, structure.RootKey),
+		rootKey:              rootKey,
 		senderBaseKey:        senderBaseKey,
 		senderChain:          senderChain,
 		serializer:           serializer,
@@ -532,20 +551,32 @@ func (s *State) structure() *StateStructure {
 		pendingKeyExchange = s.pendingKeyExchange.structure()
 	}
 
-	// Build and return our state structure.
-	return &StateStructure{
-		LocalIdentityPublic:  s.localIdentityPublic.Serialize(),
+	// Build our state structure.
+	structure := &StateStructure{
 		LocalRegistrationID:  s.localRegistrationID,
 		NeedsRefresh:         s.needsRefresh,
 		PendingKeyExchange:   pendingKeyExchange,
 		PendingPreKey:        s.pendingPreKey.structure(),
 		PreviousCounter:      s.previousCounter,
 		ReceiverChains:       receiverChains,
-		RemoteIdentityPublic: s.remoteIdentityPublic.Serialize(),
 		RemoteRegistrationID: s.remoteRegistrationID,
-		RootKey:              s.rootKey.Bytes(),
-		SenderBaseKey:        s.senderBaseKey.Serialize(),
-		SenderChain:          s.senderChain.structure(),
+		SenderBaseKey:        s.SenderBaseKey(),
 		SessionVersion:       s.sessionVersion,
 	}
+
+	// A state that has not been established yet has no keys.
+	if s.localIdentityPublic != nil {
+		structure.LocalIdentityPublic = s.localIdentityPublic.Serialize()
+	}
+	if s.remoteIdentityPublic != nil {
+		structure.RemoteIdentityPublic = s.remoteIdentityPublic.Serialize()
+	}
+	if s.rootKey != nil {
+		structure.RootKey = s.rootKey.Bytes()
+	}
+	if s.senderChain != nil {
+		structure.SenderChain = s.senderChain.structure()
+	}
+
+	return structure
 }
-- 
2.43.0


From 4761952a144653a9017520615e00ee564186a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 25/25] fix: a cipher without a session builder refuses prekey
 messages instead of causing a panic

---
 session/cipher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index 9649912..9ab353a 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -165,6 +165,11 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
+	// A cipher constructed from an existing session can't set up new ones.
+	if d.builder == nil {
+		return nil, nil, errors.New("No session builder to process the prekey message with")
+	}
+
 	// Load or create session record for this session.
 	// Work on a copy of it, so that it is unchanged if the message is rejected.
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
-- 
2.43.0


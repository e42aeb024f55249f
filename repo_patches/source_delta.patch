From 4eb0c04cb987be3eb67214b89407956d10eb3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 01/40] fix: HardenedChild must not wrap around to a normal
 child

---
 pkg/key/extendedkey.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index e627331..749fa05 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -77,6 +77,11 @@ var (
 	// increment to the next index.
 	ErrInvalidChild = errors.New("the extended key at this index is invalid")
 
+	// ErrInvalidHardenedIndex describes an error in which the caller asked
+	// for a hardened child whose number is not below HardenedKeyStart.
+	ErrInvalidHardenedIndex = errors.New(
+		"hardened child index must be less than 2^31")
+
 	// ErrUnusableSeed describes an error in which the provided seed is not
 	// usable due to the derived key falling outside of the valid range for
 	// secp256k1 private keys.  This error indicates the caller must choose
@@ -399,6 +404,9 @@ func (k *ExtendedKey) Public() (*ExtendedKey, error) {
 // A HardenedChild is guaranteed to have been derived from a private key.
 // It is an error if the given key is already a hardened key.
 func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
+	if n >= HardenedKeyStart {
+		return nil, ErrInvalidHardenedIndex
+	}
 	ndx := n + HardenedKeyStart
 	nk, err := k.Child(ndx)
 	return nk, errors.Wrap(err, "could not get child key")
-- 
2.43.0


From 3509e2dcbee671851d2ab2ba80cddc4de26c75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 02/40] fix: ExtendedKey.Zero must forget the memoized public
 key

---
 pkg/key/extendedkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 749fa05..17a277b 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -524,6 +524,9 @@ func (k *ExtendedKey) Zero() {
 	zero(k.chainCode)
 	zero(k.parentFP)
 	k.key = nil
+	k.pubKey = nil
+	k.chainCode = nil
+	k.parentFP = nil
 	k.depth = 0
 	k.childNum = 0
 	k.isPrivate = false
-- 
2.43.0


From 8d5c9099517d5fdd095f16840d088084fbe1de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 03/40] fix: key objects must not share their byte slices

---
 pkg/key/extendedkey.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index 17a277b..a6788f6 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -151,6 +151,11 @@ type ExtendedKey struct {
 var _ encoding.TextMarshaler = (*ExtendedKey)(nil)
 var _ encoding.TextUnmarshaler = (*ExtendedKey)(nil)
 
+// clone returns a copy of the passed slice.
+func clone(b []byte) []byte {
+	return append([]byte(nil), b...)
+}
+
 // NewExtendedKey returns a new instance of an extended key with the given
 // fields.  No error checking is performed here as it's only intended to be a
 // convenience method used to create a populated struct. This function should
@@ -160,12 +165,13 @@ func NewExtendedKey(key, chainCode, parentFP []byte, depth uint8,
 	childNum uint32, isPrivate bool) *ExtendedKey {
 
 	// NOTE: The pubKey field is intentionally left nil so it is only
-	// computed and memoized as required.
+	// computed and memoized as required. The slices are copied, so that
+	// zeroing this key cannot corrupt another one.
 	return &ExtendedKey{
-		key:       key,
-		chainCode: chainCode,
+		key:       clone(key),
+		chainCode: clone(chainCode),
 		depth:     depth,
-		parentFP:  parentFP,
+		parentFP:  clone(parentFP),
 		childNum:  childNum,
 		isPrivate: isPrivate,
 	}
@@ -498,9 +504,9 @@ func (k *ExtendedKey) parseExtra(data []byte) error {
 		return errors.New("cannot parseExtra: too few bytes in data")
 	}
 	k.depth = data[0]
-	k.parentFP = data[1:4]
+	k.parentFP = clone(data[1:4])
 	k.childNum = binary.BigEndian.Uint32(data[4:8])
-	k.chainCode = data[8:40]
+	k.chainCode = clone(data[8:40])
 
 	return nil
 }
@@ -580,7 +586,7 @@ func (k *ExtendedKey) FromSignatureKey(key signature.Key) (err error) {
 	}
 
 	k.isPrivate = signature.IsPrivate(key)
-	k.key = key.KeyBytes()
+	k.key = clone(key.KeyBytes())
 	err = k.parseExtra(key.ExtraBytes())
 	if err != nil {
 		return errors.Wrap(err, "could not parse extra")
@@ -601,11 +607,11 @@ func FromSignatureKey(key signature.Key) (ek *ExtendedKey, err error) {
 // AsSignatureKey converts this ExtendedKey into a signature.Key instance
 func (k ExtendedKey) AsSignatureKey() (signature.Key, error) {
 	if k.isPrivate {
-		priv, err := signature.RawPrivateKey(signature.Secp256k1, k.key, k.extra())
+		priv, err := signature.RawPrivateKey(signature.Secp256k1, clone(k.key), k.extra())
 		err = errors.Wrap(err, "could not convert private key")
 		return priv, err
 	}
-	pub, err := signature.RawPublicKey(signature.Secp256k1, k.key, k.extra())
+	pub, err := signature.RawPublicKey(signature.Secp256k1, clone(k.key), k.extra())
 	err = errors.Wrap(err, "could not convert public key")
 	return pub, err
 }
-- 
2.43.0


From 835a92917104a983e21626b8c536227f23ea2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 04/40] fix: CheckChecksum must require the checksum width
 AddChecksum writes

---
 pkg/signature/checksum.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/signature/checksum.go b/pkg/signature/checksum.go
index 683711a..0167433 100644
--- a/pkg/signature/checksum.go
+++ b/pkg/signature/checksum.go
@@ -85,6 +85,9 @@ func CheckChecksum(checked []byte) (message []byte, checksumOk bool) {
 		return nil, false
 	}
 	message = checked[1:end]
+	if n != checksumWidth(len(message)) {
+		return nil, false
+	}
 
 	sumActual := checked[end:]
 	sumExpect := cksumN(message, n)
-- 
2.43.0


From 2f82365c9e57eeb60cf85fbd4eec9659e306bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 05/40] fix: unmarshaling an unknown algorithm id is an error,
 not a panic

---
 pkg/signature/algorithm.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index aae8e4a..ff82141 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -84,6 +84,15 @@ func cloneAl(original Algorithm) Algorithm {
 	return reflect.New(val.Type()).Interface().(Algorithm)
 }
 
+// algorithmOf returns a fresh instance of the algorithm with the given id
+func algorithmOf(id AlgorithmID) (Algorithm, error) {
+	original, exists := idMap[id]
+	if !exists {
+		return nil, errors.Errorf("unknown algorithm id %d", id)
+	}
+	return cloneAl(original), nil
+}
+
 // Unmarshal the serialized binary data into an Algorithm instance and
 // the originally supplied data.
 func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
@@ -95,7 +104,11 @@ func unmarshal(serialized []byte) (al Algorithm, data []byte, err error) {
 	if len(leftovers) > 0 {
 		return nil, nil, errors.New("Leftovers present after deserialization")
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, nil
+	al, err = algorithmOf(container.Algorithm)
+	if err != nil {
+		return nil, nil, err
+	}
+	return al, container.Data, nil
 }
 
 func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []byte, err error) {
@@ -104,7 +117,11 @@ func unmarshalWithLeftovers(serialized []byte) (al Algorithm, data, leftovers []
 	if err != nil {
 		return nil, nil, nil, err
 	}
-	return cloneAl(idMap[container.Algorithm]), container.Data, leftovers, nil
+	al, err = algorithmOf(container.Algorithm)
+	if err != nil {
+		return nil, nil, nil, err
+	}
+	return al, container.Data, leftovers, nil
 }
 
 // Generate a high-level keypair
-- 
2.43.0


From 47a4d0d0cd60911e718cbcf5374f21d74e8b7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 06/40] fix: Signature.Unmarshal must report malformed data
 instead of panicking

---
 pkg/signature/signature.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 303898d..3edb6b3 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -64,8 +64,11 @@ func (signature Signature) Marshal() (serialized []byte, err error) {
 // Unmarshal unmarshals the serialized binary data into the supplied signature instance
 func (signature *Signature) Unmarshal(serialized []byte) error {
 	al, b, err := unmarshal(serialized)
+	if err != nil {
+		return err
+	}
 	ss := al.SignatureSize()
-	if err == nil && ss >= 0 && len(b) != ss {
+	if ss >= 0 && len(b) != ss {
 		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", al.SignatureSize(), len(b))
 	}
 	if err == nil {
-- 
2.43.0


From 3a6fd9998e7c9d061e2f109f916706e31d849fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 07/40] fix: Signature.UnmarshalMsg must check the signature
 size like Unmarshal

---
 pkg/signature/signature.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 3edb6b3..6506d0a 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -97,6 +97,13 @@ func (signature *Signature) UnmarshalMsg(in []byte) (leftover []byte, err error)
 	var al Algorithm
 	var b []byte
 	al, b, leftover, err = unmarshalWithLeftovers(in)
+	if err != nil {
+		return
+	}
+	ss := al.SignatureSize()
+	if ss >= 0 && len(b) != ss {
+		err = fmt.Errorf("Wrong size signature: expect len %d, have %d", ss, len(b))
+	}
 	if err == nil {
 		signature.algorithm = al
 		signature.data = b
-- 
2.43.0


From df4e6a77aabe665f6a438dc8c72de273757d4188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 08/40] fix: a signature without algorithm uses the null
 algorithm, as keys do

---
 pkg/signature/public_key.go | 2 +-
 pkg/signature/signature.go  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index 1378637..f59be71 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -83,7 +83,7 @@ func (key PublicKey) Size() int {
 
 // Verify the supplied message with the given signature
 func (key PublicKey) Verify(message []byte, sig Signature) bool {
-	if NameOf(key.Algorithm()) != NameOf(sig.algorithm) {
+	if NameOf(key.Algorithm()) != NameOf(sig.Algorithm()) {
 		return false
 	}
 	return key.Algorithm().Verify(key.key, message, sig.data)
diff --git a/pkg/signature/signature.go b/pkg/signature/signature.go
index 6506d0a..cc2ee84 100644
--- a/pkg/signature/signature.go
+++ b/pkg/signature/signature.go
@@ -31,6 +31,9 @@ type Signature struct {
 
 // Algorithm gets the signature's algorithm
 func (signature Signature) Algorithm() Algorithm {
+	if signature.algorithm == nil {
+		return Null
+	}
 	return signature.algorithm
 }
 
@@ -52,7 +55,7 @@ func RawSignature(al Algorithm, data []byte) (*Signature, error) {
 
 // Size returns the size of this signature
 func (signature Signature) Size() int {
-	return signature.algorithm.SignatureSize()
+	return signature.Algorithm().SignatureSize()
 }
 
 // Marshal marshals the signature into a serialized binary format
-- 
2.43.0


From 71b9b50f92b5b0673887804edb9f7486b9895752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 09/40] fix: key UnmarshalText must reject text shorter than
 the prefix

---
 pkg/signature/private_key.go | 4 ++--
 pkg/signature/public_key.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index e449d03..13f4d2b 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -124,8 +124,8 @@ func (key PrivateKey) MarshalText() ([]byte, error) {
 func (key *PrivateKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PrivateKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("private key must begin with %q; got %q", PrivateKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		return fmt.Errorf("private key must begin with %q", PrivateKeyPrefix)
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index f59be71..cea44d9 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -136,8 +136,8 @@ func (key PublicKey) MarshalText() ([]byte, error) {
 func (key *PublicKey) UnmarshalText(text []byte) error {
 	expectPrefix := []byte(PublicKeyPrefix)
 	lep := len(expectPrefix)
-	if !bytes.Equal(expectPrefix, text[:lep]) {
-		return fmt.Errorf("public key must begin with %q; got %q", PublicKeyPrefix, text[:lep])
+	if !bytes.HasPrefix(text, expectPrefix) {
+		return fmt.Errorf("public key must begin with %q", PublicKeyPrefix)
 	}
 	err := key.keyBase.UnmarshalText(text[lep:])
 	if err == nil {
-- 
2.43.0


From 725e7c4fc7cd82a4190dc2d1d64debc24c417da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 10/40] fix: unpacking empty key data must not keep the
 previous key

---
 pkg/signature/keybase.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 32f386a..49825b7 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -55,6 +55,8 @@ func (key keyBase) pack() ([]byte, error) {
 
 func (key *keyBase) unpack(data []byte) error {
 	if len(data) == 0 {
+		key.key = nil
+		key.extra = nil
 		return nil
 	}
 	lk := int(data[0])
-- 
2.43.0


From 3b8cc4e3aa49716455b891a95c2b284af30d5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 11/40] fix: Msgsize of keys must count the length byte and the
 extra data

---
 pkg/signature/keybase.go     | 2 +-
 pkg/signature/private_key.go | 2 +-
 pkg/signature/public_key.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 49825b7..5ecf4ce 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -133,7 +133,7 @@ func (key *keyBase) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a keyBase gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *keyBase) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/private_key.go b/pkg/signature/private_key.go
index 13f4d2b..32eca07 100644
--- a/pkg/signature/private_key.go
+++ b/pkg/signature/private_key.go
@@ -106,7 +106,7 @@ func (key *PrivateKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PrivateKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PrivateKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
diff --git a/pkg/signature/public_key.go b/pkg/signature/public_key.go
index cea44d9..f34248e 100644
--- a/pkg/signature/public_key.go
+++ b/pkg/signature/public_key.go
@@ -118,7 +118,7 @@ func (key *PublicKey) UnmarshalMsg(in []byte) (leftover []byte, err error) {
 // as fundamentally a PublicKey gets serialized as an IdentifiedData, and so should
 // have the same size.
 func (key *PublicKey) Msgsize() (s int) {
-	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + len(key.key)
+	s = 1 + msgp.Uint8Size + msgp.BytesPrefixSize + 1 + len(key.key) + len(key.extra)
 	return
 }
 
-- 
2.43.0


From 9a22ed83c0002d85d4e1c6d489716d219965e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 12/40] fix: algorithms registered by pointer must be found by
 name

---
 pkg/signature/id_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 5e81ee5..a13465d 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -65,7 +65,7 @@ func buildNameMap() {
 	var example Algorithm
 	idNameMap = make(map[string]AlgorithmID)
 	for id, example = range idMap {
-		idNameMap[reflect.TypeOf(example).Name()] = id
+		idNameMap[NameOf(example)] = id
 	}
 }
 
-- 
2.43.0


From f44ae2060358a871ca01a208096d0e78e443640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 13/40] fix: RegisterAlgorithm must refuse a nil algorithm

---
 pkg/signature/id_map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index a13465d..2c12b20 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -47,6 +47,9 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 	if id < AlgorithmID(128) {
 		return fmt.Errorf("Reserved algorithm id %d < 128", id)
 	}
+	if al == nil {
+		return errors.New("nil is not an Algorithm")
+	}
 	if existing, exists := idMap[id]; exists {
 		existingName := NameOf(existing)
 		if existingName != NameOf(al) {
-- 
2.43.0


From 919af3c848a831fa1a70d13d20c787044b7e5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 14/40] fix: IsZero must recognize a deserialized null key

---
 pkg/signature/keybase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/signature/keybase.go b/pkg/signature/keybase.go
index 5ecf4ce..3f0ec6f 100644
--- a/pkg/signature/keybase.go
+++ b/pkg/signature/keybase.go
@@ -239,5 +239,5 @@ func (key *keyBase) Zeroize() {
 
 // IsZero is true when this key is the zero value
 func (key keyBase) IsZero() bool {
-	return (key.algorithm == nil || key.algorithm == Null) && len(key.key) == 0 && len(key.extra) == 0
+	return SameAlgorithm(key.algorithm, Null) && len(key.key) == 0 && len(key.extra) == 0
 }
-- 
2.43.0


From 28d0ae82c8448c49341be2c60f450f8e7114fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 15/40] fix: address parsing accepts only 48 alphabet letters
 and stores the canonical form

---
 pkg/address/address_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/address/address_impl.go b/pkg/address/address_impl.go
index 2df444f..9829904 100644
--- a/pkg/address/address_impl.go
+++ b/pkg/address/address_impl.go
@@ -176,6 +176,11 @@ func Generate(kind byte, data []byte) (Address, error) {
 // It does NOT test the nd prefix, as that may vary -- clients should test that
 // themselves.
 func Validate(addr string) (Address, error) {
+	// check the length before folding the case: some longer letters outside
+	// the alphabet fold into it, and the decoder ignores line breaks
+	if len(addr) != AddrLength {
+		return emptyA(), newError(fmt.Sprintf("not a valid address length '%s'", addr))
+	}
 	addr = strings.ToLower(addr)
 	// if !strings.HasPrefix(addr, "nd") {
 	// 	return emptyA(), newError("not an ndau key")
@@ -186,6 +191,9 @@ func Validate(addr string) (Address, error) {
 	if kind := addr[kindOffset]; !IsValidKind(kind) {
 		return emptyA(), newError(fmt.Sprintf("unknown address kind: %x", kind))
 	}
+	if strings.Trim(addr, b32.NdauAlphabet) != "" {
+		return emptyA(), newError("invalid character in address")
+	}
 	h, err := b32.Decode(addr)
 	if err != nil {
 		return emptyA(), err
-- 
2.43.0


From 6ae3a1c179a90e0631ecdada8f98a7837e48f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 16/40] fix: Address.UnmarshalText must store the canonical
 address

---
 pkg/address/address.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/address/address.go b/pkg/address/address.go
index d6dfd27..61d9fc7 100644
--- a/pkg/address/address.go
+++ b/pkg/address/address.go
@@ -46,11 +46,10 @@ func (a Address) MarshalText() ([]byte, error) {
 
 // UnmarshalText implements encoding.TextUnmarshaler
 func (a *Address) UnmarshalText(text []byte) error {
-	s := string(text)
-	_, err := Validate(s)
+	addr, err := Validate(string(text))
 	if err != nil {
 		return err
 	}
-	a.addr = s
+	*a = addr
 	return nil
 }
-- 
2.43.0


From 31deaf0e0642eaa4674172a9e41219361ffb5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 17/40] fix: words.ToBytes must refuse an empty word list

---
 pkg/words/words.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index a2c7907..513751b 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -180,6 +180,9 @@ func lookupWord(lang, s string) (int, error) {
 // ToBytes returns an array of the bytes a list of words corresponds to.
 // It can error if lookup of any of the words fails.
 func ToBytes(lang string, s []string) ([]byte, error) {
+	if len(s) == 0 {
+		return nil, errors.New("empty word list")
+	}
 	nbits := len(s) * 11
 	nbytes := nbits / 8
 	resultbytes := nbytes
-- 
2.43.0


From 06a4e1e7f2af23cf9e5a06b18d6d27acab4a1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 18/40] fix: public keys with an unreduced X coordinate are not
 valid

---
 pkg/key/convert_serialization.go |  2 +-
 pkg/key/extendedkey.go           | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/key/convert_serialization.go b/pkg/key/convert_serialization.go
index 6e87d52..a8f876d 100644
--- a/pkg/key/convert_serialization.go
+++ b/pkg/key/convert_serialization.go
@@ -70,7 +70,7 @@ func FromOldSerialization(key string) (*ExtendedKey, error) {
 	} else {
 		// Ensure the public key parses correctly and is actually on the
 		// secp256k1 curve.
-		_, err := btcec.ParsePubKey(keyData, btcec.S256())
+		_, err := parsePubKey(keyData)
 		if err != nil {
 			return nil, err
 		}
diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index a6788f6..de24227 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -361,7 +361,7 @@ func (k *ExtendedKey) Child(i uint32) (*ExtendedKey, error) {
 		// Convert the serialized compressed parent public key into X
 		// and Y coordinates so it can be added to the intermediate
 		// public key.
-		pubKey, err := btcec.ParsePubKey(k.key, btcec.S256())
+		pubKey, err := parsePubKey(k.key)
 		if err != nil {
 			return nil, errors.Wrap(err, "could not parse public key")
 		}
@@ -421,7 +421,21 @@ func (k *ExtendedKey) HardenedChild(n uint32) (*ExtendedKey, error) {
 
 // ECPubKey converts the extended key to a btcec public key and returns it.
 func (k *ExtendedKey) ECPubKey() (*btcec.PublicKey, error) {
-	return btcec.ParsePubKey(k.PubKeyBytes(), btcec.S256())
+	return parsePubKey(k.PubKeyBytes())
+}
+
+// parsePubKey parses a compressed public key. Unlike btcec.ParsePubKey, which
+// reduces it, it refuses an X coordinate which is not below the field prime:
+// no public key is serialized like that.
+func parsePubKey(data []byte) (*btcec.PublicKey, error) {
+	pub, err := btcec.ParsePubKey(data, btcec.S256())
+	if err != nil {
+		return nil, err
+	}
+	if pub.X.Cmp(btcec.S256().P) >= 0 {
+		return nil, errors.New("public key X coordinate is out of range")
+	}
+	return pub, nil
 }
 
 // ECPrivKey converts the extended key to a btcec private key and returns it.
-- 
2.43.0


From 15408f98eed29942ca4777bcb33455f8ed19fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 19/40] fix: RegisterAlgorithm must refuse a type name that
 already has an id

---
 pkg/signature/id_map.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index 2c12b20..d8025d2 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -50,9 +50,16 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 	if al == nil {
 		return errors.New("nil is not an Algorithm")
 	}
+	name := NameOf(al)
+	if len(name) == 0 {
+		return errors.New("anonymous types are not Algorithms")
+	}
+	if other, used := idNameMap[name]; used && other != id {
+		return fmt.Errorf("%s is already in use by ID %d", name, other)
+	}
 	if existing, exists := idMap[id]; exists {
 		existingName := NameOf(existing)
-		if existingName != NameOf(al) {
+		if existingName != name {
 			return fmt.Errorf("ID %d already in use by %s", id, existingName)
 		}
 	}
-- 
2.43.0


From 5e912dcef843060dc15ef6a6954798c4502ee063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 20/40] fix: an unregistered type must not pass for a
 registered one of the same name

---
 pkg/signature/id_map.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/id_map.go b/pkg/signature/id_map.go
index d8025d2..d767e8d 100644
--- a/pkg/signature/id_map.go
+++ b/pkg/signature/id_map.go
@@ -58,9 +58,8 @@ func RegisterAlgorithm(id AlgorithmID, al Algorithm) error {
 		return fmt.Errorf("%s is already in use by ID %d", name, other)
 	}
 	if existing, exists := idMap[id]; exists {
-		existingName := NameOf(existing)
-		if existingName != name {
-			return fmt.Errorf("ID %d already in use by %s", id, existingName)
+		if typeOf(existing) != typeOf(al) {
+			return fmt.Errorf("ID %d already in use by %s", id, typeOf(existing))
 		}
 	}
 
@@ -81,12 +80,17 @@ func buildNameMap() {
 
 // NameOf returns the name of an Algorithm
 func NameOf(al Algorithm) string {
+	return typeOf(al).Name()
+}
+
+// typeOf returns the type of an Algorithm, whether given by value or by pointer
+func typeOf(al Algorithm) reflect.Type {
 	ty := reflect.TypeOf(al)
 	// arbitrary-depth dereference
 	for ty.Kind() == reflect.Interface || ty.Kind() == reflect.Ptr {
 		ty = ty.Elem()
 	}
-	return ty.Name()
+	return ty
 }
 
 // Get the ID associated with an Algorithm type
@@ -100,7 +104,8 @@ func idOf(al Algorithm) (AlgorithmID, error) {
 		return 0, errors.New("anonymous types are not Algorithms")
 	}
 	id, hasID := idNameMap[alName]
-	if hasID {
+	// types of different packages may have the same name
+	if hasID && typeOf(idMap[id]) == typeOf(al) {
 		return id, nil
 	}
 	return 0, fmt.Errorf("Supplied algorithm `%s` not in `idMap`", alName)
-- 
2.43.0


From bb1fb81b2343d336f305bb981c525eb80682e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 21/40] fix: words.ToBytes must only accept splits that
 FromBytes produces

Lists whose length is a multiple of 8 words were accepted without a single
check bit (and others with 1 to 3), and some phrases were read as a shorter
byte string followed by 15 check bits, so they did not decode to the bytes
they were made from.
---
 pkg/words/words.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/words/words.go b/pkg/words/words.go
index 513751b..2a2630d 100644
--- a/pkg/words/words.go
+++ b/pkg/words/words.go
@@ -202,6 +202,11 @@ func ToBytes(lang string, s []string) ([]byte, error) {
 	// because if this crc is correct it's more likely to be the right answer
 	for _, rb := range []int{resultbytes - 1, resultbytes} {
 		runlen := nbits - rb*8
+		// FromBytes always uses between 4 and 14 bits for the crc; any other
+		// split of these words is not one that it could have produced
+		if runlen < 4 || runlen > 14 {
+			continue
+		}
 		mask := (1 << uint(runlen)) - 1 // generate runlen 1 bits
 		ckcalc := int(crc8(result[:rb])) & mask
 		ckfound := getRun(rb*8, runlen, result)
-- 
2.43.0


From 52a55f36ca50dda66732eace345441f50d15546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 22/40] fix: decoding with an algorithm registered by nil
 pointer must not panic

---
 pkg/signature/algorithm.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/signature/algorithm.go b/pkg/signature/algorithm.go
index ff82141..ebd9262 100644
--- a/pkg/signature/algorithm.go
+++ b/pkg/signature/algorithm.go
@@ -77,11 +77,7 @@ func marshal(al Algorithm, data []byte) (serialized []byte, err error) {
 // shallow copy an interface from an example struct
 // https://stackoverflow.com/a/22948379/504550
 func cloneAl(original Algorithm) Algorithm {
-	val := reflect.ValueOf(original)
-	if val.Kind() == reflect.Ptr {
-		val = reflect.Indirect(val)
-	}
-	return reflect.New(val.Type()).Interface().(Algorithm)
+	return reflect.New(typeOf(original)).Interface().(Algorithm)
 }
 
 // algorithmOf returns a fresh instance of the algorithm with the given id
-- 
2.43.0


From 81270fb0ddd88c74ae634b6e44ca5ffe9c547c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:44 +0000
Subject: [PATCH 23/40] fix: ParentFingerprint of a zeroed key must not panic

---
 pkg/key/extendedkey.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/key/extendedkey.go b/pkg/key/extendedkey.go
index de24227..77d3f9f 100644
--- a/pkg/key/extendedkey.go
+++ b/pkg/key/extendedkey.go
@@ -222,8 +222,9 @@ func (k *ExtendedKey) Depth() uint8 {
 // Since the fingerprint is 3 bytes, we set the high byte to 0 before returning it
 // as a uint32
 func (k *ExtendedKey) ParentFingerprint() uint32 {
-	b := append([]byte{0}, k.parentFP...)
-	return binary.BigEndian.Uint32(b)
+	var b [4]byte
+	copy(b[1:], k.parentFP) // empty for a key which has been zeroed
+	return binary.BigEndian.Uint32(b[:])
 }
 
 // Child returns a derived child extended key at the given index.  When this
-- 
2.43.0


From 6de98a0f79b6ee93ee85a48db8b46234b920a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 24/40] fix: MulDiv is exact when the product has more than 34
 digits

---
 pkg/signed/math.go   | 17 +++++++++--------
 pkg/unsigned/math.go | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/pkg/signed/math.go b/pkg/signed/math.go
index 3619c8b..a506ad5 100644
--- a/pkg/signed/math.go
+++ b/pkg/signed/math.go
@@ -11,6 +11,8 @@ package signed
 
 
 import (
+	"math/big"
+
 	"github.com/ericlagergren/decimal"
 	"github.com/ndau/ndaumath/pkg/ndauerr"
 )
@@ -113,14 +115,13 @@ func MulDiv(v, n, d int64) (int64, error) {
 		return 0, ndauerr.ErrDivideByZero
 	}
 
-	x := decimal.WithContext(decimal.Context128).SetMantScale(v, 0)
-	y := decimal.WithContext(decimal.Context128).SetMantScale(n, 0)
-	z := decimal.WithContext(decimal.Context128).SetMantScale(d, 0)
-	x.Mul(x, y)
-	x.QuoInt(x, z)
-	ret, ok := x.Int64()
-	if !ok {
+	// the product can have more than the 34 digits a Context128 decimal keeps,
+	// and rounding it can change the quotient
+	x := big.NewInt(v)
+	x.Mul(x, big.NewInt(n))
+	x.Quo(x, big.NewInt(d))
+	if !x.IsInt64() {
 		return 0, ndauerr.ErrOverflow
 	}
-	return ret, nil
+	return x.Int64(), nil
 }
diff --git a/pkg/unsigned/math.go b/pkg/unsigned/math.go
index fb1e245..4745ff5 100644
--- a/pkg/unsigned/math.go
+++ b/pkg/unsigned/math.go
@@ -11,6 +11,8 @@ package unsigned
 
 
 import (
+	"math/big"
+
 	"github.com/ericlagergren/decimal"
 	"github.com/ndau/ndaumath/pkg/ndauerr"
 )
@@ -118,14 +120,13 @@ func MulDiv(v, n, d uint64) (uint64, error) {
 		return 0, ndauerr.ErrDivideByZero
 	}
 
-	x := makeDecimal(v)
-	y := makeDecimal(n)
-	z := makeDecimal(d)
-	x.Mul(x, y)
-	x.QuoInt(x, z)
-	ret, ok := x.Uint64()
-	if !ok {
+	// the product can have more than the 34 digits a Context128 decimal keeps,
+	// and rounding it can change the quotient
+	x := new(big.Int).SetUint64(v)
+	x.Mul(x, new(big.Int).SetUint64(n))
+	x.Quo(x, new(big.Int).SetUint64(d))
+	if !x.IsUint64() {
 		return 0, ndauerr.ErrOverflow
 	}
-	return ret, nil
+	return x.Uint64(), nil
 }
-- 
2.43.0


From c6cb9dd7d2b4349266f1dbdf54c43b482211f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 25/40] fix: LnInt steps at the exact powers of e

---
 pkg/unsigned/log.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/unsigned/log.go b/pkg/unsigned/log.go
index c082186..c62dcd6 100644
--- a/pkg/unsigned/log.go
+++ b/pkg/unsigned/log.go
@@ -15,23 +15,23 @@ var bounds []uint64
 func init() {
 	// Table was constructed in python:
 	//
-	// >>> from math import ceil, exp
+	// >>> from mpmath import ceil, exp, mp
+	// >>> mp.dps = 40 # a float has too few digits from e^37 on
 	// >>> i = 0
 	// >>> bounds = []
 	// >>> while exp(i) <= 2**64:
-	// ...     bounds.append(ceil(exp(i))-1)
+	// ...     bounds.append(int(ceil(exp(i)))-1)
 	// ...     i += 1
 	// ...
-	// True
 	bounds = []uint64{
 		0, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413,
 		1202604, 3269017, 8886110, 24154952, 65659969, 178482300, 485165195,
 		1318815734, 3584912846, 9744803446, 26489122129, 72004899337, 195729609428,
 		532048240601, 1446257064291, 3931334297144, 10686474581524, 29048849665247,
 		78962960182680, 214643579785916, 583461742527454, 1586013452313430,
-		4311231547115194, 11719142372802611, 31855931757113755, 86593400423993743,
-		235385266837019999, 639843493530054911, 1739274941520500991,
-		4727839468229346303, 12851600114359308287, ^uint64(0),
+		4311231547115195, 11719142372802611, 31855931757113756, 86593400423993746,
+		235385266837019985, 639843493530054949, 1739274941520501047,
+		4727839468229346561, 12851600114359308275, ^uint64(0),
 	}
 }
 
-- 
2.43.0


From de98cca50648dc1944fc9dc6a0bbcdf8c64a0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 26/40] fix: ExpFrac no longer divides by an overflowed
 factorial or returns an overflowed sum

---
 pkg/signed/exp.go   | 18 ++++++++++++------
 pkg/unsigned/exp.go | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/signed/exp.go b/pkg/signed/exp.go
index 178c236..cbea2f4 100644
--- a/pkg/signed/exp.go
+++ b/pkg/signed/exp.go
@@ -39,14 +39,14 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator int64) (int64, error) {
 	rounder := int64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxInt64 / 2) {
+	if denominator > (math.MaxInt64 / 2 / rounder) {
 		return 0, errors.New("denominator too large")
 	}
-	if numerator > denominator || numerator < 0 || denominator < 0 {
+	if numerator > denominator || numerator < 0 || denominator <= 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -60,13 +60,19 @@ func ExpFrac(numerator, denominator int64) (int64, error) {
 	product := numerator
 	fact := int64(1)
 	var err error
-	for i := int64(2); product != 0; i++ {
+	// 20! is the last factorial that fits, and 21! exceeds every product, so that
+	// no later term contributes.
+	for i := int64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
 		}
 		fact *= i
-		sum += product / fact
+		term := product / fact
+		if sum > math.MaxInt64-rounder/2-term {
+			return 0, errors.New("denominator too large")
+		}
+		sum += term
 	}
 	return (sum + rounder/2) / rounder, nil
 }
diff --git a/pkg/unsigned/exp.go b/pkg/unsigned/exp.go
index c94405e..9330b83 100644
--- a/pkg/unsigned/exp.go
+++ b/pkg/unsigned/exp.go
@@ -39,14 +39,14 @@ import (
 // napu multiplication factor of 100,000,000 (which is also the value we use for percentages).
 func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	rounder := uint64(10)
-	numerator *= rounder
-	denominator *= rounder
-	if denominator > (math.MaxUint64 / 2) {
+	if denominator > (math.MaxUint64 / 2 / rounder) {
 		return 0, errors.New("denominator too large")
 	}
-	if numerator > denominator {
+	if numerator > denominator || denominator == 0 {
 		return 0, errors.New("fraction must be between 0 and 1")
 	}
+	numerator *= rounder
+	denominator *= rounder
 	// start the sum at 1 + x, which is b/b + a/b, and we only care about the
 	// numerator, so it's just b+a
 	sum := denominator + numerator
@@ -60,13 +60,19 @@ func ExpFrac(numerator, denominator uint64) (uint64, error) {
 	product := numerator
 	fact := uint64(1)
 	var err error
-	for i := uint64(2); product != 0; i++ {
+	// 20! is the last factorial that fits, and 21! exceeds every product, so that
+	// no later term contributes.
+	for i := uint64(2); product != 0 && i <= 20; i++ {
 		product, err = MulDiv(product, numerator, denominator)
 		if err != nil {
 			return 0, err
 		}
 		fact *= i
-		sum += product / fact
+		term := product / fact
+		if sum > math.MaxUint64-rounder/2-term {
+			return 0, errors.New("denominator too large")
+		}
+		sum += term
 	}
 	return (sum + rounder/2) / rounder, nil
 }
-- 
2.43.0


From 40ccb5468c1ab59985d1ccd288608d06d27988ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 27/40] fix: UpdateWeightedAverageAge must not wrap when the
 age overflows

---
 pkg/types/duration.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index e048932..0f569f6 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -155,7 +155,10 @@ func (d *Duration) UpdateWeightedAverageAge(
 	transferQty Ndau,
 	previousBalance Ndau,
 ) error {
-	waa := int64(*d) + int64(sinceLastUpdate)
+	waa, err := signed.Add(int64(*d), int64(sinceLastUpdate))
+	if err != nil {
+		return errors.New("Duration overflow in UpdateWeightedAverageAge")
+	}
 	if int64(transferQty) >= 0 {
 		newBalance, err := previousBalance.Add(transferQty)
 		if err != nil {
@@ -164,9 +167,8 @@ func (d *Duration) UpdateWeightedAverageAge(
 		// we have to use bigints to prevent the multiplication from overflow
 		nb := int64(newBalance)
 		pb := int64(previousBalance)
-		dur := int64(*d + sinceLastUpdate)
 		if nb > 0 {
-			waa, err = signed.MulDiv(dur, pb, nb)
+			waa, err = signed.MulDiv(waa, pb, nb)
 			if err != nil {
 				return errors.New("Duration overflow in UpdateWeightedAverageAge")
 			}
-- 
2.43.0


From 70e6b3fc12e92b1e8418e62d0c5e82dd4f7326ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 28/40] fix: EAI which does not fit an ndau amount is an error,
 not a negative amount

---
 pkg/eai/eai.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/eai/eai.go b/pkg/eai/eai.go
index 26bf77c..4084f00 100644
--- a/pkg/eai/eai.go
+++ b/pkg/eai/eai.go
@@ -11,6 +11,8 @@ package eai
 
 
 import (
+	gomath "math"
+
 	"github.com/ndau/ndaumath/pkg/constants"
 	math "github.com/ndau/ndaumath/pkg/types"
 	"github.com/ndau/ndaumath/pkg/unsigned"
@@ -63,6 +65,9 @@ func Calculate(
 	if err != nil {
 		return 0, err
 	}
+	if eai > gomath.MaxInt64 {
+		return 0, errors.New("EAI overflows ndau")
+	}
 	return math.Ndau(eai), nil
 }
 
-- 
2.43.0


From c72f3bf07c2cac75692b08320ee07f101b72cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 29/40] fix: ApproxTotalPriceFor used the sold part of a block
 as its available part

---
 pkg/pricecurve/pricecurve.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/pricecurve/pricecurve.go b/pkg/pricecurve/pricecurve.go
index fc3c328..56672da 100644
--- a/pkg/pricecurve/pricecurve.go
+++ b/pkg/pricecurve/pricecurve.go
@@ -94,10 +94,7 @@ func ApproxTotalPriceFor(numNdau, alreadySold types.Ndau) float64 {
 	var totalPrice float64
 	for {
 		var price = ApproxPriceAtUnit(alreadySold)
-		var availableInThisBlock = alreadySold % numPerBlock
-		if availableInThisBlock == 0 {
-			availableInThisBlock = numPerBlock
-		}
+		var availableInThisBlock = numPerBlock - alreadySold%numPerBlock
 
 		// if what we're buying fits in the current block, just calculate the
 		// total price and we're done
-- 
2.43.0


From 683c0a13d92eada75fbd34a60139d113f0c076bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 30/40] fix: printing amounts between -1 and 0 ndau lost the
 sign, and the minimum was garbage

---
 pkg/types/ndau.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index c909ab8..f6af536 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -71,17 +71,18 @@ func (n Ndau) Compare(rhs Ndau) int {
 // decimal value of ndau. The full napu value is displayed, but trailing zeros
 // are suppressed.
 func (n Ndau) String() string {
-	var sign int64 = 1
+	sign := ""
 	if n < 0 {
-		sign = -1
+		sign = "-"
 	}
-	na := n.Abs()
+	// as uint64, because the absolute value of the minimum doesn't fit an Ndau
+	na := uint64(n.Abs())
 	ndau := na / constants.NapuPerNdau
 	napu := na % constants.NapuPerNdau
 	if napu == 0 {
-		return strconv.FormatInt(int64(sign*int64(ndau)), 10)
+		return fmt.Sprintf("%s%d", sign, ndau)
 	}
-	s := fmt.Sprintf("%d.%08d", sign*int64(ndau), napu)
+	s := fmt.Sprintf("%s%d.%08d", sign, ndau, napu)
 	t := len(s)
 	// trim off trailing zeros
 	for ; s[t-1] == '0'; t-- {
-- 
2.43.0


From 7bfcb8c2ebd03474e437914c8b4ce47a83dc3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 31/40] fix: ParseNdau must reject amounts which do not fit

---
 pkg/types/ndau.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/types/ndau.go b/pkg/types/ndau.go
index f6af536..f8cab40 100644
--- a/pkg/types/ndau.go
+++ b/pkg/types/ndau.go
@@ -18,6 +18,7 @@ import (
 
 	"github.com/ndau/ndaumath/pkg/constants"
 	"github.com/ndau/ndaumath/pkg/signed"
+	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
 )
 
@@ -130,7 +131,10 @@ func ParseNdau(s string) (Ndau, error) {
 		return 0, errors.Wrap(err, "parsing ndau")
 	}
 
-	out := Ndau(whole) * constants.NapuPerNdau
+	out, err := unsigned.Mul(whole, constants.NapuPerNdau)
+	if err != nil {
+		return 0, errors.Wrap(err, "parsing ndau")
+	}
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -147,8 +151,14 @@ func ParseNdau(s string) (Ndau, error) {
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing frac component")
 		}
-		out += Ndau(frac)
+		out, err = unsigned.Add(out, frac)
+		if err != nil {
+			return 0, errors.Wrap(err, "parsing ndau")
+		}
+	}
+	if out > gomath.MaxInt64 {
+		return 0, errors.New("parsing ndau: amount out of range")
 	}
 
-	return out, nil
+	return Ndau(out), nil
 }
-- 
2.43.0


From 07544d5f33e2c70a36cc7239a1e8b7ec0bb6b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 32/40] fix: ParseDuration must reject durations which do not
 fit

---
 pkg/types/duration.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index 0f569f6..3db51a7 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -14,11 +14,13 @@ import (
 	"encoding"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
 	"github.com/ndau/ndaumath/pkg/constants"
 	"github.com/ndau/ndaumath/pkg/signed"
+	"github.com/ndau/ndaumath/pkg/unsigned"
 )
 
 //go:generate msgp -tests=0
@@ -67,14 +69,21 @@ func ParseDuration(s string) (Duration, error) {
 		}
 	}
 
-	duration := Duration(0)
+	total := uint64(0)
 	addTime := func(name string, unit uint64) error {
 		if result[name] != "" {
 			value, err := strconv.ParseUint(result[name], 10, 64)
 			if err != nil {
 				return fmt.Errorf("invalid integer: %s", result[name])
 			}
-			duration += Duration(value * unit)
+			value, err = unsigned.Mul(value, unit)
+			if err != nil {
+				return fmt.Errorf("duration out of range: %s", s)
+			}
+			total, err = unsigned.Add(total, value)
+			if err != nil {
+				return fmt.Errorf("duration out of range: %s", s)
+			}
 		}
 		return nil
 	}
@@ -102,10 +111,16 @@ func ParseDuration(s string) (Duration, error) {
 	}
 
 	if result["neg"] != "" {
-		duration = -duration
+		if total > -math.MinInt64 {
+			return Duration(0), fmt.Errorf("duration out of range: %s", s)
+		}
+		return -Duration(total), nil
+	}
+	if total > math.MaxInt64 {
+		return Duration(0), fmt.Errorf("duration out of range: %s", s)
 	}
 
-	return duration, nil
+	return Duration(total), nil
 }
 
 // String represents a Duration as a human-readable string
-- 
2.43.0


From 86c36fcffa7f9d3f11b024117dc9865d5ca51770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 33/40] fix: printing the minimum duration gave a bare sign

---
 pkg/types/duration.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/types/duration.go b/pkg/types/duration.go
index 3db51a7..01da5c9 100644
--- a/pkg/types/duration.go
+++ b/pkg/types/duration.go
@@ -125,17 +125,18 @@ func ParseDuration(s string) (Duration, error) {
 
 // String represents a Duration as a human-readable string
 func (d Duration) String() string {
-	value := int64(d)
+	// unsigned, because the absolute value of the minimum doesn't fit an int64
+	value := uint64(d)
 	out := ""
-	if value < 0 {
+	if d < 0 {
 		out = "-"
 		value = -value
 	}
-	divmod := func(divisor, dividend int64) (int64, int64) {
+	divmod := func(divisor, dividend uint64) (uint64, uint64) {
 		return divisor / dividend, divisor % dividend
 	}
-	extract := func(symbol string, unit int64) {
-		var units int64
+	extract := func(symbol string, unit uint64) {
+		var units uint64
 		units, value = divmod(value, unit)
 		if units > 0 {
 			out += fmt.Sprintf("%d%s", units, symbol)
-- 
2.43.0


From 9f5b515b2ca81e94ec2624fba0dbcba87b696a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 34/40] fix: ParseRate must reject rates which do not fit

---
 pkg/eai/rate.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9bdc2b4..9c177c7 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -21,6 +21,7 @@ import (
 
 	"github.com/ndau/ndaumath/pkg/constants"
 	math "github.com/ndau/ndaumath/pkg/types"
+	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
 )
 
@@ -104,7 +105,10 @@ func ParseRate(s string) (Rate, error) {
 	if err != nil {
 		return Rate(0), errors.Wrap(err, "parsing pct")
 	}
-	out := RateFromPercent(1) * Rate(pct)
+	out, err := unsigned.Mul(uint64(RateFromPercent(1)), pct)
+	if err != nil {
+		return Rate(0), errors.Wrap(err, "parsing pct")
+	}
 
 	fracs, ok := result["frac"]
 	if ok {
@@ -121,10 +125,16 @@ func ParseRate(s string) (Rate, error) {
 		if err != nil {
 			return Rate(0), errors.Wrap(err, "parsing frac")
 		}
-		out += Rate(frac)
+		out, err = unsigned.Add(out, frac)
+		if err != nil {
+			return Rate(0), errors.Wrap(err, "parsing frac")
+		}
+	}
+	if out > gomath.MaxInt64 {
+		return Rate(0), errors.New("parsing rate: rate out of range")
 	}
 
-	return out, nil
+	return Rate(out), nil
 }
 
 // RateFromPercent returns a Rate whose value is that of the input, as percent.
-- 
2.43.0


From decf6e4875f92f740c89218ddb57b99acc77a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 35/40] fix: RateFromPercent overflowed for rates which fit

---
 pkg/eai/rate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/eai/rate.go b/pkg/eai/rate.go
index 9c177c7..5cfdd19 100644
--- a/pkg/eai/rate.go
+++ b/pkg/eai/rate.go
@@ -141,7 +141,8 @@ func ParseRate(s string) (Rate, error) {
 //
 // i.e. to express 1%, `nPercent` should equal `1`
 func RateFromPercent(nPercent uint64) Rate {
-	return Rate(nPercent * constants.RateDenominator / 100)
+	// divide first: the product overflows for rates of 18 million percent
+	return Rate(nPercent * (constants.RateDenominator / 100))
 }
 
 //msgp:tuple RTRow
-- 
2.43.0


From 547700c85fcc152a3607dbba70b2b063c55f2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 36/40] fix: ParseDollars must reject amounts which do not fit

---
 pkg/pricecurve/nanocent.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pkg/pricecurve/nanocent.go b/pkg/pricecurve/nanocent.go
index 32a42ed..a1ae7f1 100644
--- a/pkg/pricecurve/nanocent.go
+++ b/pkg/pricecurve/nanocent.go
@@ -12,10 +12,12 @@ package pricecurve
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
 
+	"github.com/ndau/ndaumath/pkg/unsigned"
 	"github.com/pkg/errors"
 )
 
@@ -62,16 +64,16 @@ func ParseDollars(dollars string) (Nanocent, error) {
 
 	// parse integers
 	var err error
-	d := int64(0)
+	d := uint64(0)
 	if submatches["dollars"] != "" {
-		d, err = strconv.ParseInt(submatches["dollars"], 10, 64)
+		d, err = strconv.ParseUint(submatches["dollars"], 10, 64)
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing dollars as integer: "+submatches["dollars"])
 		}
 	}
-	c := int64(0)
+	c := uint64(0)
 	if submatches["cents"] != "" {
-		c, err = strconv.ParseInt(submatches["cents"], 10, 64)
+		c, err = strconv.ParseUint(submatches["cents"], 10, 64)
 		if err != nil {
 			return 0, errors.Wrap(err, "parsing cents as integer: "+submatches["cents"])
 		}
@@ -81,12 +83,24 @@ func ParseDollars(dollars string) (Nanocent, error) {
 	}
 
 	// add it all up
-	nc := Nanocent(d*Dollar + c)
+	d, err = unsigned.Mul(d, Dollar)
+	if err == nil {
+		d, err = unsigned.Add(d, c)
+	}
+	if err != nil {
+		return 0, errors.Wrap(err, "dollars out of range: "+dollars)
+	}
 
 	// handle negatives
 	if submatches["neg"] == "-" {
-		nc = -nc
+		if d > -math.MinInt64 {
+			return 0, errors.New("dollars out of range: " + dollars)
+		}
+		return -Nanocent(d), nil
+	}
+	if d > math.MaxInt64 {
+		return 0, errors.New("dollars out of range: " + dollars)
 	}
 
-	return nc, err
+	return Nanocent(d), nil
 }
-- 
2.43.0


From 61df10f398a676543183253a5a36ea94024b5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 37/40] fix: keyaddr wasm: a call without arguments ended the
 module

---
 cmd/keyaddr/helpers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index 85ecbb4..b6b8e48 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -24,13 +24,14 @@ import (
 func handleArgs(args []js.Value, expected int, source string) (js.Value, []js.Value, error) {
 
 	// check that callback is a function
-	cb := args[len(args)-1]
-	if cb.Type() != js.TypeFunction {
+	if len(args) == 0 || args[len(args)-1].Type() != js.TypeFunction {
 		msg := fmt.Sprintf("couldn't parse %s arguments: last argument must be a callback function.", source)
 		dispatchError(msg)
 		return js.Value{}, []js.Value{}, errors.New(msg)
 	}
 
+	cb := args[len(args)-1]
+
 	// check argument length
 	// The expression below (expected+1) makes this check ignore the callback
 	if len(args) != expected+1 {
-- 
2.43.0


From 0b342bf3f516d6e49d347bfc44800d42b2a9d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 38/40] fix: keyaddr wasm: wordsFromPrefix with a max which is
 not a number ended the module

---
 cmd/keyaddr/handlers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 05b4689..312f9c0 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -151,6 +151,12 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 
 		lang := remainder[0].String()
 		prefix := remainder[1].String()
+
+		if remainder[2].Type() != js.TypeNumber {
+			jsLogReject(callback, "max must be of type Number")
+			return
+		}
+
 		max := remainder[2].Int()
 
 		// do work
-- 
2.43.0


From 190c47af265cf615dfdbe84ce04a5563c416a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 39/40] fix: keyaddr wasm: a value without counterpart in go,
 or a callback which throws, ended the module

---
 cmd/keyaddr/handlers.go | 13 +++++++++++++
 cmd/keyaddr/helpers.go  |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 312f9c0..66a6b77 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -22,6 +22,7 @@ import (
 // exit will quit the go program, causing the application to no longer respond to function calls.
 func exit(this js.Value, args []js.Value) interface{} {
 	go func() {
+		defer handlePanic("exit")
 		logInfo("keyaddr exiting...")
 
 		// clean args
@@ -48,6 +49,7 @@ func errorHandler(this js.Value, args []js.Value) interface{} {
 // JS Usage: newKey(recoveryBytes, cb)
 func newKey(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("newKey")
 		logDebug("newKey")
 
 		// clean args
@@ -76,6 +78,7 @@ func newKey(this js.Value, args []js.Value) interface{} {
 // language defaults to en if not specified.
 func wordsToBytes(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("wordsToBytes")
 		logDebug("wordsToBytes")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "wordsToBytes")
@@ -113,6 +116,7 @@ func wordsToBytes(this js.Value, args []js.Value) interface{} {
 // JS Usage: deriveFrom(parentKey, parentPath, childPath, cb)
 func deriveFrom(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("deriveFrom")
 		logDebug("deriveFrom")
 		// clean args
 		callback, remainder, err := handleArgs(args, 3, "deriveFrom")
@@ -142,6 +146,7 @@ func deriveFrom(this js.Value, args []js.Value) interface{} {
 // JS Usage: wordsFromPrefix(lang, prefix, max, cb)
 func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("wordsFromPrefix")
 		logDebug("wordsFromPrefix")
 		// clean args
 		callback, remainder, err := handleArgs(args, 3, "wordsFromPrefix")
@@ -173,6 +178,7 @@ func wordsFromPrefix(this js.Value, args []js.Value) interface{} {
 // JS Usage: isPrivate(key, cb)
 func isPrivate(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("isPrivate")
 		logDebug("isPrivate")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "isPrivate")
@@ -203,6 +209,7 @@ func isPrivate(this js.Value, args []js.Value) interface{} {
 // JS Usage: fromString(key, cb)
 func fromString(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("fromString")
 		logDebug("fromString")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "fromString")
@@ -234,6 +241,7 @@ func fromString(this js.Value, args []js.Value) interface{} {
 // JS Usage: wordsFromBytes(lang, base64bytes, cb)
 func wordsFromBytes(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("wordsFromBytes")
 		logDebug("wordsFromBytes")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "wordsFromBytes")
@@ -262,6 +270,7 @@ func wordsFromBytes(this js.Value, args []js.Value) interface{} {
 // JS Usage: ndauAddress(privateKey, cb)
 func ndauAddress(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("ndauAddress")
 		logDebug("ndauAddress")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "ndauAddress")
@@ -290,6 +299,7 @@ func ndauAddress(this js.Value, args []js.Value) interface{} {
 // JS Usage: toPublic(privateKey, cb)
 func toPublic(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("toPublic")
 		logDebug("toPublic")
 		// clean args
 		callback, remainder, err := handleArgs(args, 1, "toPublic")
@@ -320,6 +330,7 @@ func toPublic(this js.Value, args []js.Value) interface{} {
 // JS Usage: child(privateKey, n, cb)
 func child(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("child")
 		logDebug("child")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "child")
@@ -362,6 +373,7 @@ func child(this js.Value, args []js.Value) interface{} {
 // JS Usage: sign(privateKey, base64Message, cb)
 func sign(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("sign")
 		logDebug("sign")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "sign")
@@ -393,6 +405,7 @@ func sign(this js.Value, args []js.Value) interface{} {
 // JS Usage: hardenedChild(privateKey, n, cb)
 func hardenedChild(this js.Value, args []js.Value) interface{} {
 	go func(args []js.Value) {
+		defer handlePanic("hardenedChild")
 		logDebug("hardenedChild")
 		// clean args
 		callback, remainder, err := handleArgs(args, 2, "hardenedChild")
diff --git a/cmd/keyaddr/helpers.go b/cmd/keyaddr/helpers.go
index b6b8e48..f6eb5ea 100644
--- a/cmd/keyaddr/helpers.go
+++ b/cmd/keyaddr/helpers.go
@@ -49,6 +49,15 @@ func dispatchError(msg string) {
 	js.Global().Call("KeyaddrErrorHandler", msg)
 }
 
+// handlePanic keeps a panic from shutting down the module and reports it to the error handler.
+// Arguments which have no counterpart in go and callbacks which throw cause panics.
+// It must be deferred by every handler.
+func handlePanic(source string) {
+	if r := recover(); r != nil {
+		dispatchError(fmt.Sprintf("%s failed: %v", source, r))
+	}
+}
+
 // LogEntry represents a log message for json marshalling.
 type LogEntry struct {
 	Level     string `json:"lvl"`
-- 
2.43.0


From 91de503946f50ab1722b7cacb9f48b1c296bc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 40/40] fix: keyaddr wasm: child and hardenedChild took NaN and
 fractions for child numbers

---
 cmd/keyaddr/handlers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/keyaddr/handlers.go b/cmd/keyaddr/handlers.go
index 66a6b77..6c0c740 100644
--- a/cmd/keyaddr/handlers.go
+++ b/cmd/keyaddr/handlers.go
@@ -347,6 +347,11 @@ func child(this js.Value, args []js.Value) interface{} {
 			return
 		}
 
+		if f := remainder[1].Float(); f != math.Trunc(f) {
+			jsLogReject(callback, "n must be an integer")
+			return
+		}
+
 		n := remainder[1].Int()
 		if n < math.MinInt32 || n > math.MaxInt32 {
 			jsLogReject(callback, "n must not overflow int32")
@@ -422,6 +427,11 @@ func hardenedChild(this js.Value, args []js.Value) interface{} {
 			return
 		}
 
+		if f := remainder[1].Float(); f != math.Trunc(f) {
+			jsLogReject(callback, "n must be an integer")
+			return
+		}
+
 		n := remainder[1].Int()
 		if n < math.MinInt32 || n > math.MaxInt32 {
 			jsLogReject(callback, "n must not overflow int32")
-- 
2.43.0


From 854a1a128bc1c114ce1578d7727cffd3dec307f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 01/11] fix: compare the whole S with the group order when
 testing canonicity

---
 ed25519_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..f6b043f 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -324,8 +324,8 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	sgnS := signature.GetS()
+	return sgnS.Sign() > 0 && sgnS.Cmp(Ed25519Group.GROUP_ORDER) < 0
 }
 
 // MakeSignatureCanonical return canonical signature
-- 
2.43.0


From 568b5e1b5dc89abef5b3479317fde3fbfea1164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 02/11] fix: reject ciphertexts that are not a whole number of
 blocks instead of panicking

---
 ed25519_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index f6b043f..6d84b7e 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -179,6 +179,9 @@ func (ref *Ed25519BlockCipher) Decrypt(input []byte) ([]byte, error) {
 	if len(input) < 64 {
 		return nil, errors.New("input is to short for decryption")
 	}
+	if (len(input)-48)%aes.BlockSize != 0 {
+		return nil, errors.New("input is not a whole number of blocks")
+	}
 
 	salt := input[:ref.keyLength]
 	ivData := input[ref.keyLength:48]
-- 
2.43.0


From 4445f21439702507324bf62e151a9e02e15ec4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 03/11] fix: build the bytes of a signature in fresh memory

---
 signature.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..488481f 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,9 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	b := make([]byte, 0, len(ref.R)+len(ref.S))
+	b = append(b, ref.R...)
+	return append(b, ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From 39bbe9791592cf649505b652642a252453a09b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 04/11] fix: accept every R and S below 2^256 in
 NewSignatureFromBigInt and nothing else

---
 signature.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signature.go b/signature.go
index 488481f..33d62a3 100644
--- a/signature.go
+++ b/signature.go
@@ -7,7 +7,6 @@ package crypto
 import (
 	"encoding/hex"
 	"errors"
-	"math"
 	"math/big"
 
 	"github.com/proximax-storage/go-xpx-utils"
@@ -37,8 +36,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
-		(rInt.Uint64() > math.MaxInt32) ||
-		(sInt.Uint64() > math.MaxInt32) {
+		(rInt.Sign() < 0) || (rInt.BitLen() > 256) ||
+		(sInt.Sign() < 0) || (sInt.BitLen() > 256) {
 		return nil, errBadParamNewSignatureBigInt
 	}
 
-- 
2.43.0


From f81cc7565605a19d564ddcbe946178b0d4390d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 05/11] fix: keep the leading zero bytes of a private key built
 from an integer

---
 key_model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/key_model.go b/key_model.go
index ef1ba0a..5342e1c 100644
--- a/key_model.go
+++ b/key_model.go
@@ -44,7 +44,11 @@ func NewPrivateKey(raw []byte) *PrivateKey {
 
 // NewPrivateKeyFromBigInt creates a new private key from []byte
 func NewPrivateKeyFromBigInt(val *big.Int) *PrivateKey {
-	return &PrivateKey{val, val.Bytes()}
+	raw := val.Bytes()
+	if len(raw) < 32 {
+		raw = append(make([]byte, 32-len(raw)), raw...)
+	}
+	return &PrivateKey{val, raw}
 }
 
 // NewPrivateKeyfromHexString creates a private key from a hex strings.
-- 
2.43.0


From e25d076e021a966740467a683ba6a0a0c32437a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 06/11] fix: Verify refuses public keys that are not 32 bytes

Only the first 32 bytes of a longer public key were decoded, so signatures
were accepted under keys of any length from 32 bytes on.
---
 ed25519_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 6d84b7e..6a8f91c 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -299,7 +299,12 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 	// hReduced = h mod group order
 	hModQ := h.modQ()
 	// Must compute A.
-	A, err := (&Ed25519EncodedGroupElement{rawEncodedA}).Decode()
+	encodedA, err := NewEd25519EncodedGroupElement(rawEncodedA)
+	if err != nil {
+		fmt.Println(err)
+		return false
+	}
+	A, err := encodedA.Decode()
 	if err != nil {
 		fmt.Println(err)
 		return false
-- 
2.43.0


From 4df544556a8ada7643b8b898ae69645521a6f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 07/11] fix: Decrypt returns an error instead of panicking when
 the recipient key is not 32 bytes

The salt and the IV were cut out of the input by the length of the
recipient's public key, which panicked for every other length than 32.
---
 ed25519_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 6a8f91c..9747cdb 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -176,6 +176,9 @@ func (ref *Ed25519BlockCipher) Encrypt(input []byte) ([]byte, error) {
 
 // Decrypt slice byte
 func (ref *Ed25519BlockCipher) Decrypt(input []byte) ([]byte, error) {
+	if ref.keyLength != compressedKeySize {
+		return nil, errors.New("recipient public key must have 32 bytes length")
+	}
 	if len(input) < 64 {
 		return nil, errors.New("input is to short for decryption")
 	}
-- 
2.43.0


From 16539d44b52800fb61d75a8e76848910f853de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 08/11] fix: GetAffineXFromAffineY checks v*x^2 against u and
 keeps x when testing its parity

---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 480e390..715f435 100644
--- a/math.go
+++ b/math.go
@@ -206,7 +206,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 	x := ref.getSqrtOfFraction(u, v)
 
 	vx2 := (&big.Int{}).Mul(v, x)
-	vx2.Mul(v, x)
+	vx2.Mul(vx2, x)
 
 	if v.Sub(vx2, u).Mod(v, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
 		if vx2.Add(vx2, u).Mod(vx2, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
@@ -216,7 +216,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 		x = x.Mul(x, ref.IntsToBigInteger(Ed25519Field.I.Raw)).Mod(x, Ed25519Field.P)
 	}
 
-	isNegative := x.Mod(x, big.NewInt(2)).Cmp(bigIntegerONE()) == 0 // final
+	isNegative := x.Bit(0) == 1
 	if (shouldBeNegative && !isNegative) || (!shouldBeNegative && isNegative) {
 		x = x.Neg(x).Mod(x, Ed25519Field.P)
 	}
-- 
2.43.0


From 2b7b1b845ada93b63951f521e7fe63f62f3690e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 09/11] fix: ToGroupElement no longer clears the sign bit in
 the caller's bytes

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 715f435..54fad92 100644
--- a/math.go
+++ b/math.go
@@ -172,8 +172,8 @@ func (ref *mathUtils) ToFieldElement(b *big.Int) *Ed25519FieldElement {
 func (ref *mathUtils) ToGroupElement(bytes []byte) (*Ed25519GroupElement, error) {
 
 	shouldBeNegative := (bytes[31] >> 7) != 0
-	bytes[31] &= 0x7f
 	y := ref.BytesToBigInteger(bytes)
+	y.SetBit(y, 255, 0)
 	x, err := ref.GetAffineXFromAffineY(y, shouldBeNegative)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b2f5e5bd257925d1592f0ce5856ee7a96cea2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 10/11] fix: ToRepresentation halves the sums of a PRECOMPUTED
 point instead of inverting them

---
 math.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/math.go b/math.go
index 54fad92..cfe5034 100644
--- a/math.go
+++ b/math.go
@@ -287,12 +287,9 @@ func (ref *mathUtils) ToRepresentation(g *Ed25519GroupElement, newCoorSys Coordi
 
 		return ref.getNeeCoor(x, y, newCoorSys)
 	case PRECOMPUTED:
-		// safaty gX for next calculation
-		x := (&big.Int{}).Sub(gX, gY)
-		x = x.Mul(x, gZ.Mul(gZ, big.NewInt(2))).ModInverse(x, Ed25519Field.P).Mod(x, Ed25519Field.P)
-
-		y := gX.Add(gX, gY)
-		y = y.Mul(y, big.NewInt(2)).ModInverse(y, Ed25519Field.P).Mod(y, Ed25519Field.P)
+		// X = y + x, Y = y - x
+		x := xMulYModInverseAndModP((&big.Int{}).Sub(gX, gY), big.NewInt(2))
+		y := xMulYModInverseAndModP((&big.Int{}).Add(gX, gY), big.NewInt(2))
 		return ref.getNeeCoor(x, y, newCoorSys)
 	}
 	return nil, errors.New("NewUnsupportedOperationException")
-- 
2.43.0


From c3d67c3e894ab772dbb244daf315070502e7dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:52 +0000
Subject: [PATCH 11/11] fix: XMulY_Plus_ZMulT_DelD no longer writes into the
 words of its first operand

---
 math.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index cfe5034..c0ef4f4 100644
--- a/math.go
+++ b/math.go
@@ -538,8 +538,9 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 }
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
-	b := &x
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	// x shares its words with the caller's integer and must not be written
+	b := (&big.Int{}).Mul(&x, y)
+	return b.Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0


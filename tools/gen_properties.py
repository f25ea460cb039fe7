#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the statements).
import json,os
F="ed25519_encode.go"; M="ed25519_model.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook="none"):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":s,"meaning":"shared package state reached by every operation"} for s in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
p("C01","Every signature that is produced verifies",
 "For every private key and every message of any length, signing succeeds and verifying the produced signature over the same message with the matching public key returns true. This also holds when several messages are signed and verified one after another with the same signer.",
 ["inputs","histories"],"all private keys, all messages of any length, any sequence of sign and verify calls",
 "Tests sign a handful of random messages; a wrong carry, window digit or length branch shows only for rare hash values, scalars or lengths.",
 [M,F],[("Sign",M),("Verify",M),("modQ / multiplyAndAddModQ / scalar multiplication",F)],["Signer.Sign","Signer.Verify"])
p("C02","Verification accepts exactly the valid signatures",
 "Verification returns true if and only if the public key is not all zero and decodes to a curve point A, the scalar S is canonical (0 < S < group order), and the encoding of S*B - H(R,A,M)*A equals the R of the signature, where H is SHA3-512 over R, the public key bytes and the whole message. Every other combination of key, message and signature is rejected with false.",
 ["inputs"],"all 32-byte public keys, all messages of any length, all 64-byte signatures",
 "A forged input that is wrongly accepted is one in 2^250; tests only try a few tampered bytes.",
 [M,F],[("Verify",M),("IsCanonicalSignature",M),("doubleScalarMultiplyVariableTime / slide",F)],["Signer.Verify"])
p("C03","Signatures are not malleable and can be made canonical",
 "A signature is reported canonical exactly when its S, as a 256-bit little-endian integer, lies strictly between 0 and the group order; in particular S plus any multiple of the group order is never accepted by verification. Canonicalisation returns a signature with the same R and with S reduced modulo the group order, leaves an already canonical signature unchanged in value, and does not modify its argument.",
 ["inputs"],"all 32-byte R and S",
 "Tests check two or three hand-picked S values; the boundary cases live in 2^256 values.",
 [M,"signature.go"],[("IsCanonicalSignature",M),("MakeSignatureCanonical",M),("GetS","signature.go")],["Signer.IsCanonicalSignature","Signer.MakeSignatureCanonical","Signer.Verify"])
p("C04","Signing is deterministic Ed25519 with SHA3-512",
 "The signature of a message is a pure function of the private key, the public key and the message: with h = SHA3-512(private key), a = clamped low half of h, r = SHA3-512(high half of h, message) mod L, R = encode(r*B) and S = (r + SHA3-512(R, public key, message)*a) mod L. Every byte of the message and all 32 bytes of the high half of h enter the nonce, so two different messages never share a nonce short of a hash collision, and no entropy source is consulted.",
 ["inputs"],"all private keys, public keys and messages of any length",
 "A nonce that ignores part of its input still produces signatures that verify; tests cannot see it.",
 [M,F],[("Sign",M),("PrepareForScalarMultiply",F),("HashesSha3_512","crypto.go")],["Signer.Sign"])
p("C05","Public key derivation is the clamped SHA3-512 base-point multiple",
 "The public key of a private key is the 32-byte encoding of a*B, where a is the low half of SHA3-512(private key) with bits 0,1,2 and 255 cleared and bit 254 set. The derivation depends only on the private key bytes and never modifies them.",
 ["inputs"],"all private key byte strings",
 "Test vectors cover a few keys out of 2^256; errors in clamping, digit recoding or table entries show only for particular scalars.",
 [M,F],[("DerivePublicKey",M),("PrepareForScalarMultiply",F),("scalarMultiply / toRadix16 / Select",F)],["KeyGenerator.DerivePublicKey","NewKeyPair"])
p("C06","Key generation takes the key from 32 bytes of entropy or fails",
 "Generating a key pair reads exactly 32 bytes from the configured entropy source, uses them unchanged as the private key and pairs it with its derived public key. If the source delivers fewer than 32 bytes or an error, generation returns an error and no key, however the source splits its reads; without a configured source the operating system's cryptographic source is used.",
 ["inputs","fault_sequences"],"all entropy contents, all splittings into partial reads, all failure points",
 "Tests use the real entropy source, which never fails and never delivers short reads.",
 [M,"key_pair.go"],[("GenerateKeyPair",M),("NewEd25519KeyGenerator",M)],["KeyGenerator.GenerateKeyPair","NewRandomKeyPair"])
p("C07","Decrypting what was encrypted returns the message",
 "For any two key pairs, any message and any entropy, the ciphertext produced by the sender's cipher is decrypted by the recipient (knowing its own private key and the sender's public key) to exactly the original message. The sender's and the recipient's cipher objects can be reused for any number of messages.",
 ["inputs","histories"],"all key pairs, messages of all lengths including empty and block multiples, all salts and IVs, repeated use",
 "Tests encrypt one or two fixed messages; padding, salt mixing and shared-key errors depend on lengths and key bits.",
 [M,F],[("Encrypt / Decrypt / encode / decode / GetSharedKey",M)],["BlockCipher.Encrypt","BlockCipher.Decrypt"])
p("C08","Ciphertexts are salt, IV and CBC blocks from fresh entropy",
 "A ciphertext consists of 32 salt bytes, 16 IV bytes and the AES-256-CBC encryption of the message with 1 to 16 bytes of PKCS#7 padding, so its length is 48 plus the next larger multiple of 16. Salt and IV are disjoint fresh bytes of the configured entropy source for every message, and if the source fails or runs short encryption returns an error and no ciphertext; without a configured source the operating system's cryptographic source is used.",
 ["inputs","fault_sequences","histories"],"all messages, all entropy contents, all short reads and failures, successive encryptions",
 "A reused or partly constant IV, or an ignored read error, still decrypts correctly.",
 [M],[("Encrypt",M),("encode",M),("NewEd25519BlockCipher",M)],["BlockCipher.Encrypt"])
p("C09","Decryption of arbitrary bytes never crashes and checks the padding",
 "Decrypting any byte string returns either a message or an error and never panics. Inputs shorter than 64 bytes, inputs whose body is not a whole number of 16-byte blocks and inputs whose last decrypted block does not end in n copies of the byte n with 1 <= n <= 16 are rejected with an error; every other input yields exactly the decrypted bytes without those n padding bytes.",
 ["inputs"],"all byte strings as ciphertext, all keys",
 "Tests tamper with a few positions; the space of lengths and padding bytes is not sampled.",
 [M],[("Decrypt",M),("decode",M)],["BlockCipher.Decrypt"])
p("C10","Both parties derive the same shared key, bound to the whole salt",
 "For every two key pairs and every 32-byte salt, the key derived from (own private key, other's public key, salt) is the same on both sides, and equals SHA3-256 of the encoding of the product point with every salt byte XORed in. Public keys that are not 32 bytes or not on the curve are rejected with an error, and the salt and the keys are left unmodified.",
 ["inputs"],"all pairs of private keys, all public key bytes, all salts",
 "Agreement for a sampled pair says nothing about scalars that trigger rare digit patterns or about salt bytes that are ignored.",
 [M,F],[("GetSharedKey",M),("PrecomputeForScalarMultiplication / scalarMultiply",F)],["Ed25519BlockCipher.GetSharedKey"])
p("C11","Field arithmetic is exact modulo 2^255-19",
 "Addition, subtraction, negation, multiplication, squaring and doubled squaring of field elements return a representation of the exact result modulo p = 2^255-19 for every pair of limb representations within the documented bounds, without integer overflow, and products stay within the documented output bounds. Operands are not modified.",
 ["inputs"],"all limb vectors within the documented input bounds",
 "A missing carry or a wrong cross term shows only for extreme limb values; the repository's random elements have constant limbs.",
 [F],[("add / subtract / negate / multiply / square / squareAndDouble / squareAndOptionalDouble",F)])
p("C12","Field inversion and square roots are exact",
 "Inversion returns x^(p-2), hence the multiplicative inverse of every non-zero x, and the square-root routine returns u*v^3*(u*v^7)^((p-5)/8) for all field elements u and v. Together this makes point decompression find a root whenever one exists.",
 ["inputs"],"all field elements",
 "An addition chain with a wrong exponent is wrong for almost all inputs but a chain wrong by a factor of small order passes for many.",
 [F],[("invert / pow2to9 / pow2to252sub4 / Ed25519FieldElementSqrt",F)])
p("C13","Field elements encode canonically and decode exactly",
 "Encoding a field element yields the 32-byte little-endian integer of its unique representative in [0, p) for every limb representation within bounds, decoding yields an element congruent to the low 255 bits of the input, and decode followed by encode returns the input reduced modulo p. Sign, non-zero and equality tests therefore depend only on the value modulo p, not on the representation.",
 ["inputs"],"all limb vectors within bounds, all 32-byte strings",
 "Values in [p, 2^255) and limb vectors around multiples of p are 19 in 2^255.",
 [F],[("modP / Encode / Decode / IsNegative / IsNonZero / Equals",F)])
p("C14","Scalar reduction and multiply-add modulo the group order are exact",
 "Reducing any 64-byte integer modulo the group order L returns its unique representative in [0, L) as 32 bytes, and multiply-and-add returns the unique representative of a*b+c modulo L for all 32-byte a, b and c, without integer overflow. Inputs are not modified, and encoded scalars of a length other than 32 or 64 bytes are rejected on construction.",
 ["inputs"],"all 64-byte strings; all triples of 32-byte strings",
 "Carry errors occur for a fraction of inputs far too small to sample; a non-canonical result is only off by one multiple of L.",
 [F],[("modQ / multiplyAndAddModQ / NewEd25519EncodedFieldElement",F)])
p("C15","Point addition, subtraction, doubling and negation follow the curve's group law",
 "For all curve points in every supported projective representation, addition, subtraction (full and precomputed form), doubling and negation return a representation of the point given by the twisted Edwards addition law, including the neutral element, equal operands and opposite operands. Conversions between coordinate systems preserve the point, and unsupported coordinate systems are refused.",
 ["inputs"],"all pairs of curve points, all non-zero projective scalings",
 "Sampled points never hit exceptional combinations such as P+P, P-P or the neutral element in all coordinate systems.",
 [F],[("add / subtract / precomputedAdd / precomputedSubtract / dbl / negate / toCoordinateSystem",F)])
p("C16","Points encode and decode without loss",
 "Encoding a curve point in any supported coordinate system returns its affine y in canonical form with the parity of its affine x in the top bit; decoding a 32-byte string returns the curve point with that y and that parity of x, or an error exactly when no curve point has that y. Strings of another length are rejected, encode after decode is the identity on canonical encodings, and the input bytes are not modified.",
 ["inputs"],"all 32-byte strings, all curve points in all representations",
 "Half of all strings are invalid for algebraic reasons that samples cannot exhaust; sign handling at x = 0 and y >= p needs specific inputs.",
 [F],[("Ed25519GroupElement.Encode",F),("Ed25519EncodedGroupElement.Decode / GetAffineX / GetAffineY",F)])
p("C17","Scalar multiplication computes the exact multiple",
 "For every scalar below 2^255 and every curve point whose lookup table has been precomputed, scalar multiplication returns exactly that multiple of the point; the built-in lookup tables of the base point and tables computed on demand contain exactly the multiples they stand for. The digit recoding it relies on represents every such scalar exactly with digits from -8 to 8, and table selection returns the right signed multiple for every such digit.",
 ["inputs"],"all scalars below 2^255, all points",
 "Each of 256 built-in table entries and each digit value at each position needs its own input.",
 [F,"ed25519_const.go"],[("scalarMultiply / toRadix16 / Select / cmov",F),("PrecomputeForScalarMultiplication",F),("basePrecSingle","ed25519_const.go")])
p("C18","Double scalar multiplication computes b*B - a*A exactly",
 "For all scalars a and b below the group order and every curve point A whose double-multiplication table has been precomputed, double scalar multiplication returns b*B - a*A. The sliding-window recoding it relies on represents every such scalar exactly with odd digits of absolute value at most 15, and the built-in and computed odd-multiple tables contain exactly the multiples they stand for.",
 ["inputs"],"all pairs of scalars below the group order, all points A",
 "Negative windows, long carry chains and every table entry need specific bit patterns.",
 [F,"ed25519_const.go"],[("doubleScalarMultiplyVariableTime / slide",F),("PrecomputeForDoubleScalarMultiplication",F),("basePrecDouble","ed25519_const.go")])
p("C19","Point equality and curve membership ignore the representation",
 "Comparing two points returns true exactly when they are the same curve point, whatever projective scaling or (convertible) coordinate system represents them, and never modifies them or crashes. The curve-membership test returns true exactly for representations whose affine coordinates satisfy the curve equation.",
 ["inputs"],"all pairs of points and scalings, all coordinate values",
 "Tests compare points scaled by a few constants.",
 [F],[("Ed25519GroupElement.Equals",F),("SatisfiesCurveEquation",F)])
p("C20","Signatures survive serialisation and reject malformed input",
 "Building a signature from its 64 bytes, from two 32-byte halves or from the integers R and S, and converting it back to bytes, hexadecimal text or integers returns the original for every value of R and S below 2^256; inputs of another length, absent integers and integers outside 0..2^256-1 are rejected with an error. Converting a signature to bytes or text never writes to the signature or to memory shared with its creator.",
 ["inputs"],"all byte strings of all lengths, all integers",
 "Integer constructors misbehave only for values with particular low words; memory sharing shows only for particular slice capacities.",
 ["signature.go"],[("NewSignature / NewSignatureFromBytes / NewSignatureFromBigInt / Bytes / String / GetR / GetS","signature.go")])
p("C21","Keys survive parsing and formatting",
 "A private or public key parsed from hexadecimal text holds exactly the 32 bytes the text denotes (an odd number of digits is read with a leading zero), formatting gives the full hexadecimal text back, and text that is not hexadecimal or does not denote exactly 32 bytes is rejected with an error. A private key built from an integer below 2^256 is the same key as the one parsed from that integer's 64-digit hexadecimal form.",
 ["inputs"],"all texts, all 32-byte keys, all integers below 2^256",
 "Leading zeros occur in one of 256 keys and lengths around 63/64/65 digits must all be tried.",
 ["key_model.go"],[("NewPrivateKeyfromHexString / NewPublicKeyfromHex / NewPrivateKeyFromBigInt / String","key_model.go")])
p("C22","Operations do not modify their inputs or any shared state",
 "Deriving, signing, verifying, encrypting, decrypting, encoding, decoding and all point and scalar operations leave the caller's messages, keys, signatures, ciphertexts and the library's shared constants and lookup tables unmodified, and keep no hidden state between calls. Repeating any operation after any sequence of other operations gives the same result, and concurrent use of the same keys from several goroutines is free of data races.",
 ["inputs","histories","schedules"],"all inputs, all sequences of operations, all interleavings",
 "Corruption of a shared table or of a caller's buffer shows only in later, unrelated calls, and a race only in rare interleavings.",
 [M,F,"signature.go","key_model.go"],[("BASE_POINT / copy",F),("GetSharedKey",M),("Signature.Bytes","signature.go")],state=["Ed25519Group.basePoint","basePrecSingle","basePrecDouble","Ed25519Field"])
p("C23","Key pairs, signers and ciphers are wired to the right engine and keys",
 "A key pair built from a private key alone carries its derived public key; one built with a public key keeps exactly that key and is refused when the key is not 32 bytes; a missing engine means the default engine. Signing with a key pair that has no private key returns an error instead of a signature, and signer and cipher facades hand the caller's data and keys unchanged to the engine's implementation and return its results unchanged.",
 ["inputs","configurations"],"all keys, present or absent private/public key, present or absent engine",
 "Tests exercise each constructor once with the default engine.",
 ["key_pair.go","signer.go","crypto_engine.go","cipher_model.go",M],[("NewKeyPair","key_pair.go"),("NewSignerFromKeyPair","signer.go"),("NewBlockCipher","cipher_model.go"),("Sign without private key",M)])
p("C24","Hash helpers hash all of their input with the named algorithm",
 "Each hash helper returns, without error, the digest of the named algorithm (SHA-256, legacy Keccak-256, SHA3-256, SHA3-512, RIPEMD-160) over its complete input, and the multi-part helper over the concatenation of all its parts in order. The inputs are not modified and calls are independent of each other.",
 ["inputs","histories"],"all inputs of all lengths, all splittings into parts, repeated calls",
 "Tests compare one digest per algorithm.",
 ["crypto.go"],[("HashesSha_256 / HashesKeccak_256 / HashesSha3_256 / HashesSha3_512 / HashesRipemd160","crypto.go")])
p("C25","Verification and signing are total on hostile input",
 "Verifying any signature accepted by the constructors against any public key bytes and any message returns true or false and never panics, whatever the key length and whether or not the key is a curve point. Byte comparisons used on the way return true exactly for equal byte strings of equal length.",
 ["inputs"],"all public key byte strings, all constructor-accepted signatures, all messages",
 "Crash inputs such as undecodable keys of odd lengths are not in the tests.",
 [M,F,"crypto.go"],[("Verify",M),("NewEd25519EncodedGroupElement / Decode",F),("isEqualConstantTime","crypto.go")])
p("C26","Secret scalars do not influence control flow or memory addresses",
 "Multiplying a point by a secret scalar executes the same sequence of branches and memory accesses for every scalar.",
 ["inputs"],"all secret scalars",
 "Timing behaviour is invisible to functional tests.",
 [F],[("Select / cmov",F)])
p("C27","Big-integer helper conversions agree with the field and scalar code",
 "The exported big-integer helpers convert encoded scalars and field elements to integers and back without loss and reduce and multiply-add modulo the group order exactly.",
 ["inputs"],"all 32-byte and 64-byte strings, all non-negative integers below 2^256",
 "Tests use random samples produced by the helpers themselves.",
 ["math.go"],[("BytesToBigInteger / ToByteArray / ToEncodedFieldElement / ReduceModGroupOrder / MultiplyAndAddModGroupOrder","math.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))

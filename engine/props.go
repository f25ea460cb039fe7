package main

// The properties and the symbolic runs that decide them.

type Prop struct {
	id     string
	level  string
	bounds []string
	assume []string
	specs  func() []RunSpec
}

func cat(l ...[]RunSpec) (r []RunSpec) {
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}
func one(h string, to int, ps ...int64) []RunSpec {
	return []RunSpec{{H: h, Params: ps, Timeout: to}}
}
func thorough(l []RunSpec) []RunSpec {
	var r []RunSpec
	for _, s := range l {
		s.Tier = "thorough"
		r = append(r, s)
	}
	return r
}
func each(h string, to int, ns ...int64) (r []RunSpec) {
	for _, n := range ns {
		r = append(r, RunSpec{H: h, Params: []int64{n}, Timeout: to})
	}
	return r
}

func dep(l []RunSpec) []RunSpec {
	var r []RunSpec
	for _, s := range l {
		s.Dep = true
		r = append(r, s)
	}
	return r
}

// the specifications of the field layer
func l1Field() []RunSpec {
	return cat(one("H_Invert", 60), one("H_InvertZero", 30), one("H_Sqrt", 60), one("H_SqrtZero", 30))
}

// the group layer: conversions and group law
func l2Law() []RunSpec {
	return cat(one("H_GAdd", 60), one("H_GPre", 60), one("H_GDbl", 60), one("H_GNeg", 60), one("H_GConv", 60), one("H_GZero", 60))
}
func l2Codec() []RunSpec {
	return cat(each("H_GEnc", 60, 0, 1, 2), each("H_GDec", 90, 0, 1), one("H_GDecEnc", 90))
}
func l2Eq() (r []RunSpec) {
	for a := int64(1); a <= 5; a++ {
		for b := int64(1); b <= 5; b++ {
			r = cat(r, one("H_GEq", 60, a, b, 0), one("H_GEq", 60, a, b, 1))
		}
	}
	for a := int64(0); a < 3; a++ {
		r = cat(r, one("H_GCurve", 60, a, 0), one("H_GCurve", 60, a, 1))
	}
	return cat(r, one("H_GEqNil", 60))
}

func l0Arith() []RunSpec {
	return cat(one("H_L0_mul", 120), one("H_L0_square", 120), one("H_L0_sqdbl", 120), one("H_L0_addsub", 60), one("H_L0_addsub2", 60))
}
func l0Codec() []RunSpec {
	return cat(one("H_L0_encode", 120), one("H_L0_encode2", 120), one("H_L0_decode", 120))
}
func l0Scalar() []RunSpec {
	return cat(one("H_L0_modQ", 200), one("H_L0_madd", 250))
}

// what the contracts of the signature and cipher layers stand for
func lowerLayers() []RunSpec {
	return dep(cat(one("H_GMul", 120), one("H_GMulBase", 120), one("H_Tables", 60, 0), one("H_Radix16", 60), each("H_Select", 60, rng(0, 31, 1)...),
		each("H_GEnc", 60, 0, 1), each("H_GDec", 90, 0, 1), l2Law(), l1Field(), l0Arith(), l0Codec()))
}
func doubleLayer() []RunSpec {
	return dep(cat(one("H_GDouble", 120, 0), one("H_GDouble", 120, 1), one("H_Tables", 60, 1), slideSpecs()))
}

var sigAssume = []string{"SHA3-512 is a function of the concatenation of its inputs, otherwise arbitrary", "the base point has order L and the curve group order 8L; completeness of the Edwards law (see C15); Euler's criterion (see C12)"}
var cipherAssume = []string{"SHA3 and AES-256 are functions of their inputs, the two directions of AES inverse to each other, otherwise arbitrary", "the base point has order L and the curve group order 8L; completeness of the Edwards law (see C15); Euler's criterion (see C12)"}

func ownKeySpecs() []RunSpec {
	r := pairs("H_OwnKeyLen", 60, []int64{0, 31, 33, 64}, []int64{64, 80})
	for k := int64(0); k <= 66; k++ {
		if k != 32 {
			r = cat(r, thorough(pairs("H_OwnKeyLen", 60, []int64{k}, []int64{0, 48, 63, 64, 96})))
		}
	}
	return r
}

func cipherLens(h string, to int, q []int64, max int64) []RunSpec {
	r := each(h, to, q...)
	for n := int64(0); n <= max; n++ {
		in := false
		for _, k := range q {
			in = in || k == n
		}
		if !in {
			r = cat(r, thorough(each(h, to, n)))
		}
	}
	return r
}

func keyGenSpecs() []RunSpec {
	r := cat(each("H_KeyGen", 60, rng(0, 10, 1)...), one("H_KeyGenOS", 60))
	for n := int64(0); n < 32; n++ {
		for k := int64(0); k <= 10; k++ {
			s := one("H_KeyGenFail", 60, n, k)
			if n > 1 && n < 31 && k != 0 && (n+k)%8 != 0 {
				s = thorough(s)
			}
			r = cat(r, s)
		}
	}
	return r
}

func encryptSpecs() []RunSpec {
	var r []RunSpec
	for _, n := range []int64{0, 1, 15, 16, 17, 31, 32, 33, 48} {
		r = cat(r, one("H_Encrypt", 60, n, n%11))
	}
	for k := int64(0); k <= 10; k++ {
		r = cat(r, one("H_Encrypt", 60, 5, k))
	}
	for n := int64(0); n <= 100; n++ {
		r = cat(r, thorough(one("H_Encrypt", 60, n, (n+3)%11)))
	}
	for n := int64(0); n < 48; n++ {
		for k := int64(0); k <= 10; k++ {
			s := one("H_EncryptFail", 60, n, k)
			if n != 0 && n != 1 && n != 31 && n != 32 && n != 33 && n != 47 && (n+k)%8 != 0 {
				s = thorough(s)
			}
			if k != 0 && k != 3 && k != 6 && (n+k)%4 != 0 {
				s = thorough(s)
			}
			r = cat(r, s)
		}
	}
	return cat(r, one("H_EncryptOS", 60))
}

var props = []*Prop{
	{id: "C01", level: "model_checking", bounds: []string{"every private key of 32 bytes, messages of any length; one and two (thorough: three) messages in a row; two key pairs and messages in turn; a message buffer of 5 (thorough: 0..100) bytes that gets new contents", "the lower layers as in C17 and C18"},
		assume: sigAssume,
		specs: func() []RunSpec {
			return cat(each("H_SignVerify", 120, 1, 2), thorough(each("H_SignVerify", 200, 3)), each("H_SignBuf", 120, 5), thorough(each("H_SignBuf", 120, 0, 1, 32, 72, 100)), one("H_SignTwo", 120), lowerLayers(), doubleLayer(), dep(l0Scalar()))
		}},
	{id: "C02", level: "model_checking", bounds: []string{"every public key of 32 bytes and of 0, 31, 33, 63, 64 (thorough: 0..130) bytes, every pair of 32-byte halves, messages of any length; two keys in turn; message and signature buffers that get new contents", "the lower layers as in C17 and C18"},
		assume: sigAssume,
		specs: func() []RunSpec {
			return cat(one("H_Verify", 120), one("H_VerifyHigh", 60), each("H_VerifyBuf", 120, 5), thorough(each("H_VerifyBuf", 120, 0, 1, 32, 72, 100)), one("H_VerifyTwo", 120), cipherLens("H_Hostile", 60, []int64{0, 31, 33, 63, 64}, 130), lowerLayers(), doubleLayer(), dep(l0Scalar()))
		}},
	{id: "C03", level: "proof", bounds: []string{"every pair of 32-byte halves, every 32-byte public key, messages of any length"},
		specs: func() []RunSpec {
			return cat(one("H_Canonical", 60), one("H_MakeCanonical", 60), one("H_VerifyHigh", 60), dep(l0Scalar()))
		}},
	{id: "C04", level: "proof", bounds: []string{"every private key of 0, 32, 33, 64 bytes and public key of 0, 32, 33 bytes (thorough: more lengths), messages of any length; two key pairs in turn; a message buffer that gets new contents"},
		assume: sigAssume,
		specs: func() []RunSpec {
			return cat(one("H_Sign", 120, 32, 32), pairs("H_Sign", 120, []int64{0, 33, 64}, []int64{0, 33}), thorough(pairs("H_Sign", 120, []int64{1, 31, 32, 48, 63, 65, 128}, []int64{0, 1, 31, 33, 64})), each("H_SignBuf", 120, 5), one("H_SignTwo", 120), lowerLayers(), dep(l0Scalar()))
		}},
	{id: "C05", level: "proof", bounds: []string{"every private key of 32 bytes, and of 0, 1, 31, 33 and 64 (thorough: 0..66) bytes; three derivations in a row"},
		assume: sigAssume,
		specs: func() []RunSpec {
			return cat(cipherLens("H_Derive", 60, []int64{0, 1, 31, 32, 33, 64}, 66), pairs("H_DeriveTwo", 60, []int64{32}, []int64{32, 31, 33, 64}), lowerLayers())
		}},
	{id: "C06", level: "model_checking", bounds: []string{"every entropy content; 11 ways of splitting reads; every failure point (quick: a part of the combinations)"},
		assume: cipherAssume,
		specs:  func() []RunSpec { return cat(keyGenSpecs(), lowerLayers()) }},
	{id: "C07", level: "model_checking", bounds: []string{"every pair of private keys, every salt and IV, every message of the listed lengths (thorough: 0..100); 4 messages in both directions decrypted in another order; a message buffer that gets new contents"},
		assume: cipherAssume,
		specs: func() []RunSpec {
			return cat(cipherLens("H_Crypt", 90, []int64{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 64}, 100), one("H_CryptReuse", 120), each("H_CryptBuf", 120, 1, 16, 17), thorough(each("H_CryptBuf", 120, 0, 15, 32, 33, 64, 100)), one("H_SharedKey", 60), lowerLayers())
		}},
	{id: "C08", level: "model_checking", bounds: []string{"every key, entropy content and message of the listed lengths (thorough: 0..100), two messages in a row; 11 ways of splitting reads; every failure point (quick: a part of the combinations)"},
		assume: cipherAssume,
		specs:  func() []RunSpec { return cat(encryptSpecs(), lowerLayers()) }},
	{id: "C09", level: "model_checking", bounds: []string{"every byte string of the listed lengths (thorough: 0..112), every 32-byte sender key, every recipient key; recipient public keys of 0, 31, 33, 64 (thorough: 0..66) bytes"},
		assume: cipherAssume,
		specs: func() []RunSpec {
			return cat(cipherLens("H_Decrypt", 120, []int64{0, 1, 16, 31, 32, 47, 48, 49, 63, 64, 65, 72, 79, 80}, 112), ownKeySpecs(), thorough(pairs("H_DecryptTwo", 200, []int64{64}, []int64{64, 80, 96})), lowerLayers())
		}},
	{id: "C10", level: "model_checking", bounds: []string{"every pair of private keys, every salt, three derivations with one cipher object; public keys: every string of the listed lengths (thorough: 0..66)"},
		assume: cipherAssume,
		specs: func() []RunSpec {
			return cat(one("H_SharedKey", 60), one("H_SharedTwo", 60), cipherLens("H_SharedKeyBad", 60, []int64{0, 1, 31, 32, 33, 64}, 66), lowerLayers())
		}},
	{id: "C11", level: "proof", bounds: []string{"limbs: |f_i| <= 1.65*2^26 (even i), 1.65*2^25 (odd i), all 20 limbs independent"},
		specs: l0Arith},
	{id: "C12", level: "proof", bounds: []string{"every field element in every limb representation within 1.65*2^26 / 1.65*2^25"},
		assume: []string{"Euler's criterion: u v^3 (u v^7)^((p-5)/8) squares to u/v up to a fourth root of unity exactly when u/v is a square up to sign"},
		specs:  func() []RunSpec { return cat(l1Field(), each("H_GDec", 90, 0), dep(l0Arith())) }},
	{id: "C13", level: "proof", bounds: []string{"encoding: limbs |f_i| <= 1.1*2^26 / 1.1*2^25; decoding: every 32-byte string"},
		specs: l0Codec},
	{id: "C14", level: "proof", bounds: []string{"every 64-byte integer; every triple of 32-byte integers; constructor lengths 0..129"},
		specs: func() []RunSpec {
			return cat(l0Scalar(), each("H_L0_lengths", 20, 0, 1, 31, 32, 33, 63, 64, 65, 128))
		}},
	{id: "C15", level: "proof", bounds: []string{"every curve point, every projective scaling, every limb representation within the verified bounds"},
		assume: []string{"1 +- d x1 x2 y1 y2 is not zero for points of the curve (completeness of the Edwards law, as d is not a square)"},
		specs: func() []RunSpec {
			return cat(l2Law(), one("H_GRefuse", 60), one("H_GRefuseOp", 60), dep(l0Arith()))
		}},
	{id: "C16", level: "proof", bounds: []string{"every curve point in P2, P3 and P1xP1 with every scaling, every 32-byte string, lengths 0..66"},
		assume: []string{"-1/d is not a square modulo p", "Euler's criterion (see C12)"},
		specs: func() []RunSpec {
			return cat(l2Codec(), one("H_GAffine", 60), each("H_GDecLen", 30, 0, 1, 31, 33, 64), dep(cat(l1Field(), l0Arith(), l0Codec())))
		}},
	{id: "C17", level: "proof", bounds: []string{"every scalar below 2^255, every curve point, all 256 table entries, every digit -8..8 at every row"},
		assume: []string{"completeness of the Edwards law (see C15)"},
		specs: func() []RunSpec {
			return cat(one("H_GMul", 120), one("H_GMulBase", 120), one("H_Tables", 60, 0), one("H_Tables", 60, 1), one("H_Radix16", 60),
				each("H_Select", 60, rng(0, 31, 1)...), dep(cat(l2Law(), l1Field(), l0Arith(), l0Codec())))
		}},
	{id: "C18", level: "model_checking", bounds: []string{"every pair of scalars below the group order, every point A, over a recoding of the scalar into odd digits", "recoding: every window of 8 bits (thorough: 10) at offsets 0..245, the bits above all zero or all one"},
		assume: []string{"completeness of the Edwards law (see C15)"},
		specs: func() []RunSpec {
			r := cat(one("H_GDouble", 120, 0), one("H_GDouble", 120, 1), one("H_Tables", 60, 0), one("H_Tables", 60, 1), slideSpecs())
			return cat(r, dep(cat(l2Law(), l1Field(), l0Arith(), l0Codec())))
		}},
	{id: "C19", level: "proof", bounds: []string{"every pair of points of the curve in P2, P3, P1xP1, PRECOMPUTED and CACHED coordinates with every scaling"},
		specs: func() []RunSpec {
			return cat(l2Eq(), dep(cat(l1Field(), l0Arith(), l0Codec())))
		}},
	{id: "C20", level: "model_checking", bounds: []string{"every 64-byte string, every pair of 32-byte halves, all integers in -2^520..2^520, lengths 0..129"},
		specs: sigSpecs},
	{id: "C21", level: "model_checking", bounds: []string{"every text of 0..66 characters (thorough: 0..129), every integer below 2^256, every byte string of 0..64 bytes"},
		specs: keySpecs},
	{id: "C22", level: "model_checking", bounds: []string{"every operation of the package on all inputs (messages of 20 bytes or any length), each run between a freeze of all existing memory and the check that none of it is written; sequences of up to three operations"},
		assume: append([]string{"an operation that writes only memory it allocates itself cannot race with or influence another one (no goroutines are started by the package)"}, cipherAssume...),
		specs:  quietSpecs},
	{id: "C23", level: "model_checking", bounds: []string{"every key, message, signature, answer and error of a stub engine; public keys of 0, 1, 31, 32, 33, 64 (thorough: 0..66) bytes"},
		assume: cipherAssume,
		specs: func() []RunSpec {
			return cat(cipherLens("H_WireKeys", 60, []int64{0, 1, 31, 32, 33, 64}, 66), one("H_WireEngine", 60), one("H_WireSign", 60), one("H_WireCipher", 60), one("H_WireReal", 60), one("H_WireDefault", 60), one("H_SignNoKey", 60), lowerLayers())
		}},
	{id: "C24", level: "model_checking", bounds: []string{"inputs of any length as one opaque string; every byte string of the listed lengths; up to 5 parts of any length; up to 10 calls in sequence"},
		assume: []string{"the hash implementations of the standard library and golang.org/x/crypto behave as functions of the complete input"},
		specs:  hashSpecs},
	{id: "C25", level: "model_checking", bounds: []string{"public keys: every string of 0, 1, 16, 31, 32, 33, 63, 64, 65 (thorough: 0..130) bytes; every pair of halves; messages of any length; comparisons of strings of 0..66 bytes"},
		assume: sigAssume,
		specs:  hostileSpecs},
	{id: "C27", level: "model_checking", bounds: []string{"every byte string of the listed lengths, every integer below 2^600, every triple of 32-byte strings"},
		specs: mathSpecs},
	{id: "C28", level: "model_checking", bounds: []string{"every pair of curve points in every projective scaling and limb representation within the verified bounds; conversions between any two coordinate systems; every canonical y with either sign bit; every canonical multiplier (255 loop steps unrolled)"},
		assume: []string{"1 +- d x1 x2 y1 y2 is not zero for points of the curve (completeness of the Edwards law, as d is not a square)", "-1/d is not a square", "u/v has a root exactly when the candidate root r has v r^2 = +-u (Euler's criterion)"},
		specs:  curveMathSpecs},
	{id: "C29", level: "model_checking", bounds: []string{"every content of the system's source, 0..31 bytes before a failure, eleven ways of splitting reads; byte arrays of 0, 1, 31..33, 64, 100 bytes (thorough: 0..130); random points: up to three strings until one encodes a point"},
		assume: sigAssume,
		specs:  randSpecs},
}

func randSpecs() (r []RunSpec) {
	for i, n := range []int64{0, 1, 31, 32, 33, 64, 100} {
		r = cat(r, one("H_RandBytes", 30, n, int64(i)), one("H_RandBytes", 30, n, int64(i+4)%11))
	}
	for n := int64(0); n <= 130; n++ {
		r = cat(r, thorough(one("H_RandBytes", 30, n, n%11)))
	}
	for k := int64(0); k <= 10; k++ {
		r = cat(r, one("H_RandBytes", 30, 32, k), one("H_RandEncoded", 30, 32, k), one("H_RandEncoded", 30, 64, k), one("H_RandInt64", 30, k))
		for n := int64(0); n < 4; n++ {
			r = cat(r, one("H_RandGroup", 60, n, k))
		}
		for n := int64(0); n < 32; n++ {
			s := one("H_RandFail", 30, n, k)
			if n != 0 && n != 7 && n != 8 && n != 31 {
				s = thorough(s)
			}
			r = cat(r, s)
		}
	}
	r = cat(r, each("H_RandEncoded", 30, 0, 1, 31, 33, 63, 65, 96), one("H_RandFE", 60), one("H_RandFEVaries", 30))
	return cat(r, lowerLayers())
}

func curveMathSpecs() []RunSpec {
	r := cat(one("H_MAdd", 60), one("H_MDbl", 60), one("H_MNeg", 60), one("H_MRefuseOp", 60), one("H_MRoot", 60), each("H_MDecode", 60, 0, 1, 2), one("H_MMul", 90), one("H_MMul2", 90))
	for _, from := range []int64{0, 1, 2, 3, 4, 5} {
		for to := int64(0); to <= 5; to++ {
			r = append(r, RunSpec{H: "H_MConv", Params: []int64{from, to}, Timeout: 60})
		}
	}
	return cat(r, dep(cat(one("H_MToBytes", 60), l0Codec())))
}

func rng(lo, hi, step int64) (r []int64) {
	for i := lo; i <= hi; i += step {
		r = append(r, i)
	}
	return r
}

func slideSpecs() []RunSpec {
	r := one("H_SlideConst", 60)
	for _, o := range rng(0, 245, 5) {
		r = cat(r, one("H_Slide", 60, o, 8, 0), one("H_Slide", 60, o, 8, 253))
	}
	for _, o := range rng(0, 243, 1) {
		r = cat(r, thorough(cat(one("H_Slide", 120, o, 10, 0), one("H_Slide", 120, o, 10, 253))))
	}
	return r
}

func hashSpecs() (r []RunSpec) {
	for i := int64(0); i < 5; i++ {
		r = cat(r, one("H_Hash", 30, i))
		for _, n := range []int64{0, 1, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 135, 136, 137} {
			s := one("H_HashBytes", 30, i, n)
			if n > 1 && n != 32 && n != 64 {
				s = thorough(s)
			}
			r = cat(r, s)
		}
	}
	return cat(r, one("H_HashSeq", 30), each("H_Sha512Parts", 30, 0, 1, 2, 3, 4, 5))
}

func sigSpecs() []RunSpec {
	r := cat(one("H_SigBytes", 120), one("H_SigHalves", 60), one("H_SigInts", 120), one("H_SigSpare", 60))
	for _, p := range [][2]int64{{32, 32}, {31, 32}, {32, 31}, {33, 32}, {32, 33}, {31, 33}, {33, 31}, {0, 32}, {32, 0}, {0, 0}, {0, 64}, {64, 0}, {64, 32}, {32, 64}, {63, 1}, {65, 32}, {16, 48}, {64, 64}} {
		r = cat(r, one("H_SigLens", 30, p[0], p[1]))
	}
	for n := int64(1); n < 130; n++ {
		if n != 32 {
			r = cat(r, thorough(one("H_SigLens", 30, n, 32)))
		}
	}
	return r
}

func keySpecs() []RunSpec {
	var r []RunSpec
	for _, n := range []int64{0, 1, 31, 32, 33, 64} {
		for up := int64(0); up < 2; up++ {
			r = cat(r, one("H_KeyHex", 60, n, 0, up))
			if n > 0 {
				r = cat(r, one("H_KeyHex", 60, n, 1, up))
			}
		}
	}
	r = cat(r, each("H_KeyText", 60, 0, 1, 2, 62, 63, 64, 65, 66), one("H_KeyInt", 120), each("H_KeyRaw", 30, 0, 1, 31, 32, 33))
	for n := int64(3); n < 130; n++ {
		if n < 62 || n > 66 {
			r = cat(r, thorough(one("H_KeyText", 60, n)))
		}
	}
	return r
}

func mathSpecs() []RunSpec {
	return cat(each("H_MBytes", 60, 0, 1, 5, 31, 32, 33, 64), one("H_MToBytes", 120), one("H_MRefuse", 60), each("H_MReduce", 200, 32, 64), one("H_MMadd", 250), one("H_MInts", 60), one("H_MField", 120))
}

func findProp(id string) *Prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

func pairs(h string, to int, a, b []int64) (r []RunSpec) {
	for _, i := range a {
		for _, j := range b {
			r = cat(r, one(h, to, i, j))
		}
	}
	return r
}

func quietSpecs() []RunSpec {
	return cat(each("H_QSig", 60, rng(0, 5, 1)...), each("H_QCipher", 60, rng(0, 3, 1)...), each("H_QModel", 60, rng(0, 4, 1)...), each("H_QScalar", 60, rng(0, 4, 1)...),
		each("H_QField", 60, rng(0, 5, 1)...), each("H_QPow", 60, 0, 1), pairs("H_QCodec", 60, []int64{0, 1}, []int64{0, 1, 2}), each("H_QGroup", 60, rng(0, 7, 1)...),
		each("H_QMul", 60, 0, 1), one("H_QDouble", 90), one("H_CryptReuse", 120), each("H_SignVerify", 120, 2), one("H_HashSeq", 30), lowerLayers(), doubleLayer())
}

func hostileSpecs() []RunSpec {
	r := cat(cipherLens("H_Hostile", 60, []int64{0, 1, 16, 31, 32, 33, 63, 64, 65}, 130), pairs("H_HostileSign", 60, []int64{0, 1, 32, 64}, []int64{0, 1, 31, 32, 33, 64}))
	ls := []int64{0, 1, 2, 31, 32, 33, 64, 66}
	r = cat(r, pairs("H_HostileEq", 60, ls, ls))
	for _, n := range []int64{1, 2, 31, 32, 33, 64} {
		r = cat(r, one("H_BytesEq", 60, n, n, 1), one("H_BytesEq", 60, n, n, 0))
	}
	for n := int64(0); n <= 66; n++ {
		r = cat(r, thorough(pairs("H_HostileEq", 60, []int64{n}, []int64{n, n + 1})))
	}
	return cat(r, lowerLayers(), doubleLayer())
}

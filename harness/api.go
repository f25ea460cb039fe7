package crypto

// Primitives of the verification harness. The symbolic engine intercepts every
// function in this file; native.go holds their concrete counterparts, which
// are used to replay a counterexample against the real code.

import "math/big"

func vStub() { panic("harness primitive") }

func vReg(name string, f func())                  {}
func vParam(i int) int                            { vStub(); return 0 }
func vI64(name string, lo, hi int64) int64        { vStub(); return 0 }
func vByte(name string) byte                      { vStub(); return 0 }
func vBytes(name string, n int) []byte            { vStub(); return nil }
func vOpaque(name string) []byte                  { vStub(); return nil }
func vBool(name string) bool                      { vStub(); return false }
func vBigN(name string, lo, hi *big.Int) *big.Int { vStub(); return nil }
func vAssume(c bool)                              { vStub() }
func vAssert(c bool, label string)                { vStub() }
func vReach(label string)                         { vStub() }
func vEqB(a, b []byte) bool                       { vStub(); return false }
func vLE(b []byte) *big.Int                       { vStub(); return nil }
func vAnd(a, b bool) bool                         { vStub(); return false }
func vOr(a, b bool) bool                          { vStub(); return false }
func vNot(a bool) bool                            { vStub(); return false }
func vIff(a, b bool) bool                         { vStub(); return false }
func vIteI(c bool, a, b int64) int64              { vStub(); return 0 }
func vCong(a, b, m *big.Int) bool                 { vStub(); return false }
func vHashOf(alg string, parts [][]byte) []byte   { vStub(); return nil }
func vCBC(enc bool, key, iv, data []byte) []byte  { vStub(); return nil }
func vSharedSnap()                                {}
func vSharedSame() bool                           { vStub(); return false }
func vContracts(mode string)                      { vStub() }
func vOverlap(a, b []byte) bool                   { vStub(); return false }

// elements of the field of p = 2^255-19, for specifications
type vFp struct{ v *big.Int }

func vFA(name string) vFp                                 { vStub(); return vFp{} } // any element
func vFU(name string) vFp                                 { vStub(); return vFp{} } // any non-zero element
func vFC(k *big.Int) vFp                                  { vStub(); return vFp{} }
func vFAdd(a, b vFp) vFp                                  { vStub(); return vFp{} }
func vFSub(a, b vFp) vFp                                  { vStub(); return vFp{} }
func vFMul(a, b vFp) vFp                                  { vStub(); return vFp{} }
func vFNeg(a vFp) vFp                                     { vStub(); return vFp{} }
func vFInv(a vFp) vFp                                     { vStub(); return vFp{} }
func vFPow(a vFp, e *big.Int) vFp                         { vStub(); return vFp{} }
func vFEq(a, b vFp) bool                                  { vStub(); return false }
func vFInt(a vFp) *big.Int                                { vStub(); return nil } // canonical integer
func vFFromInt(n *big.Int) vFp                            { vStub(); return vFp{} }
func vFE(name string, a vFp, k int64) Ed25519FieldElement { vStub(); return Ed25519FieldElement{} } // any representation with limbs up to k%
func vFOf(f Ed25519FieldElement) vFp                      { vStub(); return vFp{} }
func vFNonzero(a vFp)                                     { vStub() }                      // known to be non-zero
func vFRoot(u, v vFp) bool                                { vStub(); return false }        // v != 0 and u/v is a square
func vPt(name string) (x, y vFp)                          { vStub(); return vFp{}, vFp{} } // any curve point

// elements of the curve group, for specifications
type vGp struct{ p vPoint }
type vPoint struct{ x, y *big.Int }

func vGPt(name string) vGp                                                { vStub(); return vGp{} } // any curve point
func vGB() vGp                                                            { vStub(); return vGp{} }
func vGMul(k *big.Int, g vGp) vGp                                         { vStub(); return vGp{} }
func vGAdd(a, b vGp) vGp                                                  { vStub(); return vGp{} }
func vGSub(a, b vGp) vGp                                                  { vStub(); return vGp{} }
func vGEq(a, b vGp) bool                                                  { vStub(); return false }
func vGEnc(g vGp) []byte                                                  { vStub(); return nil }
func vGOf(e *Ed25519GroupElement) vGp                                     { vStub(); return vGp{} }        // the point that e represents
func vGMake(name string, g vGp, cs CoordinateSystem) *Ed25519GroupElement { vStub(); return nil }          // any representation
func vGDec(raw []byte) (vGp, bool)                                        { vStub(); return vGp{}, false } // the point that raw encodes
func vNativeBool(k int64) bool                                            { return false }                 // native runs: a coin
func vNativeSig(m []byte) (R, S, pub []byte)                              { vStub(); return nil, nil, nil }
func vFreeze()                                                            { vStub() }
func vQuiet(label string, f func()) {
	vFreeze()
	f()
	vAssert(vNoWrites(), label)
}
func vNoWrites() bool                    { vStub(); return false } // nothing that existed at vFreeze was written
func vNativeText(t []byte)               { vStub() }
func vNativePub() []byte                 { vStub(); return nil }
func vNativeCipher(ct, pub, priv []byte) { vStub() }

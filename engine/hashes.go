package main

import (
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
)

// concreteHash evaluates a hash on constant input where the engine's own
// standard library has it; nil keeps the digest uninterpreted.
func concreteHash(alg string, b []byte) []byte {
	switch alg {
	case "sha256":
		d := sha256.Sum256(b)
		return d[:]
	case "sha512":
		d := sha512.Sum512(b)
		return d[:]
	case "sha3-256":
		d := sha3.Sum256(b)
		return d[:]
	case "sha3-512":
		d := sha3.Sum512(b)
		return d[:]
	}
	return nil
}

// Package cipher is an offline stand-in for
// github.com/skycoin/skycoin/src/cipher (the fork skycoin/cxo pins). Shapes
// and sizes of the types are the same. SHA256 is real SHA-256. Signatures use
// ed25519 (the 33-byte PubKey is 0x02 || ed25519 key, the 65-byte Sig is the
// ed25519 signature || 0x00), which keeps the contract skycoin/cxo relies on:
// deterministic keys from a seed, a signature verifies only for the (key,
// hash) pair it was made for.
package cipher

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"errors"
)

// errors
var (
	ErrInvalidLength = errors.New("invalid length")
	ErrInvalidPubKey = errors.New("invalid public key")
	ErrInvalidSecKey = errors.New("invalid secret key")
	ErrInvalidSig    = errors.New("invalid signature")
)

type (
	// SHA256 hash
	SHA256 [32]byte
	// PubKey is public key
	PubKey [33]byte
	// SecKey is secret key
	SecKey [32]byte
	// Sig is signature
	Sig [65]byte
)

// Hex string
func (h SHA256) Hex() string { return hex.EncodeToString(h[:]) }

// String is Hex
func (h SHA256) String() string { return h.Hex() }

// Set from bytes
func (h *SHA256) Set(b []byte) error {
	if len(b) != len(h) {
		return ErrInvalidLength
	}
	copy(h[:], b)
	return nil
}

// Null is true if the hash is blank
func (h SHA256) Null() bool { return h == SHA256{} }

// Xor of two hashes
func (h SHA256) Xor(b SHA256) (r SHA256) {
	for i := range h {
		r[i] = h[i] ^ b[i]
	}
	return
}

// SumSHA256 of given bytes
func SumSHA256(b []byte) SHA256 { return SHA256(sha256.Sum256(b)) }

// DoubleSHA256 of given bytes
func DoubleSHA256(b []byte) SHA256 {
	var h = SumSHA256(b)
	return SumSHA256(h[:])
}

// AddSHA256 hashes concatenation
func AddSHA256(a, b SHA256) SHA256 {
	return SumSHA256(append(append([]byte{}, a[:]...), b[:]...))
}

// SHA256FromHex decodes
func SHA256FromHex(s string) (h SHA256, err error) {
	var b []byte
	if b, err = hex.DecodeString(s); err != nil {
		return
	}
	err = h.Set(b)
	return
}

// MustSHA256FromHex panics on error
func MustSHA256FromHex(s string) SHA256 {
	var h, err = SHA256FromHex(s)
	if err != nil {
		panic(err)
	}
	return h
}

// Hex string
func (p PubKey) Hex() string { return hex.EncodeToString(p[:]) }

// String is Hex
func (p PubKey) String() string { return p.Hex() }

// Null is true if the key is blank
func (p PubKey) Null() bool { return p == PubKey{} }

// Verify the key
func (p PubKey) Verify() error {
	if p[0] != 2 {
		return ErrInvalidPubKey
	}
	return nil
}

// NewPubKey from bytes
func NewPubKey(b []byte) (p PubKey, err error) {
	if len(b) != len(p) {
		err = ErrInvalidLength
		return
	}
	copy(p[:], b)
	return
}

// PubKeyFromHex decodes
func PubKeyFromHex(s string) (p PubKey, err error) {
	var b []byte
	if b, err = hex.DecodeString(s); err != nil {
		return
	}
	return NewPubKey(b)
}

// MustPubKeyFromHex panics on error
func MustPubKeyFromHex(s string) PubKey {
	var p, err = PubKeyFromHex(s)
	if err != nil {
		panic(err)
	}
	return p
}

// PubKeyFromSecKey derives public key
func PubKeyFromSecKey(sk SecKey) (p PubKey, err error) {
	if err = sk.Verify(); err != nil {
		return
	}
	return pubKey(sk), nil
}

func pubKey(sk SecKey) (p PubKey) {
	var pk = ed25519.NewKeyFromSeed(sk[:]).Public().(ed25519.PublicKey)
	p[0] = 2
	copy(p[1:], pk)
	return
}

// Hex string
func (s SecKey) Hex() string { return hex.EncodeToString(s[:]) }

// Null is true if the key is blank
func (s SecKey) Null() bool { return s == SecKey{} }

// Verify the key
func (s SecKey) Verify() error {
	if s == (SecKey{}) {
		return ErrInvalidSecKey
	}
	// order of the curve is less than this
	for i := 0; i < 16; i++ {
		if s[i] != 0xff {
			return nil
		}
	}
	return ErrInvalidSecKey
}

// NewSecKey from bytes
func NewSecKey(b []byte) (s SecKey, err error) {
	if len(b) != len(s) {
		err = ErrInvalidLength
		return
	}
	copy(s[:], b)
	return
}

// SecKeyFromHex decodes
func SecKeyFromHex(h string) (s SecKey, err error) {
	var b []byte
	if b, err = hex.DecodeString(h); err != nil {
		return
	}
	return NewSecKey(b)
}

// MustSecKeyFromHex panics on error
func MustSecKeyFromHex(h string) SecKey {
	var s, err = SecKeyFromHex(h)
	if err != nil {
		panic(err)
	}
	return s
}

// Hex string
func (s Sig) Hex() string { return hex.EncodeToString(s[:]) }

// String is Hex
func (s Sig) String() string { return s.Hex() }

// NewSig from bytes
func NewSig(b []byte) (s Sig, err error) {
	if len(b) != len(s) {
		err = ErrInvalidLength
		return
	}
	copy(s[:], b)
	return
}

// SigFromHex decodes
func SigFromHex(h string) (s Sig, err error) {
	var b []byte
	if b, err = hex.DecodeString(h); err != nil {
		return
	}
	return NewSig(b)
}

// SignHash signs given hash
func SignHash(hash SHA256, sk SecKey) (s Sig, err error) {
	if err = sk.Verify(); err != nil {
		return
	}
	copy(s[:], ed25519.Sign(ed25519.NewKeyFromSeed(sk[:]), hash[:]))
	return
}

// MustSignHash panics on error
func MustSignHash(hash SHA256, sk SecKey) Sig {
	var s, err = SignHash(hash, sk)
	if err != nil {
		panic(err)
	}
	return s
}

// VerifyPubKeySignedHash checks the signature
func VerifyPubKeySignedHash(pk PubKey, sig Sig, hash SHA256) error {
	if err := pk.Verify(); err != nil {
		return err
	}
	if sig[64] != 0 || !ed25519.Verify(pk[1:], hash[:], sig[:64]) {
		return ErrInvalidSig
	}
	return nil
}

// RandByte returns random bytes
func RandByte(n int) []byte {
	var b = make([]byte, n)
	if _, err := rand.Read(b); err != nil {
		panic(err)
	}
	return b
}

// GenerateKeyPair creates random key pair
func GenerateKeyPair() (PubKey, SecKey) {
	var sk SecKey
	copy(sk[:], RandByte(32))
	return pubKey(sk), sk
}

// GenerateDeterministicKeyPair creates key pair by given seed
func GenerateDeterministicKeyPair(seed []byte) (PubKey, SecKey, error) {
	var sk = SecKey(DoubleSHA256(append([]byte("seed:"), seed...)))
	return pubKey(sk), sk, nil
}

// MustGenerateDeterministicKeyPair is GenerateDeterministicKeyPair
func MustGenerateDeterministicKeyPair(seed []byte) (PubKey, SecKey) {
	var pk, sk, _ = GenerateDeterministicKeyPair(seed)
	return pk, sk
}

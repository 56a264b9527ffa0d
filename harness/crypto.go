package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha512"
	"math/big"
	"sync"

	"github.com/tendermint/tendermint/crypto"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

var orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func leToInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func intToLE(x *big.Int) []byte {
	out := make([]byte, 32)
	b := new(big.Int).Mod(x, orderL).Bytes()
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// challenge is the Ed25519 challenge scalar H(R || A || M).
func challenge(r, a, m []byte) *big.Int {
	h := sha512.New()
	h.Write(r)
	h.Write(a)
	h.Write(m)
	return new(big.Int).Mod(leToInt(h.Sum(nil)), orderL)
}

// nonceShare recovers the nonce share r = s - c*x behind a share signature.
func nonceShare(pub, ephemeralPublic, msg, s, share []byte) *big.Int {
	c := challenge(ephemeralPublic, pub, msg)
	r := new(big.Int).Mul(c, leToInt(share))
	r.Sub(leToInt(s), r)
	return r.Mod(r, orderL)
}

// interpolate combines shares (by id) at zero, independently of the library under use.
func interpolate(shares map[int]*big.Int) *big.Int {
	sum := new(big.Int)
	for i, s := range shares {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range shares {
			if j == i {
				continue
			}
			num.Mul(num, big.NewInt(int64(j)))
			num.Mod(num, orderL)
			den.Mul(den, big.NewInt(int64(j-i)))
			den.Mod(den, orderL)
		}
		den.ModInverse(den, orderL)
		t := new(big.Int).Mul(s, num)
		t.Mul(t, den)
		sum.Add(sum, t)
	}
	return sum.Mod(sum, orderL)
}

// multBase returns x*B.
func multBase(x *big.Int) []byte { return tsed25519.ScalarMultiplyBase(intToLE(x)) }

var (
	rsaMu   sync.Mutex
	rsaPool []*rsa.PrivateKey
)

// testRSAKeys returns n distinct small RSA keys (1024 bits, for speed; the code under test takes any size).
func testRSAKeys(n int) []*rsa.PrivateKey {
	rsaMu.Lock()
	defer rsaMu.Unlock()
	if len(rsaPool) < n {
		missing := n - len(rsaPool)
		ks := make([]*rsa.PrivateKey, missing)
		parallel(missing, 8, func(i int) {
			k, err := rsa.GenerateKey(rand.Reader, 1024)
			must(err)
			ks[i] = k
		})
		rsaPool = append(rsaPool, ks...)
	}
	return rsaPool[:n]
}

func genKey() tmEd.PrivKey { return tmEd.GenPrivKey() }

func dealKey(priv crypto.PrivKey, t, n int) [][]byte {
	shares := tsed25519.DealShares(tsed25519.ExpandSecret(priv.Bytes()[:32]), uint8(t), uint8(n))
	out := make([][]byte, len(shares))
	for i, s := range shares {
		out[i] = s
	}
	return out
}

package main

import (
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/strangelove-ventures/horcrux/signer"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
)

func init() { checks["C25"] = checkC25 }

const bech32Chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bech32Encode follows BIP 173.
func bech32Encode(hrp string, data []byte) string {
	var five []byte
	acc, bits := uint32(0), uint(0)
	for _, b := range data {
		acc = acc<<8 | uint32(b)
		bits += 8
		for bits >= 5 {
			bits -= 5
			five = append(five, byte(acc>>bits)&31)
		}
	}
	if bits > 0 {
		five = append(five, byte(acc<<(5-bits))&31)
	}
	var values []byte
	for i := range hrp {
		values = append(values, hrp[i]>>5)
	}
	values = append(values, 0)
	for i := range hrp {
		values = append(values, hrp[i]&31)
	}
	values = append(append(values, five...), 0, 0, 0, 0, 0, 0)
	chk := uint32(1)
	for _, v := range values {
		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ uint32(v)
		for i, g := range []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3} {
			if top>>uint(i)&1 == 1 {
				chk ^= g
			}
		}
	}
	chk ^= 1
	out := hrp + "1"
	for _, v := range five {
		out += string(bech32Chars[v])
	}
	for i := 0; i < 6; i++ {
		out += string(bech32Chars[chk>>uint(5*(5-i))&31])
	}
	return out
}

func checkC25(c *Check) {
	c.Rule("a case is one run of the address command over one share file, prefix and way to name the file; its output is compared with addresses "+
		"derived from the public key by an independent implementation; distinct by (key, prefix)",
		"prefixes are non-empty lower case letters and digits, keys are ed25519")
	c.Need("addresses", "without prefix", "named key files", "damaged files")
	// BIP 173's own example, so that the oracle itself is known to be right
	if bech32Encode("a", nil) != "a12uel5l" || bech32Encode("tb", []byte{}) == "" {
		panic("harness: bech32 oracle is wrong")
	}
	r := c.Rng("c25")
	rs := testRSAKeys(3)
	var pubs []*rsa.PublicKey
	for _, k := range rs {
		pubs = append(pubs, &k.PublicKey)
	}
	prefixes := []string{"cosmos", "osmo", "a", "1", "valcons", "cosmosvaloper", "juno1x", strings.Repeat("z", 40)}
	n := c.size(300, 3000)
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(n, 8, func(i int) {
		r := rand.New(rand.NewSource(seeds[i]))
		priv := genKey()
		pub := []byte(priv.PubKey().(tmEd.PubKey))
		dir := newDir("home")
		id := 1 + r.Intn(3)
		k := signer.CosignerKey{PubKey: priv.PubKey(), ShareKey: randBytes(32), ID: id, RSAKey: *rs[id-1], CosignerKeys: pubs}
		b, err := json.Marshal(&k)
		must(err)
		file, keyLine := filepath.Join(dir, "share.json"), ""
		if i%3 == 1 {
			file = filepath.Join(newDir("key"), "other name.json")
			keyLine = "key-file: " + file + "\n"
			if i%2 == 0 { // the default file holds another key
				other := k
				other.PubKey = genKey().PubKey()
				ob, _ := json.Marshal(&other)
				must(os.WriteFile(filepath.Join(dir, "share.json"), ob, 0o600))
			}
			c.Count("named key files", 1)
		}
		must(os.WriteFile(file, b, 0o600))
		cfg := fmt.Sprintf("home-dir: %s\n%schain-id: %s\ncosigner:\n  threshold: 2\n  shares: 3\n  p2p-listen: tcp://127.0.0.1:2222\n  peers:\n"+
			"  - share-id: %d\n    p2p-addr: tcp://127.0.0.1:2223\n  rpc-timeout: 1s\n", dir, keyLine, chain, id%3+1)
		must(os.WriteFile(filepath.Join(dir, "config.yaml"), []byte(cfg), 0o644))
		sum := sha256.Sum256(pub)
		addr := sum[:20]
		prefix := prefixes[i%len(prefixes)]
		if i > 2*len(prefixes) {
			prefix = ""
			for j := 1 + r.Intn(20); j > 0; j-- {
				prefix += string("abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)])
			}
		}
		for _, args := range [][]string{{prefix}, nil} {
			out, code := runHx(append(append([]string{"cosigner", "address"}, args...), "--home", dir)...)
			what := fmt.Sprintf("address %v of public key %x", args, pub)
			c.Eval(what)
			if code != 0 {
				c.Violation("address-refused", "%s: %s", what, out)
				return
			}
			var got map[string]string
			if err := json.Unmarshal([]byte(strings.TrimSpace(out)), &got); err != nil {
				c.Violation("address-unreadable", "%s: output is not a JSON object of strings: %s", what, out)
				return
			}
			want := map[string]string{"HexAddress": fmt.Sprintf("%X", addr)}
			if args != nil {
				want["ValConsAddress"] = bech32Encode(prefix+"valcons", addr)
				want["ValConsPubAddress"] = bech32Encode(prefix+"valconspub", append([]byte{0x16, 0x24, 0xDE, 0x64, 0x20}, pub...))
				c.Count("addresses", 1)
			} else {
				for _, f := range []string{"ValConsAddress", "ValConsPubAddress"} {
					if strings.Contains(got[f], "1"+bech32Encode("", addr)[1:10]) || got[f] == "" {
						c.Violation("address-without-prefix", "%s: %s is %q", what, f, got[f])
					}
				}
				c.Count("without prefix", 1)
			}
			for f, w := range want {
				if got[f] != w {
					c.Violation("wrong-address", "%s: %s is %s, should be %s", what, f, got[f], w)
				}
			}
			var pk map[string]string
			if err := json.Unmarshal([]byte(got["PubKey"]), &pk); err != nil || len(pk) != 2 ||
				pk["@type"] != "/cosmos.crypto.ed25519.PubKey" || pk["key"] != base64.StdEncoding.EncodeToString(pub) {
				c.Violation("wrong-pubkey", "%s: PubKey is %s", what, got["PubKey"])
			}
			if i == 0 {
				c.Sample(got)
			}
		}
		if i%4 == 0 { // no addresses from what is no share file
			bad := []string{"", "{}", string(b[:len(b)/2]), "null", "[]"}[r.Intn(5)]
			must(os.WriteFile(file, []byte(bad), 0o600))
			out, code := runHx("cosigner", "address", prefix, "--home", dir)
			c.Count("damaged files", 1)
			if code == 0 || strings.Contains(out, "HexAddress") {
				c.Violation("address-of-nothing", "a share file with content %.20q gives addresses: %s", bad, out)
			}
		}
	})
}

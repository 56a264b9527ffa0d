package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmCrypto "github.com/tendermint/tendermint/crypto"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/crypto/secp256k1"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
)

func init() { checks["C15"] = checkC15 }

func checkC15(c *Check) {
	c.Rule("a case is one subset of the shares of one dealing (its recombination judged by an independent interpolation and by real signing), "+
		"one share file written and read back, or one refused set of parameters through the function or the real command; non-trivial when "+
		"the subset has t or t-1 members, the file's key is distinct or the parameters cannot work",
		"that fewer than t shares carry no information is judged by their failing to recombine and by fresh randomness, not proved")
	c.Need("subsets of t", "subsets of t-1", "signed by subset", "share files", "refused parameters", "refused keys", "commands", "old format files")
	r := c.Rng("c15")
	shapes := [][2]int{{6, 11}, {5, 9}, {4, 7}, {2, 3}, {2, 2}, {1, 2}, {3, 5}, {3, 3}, {1, 1}, {6, 6}, {4, 4}, {5, 5}, {4, 5}}
	if c.Tier == "thorough" {
		shapes = append(shapes, [2]int{2, 5}, [2]int{3, 4}, [2]int{4, 6}, [2]int{7, 13}, [2]int{11, 21}, [2]int{16, 16}, [2]int{2, 32}, [2]int{33, 64}, [2]int{255, 255}, [2]int{128, 255})
	}
	seeds := make([]int64, len(shapes))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(len(shapes), 8, func(i int) { c15Dealing(c, shapes[i][0], shapes[i][1], mrand.New(mrand.NewSource(seeds[i])), i) })
	c15Files(c, r)
	c15Refusals(c, r)
	c15Commands(c, r)
}

func filePVKey(priv tmCrypto.PrivKey) privval.FilePVKey {
	return privval.FilePVKey{Address: priv.PubKey().Address(), PubKey: priv.PubKey(), PrivKey: priv}
}

func subsetsOf(n, k, max int, r *mrand.Rand) [][]int {
	var all [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(all) > 5000 {
			return
		}
		if len(cur) == k {
			all = append(all, append([]int(nil), cur...))
			return
		}
		for i := from; i <= n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(1, nil)
	if len(all) > 5000 {
		all = nil
		for i := 0; i < max; i++ {
			p := r.Perm(n)[:k]
			for j := range p {
				p[j]++
			}
			all = append(all, p)
		}
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if len(all) > max {
		all = all[:max]
	}
	return all
}

func pickShares(keys []signer.CosignerKey, ids []int) map[int]*big.Int {
	m := map[int]*big.Int{}
	for _, id := range ids {
		m[id] = leToInt(keys[id-1].ShareKey)
	}
	return m
}

// clusterOf runs the cosigners of given share keys.
func clusterOf(priv tmEd.PrivKey, t int, keys []signer.CosignerKey) *Cluster {
	cl := &Cluster{T: t, N: len(keys), Priv: priv, Dir: newDir("cluster")}
	for _, k := range keys {
		p := &Party{cl: cl, ID: k.ID, Key: k, StatePath: filepath.Join(cl.Dir, fmt.Sprintf("share%d.json", k.ID))}
		must(p.start())
		cl.Parties = append(cl.Parties, p)
	}
	return cl
}

// c15Keys judges the shares of a key, all of them.
func c15Keys(c *Check, what string, priv tmEd.PrivKey, t, n int, keys []signer.CosignerKey, r *mrand.Rand, sign int) bool {
	if len(keys) != n {
		c.Violation("share-count", "%s: %d shares instead of %d", what, len(keys), n)
		return false
	}
	for i, k := range keys {
		if k.ID != i+1 {
			c.Violation("share-number", "%s: share %d is numbered %d", what, i+1, k.ID)
			return false
		}
		if k.PubKey == nil || !k.PubKey.Equals(priv.PubKey()) {
			c.Violation("share-pubkey", "%s: share %d is for public key %v", what, i+1, k.PubKey)
			return false
		}
		if len(k.ShareKey) != 32 {
			c.Violation("share-key", "%s: share %d is %d bytes long", what, i+1, len(k.ShareKey))
			return false
		}
		if len(k.CosignerKeys) != n {
			c.Violation("rsa-list", "%s: share %d lists %d RSA keys", what, i+1, len(k.CosignerKeys))
			return false
		}
		if err := k.RSAKey.Validate(); err != nil {
			c.Violation("rsa-key", "%s: share %d's RSA key: %v", what, i+1, err)
			return false
		}
		for j, o := range k.CosignerKeys {
			if o.N.Cmp(keys[j].RSAKey.N) != 0 || o.E != keys[j].RSAKey.E {
				c.Violation("rsa-list", "%s: share %d holds another RSA public key for share %d than its own", what, i+1, j+1)
				return false
			}
			if j != i && o.N.Cmp(k.RSAKey.N) == 0 {
				c.Violation("rsa-shared", "%s: shares %d and %d have the same RSA key", what, i+1, j+1)
				return false
			}
		}
	}
	for _, ids := range subsetsOf(n, t, 60, r) {
		got := multBase(interpolate(pickShares(keys, ids)))
		if !bytes.Equal(got, priv.PubKey().Bytes()) {
			c.Violation("quorum-cannot-sign", "%s: shares %v do not recombine to the validator's key", what, ids)
			return false
		}
		c.Count("subsets of t", 1)
		c.Eval(fmt.Sprint(what, ids))
	}
	if t > 1 {
		for _, ids := range subsetsOf(n, t-1, 60, r) {
			got := multBase(interpolate(pickShares(keys, ids)))
			if bytes.Equal(got, priv.PubKey().Bytes()) {
				c.Violation("fewer-can-sign", "%s: the %d shares %v recombine to the validator's key", what, t-1, ids)
				return false
			}
			c.Count("subsets of t-1", 1)
			c.Eval(fmt.Sprint(what, ids))
		}
	}
	for k := 1; k < t-1; k++ { // far fewer
		for _, ids := range subsetsOf(n, k, 10, r) {
			if bytes.Equal(multBase(interpolate(pickShares(keys, ids))), priv.PubKey().Bytes()) {
				c.Violation("fewer-can-sign", "%s: the %d shares %v recombine to the validator's key", what, k, ids)
				return false
			}
		}
	}
	if sign == 0 || n > 16 || t < 2 {
		return true
	}
	cl := clusterOf(priv, t, keys)
	h := int64(1)
	for _, ids := range subsetsOf(n, t, sign, r) {
		var cs []signer.Cosigner
		for _, id := range ids {
			cs = append(cs, cl.Parties[id-1])
		}
		if !combineCheck(c, cl, newMsg(chain, HRS{h, 0, stepPrevote}, 1, fixedTime), cs, fmt.Sprintf("%s: signing with shares %v", what, ids)) {
			return false
		}
		h++
		c.Count("signed by subset", 1)
	}
	return true
}

func c15Dealing(c *Check, t, n int, r *mrand.Rand, i int) {
	priv := genKey()
	what := fmt.Sprintf("%d of %d", t, n)
	var keys []signer.CosignerKey
	var err error
	if i%3 == 1 {
		keys, err = signer.CreateCosignerShares(filePVKey(priv), int64(t), int64(n))
	} else {
		what += " from a file"
		file := filepath.Join(newDir("validator"), "priv_validator_key.json")
		b, merr := tmjson.MarshalIndent(filePVKey(priv), "", "  ")
		must(merr)
		must(os.WriteFile(file, b, 0o600))
		keys, err = signer.CreateCosignerSharesFromFile(file, int64(t), int64(n))
	}
	if err != nil {
		c.Violation("refused-good", "%s: %v", what, err)
		return
	}
	c.Count("dealings", 1)
	if !c15Keys(c, what, priv, t, n, keys, r, 3) {
		return
	}
	if i < 2 {
		c.Sample(map[string]interface{}{"threshold": t, "shares": n, "pub_key": fmt.Sprintf("%x", priv.PubKey().Bytes())})
	}
	if n <= 3 && t > 1 {
		// another dealing of the same key
		again, err := signer.CreateCosignerShares(filePVKey(priv), int64(t), int64(n))
		if err != nil {
			c.Violation("refused-good", "%s again: %v", what, err)
			return
		}
		if !c15Keys(c, what+" again", priv, t, n, again, r, 0) {
			return
		}
		for j := range keys {
			if bytes.Equal(keys[j].ShareKey, again[j].ShareKey) {
				c.Violation("not-random", "%s: two dealings of one key give share %d the same secret", what, j+1)
			}
			if keys[j].RSAKey.N.Cmp(again[j].RSAKey.N) == 0 {
				c.Violation("not-random", "%s: two dealings of one key give share %d the same RSA key", what, j+1)
			}
		}
		c.Eval(what + " twice")
	}
	for _, k := range keys {
		c15RoundTrip(c, k, what)
	}
}

func sameKey(a, b signer.CosignerKey) string {
	switch {
	case a.ID != b.ID:
		return fmt.Sprintf("share number %d became %d", a.ID, b.ID)
	case !bytes.Equal(a.ShareKey, b.ShareKey):
		return "the secret share differs"
	case b.PubKey == nil || a.PubKey.Type() != b.PubKey.Type() || !bytes.Equal(a.PubKey.Bytes(), b.PubKey.Bytes()):
		return fmt.Sprintf("public key %v became %v", a.PubKey, b.PubKey)
	case a.RSAKey.N.Cmp(b.RSAKey.N) != 0 || a.RSAKey.E != b.RSAKey.E || a.RSAKey.D.Cmp(b.RSAKey.D) != 0 ||
		!reflect.DeepEqual(primes(a.RSAKey.Primes), primes(b.RSAKey.Primes)):
		return "the RSA key differs"
	case len(a.CosignerKeys) != len(b.CosignerKeys):
		return fmt.Sprintf("%d RSA public keys became %d", len(a.CosignerKeys), len(b.CosignerKeys))
	}
	for i := range a.CosignerKeys {
		if a.CosignerKeys[i].N.Cmp(b.CosignerKeys[i].N) != 0 || a.CosignerKeys[i].E != b.CosignerKeys[i].E {
			return fmt.Sprintf("RSA public key %d differs", i+1)
		}
	}
	return ""
}

func primes(ps []*big.Int) (out []string) {
	for _, p := range ps {
		out = append(out, p.String())
	}
	return
}

func c15RoundTrip(c *Check, k signer.CosignerKey, what string) {
	file := filepath.Join(newDir("sharefile"), "share.json")
	if k.ShareKey[5]%2 == 0 { // there is one already, of an earlier version, which made them readable by all
		must(os.WriteFile(file, bytes.Repeat([]byte("old"), 1+20*int(k.ShareKey[6])), 0o644))
		must(os.Chmod(file, 0o644))
		c.Count("share files written over others", 1)
	}
	if err := signer.WriteCosignerShareFile(k, file); err != nil {
		c.Violation("write-failed", "%s share %d: %v", what, k.ID, err)
		return
	}
	c15Mode(c, file)
	got, err := signer.LoadCosignerKey(file)
	if err != nil {
		c.Violation("read-failed", "%s share %d: the file just written cannot be read: %v", what, k.ID, err)
		return
	}
	if d := sameKey(k, got); d != "" {
		c.Violation("file-altered", "%s share %d written and read back: %s", what, k.ID, d)
	}
	c.Count("share files", 1)
	c.Eval(fmt.Sprintf("file %x", k.ShareKey))
}

func c15Mode(c *Check, file string) {
	st, err := os.Stat(file)
	must(err)
	if st.Mode().Perm()&0o077 != 0 {
		c.Violation("share-readable", "the share file is created with mode %v", st.Mode().Perm())
	}
}

// c15Files round trips made up keys, keys of the old format, and feeds files that are no keys.
func c15Files(c *Check, r *mrand.Rand) {
	rs := testRSAKeys(9)
	odd, err := rsa.GenerateKey(rand.Reader, 1031)
	must(err)
	multi, err := rsa.GenerateMultiPrimeKey(rand.Reader, 3, 1200)
	must(err)
	n := c.size(120, 3000)
	for i := 0; i < n; i++ {
		k := signer.CosignerKey{PubKey: genKey().PubKey(), ShareKey: randBytes(32), ID: 1 + r.Intn(9), RSAKey: *rs[r.Intn(9)]}
		switch r.Intn(8) {
		case 0:
			copy(k.ShareKey, make([]byte, 1+r.Intn(32)))
		case 1:
			copy(k.ShareKey[32-1-r.Intn(31):], make([]byte, 32))
		case 2:
			k.ShareKey = bytes.Repeat([]byte{0xff}, 32)
		case 3:
			k.RSAKey = *odd
		case 4:
			k.RSAKey = *multi
		case 5:
			k.PubKey = secp256k1.GenPrivKey().PubKey()
		case 6:
			k.ID = r.Intn(1 << 30)
		}
		for j := r.Intn(12); j >= 0; j-- {
			k.CosignerKeys = append(k.CosignerKeys, &rs[r.Intn(9)].PublicKey)
		}
		c15RoundTrip(c, k, fmt.Sprintf("made up key %d", i))
		if k.PubKey.Type() != tmEd.KeyType || i%2 == 0 {
			continue
		}
		// the public key in the format before the protobuf migration
		b, err := json.Marshal(&k)
		must(err)
		var m map[string]interface{}
		must(json.Unmarshal(b, &m))
		m["pub_key"] = append([]byte{0x16, 0x24, 0xDE, 0x64, 0x20}, k.PubKey.Bytes()...)
		m["id"] = k.ID
		b, err = json.Marshal(m)
		must(err)
		file := filepath.Join(newDir("sharefile"), "share.json")
		must(os.WriteFile(file, b, 0o600))
		got, err := signer.LoadCosignerKey(file)
		if err != nil {
			c.Violation("old-format", "a share file with an amino encoded public key cannot be read: %v", err)
			continue
		}
		if d := sameKey(k, got); d != "" {
			c.Violation("old-format", "a share file with an amino encoded public key: %s", d)
		}
		c.Count("old format files", 1)
		c.Eval(fmt.Sprintf("old %x", k.ShareKey))
	}
	// damaged files: an error, or the same key
	k := signer.CosignerKey{PubKey: genKey().PubKey(), ShareKey: randBytes(32), ID: 2, RSAKey: *rs[0], CosignerKeys: []*rsa.PublicKey{&rs[0].PublicKey, &rs[1].PublicKey}}
	good, err := json.Marshal(&k)
	must(err)
	try := func(name string, b []byte) {
		file := filepath.Join(newDir("damaged"), "share.json")
		must(os.WriteFile(file, b, 0o600))
		got, err := signer.LoadCosignerKey(file)
		c.Count("damaged share files", 1)
		c.Eval("damaged " + name)
		if err != nil {
			return
		}
		if d := sameKey(k, got); d != "" && name != "flip" {
			c.Violation("damaged-accepted", "a share file that is damaged (%s) is read without an error: %s", name, d)
		}
	}
	for _, l := range []int{0, 1, 10, len(good) / 2, len(good) - 1} {
		try(fmt.Sprintf("cut to %d", l), good[:l])
	}
	try("empty object", []byte("{}"))
	try("null", []byte("null"))
	try("list", []byte("[]"))
	for _, f := range []string{"rsa_key", "pub_key"} {
		var m map[string]interface{}
		must(json.Unmarshal(good, &m))
		delete(m, f)
		b, _ := json.Marshal(m)
		try("without "+f, b)
		for _, v := range []interface{}{"", "AAAA", 5, nil, "!!"} {
			m[f] = v
			b, _ = json.Marshal(m)
			try(fmt.Sprintf("%s=%v", f, v), b)
		}
	}
	for i := 0; i < c.size(300, 5000); i++ { // must not crash
		b := append([]byte(nil), good...)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		try("flip", b)
	}
	if _, err := signer.LoadCosignerKey(filepath.Join(scratchDir(), "missing")); err == nil {
		c.Violation("damaged-accepted", "a missing share file is read without an error")
	}
}

// badParams cannot work.
func badParams(r *mrand.Rand) [][2]int64 {
	out := [][2]int64{{0, 0}, {0, 3}, {-1, 3}, {1, 0}, {2, 1}, {4, 3}, {3, -3}, {-2, -3}, {2, 256}, {200, 256}, {2, 257}, {2, 258}, {256, 256},
		{257, 257}, {258, 259}, {256, 300}, {1, 512}, {-254, 3}, {-253, 3}, {2, -253}, {2, 1 << 32}, {1<<32 + 2, 1<<32 + 3}, {2, math.MaxInt64},
		{math.MinInt64, 3}, {math.MinInt64 + 2, math.MinInt64 + 3}, {math.MaxInt64, math.MaxInt64}, {2, math.MinInt64}, {1<<16 + 2, 3}, {258, 3}}
	for i := 0; i < 40; i++ {
		t, n := randInt64(r), randInt64(r)
		if t < 1 || n < t || n > 255 {
			out = append(out, [2]int64{t, n})
		}
	}
	return out
}

func c15Refusals(c *Check, r *mrand.Rand) {
	priv := genKey()
	check := func(what string, f func() ([]signer.CosignerKey, error)) {
		type res struct {
			keys []signer.CosignerKey
			err  error
			pan  interface{}
		}
		done := make(chan res, 1)
		go func() {
			var x res
			defer func() { x.pan = recover(); done <- x }()
			x.keys, x.err = f()
		}()
		select {
		case x := <-done:
			if x.pan != nil {
				c.Violation("crash", "%s: panic: %v", what, x.pan)
			} else if x.err == nil {
				c.Violation("accepted-bad", "%s: accepted, %d shares", what, len(x.keys))
			} else if len(x.keys) > 0 {
				c.Violation("accepted-bad", "%s: refused (%v) but gives %d shares", what, x.err, len(x.keys))
			}
		case <-time.After(120 * time.Second):
			c.Violation("accepted-bad", "%s: not refused", what)
		}
		c.Eval(what)
	}
	for _, p := range badParams(r) {
		p := p
		check(fmt.Sprintf("threshold %d of %d", p[0], p[1]), func() ([]signer.CosignerKey, error) {
			return signer.CreateCosignerShares(filePVKey(priv), p[0], p[1])
		})
		c.Count("refused parameters", 1)
	}
	for name, k := range badValidatorKeys() {
		k := k
		check("a validator key with "+name, func() ([]signer.CosignerKey, error) { return signer.CreateCosignerShares(k, 2, 2) })
		c.Count("refused keys", 1)
	}
	for _, s := range []string{"", "{", "{}", "null", "[]", `{"priv_key":{"type":"tendermint/PrivKeyEd25519","value":"AAAA"}}`, "not json"} {
		s := s
		file := filepath.Join(newDir("pv"), "priv_validator_key.json")
		must(os.WriteFile(file, []byte(s), 0o600))
		check(fmt.Sprintf("a validator key file with content %q", s), func() ([]signer.CosignerKey, error) {
			return signer.CreateCosignerSharesFromFile(file, 2, 2)
		})
		c.Count("refused keys", 1)
	}
	check("a missing validator key file", func() ([]signer.CosignerKey, error) {
		return signer.CreateCosignerSharesFromFile(filepath.Join(scratchDir(), "missing"), 2, 2)
	})
}

func badValidatorKeys() map[string]privval.FilePVKey {
	a, b := genKey(), genKey()
	s := secp256k1.GenPrivKey()
	mixed := append(append(tmEd.PrivKey(nil), a[:32]...), b[32:]...)
	return map[string]privval.FilePVKey{
		"the public key of another":       {Address: a.PubKey().Address(), PubKey: b.PubKey(), PrivKey: a},
		"a secp256k1 key":                 filePVKey(s),
		"a secp256k1 public key":          {Address: a.PubKey().Address(), PubKey: s.PubKey(), PrivKey: a},
		"a short private key":             {Address: a.PubKey().Address(), PubKey: a.PubKey(), PrivKey: a[:31]},
		"an empty private key":            {Address: a.PubKey().Address(), PubKey: a.PubKey(), PrivKey: tmEd.PrivKey{}},
		"no private key":                  {Address: a.PubKey().Address(), PubKey: a.PubKey()},
		"no keys":                         {},
		"halves of two keys, public half": {Address: b.PubKey().Address(), PubKey: b.PubKey(), PrivKey: mixed},
	}
}

// c15Commands uses the real command, in directories of its own.
func c15Commands(c *Check, r *mrand.Rand) {
	priv := genKey()
	pvFile := filepath.Join(newDir("pv"), "priv_validator_key.json")
	b, err := tmjson.MarshalIndent(filePVKey(priv), "", "  ")
	must(err)
	must(os.WriteFile(pvFile, b, 0o600))
	run := func(args ...string) (dir, out string, code int) {
		dir = newDir("shard")
		ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, hx(), args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "HOME="+emptyHome())
		bz, err := cmd.CombinedOutput()
		if err != nil && cmd.ProcessState == nil {
			panic("harness: " + err.Error())
		}
		c.Count("commands", 1)
		return dir, string(bz), cmd.ProcessState.ExitCode()
	}
	files := func(dir string) (names []string) {
		es, err := os.ReadDir(dir)
		must(err)
		for _, e := range es {
			names = append(names, e.Name())
		}
		return
	}
	good := [][2]int{{2, 3}, {6, 10}}
	parallel(len(good), 2, func(i int) {
		t, n := good[i][0], good[i][1]
		name := []string{"create-shares", "shard"}[i]
		what := fmt.Sprintf("horcrux %s %d %d", name, t, n)
		dir, out, code := run(name, pvFile, fmt.Sprint(t), fmt.Sprint(n))
		if code != 0 {
			c.Violation("refused-good", "%s: %s", what, out)
			return
		}
		var keys []signer.CosignerKey
		for j := 1; j <= n; j++ {
			f := filepath.Join(dir, fmt.Sprintf("private_share_%d.json", j))
			k, err := signer.LoadCosignerKey(f)
			if err != nil {
				c.Violation("read-failed", "%s: file of share %d: %v", what, j, err)
				return
			}
			c15Mode(c, f)
			keys = append(keys, k)
		}
		if got := files(dir); len(got) != n {
			c.Violation("share-count", "%s: wrote %v", what, got)
		}
		c15Keys(c, what, priv, t, n, keys, mrand.New(mrand.NewSource(c.Seed+int64(i))), 2)
	})
	type bad struct{ args []string }
	var bads [][]string
	for _, p := range badParams(r)[:29] {
		bads = append(bads, []string{"create-shares", "--", pvFile, fmt.Sprint(p[0]), fmt.Sprint(p[1])})
	}
	for _, w := range []string{"", "x", "2.5", "0x2", " 2", "9223372036854775808", "1e1", "2,0"} {
		bads = append(bads, []string{"create-shares", pvFile, w, "3"}, []string{"create-shares", pvFile, "2", w})
	}
	bads = append(bads, []string{"create-shares", pvFile, "2"}, []string{"create-shares", pvFile, "2", "3", "4"}, []string{"create-shares"},
		[]string{"create-shares", filepath.Join(scratchDir(), "missing"), "2", "3"}, []string{"create-shares", pvFile, "-1", "3"})
	for _, k := range badValidatorKeys() {
		if b, err := tmjson.Marshal(k); err == nil {
			f := filepath.Join(newDir("pv"), "priv_validator_key.json")
			must(os.WriteFile(f, b, 0o600))
			bads = append(bads, []string{"create-shares", f, "2", "2"})
		}
	}
	parallel(len(bads), 8, func(i int) {
		dir, out, code := run(bads[i]...)
		what := "horcrux " + strings.Join(bads[i], " ")
		c.Eval(what)
		if strings.Contains(out, "panic: ") {
			c.Violation("crash", "%s: %s", what, out)
		}
		if code == 0 {
			c.Violation("accepted-bad", "%s: accepted: %s", what, out)
		}
		if got := files(dir); len(got) > 0 {
			c.Violation("refused-but-wrote", "%s: wrote %v", what, got)
		}
		c.Count("refused commands", 1)
	})
}

package main

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sort"

	"github.com/strangelove-ventures/horcrux/signer"
	tmJson "github.com/tendermint/tendermint/libs/json"
)

func init() { checks["C07"] = checkC07 }

func checkC07(c *Check) {
	c.Rule("a case is one set of parts dealt by a real cosigner (each decrypted with every cosigner's RSA key, verified against the "+
		"source's RSA key, all threshold-sized subsets interpolated independently) or one signing request with one altered part (every "+
		"field, every wrong source and destination, forged and missing signatures), followed by an unaltered request for another "+
		"message; distinct by (cluster, source, destination, alteration)",
		"interpolation is computed with math/big independently of the library in use")
	c.Need("parts decrypted", "wrong keys tried", "recombined", "altered parts refused", "signed after refusal")
	shapes := [][2]int{{2, 2}, {3, 2}, {4, 3}, {5, 3}}
	if c.Tier == "thorough" {
		shapes = append(shapes, [2]int{3, 3}, [2]int{5, 4}, [2]int{7, 4}, [2]int{9, 5}, [2]int{10, 6})
	}
	testRSAKeys(10)
	reps := c.size(2, 8)
	var jobs []func()
	for _, sh := range shapes {
		n, t := sh[0], sh[1]
		for k := 0; k < reps; k++ {
			k := k
			jobs = append(jobs, func() { c07Dealing(c, t, n, k) })
			jobs = append(jobs, func() { c07Tampering(c, t, n, k) })
		}
	}
	parallel(len(jobs), 8, func(i int) {
		if !c.Violated() {
			jobs[i]()
		}
	})
}

func c07Dealing(c *Check, t, n, rep int) {
	r := c.Rng(fmt.Sprintf("dealing-%d-%d-%d", t, n, rep))
	cl := newCluster(t, n)
	for _, p := range cl.Parties {
		for slot := 0; slot < 3; slot++ {
			h := signer.HRSTKey{Height: r.Int63n(100) + 1, Round: r.Int63n(3), Step: randStep(r), Timestamp: r.Int63()}
			res, err := p.Local().GetEphemeralSecretParts(h)
			if err != nil {
				c.Violation("deal-failed", "cosigner %d does not deal for %+v: %v", p.ID, h, err)
				return
			}
			what := fmt.Sprintf("parts of cosigner %d (%d of %d) for %+v", p.ID, t, n, h)
			dests := map[int]bool{}
			shares := map[int]*big.Int{}
			var pub []byte
			for _, part := range res.EncryptedSecrets {
				if part.SourceID != p.ID || part.DestinationID == p.ID || part.DestinationID < 1 || part.DestinationID > n || dests[part.DestinationID] {
					c.Violation("wrong-ids", "%s: source %d destination %d", what, part.SourceID, part.DestinationID)
					return
				}
				dests[part.DestinationID] = true
				if pub == nil {
					pub = part.SourceEphemeralSecretPublicKey
				} else if !bytes.Equal(pub, part.SourceEphemeralSecretPublicKey) {
					c.Violation("several-publics", "%s: announces ephemeral public keys %x and %x", what, pub, part.SourceEphemeralSecretPublicKey)
				}
				// only the destination can read it
				for _, q := range cl.Parties {
					b, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &q.Key.RSAKey, part.EncryptedSharePart, nil)
					if q.ID == part.DestinationID {
						if err != nil {
							c.Violation("unreadable", "%s: part for %d cannot be decrypted by it: %v", what, q.ID, err)
							return
						}
						shares[q.ID] = leToInt(b)
						c.Count("parts decrypted", 1)
					} else {
						c.Count("wrong keys tried", 1)
						if err == nil {
							c.Violation("readable-by-others", "%s: part for %d can be decrypted by %d", what, part.DestinationID, q.ID)
						}
					}
				}
				// only the source can have made it
				q := secPart{SourceID: part.SourceID, SourceEphemeralSecretPublicKey: part.SourceEphemeralSecretPublicKey, EncryptedSharePart: part.EncryptedSharePart}
				b, err := tmJson.Marshal(q)
				must(err)
				d := sha256.Sum256(b)
				if err := rsa.VerifyPSS(&p.Key.RSAKey.PublicKey, crypto.SHA256, d[:], part.SourceSig, nil); err != nil {
					c.Violation("unsigned", "%s: part for %d does not verify: %v", what, part.DestinationID, err)
				}
				for dst, s := range shares {
					if bytes.Contains(part.EncryptedSharePart, intToLE(s)) || bytes.Contains(part.SourceSig, intToLE(s)) {
						c.Violation("plain-share", "%s: the share of %d is readable in the part", what, dst)
					}
				}
				c.Eval(fmt.Sprintf("deal %d %d %d->%d %d", t, n, part.SourceID, part.DestinationID, slot))
			}
			if len(dests) != n-1 {
				c.Violation("missing-destination", "%s: has destinations %v", what, dests)
				return
			}
			// any threshold of the n-1 given out recombine to the announced secret, fewer do not
			var ids []int
			for id := range shares {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for m := 1; m < 1<<uint(len(ids)); m++ {
				sub := map[int]*big.Int{}
				for i, id := range ids {
					if m>>uint(i)&1 == 1 {
						sub[id] = shares[id]
					}
				}
				got := multBase(interpolate(sub))
				match := bytes.Equal(got, pub)
				if len(sub) >= t && !match {
					c.Violation("not-recombining", "%s: the parts of %d destinations give %x, announced is %x", what, len(sub), got, pub)
					return
				}
				if len(sub) < t && match {
					c.Violation("too-few-recombine", "%s: the parts of only %d destinations reveal the ephemeral secret", what, len(sub))
					return
				}
				if len(sub) >= t {
					c.Count("recombined", 1)
				}
			}
			// asked again, it is the same secret for the same slot
			if slot == 0 && rep == 0 && p.ID == 1 {
				c.Sample(map[string]interface{}{"dealt": what, "public": fmt.Sprintf("%x", pub), "destinations": len(dests)})
			}
		}
	}
	if n == t {
		c.Count("recombined", 1) // needs the dealer's own share as well; covered through signing
	}
}

// tamper lists alterations of one part. They are made on a genuine part from src to dst.
type tamperEnv struct {
	cl       *Cluster
	src, dst *Party
	all      map[int]*partsResp
	other    *Cluster
	r        *mrand.Rand
}

var tampers = map[string]func(e *tamperEnv, p *secPart){
	"cipher first bit": func(e *tamperEnv, p *secPart) { p.EncryptedSharePart[0] ^= 1 },
	"cipher last bit":  func(e *tamperEnv, p *secPart) { p.EncryptedSharePart[len(p.EncryptedSharePart)-1] ^= 0x80 },
	"cipher extended":  func(e *tamperEnv, p *secPart) { p.EncryptedSharePart = append(p.EncryptedSharePart, 0) },
	"cipher cut": func(e *tamperEnv, p *secPart) {
		p.EncryptedSharePart = p.EncryptedSharePart[:len(p.EncryptedSharePart)-1]
	},
	"cipher empty": func(e *tamperEnv, p *secPart) { p.EncryptedSharePart = nil },
	"cipher replaced": func(e *tamperEnv, p *secPart) {
		p.EncryptedSharePart = encryptTo(&e.dst.Key.RSAKey.PublicKey, randBytes(31))
	},
	"public first bit": func(e *tamperEnv, p *secPart) { p.SourceEphemeralSecretPublicKey[0] ^= 1 },
	"public sign bit":  func(e *tamperEnv, p *secPart) { p.SourceEphemeralSecretPublicKey[31] ^= 0x80 },
	"public replaced":  func(e *tamperEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = multBase(leToInt(randBytes(31))) },
	"public empty":     func(e *tamperEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = nil },
	"public extended": func(e *tamperEnv, p *secPart) {
		p.SourceEphemeralSecretPublicKey = append(p.SourceEphemeralSecretPublicKey, 0)
	},
	"signature first bit":   func(e *tamperEnv, p *secPart) { p.SourceSig[0] ^= 1 },
	"signature last bit":    func(e *tamperEnv, p *secPart) { p.SourceSig[len(p.SourceSig)-1] ^= 1 },
	"signature nil":         func(e *tamperEnv, p *secPart) { p.SourceSig = nil },
	"signature empty":       func(e *tamperEnv, p *secPart) { p.SourceSig = []byte{} },
	"signature random":      func(e *tamperEnv, p *secPart) { p.SourceSig = randBytes(128) },
	"signature of the dest": func(e *tamperEnv, p *secPart) { resign(p, &e.dst.Key.RSAKey) },
	"signature of a stranger": func(e *tamperEnv, p *secPart) {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		must(err)
		resign(p, k)
	},
	"changed and signed by a stranger": func(e *tamperEnv, p *secPart) {
		p.EncryptedSharePart = encryptTo(&e.dst.Key.RSAKey.PublicKey, randBytes(31))
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		must(err)
		resign(p, k)
	},
	"source zero":                   func(e *tamperEnv, p *secPart) { p.SourceID = 0 },
	"source negative":               func(e *tamperEnv, p *secPart) { p.SourceID = -e.src.ID },
	"source beyond":                 func(e *tamperEnv, p *secPart) { p.SourceID = e.cl.N + 1 },
	"source beyond, signed":         func(e *tamperEnv, p *secPart) { p.SourceID = e.cl.N + 1; resign(p, &e.src.Key.RSAKey) },
	"source is destination":         func(e *tamperEnv, p *secPart) { p.SourceID = e.dst.ID },
	"source is destination, signed": func(e *tamperEnv, p *secPart) { p.SourceID = e.dst.ID; resign(p, &e.src.Key.RSAKey) },
	"source plus 256":               func(e *tamperEnv, p *secPart) { p.SourceID += 256 },
	"for another, mislabelled": func(e *tamperEnv, p *secPart) {
		for _, q := range e.all[e.src.ID].EncryptedSecrets {
			if q.DestinationID != e.dst.ID {
				q.DestinationID = e.dst.ID
				*p = q
				return
			}
		}
		p.EncryptedSharePart = encryptTo(&e.src.Key.RSAKey.PublicKey, randBytes(31))
	},
	"of another cluster": func(e *tamperEnv, p *secPart) {
		// the same IDs, but keys nobody here knows
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		must(err)
		p.EncryptedSharePart = encryptTo(&k.PublicKey, randBytes(31))
		resign(p, k)
	},
}

func c07Tampering(c *Check, t, n, rep int) {
	r := c.Rng(fmt.Sprintf("tamper-%d-%d-%d", t, n, rep))
	var kinds []string
	for k := range tampers {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	// every other cosigner as wrong source as well
	for i := 1; i <= n; i++ {
		kinds = append(kinds, fmt.Sprintf("wrong source %d", i), fmt.Sprintf("signed wrong source %d", i))
	}
	cl := newCluster(t, n)
	h := int64(1)
	for _, k := range kinds {
		h += 2
		dst := cl.Parties[r.Intn(n)]
		perm := r.Perm(n)
		var srcs []*Party
		for _, i := range perm {
			if cl.Parties[i] != dst && len(srcs) < t-1 {
				srcs = append(srcs, cl.Parties[i])
			}
		}
		src := srcs[r.Intn(len(srcs))]
		m := newMsg(chain, HRS{h, 0, randStep(r)}, 1, fixedTime)
		cs := []signer.Cosigner{dst}
		for _, s := range srcs {
			cs = append(cs, s)
		}
		all, err := deal(m.HRST(), cs...)
		must(err)
		parts := partsFor(dst.ID, all)
		e := &tamperEnv{cl: cl, src: src, dst: dst, all: all, r: r}
		applied := false
		for i := range parts {
			if parts[i].SourceID != src.ID {
				continue
			}
			p := cloneParts(&partsResp{EncryptedSecrets: parts[i : i+1]}).EncryptedSecrets[0]
			applied = true
			var wrong int
			switch {
			case tampers[k] != nil:
				tampers[k](e, &p)
			default:
				if _, err := fmt.Sscanf(k, "wrong source %d", &wrong); err == nil {
					p.SourceID = wrong
				} else if _, err := fmt.Sscanf(k, "signed wrong source %d", &wrong); err == nil {
					p.SourceID = wrong
					if wrong != src.ID {
						resign(&p, &src.Key.RSAKey) // the liar signs in another's name
					}
				}
				if wrong == src.ID {
					applied = false
				}
			}
			parts[i] = p
		}
		if !applied {
			continue
		}
		// the altered part may come first, last or in between, alone or doubled after the genuine one
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		if r.Intn(4) == 0 {
			parts = append(partsFor(dst.ID, all), parts...)
		}
		what := fmt.Sprintf("%d of %d, part from %d to %d, altered: %s", t, n, src.ID, dst.ID, k)
		before := fileImage(dst.StatePath)
		res, err := dst.SetEphemeralSecretPartsAndSign(signReq{EncryptedSecrets: parts, HRST: m.HRST(), SignBytes: m.SignBytes()})
		c.Eval(what)
		if err == nil {
			c.Violation("altered-part-accepted", "%s: the request was accepted, share signature %x", what, res.Signature)
			return
		}
		if res != nil && len(res.Signature) > 0 {
			c.Violation("signature-with-refusal", "%s: refused (%v), but share signature %x returned", what, err, res.Signature)
			return
		}
		if got := fileImage(dst.StatePath); got != before {
			c.Violation("refusal-changes-state", "%s: refused (%v), but the state file went from %s to %s", what, err, before, got)
		}
		c.Count("altered parts refused", 1)
		// later signing is not contaminated: the whole set signs a later message, and the same one again with genuine parts
		next := m
		if r.Intn(3) == 0 {
			// the same message with the help of others
			var others []signer.Cosigner
			for i := n - 1; i >= 0; i-- {
				if q := cl.Parties[perm[i]]; q != dst && len(others) < t-1 {
					others = append(others, q)
				}
			}
			cs = append([]signer.Cosigner{dst}, others...)
		} else if r.Intn(2) == 0 {
			next = newMsg(chain, HRS{h + 1, 0, randStep(r)}, 1, fixedTime)
		}
		if !combineCheck(c, cl, next, cs, what) {
			return
		}
		c.Count("signed after refusal", 1)
	}
}

// combineCheck has a full quorum sign the message with genuine parts and verifies the combined signature.
func combineCheck(c *Check, cl *Cluster, m Msg, cs []signer.Cosigner, what string) bool {
	all, err := deal(m.HRST(), cs...)
	if err != nil {
		c.Violation("contaminated", "%s: dealing for %s afterwards: %v", what, m, err)
		return false
	}
	sigs := map[int]*big.Int{}
	var pub []byte
	for _, x := range cs {
		res, err := x.SetEphemeralSecretPartsAndSign(signReq{EncryptedSecrets: partsFor(x.GetID(), all), HRST: m.HRST(), SignBytes: m.SignBytes()})
		if err != nil {
			c.Violation("contaminated", "%s: cosigner %d refuses genuine parts for %s afterwards: %v", what, x.GetID(), m, err)
			return false
		}
		if pub != nil && !bytes.Equal(pub, res.EphemeralPublic) {
			c.Violation("contaminated", "%s: cosigners disagree on the ephemeral public key for %s afterwards", what, m)
			return false
		}
		pub = res.EphemeralPublic
		sigs[x.GetID()] = leToInt(res.Signature)
	}
	sig := append(append([]byte(nil), pub...), intToLE(interpolate(sigs))...)
	if !cl.Priv.PubKey().VerifySignature(m.SignBytes(), sig) {
		c.Violation("contaminated", "%s: the signature made of genuine parts for %s afterwards does not verify", what, m)
		return false
	}
	return true
}

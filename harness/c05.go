package main

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"math"
	mrand "math/rand"
	"sort"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmJson "github.com/tendermint/tendermint/libs/json"
)

func init() { checks["C05"] = checkC05 }

type (
	partsResp = signer.CosignerEphemeralSecretPartsResponse
	signResp  = signer.CosignerSignResponse
	signReq   = signer.CosignerSetEphemeralSecretPartsAndSignRequest
	secPart   = signer.CosignerEphemeralSecretPart
)

// resign signs a part with a cosigner's RSA key, the way the cosigner does.
func resign(p *secPart, key *rsa.PrivateKey) {
	q := secPart{SourceID: p.SourceID, SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart}
	b, err := tmJson.Marshal(q)
	must(err)
	d := sha256.Sum256(b)
	sig, err := rsa.SignPSS(rand.Reader, key, crypto.SHA256, d[:], nil)
	must(err)
	p.SourceSig = sig
}

func encryptTo(pub *rsa.PublicKey, b []byte) []byte {
	e, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, pub, b, nil)
	must(err)
	return e
}

func randBytes(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

// faultEnv is what a lying cosigner has at hand.
type faultEnv struct {
	cl    *Cluster
	p     *Party
	r     *mrand.Rand
	mu    sync.Mutex
	stale *partsResp
	sig   *signResp
	other *Cluster
}

func cloneParts(r *partsResp) *partsResp {
	out := &partsResp{}
	for _, p := range r.EncryptedSecrets {
		p.SourceSig = append([]byte(nil), p.SourceSig...)
		p.EncryptedSharePart = append([]byte(nil), p.EncryptedSharePart...)
		p.SourceEphemeralSecretPublicKey = append([]byte(nil), p.SourceEphemeralSecretPublicKey...)
		out.EncryptedSecrets = append(out.EncryptedSecrets, p)
	}
	return out
}

func eachPart(f func(e *faultEnv, p *secPart)) func(e *faultEnv, r *partsResp) (*partsResp, error) {
	return func(e *faultEnv, r *partsResp) (*partsResp, error) {
		for i := range r.EncryptedSecrets {
			f(e, &r.EncryptedSecrets[i])
		}
		return r, nil
	}
}

func byzPart(f func(e *faultEnv, p *secPart)) func(e *faultEnv, r *partsResp) (*partsResp, error) {
	return eachPart(func(e *faultEnv, p *secPart) {
		f(e, p)
		resign(p, &e.p.Key.RSAKey)
	})
}

// getFaults are wrong answers to the request for ephemeral parts.
var getFaults = map[string]func(e *faultEnv, r *partsResp) (*partsResp, error){
	"error":    func(e *faultEnv, r *partsResp) (*partsResp, error) { return nil, errInjected },
	"no parts": func(e *faultEnv, r *partsResp) (*partsResp, error) { return &partsResp{}, nil },
	"one part missing": func(e *faultEnv, r *partsResp) (*partsResp, error) {
		r.EncryptedSecrets = r.EncryptedSecrets[1:]
		return r, nil
	},
	"parts doubled": func(e *faultEnv, r *partsResp) (*partsResp, error) {
		r.EncryptedSecrets = append(r.EncryptedSecrets, r.EncryptedSecrets...)
		return r, nil
	},
	"garbled cipher":      eachPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = randBytes(128) }),
	"empty cipher":        eachPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = nil }),
	"long cipher":         eachPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = randBytes(1 << 16) }),
	"garbled signature":   eachPart(func(e *faultEnv, p *secPart) { p.SourceSig = randBytes(128) }),
	"no signature":        eachPart(func(e *faultEnv, p *secPart) { p.SourceSig = nil }),
	"empty signature":     eachPart(func(e *faultEnv, p *secPart) { p.SourceSig = []byte{} }),
	"wrong public":        eachPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = randBytes(32) }),
	"bit flip in public":  eachPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey[31] ^= 0x80 }),
	"empty public":        eachPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = nil }),
	"source zero":         eachPart(func(e *faultEnv, p *secPart) { p.SourceID = 0 }),
	"source negative":     eachPart(func(e *faultEnv, p *secPart) { p.SourceID = -1 }),
	"source huge":         eachPart(func(e *faultEnv, p *secPart) { p.SourceID = math.MaxInt32 }),
	"source lowest":       eachPart(func(e *faultEnv, p *secPart) { p.SourceID = math.MinInt32 }),
	"source other":        eachPart(func(e *faultEnv, p *secPart) { p.SourceID = p.SourceID%e.cl.N + 1 }),
	"source target":       eachPart(func(e *faultEnv, p *secPart) { p.SourceID = p.DestinationID }),
	"source out of range": eachPart(func(e *faultEnv, p *secPart) { p.SourceID = e.cl.N + 1 }),
	"destination next":    eachPart(func(e *faultEnv, p *secPart) { p.DestinationID = p.DestinationID%e.cl.N + 1 }),
	"destination zero":    eachPart(func(e *faultEnv, p *secPart) { p.DestinationID = 0 }),
	"destination huge":    eachPart(func(e *faultEnv, p *secPart) { p.DestinationID = math.MaxInt32 }),
	"all to coordinator":  eachPart(func(e *faultEnv, p *secPart) { p.DestinationID = 1 }),
	"empty parts": func(e *faultEnv, r *partsResp) (*partsResp, error) {
		return &partsResp{EncryptedSecrets: make([]secPart, 3)}, nil
	},
	"stale parts": func(e *faultEnv, r *partsResp) (*partsResp, error) {
		if e.stale == nil {
			return nil, errInjected
		}
		return cloneParts(e.stale), nil
	},
	"foreign parts": func(e *faultEnv, r *partsResp) (*partsResp, error) {
		return e.other.Parties[e.p.ID-1].Local().GetEphemeralSecretParts(signer.HRSTKey{Height: 1})
	},
	"parts of another slot": func(e *faultEnv, r *partsResp) (*partsResp, error) {
		return e.p.Local().GetEphemeralSecretParts(signer.HRSTKey{Height: math.MaxInt64 - 1, Step: 1})
	},
	"late": func(e *faultEnv, r *partsResp) (*partsResp, error) {
		time.Sleep(4500 * time.Millisecond)
		return r, nil
	},
	// answers of a cosigner that lies, but signs its lies
	"signed: wrong public":      byzPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = multBase(leToInt(randBytes(31))) }),
	"signed: garbled public":    byzPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = randBytes(32) }),
	"signed: short public":      byzPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = randBytes(5) }),
	"signed: long public":       byzPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = randBytes(100) }),
	"signed: no public":         byzPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = nil }),
	"signed: all ones public":   byzPart(func(e *faultEnv, p *secPart) { p.SourceEphemeralSecretPublicKey = ones(32) }),
	"signed: random share":      byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = e.enc(p, intToLE(leToInt(randBytes(32)))) }),
	"signed: empty share":       byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = e.enc(p, nil) }),
	"signed: one byte share":    byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = e.enc(p, []byte{7}) }),
	"signed: long share":        byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = e.enc(p, ones(62)) }),
	"signed: share above order": byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = e.enc(p, ones(32)) }),
	"signed: zero share":        byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = e.enc(p, make([]byte, 32)) }),
	"signed: garbled cipher":    byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = randBytes(128) }),
	"signed: no cipher":         byzPart(func(e *faultEnv, p *secPart) { p.EncryptedSharePart = nil }),
}

func ones(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xff
	}
	return b
}

func (e *faultEnv) enc(p *secPart, b []byte) []byte {
	if p.DestinationID < 1 || p.DestinationID > e.cl.N {
		return randBytes(128)
	}
	return encryptTo(e.p.Key.CosignerKeys[p.DestinationID-1], b)
}

func eachSig(f func(e *faultEnv, r *signResp)) func(e *faultEnv, q signReq, r *signResp) (*signResp, error) {
	return func(e *faultEnv, q signReq, r *signResp) (*signResp, error) {
		f(e, r)
		return r, nil
	}
}

// signFaults are wrong answers to the request to sign.
var signFaults = map[string]func(e *faultEnv, q signReq, r *signResp) (*signResp, error){
	"error":        func(e *faultEnv, q signReq, r *signResp) (*signResp, error) { return nil, errInjected },
	"no signature": eachSig(func(e *faultEnv, r *signResp) { r.Signature = nil }),
	"empty answer": eachSig(func(e *faultEnv, r *signResp) { *r = signResp{} }),
	"short":        eachSig(func(e *faultEnv, r *signResp) { r.Signature = r.Signature[:31] }),
	"one byte":     eachSig(func(e *faultEnv, r *signResp) { r.Signature = []byte{1} }),
	"long":         eachSig(func(e *faultEnv, r *signResp) { r.Signature = append(append([]byte(nil), r.Signature...), 1, 2, 3) }),
	"full signature": eachSig(func(e *faultEnv, r *signResp) {
		r.Signature = append(append([]byte(nil), r.EphemeralPublic...), r.Signature...)
	}),
	"huge":     eachSig(func(e *faultEnv, r *signResp) { r.Signature = randBytes(1 << 16) }),
	"garbled":  eachSig(func(e *faultEnv, r *signResp) { r.Signature = randBytes(32) }),
	"zero":     eachSig(func(e *faultEnv, r *signResp) { r.Signature = make([]byte, 32) }),
	"all ones": eachSig(func(e *faultEnv, r *signResp) { r.Signature = ones(32) }),
	"bit flip": eachSig(func(e *faultEnv, r *signResp) { s := append([]byte(nil), r.Signature...); s[0] ^= 1; r.Signature = s }),
	"top bit flip": eachSig(func(e *faultEnv, r *signResp) {
		s := append([]byte(nil), r.Signature...)
		s[31] ^= 0x80
		r.Signature = s
	}),
	"stale": eachSig(func(e *faultEnv, r *signResp) {
		if e.sig != nil {
			*r = *e.sig
		}
	}),
	"of other bytes": func(e *faultEnv, q signReq, r *signResp) (*signResp, error) {
		// a share signature over another message, made with the cosigner's real key share
		return &signResp{Signature: intToLE(leToInt(randBytes(32))), EphemeralPublic: r.EphemeralPublic}, nil
	},
	"late": func(e *faultEnv, q signReq, r *signResp) (*signResp, error) {
		time.Sleep(4500 * time.Millisecond)
		return r, nil
	},
}

func checkC05(c *Check) {
	c.Rule("a case is one signing attempt during which some peers give a wrong answer of one kind at one of the two phases, on clusters "+
		"of several shapes, followed by an attempt for a later block with correct answers; non-trivial always; distinct by "+
		"(cluster, kind, number of liars, position)",
		"lying cosigners may hold valid RSA keys; RSA keys are 1024 bits")
	c.Need("failed attempts", "attempts signed in spite of faults", "later blocks signed", "hanging peers")
	testRSAKeys(7)
	type job struct {
		n, t, liars int
		phase, kind string
		step        int8
	}
	var jobs []job
	var gk, sk []string
	for k := range getFaults {
		gk = append(gk, k)
	}
	for k := range signFaults {
		sk = append(sk, k)
	}
	sort.Strings(gk)
	sort.Strings(sk)
	step := int8(0)
	for _, nt := range [][2]int{{2, 2}, {3, 2}, {5, 3}} {
		for liars := 1; liars < nt[0]; liars++ {
			if liars == 3 && c.Tier == "quick" {
				continue
			}
			for _, k := range gk {
				step++
				jobs = append(jobs, job{nt[0], nt[1], liars, "parts", k, step%3 + 1})
			}
			for _, k := range sk {
				step++
				jobs = append(jobs, job{nt[0], nt[1], liars, "sign", k, step%3 + 1})
			}
		}
		for _, ph := range []string{"parts", "sign"} {
			jobs = append(jobs, job{nt[0], nt[1], nt[0] - 1, ph, "hang", 2})
		}
	}
	if c.Tier == "thorough" {
		for _, nt := range [][2]int{{4, 3}, {7, 4}, {5, 4}} {
			for _, liars := range []int{1, 2, nt[0] - 1} {
				for _, k := range gk {
					jobs = append(jobs, job{nt[0], nt[1], liars, "parts", k, int8(len(jobs)%3) + 1})
				}
				for _, k := range sk {
					jobs = append(jobs, job{nt[0], nt[1], liars, "sign", k, int8(len(jobs)%3) + 1})
				}
			}
		}
	}
	r := c.Rng("order")
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	const workers = 32
	slots := newLeaderSlots(workers)
	chunks := make([][]job, workers)
	for i, j := range jobs {
		chunks[i%workers] = append(chunks[i%workers], j)
	}
	parallel(workers, workers, func(w int) {
		rr := c.Rng(fmt.Sprint("worker", w))
		height := int64(10)
		clusters := map[[2]int]*Coord{}
		envs := map[[2]int][]*faultEnv{}
		for _, j := range chunks[w] {
			if c.Violated() {
				return
			}
			key := [2]int{j.n, j.t}
			co := clusters[key]
			if co == nil || rr.Intn(4) == 0 {
				cl := newCluster(j.t, j.n)
				co = newCoord(cl, slots[w], 1)
				clusters[key] = co
				other := newCluster(j.t, j.n)
				envs[key] = nil
				for _, p := range cl.Parties {
					envs[key] = append(envs[key], &faultEnv{cl: cl, p: p, r: rr, other: other})
				}
			}
			co.Restart() // makes it the slot's validator, and forgets what it is not entitled to remember
			height += 3
			c05Attempt(c, co, envs[key], slots[w], &height, j.liars, j.phase, j.kind, j.step, rr)
		}
	})
}

func fileImage(path string) string {
	_, st, err := loadHRS(path)
	return fmt.Sprintf("%d/%d/%d %x %x %v", st.Height, st.Round, st.Step, st.SignBytes, st.Signature, err)
}

// signWithin bounds the time of an attempt generously.
func signWithin(co *Coord, m Msg, d time.Duration) (Outcome, bool) {
	ch := make(chan Outcome, 1)
	go func() { ch <- co.Sign(m) }()
	select {
	case o := <-ch:
		return o, true
	case <-time.After(d):
		return Outcome{}, false
	}
}

func c05Attempt(c *Check, co *Coord, envs []*faultEnv, slot *LeaderSlot, height *int64, liars int, phase, kind string, step int8, r *mrand.Rand) {
	cl := co.cl
	pub := cl.Priv.PubKey()
	heal := func() {
		for _, l := range co.Links {
			l := l
			e := envs[l.To.ID-1]
			l.Set(func(h signer.HRSTKey) (*partsResp, error) {
				p, err := l.To.GetEphemeralSecretParts(h)
				if err == nil {
					e.mu.Lock()
					e.stale = cloneParts(p)
					e.mu.Unlock()
				}
				return p, err
			}, func(q signReq) (*signResp, error) {
				s, err := l.To.SetEphemeralSecretPartsAndSign(q)
				if err == nil {
					e.mu.Lock()
					e.sig = s
					e.mu.Unlock()
				}
				return s, err
			})
		}
	}
	release := make(chan struct{})
	defer close(release)
	order := r.Perm(len(co.Links))
	for k := 0; k < liars; k++ {
		l := co.Links[order[k]]
		e := envs[l.To.ID-1]
		switch {
		case kind == "hang" && phase == "parts":
			l.Set(func(h signer.HRSTKey) (*partsResp, error) { <-release; return nil, errInjected }, nil)
			c.Count("hanging peers", 1)
		case kind == "hang":
			l.Set(nil, func(q signReq) (*signResp, error) { <-release; return nil, errInjected })
			c.Count("hanging peers", 1)
		case phase == "parts":
			f := getFaults[kind]
			l.Set(func(h signer.HRSTKey) (*partsResp, error) {
				p, err := l.To.GetEphemeralSecretParts(h)
				if err != nil {
					return nil, err
				}
				e.mu.Lock()
				defer e.mu.Unlock()
				return f(e, cloneParts(p))
			}, nil)
		default:
			f := signFaults[kind]
			l.Set(nil, func(q signReq) (*signResp, error) {
				s, err := l.To.SetEphemeralSecretPartsAndSign(q)
				if err != nil {
					return nil, err
				}
				e.mu.Lock()
				defer e.mu.Unlock()
				s2 := *s
				return f(e, q, &s2)
			})
		}
	}
	what := fmt.Sprintf("%d of %d cosigners, %d liars, %s: %s", cl.T, cl.N, liars, phase, kind)
	m := newMsg(chain, HRS{*height, int64(r.Intn(2)), step}, 1+r.Intn(2), fixedTime.Add(time.Duration(r.Intn(100))*time.Second))
	pvBefore, sacBefore := fileImage(co.PVPath), fileImage(slot.Sac.StatePath)
	started := time.Now()
	o, ended := signWithin(co, m, 90*time.Second)
	c.Eval(what)
	if !ended {
		c.Violation("hang", "%s: request for %s did not return within 90 s", what, m)
		return
	}
	c.Count("attempts", 1)
	checkOutcome(c, pub, o)
	if o.Err != nil {
		c.Count("failed attempts", 1)
		if got := fileImage(co.PVPath); got != pvBefore {
			c.Violation("failed-attempt-recorded", "%s: request for %s failed (%v), but the coordinator's state file went from %s to %s", what, m, o.Err, pvBefore, got)
		}
		if got := fileImage(slot.Sac.StatePath); got != sacBefore {
			c.Violation("failed-attempt-announced", "%s: request for %s failed (%v), but other nodes' state went from %s to %s", what, m, o.Err, sacBefore, got)
		}
	} else {
		c.Count("attempts signed in spite of faults", 1)
	}
	if time.Since(started) > 3*time.Second {
		c.Count("attempts ended by a time limit", 1)
	}
	heal()
	// a later block must be signed
	for try := 0; ; try++ {
		*height++
		at := HRS{*height, 0, 1 + int8(r.Intn(3))}
		if try == 0 && r.Intn(2) == 0 {
			at = HRS{m.HRS().H, m.HRS().R + 1, at.S}
		}
		later := newMsg(chain, at, 1, fixedTime)
		o, ended := signWithin(co, later, 90*time.Second)
		if !ended {
			c.Violation("hang", "%s: later request for %s did not return within 90 s", what, later)
			return
		}
		checkOutcome(c, pub, o)
		if o.Err == nil {
			c.Count("later blocks signed", 1)
			break
		}
		if try == 4 {
			c.Violation("stuck", "%s: after the attempt for %s, with all cosigners correct again, later blocks are not signed: %s: %v", what, m, later, o.Err)
			return
		}
		c.Count("later blocks retried", 1)
	}
	if r.Intn(40) == 0 {
		c.Sample(map[string]interface{}{"fault": what, "asked": m.String(), "error": fmt.Sprint(o.Err)})
	}
}

package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
)

func init() {
	checks["C06"] = checkC06
	helpers["deal"] = helperDeal
}

// helperDeal DIR FROM: prints the ephemeral public keys a fresh process deals.
func helperDeal(args []string) {
	cl, err := loadCluster(args[0])
	must(err)
	var from int64
	fmt.Sscan(args[1], &from)
	for h := from; h < from+5; h++ {
		r, err := cl.Parties[0].Local().GetEphemeralSecretParts(signer.HRSTKey{Height: h, Step: 2, Timestamp: 1})
		must(err)
		for _, p := range r.EncryptedSecrets {
			fmt.Printf("EPH %d %x\n", h, p.SourceEphemeralSecretPublicKey)
		}
	}
	os.Exit(0)
}

// c06Processes looks for ephemeral secrets that come back in another process.
func c06Processes(c *Check) {
	cl := newCluster(2, 3)
	cl.save()
	self, err := os.Executable()
	must(err)
	seen := map[string]string{}
	for i, from := range []string{"1", "1", "6", "100", "1"} {
		out, err := exec.Command(self, "helper", "deal", cl.Dir, from).Output()
		if err != nil {
			c.Inconclusive("dealing process: %v", err)
			continue
		}
		for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
			f := strings.Fields(l)
			if len(f) != 3 {
				continue
			}
			who := fmt.Sprintf("process %d slot %s", i, f[1])
			if o, ok := seen[f[2]]; ok && o != who {
				c.Violation("ephemeral-secret-repeated", "ephemeral public key %s of %s appears again in %s", f[2], o, who)
			}
			seen[f[2]] = who
		}
		c.Eval("process " + from)
	}
	c.Count("ephemeral keys of several processes compared", int64(len(seen)))
}

// nonceLab is one cosigner under attack by everybody else.
type nonceLab struct {
	c  *Check
	cl *Cluster
	p  *Party
	mu sync.Mutex
	// every ephemeral part known for the target, by source, decrypted
	known map[int][]*big.Int
	log   []string
	// own ephemeral public key -> sign bytes it was used for
}

func newNonceLab(c *Check, t, n int) *nonceLab {
	cl := newCluster(t, n)
	return &nonceLab{c: c, cl: cl, p: cl.Parties[0], known: map[int][]*big.Int{}}
}

func (l *nonceLab) learn(parts []secPart) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, e := range parts {
		b, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &l.p.Key.RSAKey, e.EncryptedSharePart, nil)
		if err != nil {
			continue
		}
		v := leToInt(b)
		dup := false
		for _, k := range l.known[e.SourceID] {
			dup = dup || k.Cmp(v) == 0
		}
		if !dup {
			l.known[e.SourceID] = append(l.known[e.SourceID], v)
		}
	}
}

// parts of the given sources for the target; the sources' cosigners deal them for that slot.
func (l *nonceLab) parts(h signer.HRSTKey, sources ...int) []secPart {
	all := map[int]*partsResp{}
	for _, s := range sources {
		r, err := l.cl.Parties[s-1].Local().GetEphemeralSecretParts(h)
		if err != nil {
			continue
		}
		all[s] = r
	}
	ps := partsFor(l.p.ID, all)
	l.learn(ps)
	return ps
}

// attack tries to compute the key share from what the target released, for all combinations of the
// parts which the others know to be behind each release.
func (l *nonceLab) attack(what string) {
	rel := l.cl.releases()
	type cand struct {
		rel int
		own *big.Int
	}
	var sources []int
	for s := range l.known {
		sources = append(sources, s)
	}
	// all sums the others may have contributed
	sums := []*big.Int{new(big.Int)}
	for _, s := range sources {
		var next []*big.Int
		for _, base := range sums {
			next = append(next, base)
			for _, v := range l.known[s] {
				x := new(big.Int).Add(base, v)
				next = append(next, x.Mod(x, orderL))
			}
		}
		sums = next
		if len(sums) > 60000 {
			l.c.Inconclusive("too many combinations of parts in %s", what)
			return
		}
	}
	share := leToInt(l.p.Key.ShareKey)
	share.Mod(share, orderL)
	seen := map[string]cand{}
	checkKey := func(x *big.Int, how string) {
		if x.Cmp(share) == 0 {
			l.c.Violation("key-share-recovered", "the key share of cosigner %d follows from %s\n%s: %s", l.p.ID, how, what, strings.Join(l.log, "\n  "))
		}
	}
	for i, r := range rel {
		if r.Party != l.p.ID {
			continue
		}
		ch := challenge(r.R, l.cl.Pub(), r.Bytes)
		inv := new(big.Int).ModInverse(ch, orderL)
		nonce := l.cl.nonce(r)
		s := leToInt(r.S)
		for _, sum := range sums {
			// no contribution of the target: x = (s - sum) / c
			x := new(big.Int).Sub(s, sum)
			x.Mul(x, inv)
			x.Mod(x, orderL)
			checkKey(x, fmt.Sprintf("a single share signature over %x: its nonce was made by the others alone", r.Bytes))
			own := new(big.Int).Sub(nonce, sum)
			own.Mod(own, orderL)
			k := string(own.Bytes())
			if o, ok := seen[k]; ok && o.rel != i {
				q := rel[o.rel]
				if string(q.Bytes) == string(r.Bytes) && string(q.R) == string(r.R) && string(q.S) == string(r.S) {
					continue // the identical signature handed out again
				}
				// verify by the computation an attacker would do
				ch2 := challenge(q.R, l.cl.Pub(), q.Bytes)
				d := new(big.Int).Sub(ch, ch2)
				d.Mod(d, orderL)
				if d.Sign() == 0 {
					continue
				}
				y1 := new(big.Int).Sub(s, sum)
				// the other's sum follows from its nonce and the same own part
				sum2 := new(big.Int).Sub(l.cl.nonce(q), own)
				y2 := new(big.Int).Sub(leToInt(q.S), sum2)
				y1.Sub(y1, y2)
				y1.Mul(y1, new(big.Int).ModInverse(d, orderL))
				y1.Mod(y1, orderL)
				checkKey(y1, fmt.Sprintf("two share signatures made with the same ephemeral secret, over %x and %x", q.Bytes, r.Bytes))
			} else if !ok {
				seen[k] = cand{i, own}
			}
		}
	}
	l.c.Count("share signatures attacked", int64(len(rel)))
	l.c.Count("combinations tried", int64(len(rel)*len(sums)))
}

// withUnknownField appends a field nobody knows to length-prefixed sign bytes.
func withUnknownField(bz []byte, tag int, val byte) []byte {
	n, k := binary.Uvarint(bz)
	body := append([]byte(nil), bz[k:]...)
	if int(n) != len(body) {
		panic("harness: not length prefixed")
	}
	var t [10]byte
	tl := binary.PutUvarint(t[:], uint64(tag)<<3)
	body = append(body, t[:tl]...)
	body = append(body, val)
	var p [10]byte
	pl := binary.PutUvarint(p[:], uint64(len(body)))
	return append(p[:pl], body...)
}

func checkC06(c *Check) {
	c.Rule("a case is one attack scenario: a sequence of requests to one cosigner by an adversary who knows everything of all other "+
		"cosigners (repeated and replayed requests, parts replayed over slots, timestamp and encoding variants of one message, colliding "+
		"timestamps, mismatched places, missing dealing, empty parts, announcements, restarts, concurrency), after which the adversary "+
		"tries to compute the key share from all released share signatures for all combinations of known parts; non-trivial if at least "+
		"two different share signatures were released; distinct by scenario and messages",
		"the adversary's parts are tried in all combinations, own parts are never told to it")
	c.Need("ephemeral keys of several processes compared", "share signatures attacked", "releases at one place", "second uses attempted", "restarts", "concurrent requests")
	testRSAKeys(3)
	// the oracle itself must be able to find a reused nonce
	c06SelfTest(c)
	n := c.size(160, 3000)
	parallel(n, 8, func(i int) {
		if c.Violated() {
			return
		}
		t, nn := 2, 2
		if i%3 == 0 {
			nn = 3
		}
		l := newNonceLab(c, t, nn)
		r := c.Rng(fmt.Sprintf("lab-%d", i))
		if i%4 == 3 {
			c06Concurrent(l, r)
		} else {
			c06Sequence(l, r)
		}
		rel := l.cl.releases()
		l.attack(fmt.Sprintf("scenario %d (%d of %d)", i, t, nn))
		places := map[string]int{}
		distinct := map[string]bool{}
		for _, x := range rel {
			places[fmt.Sprint(x.HRST.Height, x.HRST.Round, x.HRST.Step)]++
			distinct[string(x.S)] = true
		}
		for _, k := range places {
			if k > 1 {
				c.Count("releases at one place", int64(k))
			}
		}
		key := ""
		if len(distinct) > 1 {
			key = strings.Join(l.log, ";")
		}
		c.Eval(key)
		if i < 3 {
			if len(l.log) > 20 {
				l.log = l.log[:20]
			}
			c.Sample(l.log)
		}
	})
	c06Coordinators(c)
	c06Processes(c)
}

// c06SelfTest makes two signatures with one nonce and sees that the attack succeeds on them.
func c06SelfTest(c *Check) {
	l := newNonceLab(&Check{ID: "selftest", counters: map[string]int64{}}, 2, 2)
	share := leToInt(l.p.Key.ShareKey)
	own, others := leToInt(randBytes(31)), leToInt(randBytes(31))
	l.known[2] = []*big.Int{others}
	nonce := new(big.Int).Add(own, others)
	R := multBase(nonce)
	for i := 0; i < 2; i++ {
		m := []byte(fmt.Sprint("message ", i))
		s := new(big.Int).Mul(challenge(R, l.cl.Pub(), m), share)
		s.Add(s, nonce)
		l.cl.Released = append(l.cl.Released, Release{Party: 1, Bytes: m, R: R, S: intToLE(s)})
	}
	l.attack("self test")
	if !l.c.Violated() {
		panic("harness: the nonce oracle does not see a reused nonce")
	}
}

func c06Request(l *nonceLab, h signer.HRSTKey, bz []byte, parts []secPart, what string) (*signResp, error) {
	res, err := l.p.SetEphemeralSecretPartsAndSign(signReq{EncryptedSecrets: parts, HRST: h, SignBytes: bz})
	if err != nil {
		what += ": " + err.Error()
	} else {
		what += ": signed"
	}
	l.mu.Lock()
	l.log = append(l.log, what)
	l.mu.Unlock()
	return res, err
}

func c06Sequence(l *nonceLab, r *mrand.Rand) {
	c := l.c
	at := HRS{5, 0, randStep(r)}
	m := newMsg(chain, at, 1, fixedTime)
	bz := m.SignBytes()
	var past [][]secPart
	var sources []int
	for i := 2; i <= l.cl.N; i++ {
		sources = append(sources, i)
	}
	fixed := r.Intn(2) == 0 // always the same parts of the others, dealt for some slot
	var fixedParts []secPart
	if fixed {
		fixedParts = l.parts(signer.HRSTKey{Height: 1}, sources...)
	}
	lastAt := map[string]bool{}
	steps := 14 + r.Intn(10)
	for s := 0; s < steps; s++ {
		h := m.HRST()
		if r.Intn(4) != 0 { // the target deals
			if _, err := l.p.GetEphemeralSecretParts(h); err != nil {
				l.log = append(l.log, "deal: "+err.Error())
			} else {
				l.log = append(l.log, fmt.Sprintf("deal for %s", m))
			}
		}
		var ps []secPart
		switch k := r.Intn(6); {
		case fixed && k < 4:
			ps = fixedParts
		case k == 4 && len(past) > 0:
			ps = past[r.Intn(len(past))] // parts of an earlier slot
		case k == 5:
			ps = nil
		default:
			if len(l.known[2]) < 6 {
				ps = l.parts(h, sources...)
			} else if len(past) > 0 {
				ps = past[r.Intn(len(past))]
			}
		}
		if len(ps) > 0 && len(past) < 8 {
			past = append(past, ps)
		}
		if r.Intn(6) == 0 && len(ps) > 1 {
			ps = ps[:1]
		}
		hr := h
		if r.Intn(8) == 0 {
			hr.Timestamp++ // the request names another slot than the sign bytes
			if r.Intn(2) == 0 {
				l.p.GetEphemeralSecretParts(hr)
			}
		}
		place := fmt.Sprint(m.HRS())
		if lastAt[place] {
			c.Count("second uses attempted", 1)
		}
		if _, err := c06Request(l, hr, bz, ps, fmt.Sprintf("sign %s (%d bytes) with %d parts", m, len(bz), len(ps))); err == nil {
			lastAt[place] = true
		}
		// what next
		switch r.Intn(10) {
		case 0, 1: // the same again
		case 2: // another timestamp
			m = m.WithTime(fixedTime.Add(time.Duration(r.Intn(3)) * time.Second))
			bz = m.SignBytes()
		case 3: // a timestamp that collides with the present one
			m = m.WithTime(plus2to64(m.Time()))
			bz = m.SignBytes()
		case 4, 5: // another encoding of the same message
			bz = withUnknownField(m.SignBytes(), 100+r.Intn(3), byte(1+r.Intn(3)))
		case 6: // conflicting
			for _, v := range m.variants() {
				m = v
				break
			}
			bz = m.SignBytes()
		case 7:
			must2(c, l.p.Restart())
			l.log = append(l.log, "restart")
			c.Count("restarts", 1)
		case 8: // announced
			if r.Intn(2) == 0 {
				tell(l.p, m)
				l.log = append(l.log, "announce "+m.String())
			}
		case 9: // onwards
			at.H++
			at.S = randStep(r)
			m = newMsg(chain, at, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(2))*time.Second))
			bz = m.SignBytes()
		}
	}
}

// c06Concurrent lets many requests for one slot, with variants of one message, race.
func c06Concurrent(l *nonceLab, r *mrand.Rand) {
	c := l.c
	var sources []int
	for i := 2; i <= l.cl.N; i++ {
		sources = append(sources, i)
	}
	for round := 0; round < 6; round++ {
		m := newMsg(chain, HRS{int64(10 + round), 0, randStep(r)}, 1, fixedTime)
		h := m.HRST()
		ps := l.parts(h, sources...)
		l.p.GetEphemeralSecretParts(h)
		bzs := [][]byte{m.SignBytes(), m.WithTime(plus2to64(fixedTime)).SignBytes(), withUnknownField(m.SignBytes(), 100, 1), withUnknownField(m.SignBytes(), 101, 1),
			m.WithTime(fixedTime.Add(time.Second)).SignBytes()}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < 8; k++ {
			bz := bzs[r.Intn(len(bzs))]
			redeal := r.Intn(3) == 0
			hh := h
			if string(bz) == string(bzs[4]) {
				hh.Timestamp += int64(time.Second)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if redeal {
					l.p.GetEphemeralSecretParts(hh)
				}
				c06Request(l, hh, bz, ps, fmt.Sprintf("concurrent %d %x", round, bz[len(bz)-4:]))
				c.Count("concurrent requests", 1)
				c.Count("second uses attempted", 1)
			}()
		}
		close(start)
		wg.Wait()
	}
}

// c06Coordinators runs honest coordinators with faults over the same cluster and attacks every cosigner
// by looking for related nonces in all that was released.
func c06Coordinators(c *Check) {
	n := c.size(6, 40)
	slots := newLeaderSlots(6)
	parallel(n, 3, func(i int) {
		r := c.Rng(fmt.Sprintf("coord-%d", i))
		cl := newCluster(2, 3)
		w := i % 3
		cos := []*Coord{newCoord(cl, slots[2*w], 1), newCoord(cl, slots[2*w+1], 2)}
		h := int64(1)
		for s := 0; s < 40; s++ {
			m := newMsg(chain, HRS{h, 0, randStep(r)}, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(2))*time.Second))
			var wg sync.WaitGroup
			for k := 0; k < 2; k++ {
				co := cos[r.Intn(2)]
				x := m
				if r.Intn(2) == 0 {
					x = m.WithTime(m.Time().Add(time.Duration(r.Intn(2)) * time.Second))
				}
				wg.Add(1)
				go func() { defer wg.Done(); co.Sign(x) }()
			}
			wg.Wait()
			if r.Intn(3) > 0 {
				h++
			}
		}
		rel := cl.releases()
		byNonce := map[string]Release{}
		for _, x := range rel {
			k := fmt.Sprint(x.Party) + string(cl.nonce(x).Bytes())
			if y, ok := byNonce[k]; ok {
				if string(y.Bytes) != string(x.Bytes) || string(y.S) != string(x.S) {
					c.Violation("nonce-reused", "cosigner %d used one nonce for %x and %x", x.Party, x.Bytes, y.Bytes)
				}
				continue
			}
			byNonce[k] = x
		}
		c.Count("share signatures attacked", int64(len(rel)))
		c.Eval(fmt.Sprintf("coordinators %d %d", i, len(rel)))
	})
}

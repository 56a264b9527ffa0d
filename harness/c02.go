package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
)

func init() { checks["C02"] = checkC02 }

// markModel is what a cosigner's watermark must be.
type markModel struct {
	at      HRS
	content string // of the message signed or announced at the watermark; "" if not known
}

// allows tells whether a share signature of the message may be released.
func (m markModel) allows(x Msg) bool {
	h := x.HRS()
	if h.Less(m.at) {
		return false
	}
	if h == m.at {
		return m.content != "" && m.content == x.Content()
	}
	return true
}

func consensus(m Msg, sig []byte) signer.SignStateConsensus {
	h := m.HRS()
	return signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S, Signature: sig, SignBytes: m.SignBytes()}
}

// tell announces that the cluster signed a message.
func tell(p *Party, m Msg) error {
	sig := make([]byte, 64)
	rand.Read(sig)
	return p.Local().SaveLastSignedState(consensus(m, sig))
}

type stateImage struct {
	at        HRS
	sig, bz   string
	ephemeral string
}

func (s stateImage) String() string {
	return fmt.Sprintf("%s sig=%d bytes signbytes=%d bytes", s.at, len(s.sig), len(s.bz))
}

func readState(c *Check, path string) (stateImage, bool) {
	at, st, err := loadHRS(path)
	if err != nil {
		c.Violation("state-unreadable", "state file cannot be loaded: %v", err)
		return stateImage{}, false
	}
	return stateImage{at, string(st.Signature), string(st.SignBytes), string(st.EphemeralPublic)}, true
}

// tryShare asks the cosigner for a share signature and compares with the model, which it updates.
func tryShare(c *Check, p *Party, others []signer.Cosigner, m Msg, mod *markModel, ctx func() string) (released bool) {
	before, ok := readState(c, p.StatePath)
	if !ok {
		return false
	}
	res, err := shareSign(m, p, others...)
	after, ok := readState(c, p.StatePath)
	if !ok {
		return false
	}
	if err != nil {
		if res != nil && (len(res.Signature) > 0 || len(res.EphemeralPublic) > 0) {
			c.Violation("refusal-with-signature", "refused (%v) %s but returned signature %x\n%s", err, m, res.Signature, ctx())
		}
		if before != after {
			c.Violation("refusal-changes-state", "refused %s (%v), state changed from %s to %s\n%s", m, err, before, after, ctx())
		}
		c.Count("refused", 1)
		return false
	}
	if len(res.Signature) == 0 {
		c.Violation("success-without-signature", "%s: success without signature\n%s", m, ctx())
		return false
	}
	c.Count("share signatures", 1)
	if !mod.allows(m) {
		c.Violation("signed-below-watermark", "watermark %s (content %s), but a share signature of %s (content %s) was released\n%s",
			mod.at, mod.content, m, m.Content(), ctx())
	}
	h := m.HRS()
	if mod.at.Less(h) {
		mod.at, mod.content = h, m.Content()
		if after.at != h || after.bz != string(m.SignBytes()) {
			c.Violation("watermark-not-raised", "signed %s but the state file holds %s\n%s", m, after, ctx())
		}
	} else if after.at != mod.at {
		c.Violation("watermark-moved", "watermark %s, signed %s, state file holds %s\n%s", mod.at, m, after, ctx())
	}
	return true
}

func tellModel(c *Check, p *Party, m Msg, mod *markModel, ctx func() string) {
	before, _ := readState(c, p.StatePath)
	err := tell(p, m)
	after, ok := readState(c, p.StatePath)
	if !ok {
		return
	}
	h := m.HRS()
	if mod.at.Less(h) {
		mod.at, mod.content = h, m.Content()
		if err != nil || after.at != h {
			c.Violation("announcement-ignored", "told that %s is signed: error %v, state file holds %s\n%s", m, err, after, ctx())
		}
		return
	}
	if after.at != mod.at || after.bz != before.bz {
		c.Violation("announcement-lowers", "watermark %s, told that %s is signed, state file holds %s\n%s", mod.at, m, after, ctx())
	}
}

func checkC02(c *Check) {
	c.Rule("a case is one request to a cosigner whose watermark was set by signing, by an announcement, by its file or any of those "+
		"followed by a restart: all 27 heights/rounds/steps around the watermark plus far ones, all single-field changes at the same "+
		"height/round/step with several timestamps, random sequences, and concurrent callers judged by real-time order; "+
		"non-trivial when the request is at or below the watermark or changes it; distinct by (way, relation, field, timestamp)",
		"the other cosigners' ephemeral parts are genuine")
	c.Need("refused", "share signatures", "restarts", "same-slot variants", "concurrent releases", "announcements",
		"far lower heights refused", "far lower rounds refused")
	testRSAKeys(3)
	ways := []string{"signed", "told", "signed+restart", "told+restart", "bare", "bare+restart", "signed twice", "signed then told"}
	type job struct {
		way  string
		step int8
		base HRS
	}
	var jobs []job
	for _, w := range ways {
		for s := int8(1); s <= 3; s++ {
			jobs = append(jobs, job{w, s, HRS{10, 5, s}})
		}
	}
	for s := int8(1); s <= 3; s++ {
		jobs = append(jobs, job{"signed", s, HRS{math.MaxInt64, math.MaxInt32, s}}, job{"told+restart", s, HRS{1 << 40, 0, s}},
			job{"signed+restart", s, HRS{1, 0, s}}, job{"told", s, HRS{1 << 32, 1 << 20, s}})
	}
	parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		c02Neighbours(c, j.way, j.base)
	})
	c02Far(c)
	n := c.size(48, 600)
	parallel(n, 8, func(i int) { c02Sequence(c, i) })
	n = c.size(48, 400)
	parallel(n, 4, func(i int) { c02Concurrent(c, i) })
}

// place sets a fresh cosigner's watermark to the message in the given way.
func place(c *Check, cl *Cluster, way string, m Msg) (markModel, bool) {
	p := cl.Parties[0]
	mod := markModel{at: m.HRS(), content: m.Content()}
	restart := strings.HasSuffix(way, "+restart")
	switch strings.TrimSuffix(way, "+restart") {
	case "signed":
		if _, err := shareSign(m, p, cl.Parties[1]); err != nil {
			c.Inconclusive("could not sign the first message: %v", err)
			return mod, false
		}
	case "signed twice":
		if _, err := shareSign(m, p, cl.Parties[1]); err != nil {
			c.Inconclusive("could not sign the first message: %v", err)
			return mod, false
		}
		shareSign(m.WithTime(m.Time().Add(time.Second)), p, cl.Parties[1])
	case "signed then told":
		if _, err := shareSign(m, p, cl.Parties[1]); err != nil {
			c.Inconclusive("could not sign the first message: %v", err)
			return mod, false
		}
		tell(p, m)
		c.Count("announcements", 1)
	case "told":
		if err := tell(p, m); err != nil {
			c.Violation("announcement-ignored", "fresh cosigner refuses the announcement of %s: %v", m, err)
			return mod, false
		}
		c.Count("announcements", 1)
	case "bare":
		h := m.HRS()
		if err := p.Local().SaveLastSignedState(signer.NewSignStateConsensus(h.H, h.R, h.S)); err != nil {
			c.Violation("announcement-ignored", "fresh cosigner refuses watermark %s: %v", h, err)
			return mod, false
		}
		mod.content = ""
	}
	if restart {
		must2(c, p.Restart())
		c.Count("restarts", 1)
	}
	return mod, true
}

func c02Neighbours(c *Check, way string, base HRS) {
	type target struct {
		m    Msg
		desc string
	}
	var ts []target
	m0 := newMsg(chain, base, 1, fixedTime)
	add64 := func(a int64, d int64, max int64) (int64, bool) {
		if d > 0 && a > max-d || a+d < 0 {
			return 0, false
		}
		return a + d, true
	}
	for _, dh := range []int64{-1000, -1, 0, 1} {
		for _, dr := range []int64{-2, -1, 0, 1, 1000} {
			for s := int8(1); s <= 3; s++ {
				h, ok := add64(base.H, dh, math.MaxInt64)
				r, ok2 := add64(base.R, dr, math.MaxInt32)
				if !ok || !ok2 {
					continue
				}
				at := HRS{h, r, s}
				for _, v := range []int{0, 1, 2} {
					if at == base {
						continue
					}
					ts = append(ts, target{newMsg(chain, at, v, fixedTime.Add(time.Duration(v)*time.Second)),
						fmt.Sprintf("dh=%d dr=%d ds=%d v=%d", dh, dr, s-base.S, v)})
					if at != base && v == 0 && c.Tier == "quick" && (dh < -1 || dr > 1) {
						break
					}
				}
			}
		}
	}
	stamps := timestamps()
	vs := m0.variants()
	var names []string
	for k := range vs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for i, t := range stamps {
			if c.Tier == "quick" && i%3 != 0 && i != 1 {
				continue
			}
			ts = append(ts, target{vs[k].WithTime(t), fmt.Sprintf("variant %s time %d", k, i)})
		}
	}
	if m0.Vote != nil { // the same place, with the same-looking block, but the other type
		x := newMsg(chain, HRS{base.H, base.R, 5 - base.S}, 1, fixedTime)
		if !x.HRS().Less(base) {
			ts = append(ts, target{x, "other vote type"})
		}
	}
	for i, t := range stamps {
		ts = append(ts, target{m0.WithTime(t), fmt.Sprintf("same, time %d", i)})
	}
	ts = append(ts, target{m0.WithTime(plus2to64(fixedTime)), "same, colliding time"})
	var cl *Cluster
	var mod markModel
	fresh := true
	for _, t := range ts {
		if c.Violated() {
			return
		}
		if fresh {
			cl = newCluster(2, 2)
			var ok bool
			if mod, ok = place(c, cl, way, m0); !ok {
				return
			}
			fresh = false
		}
		ctx := func() string { return fmt.Sprintf("watermark set by %s to %s; then: %s", way, m0, t.desc) }
		allowed := mod.allows(t.m)
		before := mod
		tryShare(c, cl.Parties[0], []signer.Cosigner{cl.Parties[1]}, t.m, &mod, ctx)
		if t.m.HRS() == base {
			c.Count("same-slot variants", 1)
		}
		c.Eval(way + t.desc + base.String())
		if allowed {
			c.Count("allowed requests", 1)
		} else {
			c.Count("forbidden requests", 1)
		}
		if before != mod {
			fresh = true
		}
	}
	if way == "told+restart" {
		c.Sample(map[string]interface{}{"watermark set by": way, "to": m0.String(), "then asked for": len(ts), "last": ts[len(ts)-1].m.String()})
	}
}

// farNumbers are ascending numbers around the limits of all number types up to the maximum.
func farNumbers(max int64) []int64 {
	out := []int64{1}
	for k := uint(6); k < 63; k++ {
		switch k {
		case 6, 7, 8, 15, 16, 23, 24, 30, 31, 32, 40, 48, 52, 53, 54, 62:
		default:
			continue
		}
		for _, d := range []int64{-1, 0, 1, 1 << (k - 1)} {
			if x := int64(1)<<k + d; x <= max && x > out[len(out)-1] {
				out = append(out, x)
			}
		}
	}
	if out[len(out)-1] != max {
		out = append(out, max)
	}
	return out
}

// c02Far: heights and rounds far apart, as the numbers they are.
func c02Far(c *Check) {
	type job struct {
		what string
		n    int64
		low  []int64
		s    int8
		way  string
	}
	var jobs []job
	ways := []string{"signed", "told+restart", "signed+restart", "told"}
	for what, max := range map[string]int64{"height": math.MaxInt64, "round": math.MaxInt32} {
		ns := farNumbers(max)
		for i := range ns {
			jobs = append(jobs, job{what, ns[i], ns[:i], int8(1 + i%3), ways[i%len(ways)]})
		}
	}
	parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		at := func(n int64, s int8) HRS {
			if j.what == "height" {
				return HRS{n, 1, s}
			}
			return HRS{7, n, s}
		}
		m0 := newMsg(chain, at(j.n, j.s), 1, fixedTime)
		cl := newCluster(2, 2)
		mod, ok := place(c, cl, j.way, m0)
		if !ok {
			return
		}
		for k, n := range j.low {
			m := newMsg(chain, at(n, int8(1+k%3)), k%3, fixedTime)
			tryShare(c, cl.Parties[0], []signer.Cosigner{cl.Parties[1]}, m, &mod,
				func() string { return fmt.Sprintf("watermark set by %s to %s; then asked for %s", j.way, m0, m) })
			c.Eval(fmt.Sprintf("far %s %s %d %d", j.way, j.what, j.n, n))
			c.Count("far lower "+j.what+"s refused", 1)
			tellModel(c, cl.Parties[0], m, &mod, func() string { return fmt.Sprintf("watermark set by %s to %s; then told %s", j.way, m0, m) })
			if c.Violated() {
				return
			}
		}
	})
}

func c02Sequence(c *Check, i int) {
	r := c.Rng(fmt.Sprintf("seq-%d", i))
	cl := newCluster(2, 3)
	p := cl.Parties[r.Intn(3)]
	var log []string
	ctx := func() string { return strings.Join(log, "\n  ") }
	mod := markModel{}
	frontier := HRS{1, 0, 1}
	for s := 0; s < 40 && !c.Violated(); s++ {
		at := frontier
		at.H += int64(r.Intn(3)) - 1
		at.R += int64(r.Intn(3)) - 1
		at.S = randStep(r)
		if at.R < 0 {
			at.R = 0
		}
		if at.H < 0 {
			at.H = 0
		}
		if r.Intn(3) == 0 {
			at = mod.at
			if at.S == 0 {
				at.S = 1
			}
		}
		m := newMsg(chain, at, r.Intn(3), timestamps()[r.Intn(5)])
		if r.Intn(4) == 0 {
			vs := m.variants()
			var names []string
			for k := range vs {
				names = append(names, k)
			}
			sort.Strings(names)
			m = vs[names[r.Intn(len(names))]]
		}
		switch r.Intn(8) {
		case 0:
			log = append(log, "restart")
			must2(c, p.Restart())
			c.Count("restarts", 1)
		case 1, 2:
			log = append(log, "told "+m.String())
			tellModel(c, p, m, &mod, ctx)
			c.Count("announcements", 1)
		default:
			var others []signer.Cosigner
			for _, o := range cl.Parties {
				if o != p && (len(others) == 0 || r.Intn(2) == 0) {
					others = append(others, o)
				}
			}
			log = append(log, "sign "+m.String())
			was := mod.allows(m)
			if tryShare(c, p, others, m, &mod, ctx) {
				log[len(log)-1] += " -> signed"
			}
			c.Eval(fmt.Sprintf("seq %v %v %v", was, mod.at.Less(m.HRS()), m.Key()))
		}
		if frontier.Less(mod.at) {
			frontier = mod.at
		}
		if r.Intn(4) == 0 {
			frontier.H++
		}
	}
	if i == 0 {
		c.Sample(log)
	}
}

type toldEvent struct {
	m         Msg
	call, ret int64
}

// c02Concurrent lets many callers use one cosigner at once and judges the releases by real-time order.
func c02Concurrent(c *Check, i int) {
	r := c.Rng(fmt.Sprintf("conc-%d", i))
	cl := newCluster(2, 3)
	p := cl.Parties[0]
	var mu sync.Mutex
	var told []toldEvent
	base := int64(5)
	// known messages by sign bytes
	byBytes := map[string]Msg{}
	for round := 0; round < 12 && !c.Violated(); round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		callers := 2 + r.Intn(7)
		for k := 0; k < callers; k++ {
			at := HRS{base + int64(r.Intn(2)), int64(r.Intn(2)), randStep(r)}
			if r.Intn(2) == 0 { // contend for one slot
				at = HRS{base + 1, 1, 3}
			}
			m := newMsg(chain, at, r.Intn(3), fixedTime.Add(time.Duration(r.Intn(3))*time.Second))
			byBytes[string(m.SignBytes())] = m
			tellIt := r.Intn(5) == 0
			other := cl.Parties[1+r.Intn(2)]
			pre := r.Intn(2) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				if tellIt {
					<-start
					e := toldEvent{m: m, call: tick()}
					if err := tell(p, m); err == nil {
						e.ret = tick()
						mu.Lock()
						told = append(told, e)
						mu.Unlock()
					}
					return
				}
				if !pre {
					<-start
					shareSign(m, p, other)
					return
				}
				all, err := deal(m.HRST(), p, other)
				<-start
				if err == nil {
					p.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
						EncryptedSecrets: partsFor(p.ID, all), HRST: m.HRST(), SignBytes: m.SignBytes()})
				}
			}()
		}
		time.Sleep(time.Millisecond)
		close(start)
		wg.Wait()
		base += int64(r.Intn(2))
	}
	rel := cl.releases()
	// the final watermark
	max := HRS{}
	for _, x := range rel {
		if max.Less(byBytes[string(x.Bytes)].HRS()) {
			max = byBytes[string(x.Bytes)].HRS()
		}
	}
	for _, e := range told {
		if max.Less(e.m.HRS()) {
			max = e.m.HRS()
		}
	}
	if img, ok := readState(c, p.StatePath); ok && img.at != max {
		c.Violation("watermark-not-max", "state file holds %s, highest released or announced is %s", img, max)
	}
	for a := range rel {
		ma := byBytes[string(rel[a].Bytes)]
		for b := range rel {
			mb := byBytes[string(rel[b].Bytes)]
			if ma.HRS() == mb.HRS() && ma.Content() != mb.Content() {
				c.Violation("conflicting-share-signatures", "share signatures of both %s and %s were released by cosigner %d", ma, mb, p.ID)
			}
			if rel[a].Ret < rel[b].Call && mb.HRS().Less(ma.HRS()) {
				c.Violation("went-back", "share signature of %s (call %d) was released after that of %s (return %d)", mb, rel[b].Call, ma, rel[a].Ret)
			}
		}
		for _, e := range told {
			if e.ret < rel[a].Call && (ma.HRS().Less(e.m.HRS()) || ma.HRS() == e.m.HRS() && ma.Content() != e.m.Content()) {
				c.Violation("went-back-from-announcement", "share signature of %s was released after %s was announced", ma, e.m)
			}
		}
		c.Eval(fmt.Sprintf("conc %d %s", i, ma.Key()))
	}
	c.Count("concurrent releases", int64(len(rel)))
	c.Count("concurrent announcements", int64(len(told)))
}

var _ = bytes.Equal

package main

import (
	"fmt"
	"math"
	mrand "math/rand"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
)

func init() { checks["C08"] = checkC08 }

func checkC08(c *Check) {
	c.Rule("a case is one block asked of a coordinator of which exactly a given subset of at least threshold cosigners answers, the "+
		"others fail at once, hang, answer after the attempt, or fail at the signing phase before being chosen; subsets, coordinators and "+
		"modes are enumerated per cluster shape, answer orders are shuffled by delays, and refused, failed and repeated requests come in "+
		"between; non-trivial if some cosigner does not answer or a request failed before; distinct by (shape, coordinator, subset, mode)",
		"a request is only held against the code if it fails again at two later places, since its inner time limits are wall-clock based")
	c.Need("signed with exactly the threshold", "signed with hanging others", "signed after failed requests", "signed with late others",
		"signed with answers at one moment", "signed by large clusters", "signed after refused bytes at the same place", "signed at far heights and rounds",
		"signed with fewer peers than other shares", "signed while a lower block was", "signed with slow cosigners")
	testRSAKeys(26)
	type job struct {
		t, n, own int
		set       []int
		mode      string
	}
	groups := map[string][]job{}
	shapes := [][2]int{{2, 2}, {3, 2}, {3, 3}, {4, 3}, {5, 3}}
	if c.Tier == "thorough" {
		shapes = append(shapes, [2]int{5, 4}, [2]int{6, 4}, [2]int{7, 4})
	}
	for _, sh := range shapes {
		n, t := sh[0], sh[1]
		for own := 1; own <= n; own++ {
			for size := t; size <= n; size++ {
				for qi, q := range quorums(n, size, own) {
					for mi, mode := range []string{"error", "hang", "late"} {
						if size == n && mode != "error" {
							continue
						}
						if c.Tier == "quick" && n == 5 && (qi+mi+own)%2 == 1 {
							continue
						}
						k := fmt.Sprint(n, t, own, mode)
						groups[k] = append(groups[k], job{t, n, own, q, mode})
					}
				}
			}
		}
	}
	// larger ones by sample
	r := c.Rng("large")
	large := [][2]int{{7, 4}, {9, 5}, {10, 6}, {13, 13}, {14, 10}, {15, 8}, {20, 11}, {26, 2}}
	if c.Tier == "thorough" {
		large = append(large, [2]int{17, 9}, [2]int{21, 14}, [2]int{25, 25}, [2]int{32, 17}, [2]int{40, 27}, [2]int{64, 3})
	}
	for _, sh := range large {
		for k := 0; k < c.size(12, 60); k++ {
			g := fmt.Sprint("large", sh, k%2)
			own := 1 + r.Intn(sh[0])
			if len(groups[g]) > 0 {
				own = groups[g][0].own
			}
			set := randQuorum(r, sh[0], sh[1], own)
			if k >= 10 { // the cosigners with the highest numbers
				set = nil
				for i := sh[0]; i > 0 && len(set) < sh[1]; i-- {
					if i == own || len(set) < sh[1]-1 || i < own {
						set = append(set, i)
					}
				}
			}
			groups[g] = append(groups[g], job{sh[1], sh[0], own, set, []string{"error", "hang", "late"}[r.Intn(3)]})
		}
	}
	defer c08Together(c)
	defer c08Fewer(c)
	defer c08Slow(c)
	defer c08Far(c)
	defer c08Overlap(c)
	var names []string
	for k := range groups {
		names = append(names, k)
	}
	sort.Strings(names)
	const workers = 28
	slots := newLeaderSlots(workers)
	pool := make(chan *LeaderSlot, workers)
	for _, s := range slots {
		pool <- s
	}
	parallel(len(names), workers, func(i int) {
		slot := <-pool
		defer func() { pool <- slot }()
		g := groups[names[i]]
		r := c.Rng("group" + names[i])
		cl := newCluster(g[0].t, g[0].n)
		co := newCoord(cl, slot, g[0].own)
		h := int64(10)
		for _, j := range g {
			if c.Violated() {
				return
			}
			c08Block(c, r, co, j.set, j.mode, &h, names[i])
		}
		c08AfterFailures(c, r, co, &h)
	})
}

// randQuorum returns k of the n numbers, among them own.
func randQuorum(r *mrand.Rand, n, k, own int) []int {
	set := []int{own}
	for _, i := range r.Perm(n) {
		if i+1 != own && len(set) < k {
			set = append(set, i+1)
		}
	}
	sort.Ints(set)
	return set
}

func (co *Coord) delays(r *mrand.Rand, l *Link) {
	d1, d2 := time.Duration(r.Intn(4))*time.Millisecond, time.Duration(r.Intn(4))*time.Millisecond
	l.Set(func(h signer.HRSTKey) (*partsResp, error) {
		time.Sleep(d1)
		return l.To.GetEphemeralSecretParts(h)
	}, func(q signReq) (*signResp, error) {
		time.Sleep(d2)
		return l.To.SetEphemeralSecretPartsAndSign(q)
	})
}

func c08Block(c *Check, r *mrand.Rand, co *Coord, set []int, mode string, h *int64, name string) {
	cl := co.cl
	var fails []string
	for try := 0; try < 3; try++ {
		in := map[int]bool{}
		for _, i := range set {
			in[i] = true
		}
		release := make(chan struct{})
		for _, l := range co.Links {
			l := l
			if in[l.To.ID] {
				if try == 0 {
					co.delays(r, l)
				} else {
					l.Set(nil, nil)
				}
				continue
			}
			switch mode {
			case "error":
				l.Set(failGet, failSign)
			case "hang":
				l.Set(func(signer.HRSTKey) (*partsResp, error) { <-release; return nil, errInjected },
					func(signReq) (*signResp, error) { <-release; return nil, errInjected })
			case "late":
				d := time.Duration(10+r.Intn(40)) * time.Millisecond
				l.Set(func(h signer.HRSTKey) (*partsResp, error) { time.Sleep(d); return l.To.GetEphemeralSecretParts(h) }, nil)
			}
		}
		*h += 1 + int64(r.Intn(2))
		m := newMsg(chain, HRS{*h, int64(r.Intn(2)), randStep(r)}, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(50))*time.Second))
		o, ended := signWithin(co, m, 90*time.Second)
		close(release)
		if !ended {
			c.Violation("hang", "%d of %d, coordinator %d, reachable %v, others %s: request for %s did not return", cl.T, cl.N, co.Own, set, mode, m)
			return
		}
		checkOutcome(c, cl.Priv.PubKey(), o)
		if o.Err == nil {
			c.Count("signed", 1)
			if len(set) == cl.T {
				c.Count("signed with exactly the threshold", 1)
			}
			if cl.N > 12 {
				c.Count("signed by large clusters", 1)
			}
			if len(set) < cl.N {
				c.Count("signed with "+map[string]string{"error": "failing", "hang": "hanging", "late": "late"}[mode]+" others", 1)
			}
			if try > 0 {
				c.Count("signed at a later try", 1)
			}
			break
		}
		fails = append(fails, fmt.Sprintf("%s: %v", m, o.Err))
	}
	desc := fmt.Sprintf("%d of %d, coordinator %d, reachable %v, others %s", cl.T, cl.N, co.Own, set, mode)
	c.Eval(desc)
	if len(fails) == 3 {
		c.Violation("not-signed", "%s: not signed three times: %s", desc, strings.Join(fails, "; "))
	}
	if len(set) < cl.N && r.Intn(60) == 0 {
		c.Sample(desc + ": signed")
	}
}

// c08AfterFailures: failed and refused requests do not keep the next block from being signed.
func c08AfterFailures(c *Check, r *mrand.Rand, co *Coord, h *int64) {
	cl := co.cl
	c08Spoiled(c, r, co, h)
	for k := 0; k < 4 && !c.Violated(); k++ {
		*h++
		m := newMsg(chain, HRS{*h, 0, 2}, 1, fixedTime)
		var desc string
		switch k {
		case 0: // too few cosigners
			desc = "an attempt with too few cosigners"
			co.only(co.Own)
			co.Sign(m)
		case 1: // cosigners fail at the signing phase
			desc = "an attempt whose answers got lost"
			for _, l := range co.Links {
				loseAnswer(l)
			}
			co.Sign(m)
		case 2: // refused: conflicting, lower, repeated
			desc = "refused requests"
			for _, l := range co.Links {
				l.Set(nil, nil)
			}
			co.Sign(m)
			for _, v := range m.variants() {
				co.Sign(v)
				break
			}
			co.Sign(newMsg(chain, HRS{*h - 5, 0, 1}, 1, fixedTime))
			co.Sign(newMsg(chain, HRS{0, 0, 1}, 1, fixedTime))
			co.Sign(m)
		case 3: // many at once
			desc = "concurrent conflicting requests"
			for _, l := range co.Links {
				l.Set(nil, nil)
			}
			parallel(6, 6, func(i int) { co.Sign(newMsg(chain, HRS{*h, 0, 2}, i%3, fixedTime)) })
		}
		before := c.Get("signed")
		c08Block(c, r, co, randQuorum(r, cl.N, cl.T, co.Own), "error", h, desc)
		if c.Get("signed") > before {
			c.Count("signed after failed requests", 1)
		}
		c.Eval(fmt.Sprintf("after %s %d %d %d", desc, cl.N, cl.T, co.Own))
	}
}

// c08Spoiled: cosigners that refused bytes at a place, which came with parts of others, sign the block there with whom it is asked of.
func c08Spoiled(c *Check, r *mrand.Rand, co *Coord, h *int64) {
	cl := co.cl
	if cl.T == cl.N || cl.T < 2 {
		return
	}
	var fails []string
	for try := 0; try < 3; try++ {
		*h++
		m := newMsg(chain, HRS{*h, 0, randStep(r)}, r.Intn(2), fixedTime)
		set := randQuorum(r, cl.N, cl.T, co.Own)
		in := map[int]bool{}
		for _, i := range set {
			in[i] = true
		}
		var outside []signer.Cosigner
		for _, p := range cl.Parties {
			if !in[p.ID] {
				outside = append(outside, p)
			}
		}
		refused := 0
		for _, i := range set[try%len(set) : try%len(set)+1] { // all of them would make a signature of all again
			for _, bz := range [][]byte{nil, {1, 2, 3}, newMsg(chain, HRS{1, 0, 1}, 1, fixedTime).SignBytes()} {
				if res, err := shareSignBytes(m.HRST(), bz, cl.Parties[i-1], outside...); err != nil || len(res.Signature) == 0 {
					refused++
				}
			}
		}
		co.only(set...)
		o, ended := signWithin(co, m, 90*time.Second)
		desc := fmt.Sprintf("%d of %d, coordinator %d, reachable %v, of which %d had refused other bytes that came with parts of the others at %s",
			cl.T, cl.N, co.Own, set, set[try%len(set)], m.HRS())
		if !ended {
			c.Violation("hang", "%s: the request did not return", desc)
			return
		}
		checkOutcome(c, cl.Priv.PubKey(), o)
		c.Eval(desc)
		if o.Err == nil {
			if refused > 0 {
				c.Count("signed after refused bytes at the same place", 1)
			}
			return
		}
		fails = append(fails, fmt.Sprintf("%s: %v", desc, o.Err))
	}
	c.Violation("not-signed", "not signed three times: %s", strings.Join(fails, "; "))
}

// c08Far: what is above is signed, however high and far above it is.
func c08Far(c *Check) {
	slots := newLeaderSlots(2)
	parallel(2, 2, func(i int) {
		cl := newCluster(2, 3)
		co := newCoord(cl, slots[i], 1)
		what, max := "height", int64(math.MaxInt64)
		if i == 1 {
			what, max = "round", math.MaxInt32
		}
		for k, n := range farNumbers(max) {
			at := HRS{n, 1, int8(1 + k%3)}
			if i == 1 {
				at = HRS{7, n, int8(1 + k%3)}
			}
			m := newMsg(chain, at, 1, fixedTime)
			var o Outcome
			for try := 0; try < 3; try++ {
				o = co.Sign(m)
				checkOutcome(c, cl.Priv.PubKey(), o)
				if o.Err == nil {
					break
				}
				m = m.WithTime(m.Time().Add(time.Second))
			}
			c.Eval(fmt.Sprintf("far %s %d", what, n))
			if o.Err != nil {
				c.Violation("not-signed", "all reachable, %s far above what was signed before: not signed three times: %v", m, o.Err)
				return
			}
			c.Count("signed at far heights and rounds", 1)
		}
	})
}

// c08Overlap: a block below is signed, by this coordinator or another one, between the two phases of a block's signing.
func c08Overlap(c *Check) {
	slots := newLeaderSlots(4)
	pool := make(chan *LeaderSlot, len(slots))
	for _, s := range slots {
		pool <- s
	}
	seeds := make([]int64, c.size(48, 600))
	r := c.Rng("overlap")
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(len(seeds), len(slots), func(i int) {
		if c.Violated() {
			return
		}
		slot := <-pool
		defer func() { pool <- slot }()
		r := mrand.New(mrand.NewSource(seeds[i]))
		shape := [][2]int{{3, 2}, {2, 2}, {5, 3}, {4, 3}}[r.Intn(4)]
		n, t := shape[0], shape[1]
		cl := newCluster(t, n)
		co := newCoord(cl, slot, 1+r.Intn(n))
		announced := i%3 == 0
		var fails []string
		var desc string
		for try := 0; try < 3; try++ {
			h := int64(10 + 10*try)
			// the same way of being higher each time: by the step, the round (with any steps) or the height
			low, high := HRS{h, int64(r.Intn(2)), 2}, HRS{h, 0, 3}
			switch way := i / 3 % 4; way {
			case 0:
				high = HRS{h + 1 + int64(r.Intn(2)), int64(r.Intn(2)), randStep(r)}
			case 1:
				high.R = low.R
			default:
				low.S, high.S = randStep(r), randStep(r)
				high.R = low.R + 1 + int64(r.Intn(2))
				if way == 2 {
					low.S, high.S = 3, 1+int8(r.Intn(2))
				}
			}
			a, b := newMsg(chain, low, 1, fixedTime), newMsg(chain, high, 1, fixedTime.Add(time.Second))
			desc = fmt.Sprintf("%d of %d, coordinator %d: %s while %s was signed (announced %v)", t, n, co.Own, b, a, announced)
			wait := func(ch chan struct{}) {
				select {
				case <-ch:
				case <-time.After(2 * time.Second):
				}
			}
			lowParts, highParts, lowDone := make(chan struct{}), make(chan struct{}), make(chan struct{})
			var lows, highs int32
			for _, l := range append([]*Link{co.own}, co.Links...) {
				l := l
				l.Set(func(k signer.HRSTKey) (*partsResp, error) {
					p, err := l.To.GetEphemeralSecretParts(k)
					switch {
					case k.Height == high.H && k.Round == high.R && k.Step == high.S:
						if atomic.AddInt32(&highs, 1) == int32(n) {
							close(highParts)
						}
					case atomic.AddInt32(&lows, 1) == int32(n):
						close(lowParts)
					}
					return p, err
				}, func(q signReq) (*signResp, error) {
					if q.HRST.Height == high.H && q.HRST.Round == high.R && q.HRST.Step == high.S {
						wait(lowDone)
					} else {
						wait(highParts)
					}
					return l.To.SetEphemeralSecretPartsAndSign(q)
				})
			}
			aDone := make(chan Outcome, 1)
			if announced {
				go func() {
					wait(highParts)
					for _, p := range cl.Parties {
						_ = p.Local().SaveLastSignedState(signer.SignStateConsensus{Height: low.H, Round: low.R, Step: low.S,
							Signature: make([]byte, 64), SignBytes: a.SignBytes()})
					}
					close(lowDone)
				}()
			} else {
				go func() {
					o := co.Sign(a)
					close(lowDone)
					aDone <- o
				}()
				wait(lowParts)
			}
			o, ended := signWithin(co, b, 90*time.Second)
			if !announced {
				if oa := <-aDone; oa.Err == nil {
					checkOutcome(c, cl.Priv.PubKey(), oa)
					c.Count("lower blocks signed while a higher one was", 1)
				}
			}
			for _, l := range append([]*Link{co.own}, co.Links...) {
				l.Set(nil, nil)
			}
			if !ended {
				c.Violation("hang", "%s: the request did not return", desc)
				return
			}
			checkOutcome(c, cl.Priv.PubKey(), o)
			if o.Err == nil {
				c.Count("signed while a lower block was", 1)
				break
			}
			fails = append(fails, o.Err.Error())
		}
		c.Eval("overlap " + desc)
		if len(fails) == 3 {
			c.Violation("not-signed", "%s: not signed three times: %v", desc, fails)
		}
	})
}

// c08Slow: the cosigners that are needed take their time, within two seconds a call.
func c08Slow(c *Check) {
	jobs := [][2]int{{2, 2}, {3, 2}, {3, 3}, {5, 3}, {5, 4}, {7, 4}, {3, 2}, {5, 3}, {10, 6}, {2, 2}}
	slots := newLeaderSlots(len(jobs))
	parallel(len(jobs)*c.size(1, 5), len(jobs), func(i int) {
		r := c.Rng(fmt.Sprint("slow", i))
		n, t := jobs[i%len(jobs)][0], jobs[i%len(jobs)][1]
		cl := newCluster(t, n)
		co := newCoord(cl, slots[i%len(jobs)], 1+r.Intn(n))
		set := randQuorum(r, n, t, co.Own)
		in := map[int]bool{}
		for _, k := range set {
			in[k] = true
		}
		which := i % 3 // slow to deal, slow to sign, or both
		for _, l := range co.Links {
			l := l
			if !in[l.To.ID] {
				l.Set(failGet, failSign)
				continue
			}
			d1, d2 := time.Duration(1200+r.Intn(800))*time.Millisecond, time.Duration(1200+r.Intn(800))*time.Millisecond
			if which == 0 {
				d2 = 0
			} else if which == 1 {
				d1 = 0
			}
			l.Set(func(h signer.HRSTKey) (*partsResp, error) { time.Sleep(d1); return l.To.GetEphemeralSecretParts(h) },
				func(q signReq) (*signResp, error) { time.Sleep(d2); return l.To.SetEphemeralSecretPartsAndSign(q) })
		}
		desc := fmt.Sprintf("%d of %d, coordinator %d, reachable %v, which are slow to %s", t, n, co.Own, set, []string{"deal", "sign", "deal and to sign"}[which])
		var fails []string
		for try := 0; try < 3; try++ {
			m := newMsg(chain, HRS{int64(10 + try), 0, randStep(r)}, 1, fixedTime)
			o, ended := signWithin(co, m, 90*time.Second)
			if !ended {
				c.Violation("hang", "%s: the request did not return", desc)
				return
			}
			checkOutcome(c, cl.Priv.PubKey(), o)
			if o.Err == nil {
				c.Count("signed with slow cosigners", 1)
				break
			}
			fails = append(fails, o.Err.Error())
		}
		c.Eval(desc)
		if len(fails) == 3 {
			c.Violation("not-signed", "%s: not signed three times: %v", desc, fails)
		}
	})
}

// c08Fewer: a coordinator which is configured with fewer peers than there are other shares.
func c08Fewer(c *Check) {
	r := c.Rng("fewer")
	slot := newLeaderSlots(1)[0]
	shapes := [][2]int{{3, 2}, {4, 3}, {5, 3}, {7, 4}, {12, 7}}
	for k := 0; k < c.size(20, 200) && !c.Violated(); k++ {
		n, t := shapes[k%5][0], shapes[k%5][1]
		cl := newCluster(t, n)
		own := 1 + r.Intn(n)
		co := newCoord(cl, slot, own)
		known := map[int]bool{}
		for _, i := range randQuorum(r, n, t+r.Intn(n-t), own) {
			known[i] = true
		}
		var links []*Link
		for _, l := range co.Links {
			if known[l.To.ID] {
				links = append(links, l)
			}
		}
		co.Links = links
		co.Restart()
		h := int64(1 + r.Intn(1000))
		var fails []string
		for try := 0; try < 3; try++ {
			h++
			o := co.Sign(randMsg(r, HRS{h, 0, randStep(r)}))
			if o.Err == nil {
				break
			}
			fails = append(fails, o.Err.Error())
		}
		if len(fails) == 3 {
			c.Violation("not-signed", "cosigner %d of %d of %d with the peers %v, which all answer, does not sign: %v", own, t, n, known, fails)
		}
		c.Count("signed with fewer peers than other shares", 1)
		c.Eval(fmt.Sprintf("fewer peers %d of %d, own %d, knows %d", t, n, own, len(known)))
	}
}

// c08Together: more cosigners than needed answer at the same moment.
func c08Together(c *Check) {
	shapes := [][2]int{{5, 2}, {8, 2}, {6, 3}, {9, 5}}
	testRSAKeys(9)
	slots := newLeaderSlots(2)
	pool := make(chan *LeaderSlot, len(slots))
	for _, s := range slots {
		pool <- s
	}
	parallel(len(shapes), len(slots), func(i int) {
		slot := <-pool
		defer func() { pool <- slot }()
		n, t := shapes[i][0], shapes[i][1]
		cl := newCluster(t, n)
		co := newCoord(cl, slot, 1+i%n)
		fails := 0
		for h := int64(1); h <= int64(c.size(300, 5000)) && !c.Violated(); h++ {
			// all parts are held back until every cosigner has made its own, then all get out at once
			var ready int32
			others := int32(len(co.Links))
			for _, l := range co.Links {
				l := l
				l.Set(func(k signer.HRSTKey) (*partsResp, error) {
					p, err := l.To.GetEphemeralSecretParts(k)
					atomic.AddInt32(&ready, 1)
					for end := time.Now().Add(2 * time.Second); atomic.LoadInt32(&ready) < others && time.Now().Before(end); {
					}
					return p, err
				}, nil)
			}
			m := newMsg(chain, HRS{h, 0, int8(1 + h%3)}, 1, fixedTime)
			o, ended := signWithin(co, m, 90*time.Second)
			if !ended {
				c.Violation("hang", "%d of %d, all answering at one moment: request for %s did not return", t, n, m)
				return
			}
			checkOutcome(c, cl.Priv.PubKey(), o)
			if o.Err == nil {
				c.Count("signed with answers at one moment", 1)
				c.Eval(fmt.Sprintf("together %d %d %d", t, n, h))
			} else if fails++; fails > 3+int(h)/10 {
				c.Violation("not-signed", "%d of %d, all answering at one moment: %d of %d blocks not signed, the last with %v", t, n, fails, h, o.Err)
				return
			}
		}
	})
}

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
)

func init() { checks["C09"] = checkC09 }

// remembering is the model of what one coordinator has to answer.
type remembering struct {
	top     HRS
	rest    map[HRS]first // what it has to give out again
	started HRS
}

// first is the message first signed at a height, round and step, with its signature.
type first struct {
	m   Msg
	sig []byte
}

// c09Node is one coordinator with its model.
type c09Node struct {
	co *Coord
	remembering
}

func (n *c09Node) learn(f first) {
	h := f.m.HRS()
	if !n.top.Less(h) {
		return
	}
	n.top = h
	n.rest[h] = f
	for k := range n.rest {
		if k.H < h.H-3 {
			delete(n.rest, k)
		}
	}
}

func (n *c09Node) restart() {
	n.co.Restart()
	for k := range n.rest {
		if k != n.top {
			delete(n.rest, k)
		}
	}
	n.started = n.top
}

func (n *c09Node) calls() int64 {
	g, s := n.co.own.calls()
	t := g + s
	for _, l := range n.co.Links {
		g, s = l.calls()
		t += g + s
	}
	return t
}

type c09Run struct {
	c     *Check
	cl    *Cluster
	nodes []*c09Node
	first map[HRS]first
	top   HRS // of the cluster
	log   []string
}

func (r *c09Run) note(f string, a ...interface{}) { r.log = append(r.log, fmt.Sprintf(f, a...)) }

func (r *c09Run) bad(key, f string, a ...interface{}) {
	r.c.Violation(key, "%s\nhistory (%d of %d):\n  %s", fmt.Sprintf(f, a...), r.cl.T, r.cl.N, strings.Join(r.log, "\n  "))
}

// announce tells node i about a signed block through its raft event handler.
func (r *c09Run) announce(i int, f first) {
	h := f.m.HRS()
	must(r.nodes[i].co.slot.Store.Emit("LSS", signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S,
		Signature: f.sig, SignBytes: f.m.SignBytes()}))
	r.nodes[i].learn(f)
	r.note("coordinator %d is told of %s", i+1, h)
}

// ask makes a request to node i and judges the answer.
func (r *c09Run) ask(i int, m Msg) Outcome {
	n := r.nodes[i]
	h := m.HRS()
	before := n.calls()
	o := n.co.Sign(m)
	made := n.calls() - before
	res := "signed"
	if o.Err != nil {
		res = "error: " + o.Err.Error()
	}
	r.note("coordinator %d: %s -> %s", i+1, m, res)
	if !checkOutcome(r.c, r.cl.Priv.PubKey(), o) {
		return o
	}
	f, known := r.first[h]
	rem, has := n.rest[h]
	exact := func(f first) bool { return string(f.m.SignBytes()) == string(m.SignBytes()) }
	switch {
	case has && exact(rem):
		if o.Err != nil {
			r.bad("repeat-refused", "repeating %s failed: %v", m, o.Err)
			return o
		}
		if string(o.Got.Signature()) != string(rem.sig) {
			r.bad("repeat-differs", "repeating %s gave another signature", m)
			return o
		}
		if made != 0 {
			r.bad("repeat-signs", "repeating %s made %d calls to cosigners", m, made)
			return o
		}
		r.c.Count("repeats answered", 1)
		if h.Less(n.top) {
			r.c.Count("repeats of earlier blocks answered", 1)
			if n.top.H-h.H == 3 {
				r.c.Count("repeats three heights back", 1)
			}
		}
	case known && f.m.Content() != m.Content():
		if o.Err == nil {
			r.bad("conflict-signed", "%s conflicts with the signed %s but was signed", m, f.m)
			return o
		}
		r.c.Count("conflicts refused", 1)
	case h.Less(n.top):
		if o.Err == nil && !(known && exact(f) && string(f.sig) == string(o.Got.Signature())) {
			r.bad("lower-signed", "%s is below %s but was answered with success", m, n.top)
			return o
		}
		r.c.Count("lower requests", 1)
	case h == n.top && n.top != (HRS{}):
		// same height, round and step: a timestamp variant, or not remembered
		r.c.Count("requests at the top with another timestamp", 1)
	default:
		if o.Err == nil {
			if _, twice := r.first[h]; !twice {
				r.first[h] = first{m, append([]byte(nil), o.Got.Signature()...)}
				r.c.Count("blocks signed", 1)
			}
			// a variant of what another coordinator got signed is this one's first
			n.learn(first{m, append([]byte(nil), o.Got.Signature()...)})
			if r.top.Less(h) {
				r.top = h
			}
		} else {
			r.c.Count("new blocks not signed", 1)
		}
		if n.started.Less(h) {
			n.started = h
		}
	}
	if len(r.log) > 400 {
		r.log = r.log[200:]
	}
	return o
}

func checkC09(c *Check) {
	c.Rule("a case is one request of a history over two coordinators of one cluster, judged against a model of which messages the " +
		"coordinator has to remember; histories mix new blocks (height steps up to 5), repeats, conflicts, timestamp variants, older " +
		"blocks, failed attempts, announcements between the coordinators (in order, repeated, late) and restarts; non-trivial if the " +
		"message's height, round and step was asked for or passed before; distinct by (class, distance to the top in height, round and " +
		"step, origin of the knowledge); concurrent bursts ask for one new message many times at once")
	c.Need("blocks signed", "repeats answered", "repeats of earlier blocks answered", "repeats three heights back", "conflicts refused",
		"lower requests", "restarts", "repeats after restart", "repeats of another coordinator's blocks", "bursts", "requests answered which came while the message was being signed", "attempts which failed and were signed elsewhere")
	testRSAKeys(5)
	const workers = 8
	slots := newLeaderSlots(2 * workers)
	pool := make(chan []*LeaderSlot, workers)
	for i := 0; i < workers; i++ {
		pool <- slots[2*i : 2*i+2]
	}
	shapes := [][2]int{{2, 3}, {2, 2}, {3, 4}, {3, 5}}
	runs := c.size(32, 400)
	parallel(runs, workers, func(i int) {
		if c.Violated() {
			return
		}
		s := <-pool
		defer func() { pool <- s }()
		rng := c.Rng(fmt.Sprint("run", i))
		sh := shapes[i%len(shapes)]
		cl := newCluster(sh[0], sh[1])
		r := &c09Run{c: c, cl: cl, first: map[HRS]first{}}
		for k := 0; k < 2; k++ {
			r.nodes = append(r.nodes, &c09Node{co: newCoord(cl, s[k], k+1), remembering: remembering{rest: map[HRS]first{}}})
		}
		c09Script(r)
		for step := 0; step < 90 && !c.Violated(); step++ {
			r.step(rng)
		}
		c09Bursts(r, rng)
		c09Elsewhere(r, rng)
		c09Waiting(r, rng)
	})
	c09CacheSweep(c, <-pool)
}

// c09Script walks every distance in heights explicitly.
func c09Script(r *c09Run) {
	var ms []Msg
	for h := int64(1); h <= 6; h++ {
		for s := int8(1); s <= 3; s++ {
			m := newMsg(chain, HRS{h, 0, s}, 1, fixedTime.Add(time.Duration(h)*time.Second))
			if o := r.ask(0, m); o.Err != nil {
				return
			}
			ms = append(ms, m)
			for _, old := range ms {
				r.ask(0, old)
				r.c.Eval(fmt.Sprintf("script back %d steps %d-%d", h-old.HRS().H, s, old.HRS().S))
			}
		}
	}
	for h := int64(1); h <= 6; h++ {
		for s := int8(1); s <= 3; s++ {
			r.announce(1, r.first[HRS{h, 0, s}])
			for _, old := range ms {
				if _, ok := r.nodes[1].rest[old.HRS()]; ok {
					r.c.Count("repeats of another coordinator's blocks", 1)
					r.ask(1, old)
				}
			}
		}
	}
}

func (r *c09Run) step(rng *rand.Rand) {
	i := rng.Intn(2)
	n := r.nodes[i]
	pick := func() (first, bool) {
		var hs []HRS
		for h := range r.first {
			if h.H >= r.top.H-5 {
				hs = append(hs, h)
			}
		}
		if len(hs) == 0 {
			return first{}, false
		}
		// map order is random; sort for the seed's sake
		best := hs[0]
		k := rng.Intn(len(hs))
		for a := range hs {
			for b := a + 1; b < len(hs); b++ {
				if hs[b].Less(hs[a]) {
					hs[a], hs[b] = hs[b], hs[a]
				}
			}
		}
		best = hs[k]
		return r.first[best], true
	}
	class := ""
	var h HRS
	switch x := rng.Intn(20); {
	case x < 6:
		h = r.top
		if n.top != r.top && n.top != (HRS{}) && rng.Intn(3) > 0 { // usually in step with the cluster
			r.announce(i, r.first[r.top])
		}
		switch rng.Intn(4) {
		case 0:
			h = HRS{h.H + 1 + int64(rng.Intn(5)), int64(rng.Intn(2)), randStep(rng)}
		case 1:
			h = HRS{h.H, h.R + 1 + int64(rng.Intn(2)), randStep(rng)}
		default:
			if h.S < 3 && h.H > 0 {
				h.S++
			} else {
				h = HRS{h.H + 1, 0, randStep(rng)}
			}
		}
		r.ask(i, newMsg(chain, h, rng.Intn(3), fixedTime.Add(time.Duration(rng.Intn(1e9)))))
		class = ""
	case x < 11:
		if f, ok := pick(); ok {
			class, h = "repeat", f.m.HRS()
			if _, has := n.rest[h]; has && n.top.H > 0 && n.co.Own == 2 {
				r.c.Count("repeats of another coordinator's blocks", 1)
			}
			r.ask(i, f.m)
		}
	case x < 13:
		if f, ok := pick(); ok {
			class, h = "variant", f.m.HRS()
			if f.m.HRS() == n.started && n.started != n.top {
				return // waits a second for an answer that does not come
			}
			r.ask(i, f.m.WithTime(fixedTime.Add(time.Duration(rng.Intn(1e9)))))
			r.ask(i, f.m)
		}
	case x < 16:
		if f, ok := pick(); ok {
			class, h = "conflict", f.m.HRS()
			if f.m.HRS() == n.started && n.started != n.top {
				return
			}
			for _, name := range sortedKeys(f.m.variants()) {
				if rng.Intn(4) == 0 {
					v := f.m.variants()[name]
					if rng.Intn(2) == 0 {
						v = v.WithTime(v.Time().Add(time.Duration(rng.Intn(1000))))
					}
					class = "conflict " + name
					r.ask(i, v)
				}
			}
			r.ask(i, f.m)
		}
	case x < 17:
		h = HRS{r.top.H - int64(rng.Intn(6)), int64(rng.Intn(3)), randStep(rng)}
		if h.H > 0 && h.Less(n.top) {
			class = "lower"
			r.ask(i, newMsg(chain, h, rng.Intn(3), fixedTime.Add(time.Duration(rng.Intn(3)))))
		}
	case x < 19:
		if f, ok := pick(); ok {
			r.announce(i, f)
			class, h = "announced", f.m.HRS()
			r.ask(i, f.m)
		}
	default:
		n.restart()
		r.note("coordinator %d restarts", i+1)
		r.c.Count("restarts", 1)
		if f, ok := n.rest[n.top]; ok {
			class, h = "restart", n.top
			r.c.Count("repeats after restart", 1)
			r.ask(i, f.m)
		}
	}
	if class != "" && h.H > 0 {
		_, has := n.rest[h]
		class = fmt.Sprintf("%s back %d,%d,%d remembered %v", class, n.top.H-h.H, n.top.R-h.R, n.top.S-h.S, has)
	} else {
		class = ""
	}
	r.c.Eval(class)
}

// c09Bursts asks for one new message many times at once.
func c09Bursts(r *c09Run, rng *rand.Rand) {
	for b := 0; b < 4 && !r.c.Violated(); b++ {
		n := r.nodes[0]
		if f, ok := r.first[r.top]; ok && n.top.Less(r.top) {
			r.announce(0, f)
		}
		m := newMsg(chain, HRS{r.top.H + 1, 0, randStep(rng)}, 1, fixedTime)
		for _, l := range append(n.co.Links, n.co.own) {
			n.co.delays(rng, l)
		}
		const k = 12
		outs := make([]Outcome, k)
		conflict := m.variants()["other block"]
		var wg sync.WaitGroup
		for j := 0; j < k; j++ {
			wg.Add(1)
			d := time.Duration(rng.Intn(4000)) * time.Microsecond
			go func(j int) {
				defer wg.Done()
				time.Sleep(d)
				if j == k-1 && b%2 == 0 {
					outs[j] = n.co.Sign(conflict)
				} else {
					outs[j] = n.co.Sign(m)
				}
			}(j)
		}
		wg.Wait()
		for _, l := range append(n.co.Links, n.co.own) {
			l.Set(nil, nil)
		}
		var sig []byte
		var got Msg
		for _, o := range outs {
			if !checkOutcome(r.c, r.cl.Priv.PubKey(), o) {
				return
			}
			if o.Err != nil {
				r.c.Count("burst requests failed", 1)
				continue
			}
			r.c.Count("burst requests answered", 1)
			if sig == nil {
				sig, got = o.Got.Signature(), o.Msg
			} else if string(sig) != string(o.Got.Signature()) {
				r.bad("burst-differs", "concurrent requests for %s got different signatures", m)
				return
			}
		}
		if sig == nil {
			r.top.H++
			n.started = HRS{r.top.H, 9, 3}
			continue
		}
		f := first{got, append([]byte(nil), sig...)}
		r.first[got.HRS()] = f
		n.learn(f)
		r.top = got.HRS()
		if n.started.Less(r.top) {
			n.started = r.top
		}
		r.c.Count("bursts", 1)
		r.c.Eval(fmt.Sprintf("burst %d %d %d", r.cl.T, r.cl.N, b))
		r.ask(0, got)
	}
}

// c09Waiting asks for a message while it is being signed, after blocks it follows by the step, the round or the height.
func c09Waiting(r *c09Run, rng *rand.Rand) {
	n := r.nodes[0]
	for b := 0; b < 6 && !r.c.Violated(); b++ {
		h := r.top.H + 1
		before := newMsg(chain, HRS{h, 0, int8(1 + rng.Intn(2))}, 1, fixedTime)
		at := HRS{h, 0, before.HRS().S + 1}
		switch b % 3 {
		case 1:
			at.R, at.S = 1, randStep(rng)
		case 2:
			at = HRS{h + 1, 0, randStep(rng)}
		}
		m := newMsg(chain, at, 1, fixedTime)
		r.top = at
		if n.started.Less(at) {
			n.started = at
		}
		if o := n.co.Sign(before); o.Err != nil {
			continue
		} else if f := (first{o.Got, append([]byte(nil), o.Got.Signature()...)}); true {
			r.first[before.HRS()] = f
			n.learn(f)
		}
		begun := make(chan struct{})
		var once sync.Once
		for _, l := range n.co.Links {
			l := l
			d := time.Duration(60+rng.Intn(100)) * time.Millisecond
			l.Set(func(k signer.HRSTKey) (*partsResp, error) {
				once.Do(func() { close(begun) })
				time.Sleep(d)
				return l.To.GetEphemeralSecretParts(k)
			}, nil)
		}
		var o1, o2 Outcome
		var done time.Time
		wait := make(chan struct{})
		go func() {
			defer close(wait)
			o1 = n.co.Sign(m)
			done = time.Now()
		}()
		select {
		case <-begun:
		case <-wait:
		}
		start := time.Now()
		o2 = n.co.Sign(m)
		<-wait
		for _, l := range n.co.Links {
			l.Set(nil, nil)
		}
		if !checkOutcome(r.c, r.cl.Priv.PubKey(), o1) || !checkOutcome(r.c, r.cl.Priv.PubKey(), o2) || o1.Err != nil {
			continue
		}
		f := first{o1.Got, append([]byte(nil), o1.Got.Signature()...)}
		r.first[at] = f
		n.learn(f)
		if took := done.Sub(start); took > 500*time.Millisecond {
			continue
		} else if o2.Err != nil {
			r.bad("not-awaited", "%s, asked for while it was being signed after %s, which took %s: %v", m, before, took, o2.Err)
			return
		}
		if string(o2.Got.Signature()) != string(f.sig) {
			r.bad("burst-differs", "%s, asked for while it was being signed, got another signature", m)
			return
		}
		r.c.Count("requests answered which came while the message was being signed", 1)
		r.c.Eval(fmt.Sprintf("waiting %d", b%3))
	}
}

// c09Elsewhere: a leader whose attempt failed returns the signature another leader got, once it knows of it.
func c09Elsewhere(r *c09Run, rng *rand.Rand) {
	if r.c.Violated() {
		return
	}
	for k := 0; k < 2; k++ {
		a, b := r.nodes[k], r.nodes[1-k]
		h := HRS{r.top.H + 2, 0, randStep(rng)}
		m := newMsg(chain, h, 1, fixedTime)
		for _, l := range a.co.Links {
			l.Set(nil, failSign)
		}
		o := a.co.Sign(m)
		for _, l := range a.co.Links {
			l.Set(nil, nil)
		}
		r.note("coordinator %d fails to sign %s: %v", k+1, m, o.Err)
		if o.Err == nil {
			r.bad("signed-alone", "%s was signed without the other cosigners", m)
			return
		}
		a.started = h
		m2 := m
		if rng.Intn(2) == 0 { // the other node's chain node has another timestamp
			m2 = m.WithTime(fixedTime.Add(time.Second))
		}
		if f, ok := r.first[r.top]; ok && b.top.Less(r.top) {
			r.announce(1-k, f)
		}
		o = r.ask(1-k, m2)
		if o.Err != nil {
			r.c.Count("not signed elsewhere", 1)
			r.top = h
			continue
		}
		r.announce(k, r.first[h])
		r.c.Count("attempts which failed and were signed elsewhere", 1)
		r.ask(k, m2)
		r.c.Eval(fmt.Sprintf("elsewhere %v", m2.Time() != m.Time()))
	}
}

// c09CacheSweep goes over all height distances, with one block per height or gaps, through both ways of learning.
func c09CacheSweep(c *Check, s []*LeaderSlot) {
	for gap := int64(1); gap <= 4 && !c.Violated(); gap++ {
		cl := newCluster(2, 3)
		r := &c09Run{c: c, cl: cl, first: map[HRS]first{}}
		for k := 0; k < 2; k++ {
			r.nodes = append(r.nodes, &c09Node{co: newCoord(cl, s[k], k+1), remembering: remembering{rest: map[HRS]first{}}})
		}
		var ms []Msg
		for h := int64(100); h < 112; h += gap {
			m := newMsg(chain, HRS{h, 2, 3}, 1, fixedTime)
			r.ask(0, m)
			if f, ok := r.first[m.HRS()]; ok {
				r.announce(1, f)
			}
			ms = append(ms, m)
			for _, old := range ms {
				r.ask(0, old)
				r.ask(1, old)
				c.Eval(fmt.Sprintf("sweep gap %d back %d", gap, h-old.HRS().H))
			}
		}
	}
}

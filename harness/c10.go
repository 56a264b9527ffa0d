package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
)

func init() { checks["C10"] = checkC10 }

func checkC10(c *Check) {
	c.Rule("a case is one signed block (or one stray announcement) of a cluster of complete nodes that talk over the loopback network, "+
		"after which, once a marker written to the replicated log afterwards is visible everywhere, the state files of all nodes are "+
		"read; in this process and as real cosigner processes which are killed, miss blocks and come back; non-trivial if the node "+
		"checked did not coordinate the signing; distinct by (leader or follower entry, step, kind of announcement, node role)",
		"a block signed while leadership changes may be announced to nobody; only blocks signed under a stable leader are judged")
	c.Need("blocks signed", "watermarks checked on other nodes", "repeats answered by another leader", "stray announcements",
		"catch-ups after a restart", "catch-ups after a kill between two states", "watermark readings while nodes run")
	testRSAKeys(5)
	shapes := [][2]int{{2, 3}, {3, 5}, {2, 2}}
	parallel(len(shapes), len(shapes), func(i int) {
		c10InProcess(c, shapes[i][0], shapes[i][1])
	})
	if !c.Violated() {
		c10Processes(c)
	}
}

// known is a signed block with the signature that got out.
type known struct {
	m   Msg
	sig []byte
}

// watermarks checks both state files of a node against the latest signed block.
func watermarks(c *Check, who, pvPath, sharePath string, want known, history func() string) bool {
	h := want.m.HRS()
	pv, pvState, err := loadHRS(pvPath)
	if err != nil {
		c.Violation("unreadable", "%s: validator state: %v", who, err)
		return false
	}
	sh, _, err := loadHRS(sharePath)
	if err != nil {
		c.Violation("unreadable", "%s: share state: %v", who, err)
		return false
	}
	if pv.Less(h) {
		c.Violation("validator-watermark-behind", "%s: validator state is at %s after %s was signed and the log was applied\n%s", who, pv, h, history())
		return false
	}
	if sh.Less(h) {
		c.Violation("share-watermark-behind", "%s: share state is at %s after %s was signed and the log was applied\n%s", who, sh, h, history())
		return false
	}
	if pv == h && want.sig != nil &&
		(string(pvState.Signature) != string(want.sig) || string(pvState.SignBytes) != string(want.m.SignBytes())) {
		c.Violation("signature-not-kept", "%s: validator state at %s holds signature %x for %x, but %x was released for %x\n%s", who, h,
			pvState.Signature, []byte(pvState.SignBytes), want.sig, want.m.SignBytes(), history())
		return false
	}
	return true
}

func c10InProcess(c *Check, t, n int) {
	r := c.Rng(fmt.Sprint("inprocess", t, n))
	ns := newNodes(t, n)
	var log []string
	history := func() string { return fmt.Sprintf("%d of %d\n  %s", t, n, strings.Join(log, "\n  ")) }
	var top known
	var blocks []known
	at := HRS{0, 0, 3}
	check := func(kind string) bool {
		if b := ns.Barrier(90 * time.Second); b != "" {
			c.Violation("not-applied", "%s did not apply the log\n%s", b, history())
			return false
		}
		for _, nd := range ns.Nodes {
			if !watermarks(c, fmt.Sprintf("node %d", nd.ID), nd.PVPath, nd.Party.StatePath, top, history) {
				return false
			}
		}
		c.Count("watermarks checked on other nodes", int64(n-1))
		return true
	}
	next := func() HRS {
		switch {
		case at.S < 3 && r.Intn(2) == 0:
			at.S++
		case r.Intn(3) == 0:
			at = HRS{at.H, at.R + 1, randStep(r)}
		default:
			at = HRS{at.H + 1 + int64(r.Intn(3)), 0, randStep(r)}
		}
		return at
	}
	rounds := c.size(50, 600)
	for k := 0; k < rounds && !c.Violated(); k++ {
		leader := ns.Leader()
		if leader == nil {
			c.Inconclusive("no leader")
			return
		}
		entry := ns.Nodes[r.Intn(n)]
		m := newMsg(chain, next(), r.Intn(3), fixedTime.Add(time.Duration(r.Intn(1e9))))
		o := entry.Sign(m)
		log = append(log, fmt.Sprintf("node %d (leader %d): %s: %v", entry.ID, leader.ID, m, o.Err))
		checkOutcome(c, ns.Cl.Priv.PubKey(), o)
		if o.Err != nil {
			c.Count("blocks not signed", 1)
			continue
		}
		if ns.Leader() != leader {
			c.Count("leader changed by itself", 1)
			continue
		}
		top = known{m, append([]byte(nil), o.Got.Signature()...)}
		blocks = append(blocks, top)
		c.Count("blocks signed", 1)
		if k%2 == 0 && !check("signed") {
			return
		}
		kind := "leader"
		if entry != leader {
			kind = "follower"
		}
		c.Eval(fmt.Sprintf("%d/%d %s entry step %d", t, n, kind, at.S))
		if k%8 == 7 { // another leader repeats what this one signed
			nl := ns.Transfer(ns.Follower(r.Intn(n)).ID)
			if nl == nil || nl == leader {
				c.Count("transfers that did not happen", 1)
				continue
			}
			if b := ns.Barrier(90 * time.Second); b != "" {
				c.Violation("not-applied", "%s did not apply the log\n%s", b, history())
				return
			}
			for _, b := range blocks {
				if b.m.HRS().H < top.m.HRS().H-3 {
					continue
				}
				o := nl.Sign(b.m)
				if ns.Leader() != nl {
					break
				}
				if o.Err != nil || string(o.Got.Signature()) != string(b.sig) {
					c.Violation("not-repeated", "the new leader %d does not repeat the signature of %s: %v\n%s", nl.ID, b.m, o.Err, history())
					return
				}
				c.Count("repeats answered by another leader", 1)
				c.Eval(fmt.Sprintf("repeat back %d", top.m.HRS().H-b.m.HRS().H))
			}
		}
	}
	if c.Violated() || top.sig == nil {
		return
	}
	if hooked && !c10Bursts(c, r, ns, &top, &at, check, history) {
		return
	}
	c10Strays(c, r, ns, &top, blocks, check, next, history)
	// blocks signed at the same time as stray announcements
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		rr := c.Rng("load")
		for {
			select {
			case <-stop:
				return
			default:
			}
			b := blocks[rr.Intn(len(blocks))]
			if l := ns.Leader(); l != nil {
				emitLSS(l.Store, b)
				c.Count("stray announcements", 1)
			}
		}
	}()
	for k := 0; k < c.size(20, 200) && !c.Violated(); k++ {
		leader := ns.Leader()
		m := newMsg(chain, next(), 1, fixedTime)
		o := leader.Sign(m)
		if o.Err != nil || ns.Leader() != leader {
			continue
		}
		top = known{m, append([]byte(nil), o.Got.Signature()...)}
		blocks = append(blocks[:0:0], append(blocks, top)...)
		c.Count("blocks signed", 1)
		if k%5 == 0 {
			check("load")
		}
		c.Eval(fmt.Sprintf("under stray announcements %d", at.S))
	}
	close(stop)
	wg.Wait()
	if !c.Violated() {
		check("end")
	}
}

// c10Bursts: announcements of several blocks reach the nodes at once, as they do when a node catches up.
func c10Bursts(c *Check, r *rand.Rand, ns *Nodes, top *known, at *HRS, check func(string) bool, history func() string) bool {
	command := func(key, value string) []byte {
		b, err := json.Marshal(map[string]string{"op": "set", "key": key, "value": value})
		must(err)
		return b
	}
	for k := 0; k < c.size(4, 40); k++ {
		l := ns.Leader()
		if l == nil {
			return true
		}
		// is that how the log is written
		mark := fmt.Sprint("burst", k)
		if err := raftOf(l.Store).Apply(command("mark", mark), 10*time.Second).Error(); err != nil {
			return true
		}
		if got, _ := l.Store.Get("mark"); got != mark {
			c.Count("bursts left out: another log format", 1)
			return true
		}
		c.Need("repeats of blocks announced in a burst")
		var blocks []known
		for i := 0; i < 4; i++ {
			at.H, at.R = at.H+1, int64(r.Intn(2))
			for s := int8(1); s <= 3; s++ {
				at.S = s
				m := newMsg(chain, *at, r.Intn(3), fixedTime.Add(time.Duration(r.Intn(1e9))))
				sig, err := ns.Cl.Priv.Sign(m.SignBytes())
				must(err)
				blocks = append(blocks, known{m, sig})
			}
		}
		var fs []raft.ApplyFuture
		for _, b := range blocks {
			v, err := json.Marshal(signer.SignStateConsensus{Height: b.m.HRS().H, Round: b.m.HRS().R, Step: b.m.HRS().S, Signature: b.sig, SignBytes: b.m.SignBytes()})
			must(err)
			fs = append(fs, raftOf(l.Store).Apply(command("LSS", string(v)), 10*time.Second))
		}
		for _, f := range fs {
			if err := f.Error(); err != nil {
				c.Count("bursts that were lost", 1)
				return true
			}
		}
		*top = blocks[len(blocks)-1]
		if !check("burst") {
			return false
		}
		nl := l
		if k%2 == 0 {
			if nl = ns.Transfer(ns.Follower(r.Intn(len(ns.Nodes))).ID); nl == nil || ns.Barrier(90*time.Second) != "" {
				continue
			}
		}
		for _, b := range blocks {
			o := nl.Sign(b.m)
			if ns.Leader() != nl {
				break
			}
			if o.Err != nil || string(o.Got.Signature()) != string(b.sig) {
				c.Violation("not-repeated", "node %d, now leader, does not repeat the signature of %s, which was announced in a burst up to %s: %v\n%s",
					nl.ID, b.m, top.m, o.Err, history())
				return false
			}
			c.Count("repeats of blocks announced in a burst", 1)
			c.Eval(fmt.Sprintf("burst repeat %d", b.m.HRS().S))
		}
	}
	return true
}

func emitLSS(st *signer.RaftStore, b known) error {
	h := b.m.HRS()
	return st.Emit("LSS", signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S, Signature: b.sig, SignBytes: b.m.SignBytes()})
}

// c10Strays announces what must not change anything.
func c10Strays(c *Check, r *rand.Rand, ns *Nodes, top *known, blocks []known, check func(string) bool, next func() HRS, history func() string) {
	old := func() string {
		b := blocks[r.Intn(len(blocks))]
		h := b.m.HRS()
		j, err := json.Marshal(signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S, Signature: b.sig, SignBytes: b.m.SignBytes()})
		must(err)
		return string(j)
	}
	th := top.m.HRS()
	lower := func(h HRS) string {
		m := newMsg(chain, h, 9, fixedTime)
		j, err := json.Marshal(signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S, Signature: make([]byte, 64), SignBytes: m.SignBytes()})
		must(err)
		return string(j)
	}
	strays := map[string]func() string{
		"repeated":         old,
		"same place":       func() string { return lower(th) },
		"lower height":     func() string { return lower(HRS{th.H - 1, th.R + 5, 3}) },
		"lower round":      func() string { return lower(HRS{th.H, th.R - 1, 3}) },
		"lower step":       func() string { return lower(HRS{th.H, th.R, th.S - 1}) },
		"height zero":      func() string { return lower(HRS{0, 0, 0}) },
		"negative height":  func() string { return lower(HRS{-5, 0, 1}) },
		"empty value":      func() string { return "" },
		"empty object":     func() string { return "{}" },
		"null":             func() string { return "null" },
		"list":             func() string { return "[1,2]" },
		"text":             func() string { return "\"x\"" },
		"cut off":          func() string { s := old(); return s[:len(s)/2] },
		"wrong types":      func() string { return `{"Height":"x","Round":[],"Step":{}}` },
		"step overflow":    func() string { return fmt.Sprintf(`{"Height":%d,"Round":0,"Step":300}`, th.H+1) },
		"height overflow":  func() string { return `{"Height":99999999999999999999999,"Round":0,"Step":1}` },
		"bad hex":          func() string { return fmt.Sprintf(`{"Height":%d,"SignBytes":"zz"}`, th.H+1) },
		"bad base64":       func() string { return fmt.Sprintf(`{"Height":%d,"Signature":"***"}`, th.H+1) },
		"binary":           func() string { return string(randBytes(200)) },
		"round over limit": func() string { return fmt.Sprintf(`{"Height":%d,"Round":1e40,"Step":1}`, th.H+1) },
	}
	for rep := 0; rep < c.size(2, 20); rep++ {
		for name, f := range strays {
			if c.Violated() {
				return
			}
			l := ns.Leader()
			if l == nil {
				return
			}
			if err := l.Store.Set("LSS", f()); err != nil {
				continue
			}
			c.Count("stray announcements", 1)
			c.Eval("stray " + name)
		}
		if !check("strays") {
			return
		}
		for _, nd := range ns.Nodes {
			if pv, _, _ := loadHRS(nd.PVPath); pv != th {
				c.Violation("watermark-moved", "node %d: validator state went from %s to %s by announcements that say nothing new\n%s", nd.ID, th, pv, history())
				return
			}
			if sh, _, _ := loadHRS(nd.Party.StatePath); th.Less(sh) && sh.H > th.H+1 {
				c.Violation("watermark-moved", "node %d: share state went from %s to %s by announcements that say nothing new\n%s", nd.ID, th, sh, history())
				return
			}
		}
		// and the cluster still signs
		leader := ns.Leader()
		m := newMsg(chain, next(), 1, fixedTime)
		o := leader.Sign(m)
		if o.Err != nil {
			o = ns.Leader().Sign(m.next())
			m = o.Msg
			next()
		}
		if o.Err == nil {
			*top = known{m, append([]byte(nil), o.Got.Signature()...)}
			th = m.HRS()
			c.Count("blocks signed after stray announcements", 1)
		} else {
			c.Count("blocks not signed", 1)
		}
	}
}

// next is the message at the next height.
func (m Msg) next() Msg {
	n := m.Clone()
	if n.Vote != nil {
		n.Vote.Height++
	} else {
		n.Proposal.Height++
	}
	return n
}

// stateWatch reads the state files of running processes and raises an alarm if one goes back or is not loadable.
type stateWatch struct {
	c     *Check
	paths []string
	last  map[string]HRS
	mu    sync.Mutex
	stop  chan struct{}
	wg    sync.WaitGroup
}

func watchStates(c *Check, hc *Homes) *stateWatch {
	w := &stateWatch{c: c, last: map[string]HRS{}, stop: make(chan struct{})}
	for _, h := range hc.Nodes {
		w.paths = append(w.paths, h.pvPath(), h.sharePath())
	}
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		for {
			select {
			case <-w.stop:
				return
			case <-time.After(3 * time.Millisecond):
				w.read()
			}
		}
	}()
	return w
}

func (w *stateWatch) read() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, p := range w.paths {
		h, _, err := loadHRS(p)
		if err != nil {
			w.c.Violation("unreadable", "state file %s of a running node cannot be loaded: %v", p, err)
			continue
		}
		if h.Less(w.last[p]) {
			w.c.Violation("watermark-went-back", "state file %s went from %s to %s", p, w.last[p], h)
		}
		if w.last[p].Less(h) {
			w.c.Count("watermark rises seen", 1)
		}
		w.last[p] = h
		w.c.Count("watermark readings while nodes run", 1)
	}
}

func (w *stateWatch) end() {
	close(w.stop)
	w.wg.Wait()
	w.read()
}

// crashed reports nodes that ended by themselves.
func (hc *Homes) crashed(c *Check) bool {
	for _, h := range hc.Nodes {
		if h.Proc != nil && !h.Proc.running() && h.Proc.code != -1 {
			c.Violation("process-ended", "node %d ended by itself with status %d: %s", h.ID, h.Proc.code, h.Proc.crash())
			return true
		}
	}
	return false
}

// signVia asks a node for new heights until one is signed.
func (hc *Homes) signVia(c *Check, h *Home, at *HRS, r *rand.Rand, tries int) (known, bool) {
	for i := 0; i < tries && !c.Violated(); i++ {
		at.H++
		at.S = randStep(r)
		m := newMsg(chain, *at, r.Intn(3), fixedTime.Add(time.Duration(at.H)))
		o := h.Sentries[0].Sign(m, 30*time.Second)
		o.Coord = h.ID
		if o.Err == nil {
			checkOutcome(c, hc.Cl.Priv.PubKey(), o)
			return known{m, append([]byte(nil), o.Got.Signature()...)}, true
		}
		c.Count("requests to processes failed", 1)
		if hc.crashed(c) {
			return known{}, false
		}
		time.Sleep(100 * time.Millisecond)
	}
	return known{}, false
}

// forget changes a state file the watch must not hold against the code.
func (w *stateWatch) forget(path string, change func()) {
	w.mu.Lock()
	defer w.mu.Unlock()
	change()
	w.last[path] = HRS{}
}

// reaches waits up to two minutes for both states of a node to have a block.
func (hc *Homes) reaches(h *Home, want HRS) bool {
	for end := time.Now().Add(2 * time.Minute); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		pv, _, err := loadHRS(h.pvPath())
		sh, _, err2 := loadHRS(h.sharePath())
		if err == nil && err2 == nil && !pv.Less(want) && !sh.Less(want) {
			return true
		}
		if !h.Proc.running() {
			return false
		}
	}
	return false
}

// c10Processes: a node that was down raises its watermarks when it comes back.
func c10Processes(c *Check) {
	r := c.Rng("processes")
	hc := newHomes(2, 3, 1)
	defer hc.stopAll()
	hc.startAll()
	w := watchStates(c, hc)
	defer w.end()
	at := HRS{0, 0, 1}
	if _, ok := hc.signVia(c, hc.Nodes[0], &at, r, 200); !ok {
		if !c.Violated() {
			c.Inconclusive("the cluster of processes does not sign")
		}
		return
	}
	for k := 0; k < c.size(3, 12) && !c.Violated(); k++ {
		down := hc.Nodes[k%3]
		down.Proc.kill()
		up := hc.Nodes[(k+1)%3]
		var last known
		for b := 0; b < 6; b++ {
			s, ok := hc.signVia(c, up, &at, r, 100)
			if !ok {
				if !c.Violated() {
					c.Inconclusive("two of three processes do not sign")
				}
				return
			}
			last = s
			c.Count("blocks signed", 1)
		}
		down.start()
		want := last.m.HRS()
		caught := false
		for i := 0; i < 6000 && !c.Violated(); i++ { // two minutes
			pv, st, err := loadHRS(down.pvPath())
			sh, _, err2 := loadHRS(down.sharePath())
			if err == nil && err2 == nil && !pv.Less(want) && !sh.Less(want) {
				if pv == want && string(st.Signature) != string(last.sig) {
					c.Violation("signature-not-kept", "node %d caught up to %s with another signature", down.ID, want)
				}
				caught = true
				break
			}
			if i%50 == 0 && hc.crashed(c) {
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		if !caught && !c.Violated() {
			pv, _, _ := loadHRS(down.pvPath())
			sh, _, _ := loadHRS(down.sharePath())
			c.Violation("no-catch-up", "node %d, restarted after missing blocks up to %s, stays at %s (validator) and %s (share) for two minutes",
				down.ID, want, pv, sh)
			return
		}
		c.Count("catch-ups after a restart", 1)
		c.Eval(fmt.Sprintf("catch-up %d", down.ID))
	}
	// a kill between the writes of the two states
	for k := 0; k < c.size(4, 16) && !c.Violated(); k++ {
		nd, up := hc.Nodes[k%3], hc.Nodes[(k+1)%3]
		first, ok := hc.signVia(c, up, &at, r, 100)
		if !ok || !hc.reaches(nd, first.m.HRS()) {
			break
		}
		path := []string{nd.sharePath(), nd.pvPath()}[k/2%2]
		before, err := os.ReadFile(path)
		must(err)
		last, ok := hc.signVia(c, up, &at, r, 100)
		if !ok || !hc.reaches(nd, last.m.HRS()) {
			break
		}
		c.Count("blocks signed", 2)
		nd.Proc.kill()
		w.forget(path, func() { must(os.WriteFile(path, before, 0o600)) })
		nd.start()
		if !hc.reaches(nd, last.m.HRS()) {
			if hc.crashed(c) {
				return
			}
			pv, _, _ := loadHRS(nd.pvPath())
			sh, _, _ := loadHRS(nd.sharePath())
			c.Violation("no-catch-up", "node %d, killed between the writes of its two states for %s, stays at %s (validator) and %s (share) for two minutes",
				nd.ID, last.m, pv, sh)
			return
		}
		c.Count("catch-ups after a kill between two states", 1)
		c.Eval(fmt.Sprintf("between %d %d", k/2%2, nd.ID))
	}
	// all nodes replay the whole log
	for _, h := range hc.Nodes {
		h.Proc.kill()
	}
	hc.startAll()
	before := at
	if s, ok := hc.signVia(c, hc.Nodes[1], &at, r, 200); ok {
		c.Count("blocks signed after replay", 1)
		c.Eval(fmt.Sprintf("replay %v", before.Less(s.m.HRS())))
	}
}

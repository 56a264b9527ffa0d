package main

import (
	"fmt"
	mrand "math/rand"
	"net"
	"path/filepath"
	"sync"
	"syscall"
	"time"
)

func init() { checks["C27"] = checkC27 }

func checkC27(c *Check) {
	c.Rule("a case is one stop signal (SIGTERM or SIGINT) sent to a real single signer or cosigner process in one state: starting, idle, "+
		"under load, with chain nodes that are down, deaf or stuck, leading, following or without a quorum; the process has to end soon, "+
		"without a panic and, once it has served, with status 0; its state has to cover what it signed, and a new process has to go on; "+
		"distinct by kind, state, signal and turn",
		"a process that has not yet set up its signal handling may be ended by the signal itself")
	c.Need("stops", "stops under load", "stops while starting", "stops without a quorum", "stops of leaders", "stops of followers",
		"stops with chain nodes down", "stops with chain nodes deaf", "restarts that sign", "requests in flight")
	r := c.Rng("c27")
	type job func(r *mrand.Rand)
	var jobs []job
	for k := 0; k < c.size(2, 12); k++ {
		k := k
		jobs = append(jobs, func(r *mrand.Rand) { c27Cluster(c, r, k) })
	}
	for k := 0; k < c.size(4, 30); k++ {
		k := k
		jobs = append(jobs, func(r *mrand.Rand) { c27Single(c, r, k) })
	}
	seeds := make([]int64, len(jobs))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(len(jobs), 6, func(i int) { jobs[i](mrand.New(mrand.NewSource(seeds[i]))) })
}

// stopped sends a stop signal and judges the end of the process.
func stopped(c *Check, p *Proc, sig syscall.Signal, served bool, what string) bool {
	if !p.running() {
		c.Violation("process-ended", "%s: the process had ended by itself with status %d: %s", what, p.code, p.crash())
		return false
	}
	p.signal(sig)
	c.Count("stops", 1)
	c.Eval(what + sig.String())
	select {
	case <-p.done:
	case <-time.After(30 * time.Second):
		c.Violation("does-not-stop", "%s: still running 30 s after %s", what, sig)
		p.kill()
		return false
	}
	if t := p.crash(); t != "" {
		c.Violation("crash-at-stop", "%s: %s ended the process with status %d and\n%s", what, sig, p.code, t)
		return false
	}
	if p.code != 0 && (served || p.code != -1) {
		c.Violation("stop-status", "%s: %s ended the process with status %d", what, sig, p.code)
		return false
	}
	return true
}

func stopSignal(r *mrand.Rand) syscall.Signal {
	return []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)]
}

func c27Single(c *Check, r *mrand.Rand, k int) {
	s := newSingle(c, fmt.Sprintf("single signer %d", k), 2)
	defer s.close()
	at := HRS{}
	for i, state := range []string{"starting", "idle", "under load", "one node down", "deaf", "stuck", "under load", "starting", "under load"} {
		if c.Violated() {
			return
		}
		what := fmt.Sprintf("single signer %d, turn %d, %s", k, i, state)
		s.start()
		if state == "starting" {
			time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
			if !stopped(c, s.proc, stopSignal(r), false, what) {
				return
			}
			c.Count("stops while starting", 1)
			continue
		}
		if !s.signNew(0, &at, r) {
			if !s.ended() {
				c.Violation("new-refused", "%s: new blocks are refused\n%s", what, s.history())
			}
			return
		}
		c.Count("restarts that sign", 1)
		var wg sync.WaitGroup
		quit := make(chan struct{})
		switch state {
		case "under load":
			cur := at
			var mu sync.Mutex
			for w := 0; w < 2; w++ {
				w, r := w, mrand.New(mrand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-quit:
							return
						default:
						}
						mu.Lock()
						cur = HRS{cur.H + 1, 0, randStep(r)}
						at = cur
						m := newMsg(s.chain, cur, 1, fixedTime)
						mu.Unlock()
						s.ask(w, m, 2*time.Second)
						c.Count("requests in flight", 1)
					}
				}()
			}
			time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
			c.Count("stops under load", 1)
		case "one node down":
			s.sentries[1].Close()
			time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
			c.Count("stops with chain nodes down", 1)
		case "deaf":
			s.sentries[0].mu.Lock()
			s.sentries[0].Deaf = true
			s.sentries[0].mu.Unlock()
			s.sentries[0].drop()
			time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
			c.Count("stops with chain nodes deaf", 1)
		case "stuck": // half a message has come
			if sc, err := s.sentries[0].session(time.Second); err == nil {
				sc.Write([]byte{200, 1, 10})
			}
		}
		ok := stopped(c, s.proc, stopSignal(r), true, what)
		close(quit)
		wg.Wait()
		s.sentries[0].mu.Lock()
		s.sentries[0].Deaf = false
		s.sentries[0].mu.Unlock()
		s.sentries[0].drop()
		if !ok {
			return
		}
		w, err := s.watermark()
		if err != nil {
			c.Violation("unreadable", "%s: the state file cannot be read afterwards: %v\n%s", what, err, s.history())
			return
		}
		if at.Less(w) {
			at = w
		}
	}
}

func c27Cluster(c *Check, r *mrand.Rand, k int) {
	t, n := 2, 3
	hc := newHomes(t, n, 1)
	defer hc.stopAll()
	led := newLedger(c, hc.Cl, fmt.Sprintf("cluster %d", k))
	var mu sync.Mutex
	at, mark := HRS{}, map[string]HRS{}
	next := func() HRS {
		mu.Lock()
		defer mu.Unlock()
		at = HRS{at.H + 1, 0, randStep(r)}
		return at
	}
	alive := func(what string) bool {
		for _, h := range hc.Nodes {
			if h.Proc == nil || !h.Proc.running() {
				continue
			}
			var last error
			ok := false
			end := time.Now().Add(90 * time.Second)
			for tries := 0; !ok && (time.Now().Before(end) || tries < 20); tries++ {
				o := h.Sentries[0].Sign(newMsg(chain, next(), 1, fixedTime), 20*time.Second)
				o.Coord = h.ID
				led.add(o)
				if ok, last = o.Err == nil, o.Err; !ok {
					if hc.crashed(c) {
						return false
					}
					time.Sleep(50 * time.Millisecond)
				}
			}
			if !ok {
				c.Violation("does-not-sign", "%s: node %d does not sign new blocks for 90 s: %v", what, h.ID, last)
				return false
			}
			c.Count("restarts that sign", 1)
		}
		for _, h := range hc.Nodes {
			for _, p := range []string{h.pvPath(), h.sharePath()} {
				hrs, _, err := loadHRS(p)
				if err != nil || hrs.Less(mark[p]) {
					c.Violation("state-lost", "%s: %s is at %s (%v) after %s", what, filepath.Base(p), hrs, err, mark[p])
					return false
				}
				mark[p] = hrs
			}
		}
		return true
	}
	// alone, starting
	first := hc.Nodes[r.Intn(n)]
	for i := 0; i < 3; i++ {
		first.start()
		wait := time.Duration(r.Intn(1500)) * time.Millisecond
		time.Sleep(wait)
		if !stopped(c, first.Proc, stopSignal(r), false, fmt.Sprintf("cluster %d, node %d alone %d after %s", k, first.ID, i, wait)) {
			return
		}
		c.Count("stops without a quorum", 1)
		c.Count("stops while starting", 1)
	}
	hc.startAll()
	if !alive("first start") {
		return
	}
	for i, state := range []string{"leader", "follower", "leader under load", "follower under load", "no quorum", "all", "chain node down", "leader under load"} {
		if c.Violated() {
			return
		}
		what := fmt.Sprintf("cluster %d, turn %d, %s", k, i, state)
		l := hc.leader(60 * time.Second)
		if l == nil {
			if !hc.crashed(c) {
				c.Violation("no-leader", "%s: no leader for a minute with all nodes up", what)
			}
			return
		}
		var f *Home
		for f == nil || f == l {
			f = hc.Nodes[r.Intn(n)]
		}
		var wg sync.WaitGroup
		quit := make(chan struct{})
		if state == "leader under load" || state == "follower under load" {
			for _, h := range hc.Nodes {
				h := h
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case <-quit:
							return
						default:
						}
						o := h.Sentries[0].Sign(newMsg(chain, next(), 1, fixedTime), 3*time.Second)
						o.Coord = h.ID
						led.add(o)
						c.Count("requests in flight", 1)
					}
				}()
			}
			time.Sleep(time.Duration(20+r.Intn(200)) * time.Millisecond)
			c.Count("stops under load", 1)
		}
		var victims []*Home
		switch state {
		case "leader", "leader under load":
			victims = []*Home{l}
			c.Count("stops of leaders", 1)
		case "follower", "follower under load":
			victims = []*Home{f}
			c.Count("stops of followers", 1)
		case "no quorum": // the last one is without a quorum when it is asked to end
			victims = []*Home{f}
			for _, h := range hc.Nodes {
				if h != f {
					victims = append(victims, h)
				}
			}
			c.Count("stops without a quorum", 1)
		case "all":
			victims = append(victims, hc.Nodes...)
		case "chain node down":
			f.Sentries[0].Close()
			c.Count("stops with chain nodes down", 1)
			victims = []*Home{f}
		}
		ok := true
		for _, h := range victims {
			ok = ok && stopped(c, h.Proc, stopSignal(r), true, fmt.Sprintf("%s, node %d", what, h.ID))
			if state == "no quorum" {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
			}
		}
		close(quit)
		wg.Wait()
		if !ok {
			return
		}
		for _, h := range victims {
			h.Proc = nil
		}
		if len(victims) == 1 && state != "chain node down" && !alive(what+", the others") {
			return
		}
		for _, h := range victims {
			if state == "chain node down" { // it comes back
				ln, err := net.Listen("tcp", h.Sentries[0].Addr[len("tcp://"):])
				if err != nil {
					h.Sentries[0] = newSentry()
					h.writeConfig()
				} else {
					h.Sentries[0] = newSentryOn(ln)
				}
			}
			h.start()
		}
		if !alive(what + ", after the restart") {
			return
		}
	}
}

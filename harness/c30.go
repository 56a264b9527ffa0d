package main

import (
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { checks["C30"] = checkC30 }

// answerBound is many times what the slowest path needs (three waits of a few seconds each).
const answerBound = 75 * time.Second

func checkC30(c *Check) {
	c.Rule("a case is one request of a chain node to a live cosigner process while others of the cluster are stopped in mid-air, killed, or "+
		"replaced by a port that is silent, full or talks nonsense, or while it is alone; it has to be answered, with a signature or an error, "+
		"within a bound; while enough cosigners are left for a quorum new blocks have to be signed, and once all are back by every node; "+
		"distinct by shape, fault, node and turn",
		"the bound (75 s) is many times what the waits in the code add up to")
	c.Need("answers under a fault", "refusals under a fault", "signatures under a fault", "faults with a quorum left", "faults without a quorum",
		"leader faults", "recoveries", "silent ports", "paused", "killed", "talking ports", "requests in flight at the fault")
	type run struct{ t, n, k int }
	runs := []run{{2, 3, 0}, {2, 3, 1}, {3, 5, 0}}
	if c.Tier == "thorough" {
		runs = append(runs, run{2, 2, 0}, run{3, 4, 0}, run{2, 3, 2}, run{3, 5, 1}, run{4, 7, 0})
	}
	parallel(len(runs), 3, func(i int) {
		c30Run(c, runs[i].t, runs[i].n, c.Rng(fmt.Sprint(runs[i])), fmt.Sprintf("%d of %d run %d", runs[i].t, runs[i].n, runs[i].k))
	})
	c.Sample(map[string]string{"slowest answer": c30Slowest.String()})
}

var (
	c30Mu      sync.Mutex
	c30Slowest time.Duration
)

// dummyPort takes the place of a node. It returns what frees the port.
func dummyPort(addr, how string, r *mrand.Rand) func() {
	if how == "full" { // nobody accepts, and there is no room for more than one connection in the queue
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		must(err)
		syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
		tcp, err := net.ResolveTCPAddr("tcp", addr)
		must(err)
		sa := &syscall.SockaddrInet4{Port: tcp.Port}
		copy(sa.Addr[:], tcp.IP.To4())
		if err := syscall.Bind(fd, sa); err != nil {
			syscall.Close(fd)
			return func() {}
		}
		must(syscall.Listen(fd, 0))
		var held []net.Conn
		for k := 0; k < 3; k++ {
			if cn, err := net.DialTimeout("tcp", addr, 100*time.Millisecond); err == nil {
				held = append(held, cn)
			}
		}
		return func() {
			for _, h := range held {
				h.Close()
			}
			syscall.Close(fd)
		}
	}
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return func() {}
	}
	var mu sync.Mutex
	var conns []net.Conn
	nonsense := rbytes(r, 3000)
	go func() {
		for {
			cn, err := ln.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns = append(conns, cn)
			mu.Unlock()
			if how == "silent" { // it hangs up when the other side does
				go func() {
					io.Copy(io.Discard, cn)
					cn.Close()
				}()
			}
			if how == "nonsense" {
				go func() {
					cn.Write(nonsense)
					time.Sleep(50 * time.Millisecond)
					cn.Close()
				}()
			}
			if how == "settings" { // a server that answers the preface and nothing else
				go func() {
					cn.Write([]byte{0, 0, 0, 4, 0, 0, 0, 0, 0})
					buf := make([]byte, 1<<16)
					for {
						if _, err := cn.Read(buf); err != nil {
							cn.Close()
							return
						}
					}
				}()
			}
		}
	}()
	return func() {
		ln.Close()
		mu.Lock()
		for _, cn := range conns {
			cn.Close()
		}
		mu.Unlock()
	}
}

// answered sends a request until it is answered, for as long as the bound allows.
func (x *c23) answered(h *Home, k int, m Msg, fault string) (Outcome, bool) {
	begin := time.Now()
	var last error
	for tries := 0; time.Since(begin) < answerBound || tries < 2; tries++ {
		left := answerBound - time.Since(begin)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		o := h.Sentries[k].Sign(m, left)
		o.Coord = h.ID
		x.led.add(o)
		var refused *errRefused
		if o.Err == nil || errors.As(o.Err, &refused) {
			d := time.Since(begin)
			c30Mu.Lock()
			if d > c30Slowest {
				c30Slowest = d
			}
			c30Mu.Unlock()
			return o, true
		}
		last = o.Err
		if !h.Proc.running() {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if x.hc.crashed(x.c) {
		return Outcome{}, false
	}
	x.c.Violation("not-answered", "%s: %s: the request for %s to node %d was not answered within %s: %v\nhistory of %s",
		x.what, fault, m, h.ID, answerBound, last, x.led.history())
	return Outcome{}, false
}

func c30Run(c *Check, t, n int, r *mrand.Rand, what string) {
	hc := newHomes(t, n, 2)
	defer hc.stopAll()
	hc.startAll()
	x := &c23{c: c, hc: hc, led: newLedger(c, hc.Cl, what), what: what}
	if !x.recovered(r) {
		return
	}
	majority := n/2 + 1
	if majority < t {
		majority = t
	}
	faults := []string{"paused", "killed", "silent", "full", "nonsense", "settings"}
	r.Shuffle(len(faults), func(i, j int) { faults[i], faults[j] = faults[j], faults[i] })
	turns := c.size(7, 40)
	for turn := 0; turn < turns && !c.Violated(); turn++ {
		how := faults[turn%len(faults)]
		l := hc.leader(60 * time.Second)
		if l == nil {
			if !hc.crashed(c) {
				c.Violation("no-leader", "%s: no leader for a minute with all nodes up; history of %s", what, x.led.history())
			}
			return
		}
		// how many are hit, and whether the leader is one of them
		hit := 1 + r.Intn(n-1)
		if turn%2 == 0 {
			hit = n - majority
			if hit == 0 {
				hit = 1
			}
		}
		withLeader := turn%3 != 2
		var victims []*Home
		down := map[*Home]bool{}
		if withLeader {
			victims = append(victims, l)
			down[l] = true
		}
		for len(victims) < hit {
			if h := hc.Nodes[r.Intn(n)]; !down[h] && h != l {
				victims = append(victims, h)
				down[h] = true
			}
		}
		var names []string
		for _, h := range victims {
			names = append(names, fmt.Sprint(h.ID))
		}
		fault := fmt.Sprintf("turn %d, node(s) %s %s, leader is %d", turn, strings.Join(names, ","), how, l.ID)
		x.led.note("%s", fault)
		if withLeader {
			c.Count("leader faults", 1)
		}
		// requests are on their way when it happens
		var wg sync.WaitGroup
		for _, h := range hc.Nodes {
			if down[h] {
				continue
			}
			for k := range h.Sentries {
				h, k, r := h, k, mrand.New(mrand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					m := newMsg(chain, x.next(r), 1, fixedTime)
					for j := 0; j < 4 && !c.Violated(); j++ {
						o, ok := x.answered(h, k, m, fault)
						if !ok {
							return
						}
						c.Eval(fmt.Sprint(what, turn, how, h.ID, k, j))
						c.Count("requests in flight at the fault", 1)
						c.Count("answers under a fault", 1)
						if o.Err != nil {
							c.Count("refusals under a fault", 1)
						} else {
							c.Count("signatures under a fault", 1)
						}
						if r.Intn(2) == 0 {
							m = newMsg(chain, x.next(r), r.Intn(3), fixedTime)
						}
					}
				}()
			}
		}
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		var undo []func()
		for _, h := range victims {
			h := h
			switch how {
			case "paused":
				h.Proc.signal(syscall.SIGSTOP)
				h.Paused = true
				c.Count("paused", 1)
				undo = append(undo, func() { h.Proc.signal(syscall.SIGCONT); h.Paused = false })
			default:
				h.Proc.kill()
				free := func() {}
				if how != "killed" {
					free = dummyPort(h.Addr, how, r)
				}
				if how == "silent" || how == "full" {
					c.Count("silent ports", 1)
				} else if how == "killed" {
					c.Count("killed", 1)
				} else {
					c.Count("talking ports", 1)
				}
				undo = append(undo, func() { free(); h.start() })
			}
		}
		wg.Wait()
		if c.Violated() {
			break
		}
		if n-len(victims) >= majority { // those left go on
			c.Count("faults with a quorum left", 1)
			if !x.recovered(r) {
				return
			}
		} else {
			c.Count("faults without a quorum", 1)
		}
		for _, u := range undo {
			u()
		}
		if !x.recovered(r) {
			return
		}
	}
}

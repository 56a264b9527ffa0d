package main

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	radmin "github.com/Jille/raftadmin/proto"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/tendermint/tendermint/privval"
)

func init() { checks["C12"] = checkC12 }

// The monitor is the race detector; this binary and the horcrux binary it starts are built with -race.
func checkC12(c *Check) {
	c.Rule("a case is one operation issued while others are in progress on the same node, in a binary built with the race detector; all "+
		"entry points (coordinator, follower, cosigner network interface, replicated log, snapshots, announcements, remote signer "+
		"sessions, start and stop) are driven at once; a report with an access in horcrux code is a violation; non-trivial if at least "+
		"one other operation was in progress; distinct by (operation, set of operations in progress)",
		"the race detector sees the races of the executions it observes")
	c.Need("overlapping operations", "distinct sets of overlapping operations", "detector self-test")
	testRSAKeys(5)
	if !c12SelfTest() {
		panic("harness: the race detector is not active")
	}
	c.Count("detector self-test", 1)
	m := &mix{c: c, on: map[string]int{}, sets: map[string]bool{}}
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	end := time.Now().Add(time.Duration(c.size(35, 600)) * time.Second)
	run(func() { c12Nodes(m, 2, 3, end) })
	run(func() { c12Nodes(m, 3, 5, end) })
	run(func() { c12Faults(m, end) })
	run(func() { c12Single(m, end) })
	run(func() { c12Processes(m, end) })
	run(func() { c12Late(m) })
	wg.Wait()
	c.Count("distinct sets of overlapping operations", int64(len(m.sets)))
	c12Reports(c)
}

// mix keeps track of what runs at the same time.
type mix struct {
	c    *Check
	mu   sync.Mutex
	on   map[string]int
	sets map[string]bool
}

func (m *mix) do(group, op string, f func()) {
	m.mu.Lock()
	m.on[group+op]++
	var with []string
	for k, n := range m.on {
		if n > 0 && strings.HasPrefix(k, group) && k != group+op {
			with = append(with, strings.TrimPrefix(k, group))
		}
	}
	m.mu.Unlock()
	f()
	m.mu.Lock()
	m.on[group+op]--
	m.mu.Unlock()
	m.c.Count("operations "+op, 1)
	if len(with) == 0 {
		m.c.Eval("")
		return
	}
	sortStrings(with)
	k := op + " with " + strings.Join(with, ",")
	m.mu.Lock()
	m.sets[k] = true
	m.mu.Unlock()
	m.c.Count("overlapping operations", 1)
	m.c.Eval(k)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// raceVar is raced on on purpose.
var raceVar int

func c12SelfTest() bool {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); raceVar++ }()
	}
	wg.Wait()
	for i := 0; i < 100; i++ {
		for _, r := range raceReports() {
			if strings.Contains(r, "c12SelfTest") {
				return true
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

func raceReports() []string {
	fs, _ := filepath.Glob(filepath.Join(scratchDir(), "race.*"))
	var out []string
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, r := range strings.Split(string(b), "==================") {
			if strings.Contains(r, "WARNING: DATA RACE") {
				out = append(out, r)
			}
		}
	}
	return out
}

// c12Reports attributes the race detector's reports.
func c12Reports(c *Check) {
	seen := map[string]bool{}
	for _, r := range raceReports() {
		c.Count("reports", 1)
		if strings.Contains(r, "c12SelfTest") {
			continue
		}
		owners := map[string]bool{}
		key := ""
		for _, part := range strings.Split(r, "\n\n") {
			lines := strings.Split(strings.TrimSpace(part), "\n")
			for len(lines) > 0 && (strings.HasPrefix(lines[0], "WARNING") || lines[0] == "") {
				lines = lines[1:]
			}
			if len(lines) < 2 || !(strings.Contains(lines[0], "rite at") || strings.Contains(lines[0], "ead at")) {
				continue
			}
			for _, l := range lines[1:] {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, repoPkg) {
					owners["repo"] = true
					key += " " + strings.TrimSuffix(strings.TrimPrefix(l, repoPkg), "()")
					break
				}
				if strings.HasPrefix(l, "main.") && !strings.Contains(r, "cmd/horcrux/main.go") {
					owners["harness"] = true
					break
				}
			}
		}
		if !owners["repo"] {
			c.Count("reports outside horcrux", 1)
			c.Sample(firstLine(strings.TrimSpace(r)) + key)
			continue
		}
		if !seen[key] {
			seen[key] = true
			c.Violation("race"+strings.ReplaceAll(key, " ", ":"), "data race in horcrux:%s\n%s", key, r)
		}
	}
}

// loop repeats an operation until the end.
func loop(wg *sync.WaitGroup, end time.Time, pause time.Duration, f func(k int)) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		for k := 0; time.Now().Before(end); k++ {
			f(k)
			if pause > 0 {
				time.Sleep(pause)
			}
		}
	}()
}

func c12Nodes(m *mix, t, n int, end time.Time) {
	c := m.c
	g := fmt.Sprintf("%d/%d ", t, n)
	ns := newNodes(t, n)
	var height int64
	var wg sync.WaitGroup
	var recent sync.Map
	rng := func(name string) *rand.Rand { return c.Rng(g + name) }
	for _, nd := range ns.Nodes {
		nd := nd
		for k := 0; k < 2; k++ {
			r := rng(fmt.Sprint("sign", nd.ID, k))
			loop(&wg, end, 0, func(int) {
				h := atomic.LoadInt64(&height)
				switch r.Intn(4) {
				case 0, 1:
					h = atomic.AddInt64(&height, 1)
				}
				msg := newMsg(chain, HRS{h, 0, randStep(r)}, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(2))))
				m.do(g, "sign", func() {
					o := nd.Sign(msg)
					if o.Err == nil {
						recent.Store(h%8, known{msg, append([]byte(nil), o.Got.Signature()...)})
						c.Count("signed", 1)
					}
				})
			})
		}
		r := rng(fmt.Sprint("net", nd.ID))
		pc, cc := dialCosigner(nd.Addr)
		defer cc.Close()
		loop(&wg, end, time.Millisecond, func(int) {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			defer cancel()
			hrst := signer.HRSTKey{Height: atomic.LoadInt64(&height) + int64(r.Intn(3)), Step: randStep(r), Timestamp: fixedTime.UnixNano()}
			switch r.Intn(3) {
			case 0:
				m.do(g, "parts over the network", func() {
					pc.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: &proto.HRST{
						Height: hrst.Height, Step: int32(hrst.Step), Timestamp: hrst.Timestamp}})
				})
			case 1:
				m.do(g, "share signature over the network", func() {
					msg := newMsg(chain, HRS{hrst.Height, 0, hrst.Step}, 1, fixedTime)
					var others []signer.Cosigner
					for _, o := range ns.Nodes {
						if o != nd && len(others) < t-1 {
							others = append(others, signer.NewRemoteCosigner(o.ID, "tcp://"+o.Addr))
						}
					}
					shareSign(msg, signer.NewRemoteCosigner(nd.ID, "tcp://"+nd.Addr), others...)
				})
			case 2:
				m.do(g, "sign over the network", func() {
					msg := newMsg(chain, HRS{hrst.Height, 0, hrst.Step}, 1, fixedTime)
					pc.SignBlock(ctx, &proto.CosignerGRPCSignBlockRequest{ChainID: chain, Block: &proto.Block{Height: hrst.Height,
						Step: int32(hrst.Step), SignBytes: msg.SignBytes(), Timestamp: fixedTime.UnixNano()}})
				})
			}
		})
		loop(&wg, end, 2*time.Millisecond, func(k int) {
			key := fmt.Sprint("k", k%5)
			m.do(g, "store write", func() { nd.Store.Set(key, fmt.Sprint(k)) })
			m.do(g, "store read", func() { nd.Store.Get(key) })
			if k%7 == 0 {
				m.do(g, "store delete", func() { nd.Store.Delete(key) })
			}
		})
		loop(&wg, end, 5*time.Millisecond, func(k int) {
			if v, ok := recent.Load(int64(k % 8)); ok {
				b := v.(known)
				h := b.m.HRS()
				ssc := signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S, Signature: b.sig, SignBytes: b.m.SignBytes()}
				m.do(g, "announcement", func() { nd.Store.Emit("LSS", ssc) })
				m.do(g, "state update", func() {
					nd.Val.SaveLastSignedState(ssc)
					nd.Party.lc.SaveLastSignedState(ssc)
				})
			}
		})
		_, cc2 := dialCosigner(nd.Addr)
		defer cc2.Close()
		loop(&wg, end, 150*time.Millisecond, func(k int) {
			m.do(g, "snapshot", func() {
				ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
				defer cancel()
				cl := radmin.NewRaftAdminClient(cc2)
				if f, err := cl.Snapshot(ctx, &radmin.SnapshotRequest{}); err == nil {
					cl.Await(ctx, f)
				}
			})
		})
		// remote signer sessions
		guard := &signer.PvGuard{PrivValidator: nd.Val}
		var sentries []*Sentry
		var cfg []signer.NodeConfig
		for k := 0; k < 2; k++ {
			s := newSentry()
			sentries = append(sentries, s)
			cfg = append(cfg, signer.NodeConfig{Address: s.Addr})
		}
		svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, guard, cfg)
		must(err)
		defer func() {
			for _, s := range svcs {
				s.Stop()
			}
			for _, s := range sentries {
				s.Close()
			}
		}()
		for _, s := range sentries {
			s := s
			r := rng("sentry" + s.Addr)
			loop(&wg, end, time.Millisecond, func(k int) {
				switch r.Intn(8) {
				case 0:
					m.do(g, "public key request", func() { s.Call(pubKeyRequest(), 10*time.Second) })
				case 1:
					m.do(g, "ping", func() { s.Call(pingRequest(), 10*time.Second) })
				case 2:
					if k%10 == 0 {
						m.do(g, "session cut", s.drop)
					}
				default:
					h := atomic.LoadInt64(&height)
					if r.Intn(2) == 0 {
						h = atomic.AddInt64(&height, 1)
					}
					msg := newMsg(chain, HRS{h, 0, randStep(r)}, r.Intn(2), fixedTime)
					m.do(g, "sign by session", func() { s.Sign(msg, 20*time.Second) })
				}
			})
		}
	}
	loop(&wg, end, 3*time.Second, func(k int) {
		time.Sleep(2 * time.Second)
		m.do(g, "leadership transfer", func() { ns.Transfer(0) })
	})
	loop(&wg, end, 10*time.Millisecond, func(int) {
		m.do(g, "leader read", func() {
			for _, nd := range ns.Nodes {
				nd.Store.GetLeader()
				nd.Val.GetPubKey()
			}
		})
	})
	wg.Wait()
}

// c12Late has a node that is being read catch up by a snapshot.
func c12Late(m *mix) {
	ns, start := newNodesBut(2, 3, 3)
	ns.pastLog(func(l *Node, k int) {
		m.do("late ", "store write", func() { l.Store.Set(fmt.Sprint("late", k%50), fmt.Sprint(k)) })
	})
	var wg sync.WaitGroup
	done := make(chan struct{})
	nd := start()
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ; k++ {
				select {
				case <-done:
					return
				default:
				}
				m.do("late ", "store read", func() { nd.Store.Get(fmt.Sprint("late", k%50)) })
			}
		}()
	}
	m.do("late ", "catch up by snapshot", func() {
		if who := ns.Barrier(60 * time.Second); who != "" {
			m.c.Count("late nodes that did not catch up", 1)
			return
		}
		m.c.Count("late nodes that caught up", 1)
	})
	close(done)
	wg.Wait()
}

// c12Faults has cosigners answer late, hang and fail, with several coordinators.
func c12Faults(m *mix, end time.Time) {
	c := m.c
	slots := newLeaderSlots(4)
	var wg sync.WaitGroup
	for i := range slots {
		i := i
		cl := newCluster(3, 5)
		co := newCoord(cl, slots[i], 1+i)
		g := fmt.Sprintf("coordinator%d ", i)
		var height int64
		for k := 0; k < 4; k++ {
			r := c.Rng(fmt.Sprint("faults", i, k))
			loop(&wg, end, 0, func(int) {
				h := atomic.AddInt64(&height, int64(r.Intn(2)))
				msg := newMsg(chain, HRS{h, 0, randStep(r)}, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(2))))
				m.do(g, "sign", func() { co.Sign(msg) })
			})
		}
		for _, l := range co.Links {
			l := l
			r := c.Rng(fmt.Sprint("link", i, l.To.ID))
			var rmu sync.Mutex
			nap := func(max int) {
				rmu.Lock()
				d := time.Duration(r.Intn(max)) * time.Microsecond
				if r.Intn(100) == 0 {
					d = 4500 * time.Millisecond // beyond the coordinator's patience
				}
				rmu.Unlock()
				time.Sleep(d)
			}
			l.Set(func(h signer.HRSTKey) (*partsResp, error) { nap(3000); return l.To.GetEphemeralSecretParts(h) },
				func(q signReq) (*signResp, error) { nap(3000); return l.To.SetEphemeralSecretPartsAndSign(q) })
		}
	}
	wg.Wait()
}

// c12Single is a single signer with several chain nodes.
func c12Single(m *mix, end time.Time) {
	c := m.c
	dir := newDir("single")
	pv := privval.GenFilePV(filepath.Join(dir, "key.json"), filepath.Join(dir, "state.json"))
	guard := &signer.PvGuard{PrivValidator: pv}
	var cfg []signer.NodeConfig
	var sentries []*Sentry
	for k := 0; k < 4; k++ {
		s := newSentry()
		sentries = append(sentries, s)
		cfg = append(cfg, signer.NodeConfig{Address: s.Addr})
	}
	svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, guard, cfg)
	must(err)
	var wg sync.WaitGroup
	var height int64
	for i, s := range sentries {
		s := s
		r := c.Rng(fmt.Sprint("single", i))
		loop(&wg, end, 0, func(k int) {
			h := atomic.AddInt64(&height, int64(r.Intn(2)))
			msg := newMsg(chain, HRS{h, 0, randStep(r)}, r.Intn(2), fixedTime)
			switch r.Intn(10) {
			case 0:
				m.do("single ", "public key request", func() { s.Call(pubKeyRequest(), 10*time.Second) })
			case 1:
				if k%20 == 0 {
					m.do("single ", "session cut", s.drop)
				}
			default:
				m.do("single ", "sign", func() { s.Sign(msg, 20*time.Second) })
			}
		})
		// direct use besides the sessions
		loop(&wg, end, time.Millisecond, func(k int) {
			h := atomic.AddInt64(&height, 1)
			msg := newMsg(chain, HRS{h, 0, 2}, 1, fixedTime)
			m.do("single ", "direct", func() { msg.SignWith(guard); guard.GetPubKey() })
		})
	}
	// sessions that start and stop
	loop(&wg, end, 20*time.Millisecond, func(k int) {
		s := newSentry()
		m.do("single ", "session start and stop", func() {
			d := net.Dialer{Timeout: 5 * time.Second}
			rs := signer.NewReconnRemoteSigner(s.Addr, nopLogger(), chain, guard, d)
			rs.Start()
			s.Call(pingRequest(), 5*time.Second)
			rs.Stop()
		})
		s.Close()
	})
	wg.Wait()
	for _, s := range svcs {
		s.Stop()
	}
}

// c12Processes runs the real command, built with the race detector, through start, load and stop.
func c12Processes(m *mix, end time.Time) {
	c := m.c
	for round := 0; time.Now().Before(end); round++ {
		hc := newHomes(2, 3, 2)
		hc.startAll()
		var wg sync.WaitGroup
		stop := time.Now().Add(12 * time.Second)
		var height int64
		for _, h := range hc.Nodes {
			for k, s := range h.Sentries {
				s := s
				r := c.Rng(fmt.Sprint("process", round, h.ID, k))
				loop(&wg, stop, 5*time.Millisecond, func(int) {
					hh := atomic.AddInt64(&height, int64(r.Intn(2)))
					m.do("processes ", "sign", func() {
						o := s.Sign(newMsg(chain, HRS{hh, 0, randStep(r)}, r.Intn(2), fixedTime), 20*time.Second)
						if o.Err == nil {
							c.Count("signed by processes", 1)
						}
					})
				})
			}
		}
		loop(&wg, stop, 3*time.Second, func(int) {
			m.do("processes ", "elect", func() { runHx("elect", "--home", hc.Nodes[0].Dir) })
		})
		wg.Wait()
		if hc.crashed(c) {
			return
		}
		for _, h := range hc.Nodes {
			m.do("processes ", "terminate", func() { h.Proc.signal(syscall.SIGTERM) })
		}
		time.Sleep(500 * time.Millisecond)
		hc.stopAll()
	}
}

package main

import (
	"context"
	"fmt"
	mrand "math/rand"
	"strings"
	"sync"
	"syscall"
	"time"

	radmin "github.com/Jille/raftadmin/proto"
	"github.com/strangelove-ventures/horcrux/signer/proto"
)

func init() { checks["C23"] = checkC23 }

func checkC23(c *Check) {
	c.Rule("a case is one leadership transfer asked for with the real elect command, or one kill, pause or restart, on a cluster of real "+
		"processes under signing load from all chain nodes; afterwards the leader is read from the nodes, every live node has to sign a new "+
		"block, and all signatures of the run are compared; distinct by (cluster, action, target, leader before)",
		"a machine slow enough to lose an election now and then is not held against the code: single misdirected transfers are tolerated, a "+
			"quarter of them is not")
	c.Need("blocks signed", "elections of a given cosigner", "elections of any", "elections of the present leader", "elections of an unknown",
		"leader kills", "pauses", "elections among twelve", "elections asked of a follower", "restarts", "recoveries", "signatures under load")
	type run struct{ t, n, k int }
	runs := []run{{2, 3, 0}, {2, 3, 1}, {3, 5, 0}}
	if c.Tier == "thorough" {
		runs = append(runs, run{2, 3, 2}, run{3, 4, 0}, run{3, 5, 1}, run{2, 2, 0}, run{4, 7, 0})
	}
	el := &elections{}
	parallel(len(runs)+1, 4, func(i int) {
		if i == len(runs) {
			c23Many(c)
			return
		}
		c23Run(c, runs[i].t, runs[i].n, c.Rng(fmt.Sprint(runs[i])), fmt.Sprintf("%d of %d run %d", runs[i].t, runs[i].n, runs[i].k), el)
	})
	el.judge(c)
}

// elections counts transfers and where they went.
type elections struct {
	mu    sync.Mutex
	count map[string]int
	wrong map[string][]string
}

func (e *elections) add(kind string, wrong string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.count == nil {
		e.count, e.wrong = map[string]int{}, map[string][]string{}
	}
	e.count[kind]++
	if wrong != "" {
		e.wrong[kind] = append(e.wrong[kind], wrong)
	}
}

func (e *elections) judge(c *Check) {
	for kind, n := range e.count {
		w := e.wrong[kind]
		c.Count(kind+", went wrong", int64(len(w)))
		for _, x := range w {
			c.Sample(x)
		}
		if len(w) >= 2 && 4*len(w) >= n {
			c.Violation("misdirected", "%s: %d of %d went wrong:\n%s", kind, len(w), n, strings.Join(w, "\n"))
		}
	}
}

// leaderOf asks the live nodes who leads, until a majority of the cluster agrees.
func (hc *Homes) leader(wait time.Duration) *Home {
	end := time.Now().Add(wait)
	for {
		votes := map[string]int{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for _, h := range hc.Nodes {
			if h.Proc == nil || !h.Proc.running() || h.Paused {
				continue
			}
			h := h
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, cc := dialCosigner(h.Addr)
				defer cc.Close()
				ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
				defer cancel()
				if r, err := radmin.NewRaftAdminClient(cc).Leader(ctx, &radmin.LeaderRequest{}); err == nil {
					mu.Lock()
					votes[r.GetAddress()]++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for _, h := range hc.Nodes {
			if 2*votes[h.Addr] > len(hc.Nodes) && h.Proc != nil && h.Proc.running() && !h.Paused {
				return h
			}
		}
		if time.Now().After(end) {
			return nil
		}
		time.Sleep(30 * time.Millisecond)
	}
}

type c23 struct {
	c    *Check
	hc   *Homes
	led  *ledger
	what string
	mu   sync.Mutex
	at   HRS
}

func (x *c23) next(r *mrand.Rand) HRS {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.at = HRS{x.at.H + 1, 0, randStep(r)}
	return x.at
}

// recovered: every live node signs a new block.
func (x *c23) recovered(r *mrand.Rand) bool {
	for _, h := range x.hc.Nodes {
		if !h.Proc.running() || h.Paused {
			continue
		}
		ok := false
		var last string
		end := time.Now().Add(90 * time.Second)
		for tries := 0; !ok && (time.Now().Before(end) || tries < 20); tries++ {
			m := newMsg(chain, x.next(r), r.Intn(3), fixedTime)
			o := h.Sentries[0].Sign(m, 20*time.Second)
			o.Coord = h.ID
			x.led.add(o)
			if ok = o.Err == nil; !ok {
				last = o.Err.Error()
				if x.hc.crashed(x.c) {
					return false
				}
				time.Sleep(50 * time.Millisecond)
			}
		}
		if !ok {
			x.c.Violation("does-not-sign", "node %d does not sign new blocks for 90 s: %s\nhistory of %s", h.ID, last, x.led.history())
			return false
		}
		x.c.Count("blocks signed", 1)
	}
	x.c.Count("recoveries", 1)
	return true
}

func c23Run(c *Check, t, n int, r *mrand.Rand, what string, el *elections) {
	hc := newHomes(t, n, 1)
	defer hc.stopAll()
	hc.startAll()
	x := &c23{c: c, hc: hc, led: newLedger(c, hc.Cl, what), what: what}
	if !x.recovered(r) {
		return
	}
	// load: all chain nodes ask for the same block, some for a conflicting one
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i, h := range hc.Nodes {
		h, r := h, mrand.New(mrand.NewSource(r.Int63()+int64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(r.Intn(60)) * time.Millisecond):
				}
				x.mu.Lock()
				at := x.at
				x.mu.Unlock()
				if r.Intn(3) == 0 {
					at = x.next(r)
				} else if r.Intn(2) == 0 {
					at.S = randStep(r)
				}
				o := h.Sentries[0].Sign(newMsg(chain, at, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(2)))), 5*time.Second)
				o.Coord = h.ID
				x.led.add(o)
				if o.Err == nil {
					c.Count("signatures under load", 1)
				}
			}
		}()
	}
	defer func() { close(stop); wg.Wait() }()
	elect := func(from *Home, args ...string) (string, int) {
		out, code := runHx(append(append([]string{"elect"}, args...), "--home", from.Dir)...)
		x.led.note("elect %v from node %d: status %d", args, from.ID, code)
		return out, code
	}
	live := func() *Home {
		for {
			if h := hc.Nodes[r.Intn(n)]; h.Proc.running() && !h.Paused {
				return h
			}
		}
	}
	// where the leadership is, once it is where it should be or has had time to get there
	settled := func(want func(*Home) bool) *Home {
		var l *Home
		for i := 0; i < 100; i++ {
			if l = hc.leader(10 * time.Second); l != nil && want(l) {
				return l
			}
			time.Sleep(50 * time.Millisecond)
		}
		return l
	}
	actions := []string{"elect", "elect any", "elect self", "elect unknown", "kill leader", "elect", "pause leader", "elect self", "kill follower",
		"elect any", "elect dead", "elect", "roll", "elect self", "elect unknown", "kill all", "elect", "elect"}
	if c.Tier == "thorough" {
		for k := 0; k < 3; k++ {
			more := append([]string(nil), actions[:18]...)
			r.Shuffle(len(more), func(i, j int) { more[i], more[j] = more[j], more[i] })
			actions = append(actions, more...)
		}
	}
	for _, a := range actions {
		if c.Violated() {
			return
		}
		l := hc.leader(60 * time.Second)
		if l == nil {
			if !hc.crashed(c) {
				c.Violation("no-leader", "no leader for a minute with all nodes up; history of %s", x.led.history())
			}
			return
		}
		x.led.note("action %s, leader is node %d", a, l.ID)
		var other *Home
		for other == nil || other == l {
			other = hc.Nodes[r.Intn(n)]
		}
		key := fmt.Sprintf("%s %s leader %d target %d", what, a, l.ID, other.ID)
		switch a {
		case "elect":
			// a loaded raft cluster may fail to transfer, or elect the old leader again right away: ask again. What must not happen is
			// that it never works, or that the leadership goes to somebody else.
			const kind = "elections of a given cosigner"
			var got *Home
			var tries []string
			for k := 0; k < 6; k++ {
				before := hc.leader(30 * time.Second)
				out, code := elect(live(), fmt.Sprint(other.ID))
				got = settled(func(h *Home) bool { return h == other })
				tries = append(tries, fmt.Sprintf("%s: leader is %s, elect %d (status %d: %s): leader is %s", what, idOf(before), other.ID, code, out, idOf(got)))
				wrong := ""
				if code == 0 && before != nil && got != nil && before != other && got != before && got != other {
					wrong = tries[k]
				}
				el.add(kind, wrong)
				c.Count(kind, 1)
				if got == other {
					break
				}
			}
			if got != other && !hc.crashed(c) {
				c.Violation("never-elected", "cosigner %d does not become leader:\n%s", other.ID, strings.Join(tries, "\n"))
				return
			}
		case "elect any":
			var got *Home
			var tries []string
			for k := 0; k < 6; k++ {
				before := hc.leader(30 * time.Second)
				out, code := elect(live())
				got = settled(func(h *Home) bool { return h != before })
				tries = append(tries, fmt.Sprintf("%s: leader is %s, elect (status %d: %s): leader is %s", what, idOf(before), code, out, idOf(got)))
				c.Count("elections of any", 1)
				if got != nil && got != before {
					break
				}
				got = nil
			}
			if got == nil && !hc.crashed(c) {
				c.Violation("never-moved", "the leadership does not move:\n%s", strings.Join(tries, "\n"))
				return
			}
		case "elect self", "elect unknown":
			who, kind := fmt.Sprint(l.ID), "elections of the present leader"
			if a == "elect unknown" {
				who, kind = []string{"99", "0", "-7", "x", fmt.Sprint(n + 1), "1.0"}[r.Intn(6)], "elections of an unknown"
			}
			// "--" so that a negative number is no flag
			out, code := runHx("elect", "--home", live().Dir, "--", who)
			x.led.note("elect %s: status %d", who, code)
			moved := false
			for i := 0; i < 12; i++ { // a transfer would have happened by then
				if got := hc.leader(10 * time.Second); got != nil && got != l {
					moved = true
				}
				time.Sleep(50 * time.Millisecond)
			}
			wrong := ""
			if moved || (code == 0) != (a == "elect self") {
				wrong = fmt.Sprintf("%s: leader %d, elect %s: status %d: %s: leadership moved %v", what, l.ID, who, code, out, moved)
			}
			el.add(kind, wrong)
			c.Count(kind, 1)
		case "elect dead":
			if n-1 < t {
				continue
			}
			other.Proc.kill()
			out, code := elect(l, fmt.Sprint(other.ID))
			wrong := ""
			if code == 0 {
				wrong = fmt.Sprintf("%s: leader %d, elect %d, which is down, reports success: %s", what, l.ID, other.ID, out)
			}
			el.add("elections of a dead cosigner", wrong)
			c.Count("elections of a dead cosigner", 1)
			if !x.recovered(r) {
				return
			}
			other.start()
		case "kill leader", "kill follower":
			v := l
			if a == "kill follower" {
				v = other
			}
			v.Proc.kill()
			if a == "kill leader" {
				c.Count("leader kills", 1)
			}
			if n-1 >= t && 2*(n-1) > n {
				if !x.recovered(r) {
					return
				}
			}
			v.start()
			c.Count("restarts", 1)
		case "pause leader":
			l.Paused = true
			l.Proc.signal(syscall.SIGSTOP)
			c.Count("pauses", 1)
			if n-1 >= t && 2*(n-1) > n {
				if !x.recovered(r) {
					return
				}
			}
			l.Proc.signal(syscall.SIGCONT)
			l.Paused = false
		case "roll":
			for _, h := range hc.Nodes {
				h.Proc.signal(syscall.SIGTERM)
				select {
				case <-h.Proc.done:
				case <-time.After(5 * time.Second):
					h.Proc.kill()
				}
				h.start()
				c.Count("restarts", 1)
				if !x.recovered(r) {
					return
				}
			}
		case "kill all":
			for _, h := range hc.Nodes {
				h.Proc.kill()
			}
			hc.startAll()
			c.Count("restarts", int64(n))
		}
		c.Eval(key)
		if !x.recovered(r) {
			return
		}
	}
	x.led.mu.Lock()
	c.Sample(x.led.log[:min(10, len(x.led.log))])
	x.led.mu.Unlock()
}

// c23Many: a cluster whose cosigners' numbers have one and two digits; transfers are asked of the nodes themselves.
func c23Many(c *Check) {
	const n = 12
	r := c.Rng("many")
	ns := newNodes(2, n)
	led := newLedger(c, ns.Cl, "twelve nodes")
	h := int64(0)
	sign := func() bool {
		for _, nd := range ns.Nodes {
			ok := false
			var last error
			end := time.Now().Add(60 * time.Second)
			for tries := 0; !ok && (time.Now().Before(end) || tries < 10); tries++ {
				h++
				o := nd.Sign(newMsg(chain, HRS{h, 0, randStep(r)}, r.Intn(3), fixedTime))
				led.add(o)
				ok, last = o.Err == nil, o.Err
			}
			if !ok {
				c.Violation("does-not-sign", "twelve nodes: node %d does not sign new blocks for 60 s: %v", nd.ID, last)
				return false
			}
		}
		return true
	}
	var targets []string
	for i := 1; i <= n; i++ {
		targets = append(targets, fmt.Sprint(i))
	}
	targets = append(targets, "self", "unknown", "self", "unknown")
	r.Shuffle(len(targets), func(i, j int) { targets[i], targets[j] = targets[j], targets[i] })
	targets = append([]string{"1", "self", "12", "2", "10", "self"}, targets...)
	for k, to := range targets {
		l := ns.Leader()
		if l == nil {
			c.Violation("no-leader", "twelve nodes: no leader for a minute with all nodes up")
			return
		}
		kind, who := "elections of a given cosigner among twelve", to
		switch {
		case to == "self" || to == fmt.Sprint(l.ID):
			kind, who = "elections of the present leader among twelve", fmt.Sprint(l.ID)
		case to == "unknown":
			kind, who = "elections of an unknown among twelve", []string{"13", "120", "x", "0", "-1"}[r.Intn(5)]
		}
		ask := func(who string) error {
			cl, cc := dialCosigner(ns.Leader().Addr)
			defer cc.Close()
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
			defer cancel()
			_, err := cl.TransferLeadership(ctx, &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: who})
			return err
		}
		// elect asks until somebody is the leader, and returns how often the leadership went to a third
		elect := func(who string) (third []string, ok bool) {
			for k := 0; k < 6; k++ {
				before := ns.Leader()
				if before != nil && fmt.Sprint(before.ID) == who {
					return third, true
				}
				err := ask(who)
				var got *Node
				for i := 0; i < 40; i++ {
					if got = ns.Leader(); got == nil || fmt.Sprint(got.ID) == who {
						break
					}
					time.Sleep(50 * time.Millisecond)
				}
				if got == nil || before == nil {
					c.Violation("no-leader", "twelve nodes: no leader for a minute with all nodes up")
					return third, false
				}
				c.Count(kind, 1)
				what := fmt.Sprintf("leader is %d, elect %s (%v): leader is %d", before.ID, who, err, got.ID)
				if fmt.Sprint(got.ID) == who {
					return third, true
				}
				if err == nil && got != before {
					third = append(third, what)
				}
				c.Sample(what)
			}
			return third, false
		}
		if who == to { // a given other one
			third, ok := elect(who)
			if len(third) >= 2 || !ok && !c.Violated() {
				c.Violation("misdirected", "twelve nodes: elect %s goes elsewhere or never works:\n%s", who, strings.Join(third, "\n"))
				return
			}
		} else {
			var wrongs []string
			for try := 0; try < 4; try++ {
				if try > 0 { // the same again
					if _, ok := elect(fmt.Sprint(l.ID)); !ok {
						break
					}
				}
				err := ask(who)
				var moved *Node
				for i := 0; i < 12 && moved == nil; i++ {
					if got := ns.Leader(); got != l && got != nil {
						moved = got
					}
					time.Sleep(50 * time.Millisecond)
				}
				c.Count(kind, 1)
				if moved == nil && (err == nil) == (who == fmt.Sprint(l.ID)) {
					break
				}
				wrongs = append(wrongs, fmt.Sprintf("leader is %d, elect %s (%v): leadership moved %v", l.ID, who, err, moved != nil))
			}
			if len(wrongs) >= 3 {
				c.Violation("misdirected", "twelve nodes, the same each time:\n%s", strings.Join(wrongs, "\n"))
				return
			}
		}
		c.Count("elections among twelve", 1)
		c.Eval(fmt.Sprintf("twelve %d %s", l.ID, who))
		// a follower can not move the leadership: it must not say it did
		var untrue []string
		for try := 0; try < 4; try++ {
			before := ns.Leader()
			f := ns.Follower(k)
			if before == nil || f == nil || f == before {
				break
			}
			who := []string{fmt.Sprint(f.ID), "", fmt.Sprint(1 + k%n), "99"}[k%4]
			cl, cc := dialCosigner(f.Addr)
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
			_, err := cl.TransferLeadership(ctx, &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: who})
			cancel()
			cc.Close()
			c.Count("elections asked of a follower", 1)
			if err != nil {
				break
			}
			happened := false
			for i := 0; i < 40 && !happened; i++ {
				got := ns.Leader()
				if happened = got != nil && (got == f || fmt.Sprint(got.ID) == who || who == "" && got != before); !happened {
					time.Sleep(50 * time.Millisecond)
				}
			}
			if happened {
				break
			}
			untrue = append(untrue, fmt.Sprintf("leader is %d, follower %d says that it elected %q, and it did not happen", before.ID, f.ID, who))
		}
		if len(untrue) >= 3 {
			c.Violation("untrue-success", "twelve nodes, the same each time:\n%s", strings.Join(untrue, "\n"))
			return
		}
		if k%4 == 0 && !sign() {
			return
		}
	}
	sign()
}

func idOf(h *Home) string {
	if h == nil {
		return "nobody"
	}
	return fmt.Sprint("node ", h.ID)
}

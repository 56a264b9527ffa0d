package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
)

func init() { checks["C01"] = checkC01 }

// ledger records every valid signature that got out of a cluster and looks for conflicts.
type ledger struct {
	c     *Check
	cl    *Cluster
	name  string
	mu    sync.Mutex
	signd map[HRS]map[string]Outcome // content -> first outcome
	log   []string
	nSig  int
	nErr  int
}

func newLedger(c *Check, cl *Cluster, name string) *ledger {
	return &ledger{c: c, cl: cl, name: name, signd: map[HRS]map[string]Outcome{}}
}

func (l *ledger) note(format string, a ...interface{}) {
	l.mu.Lock()
	l.log = append(l.log, fmt.Sprintf(format, a...))
	l.mu.Unlock()
}

func (l *ledger) history() string {
	return l.name + "\n  " + strings.Join(l.log, "\n  ")
}

// add takes an outcome into account.
func (l *ledger) add(o Outcome) {
	ok := checkOutcome(l.c, l.cl.Priv.PubKey(), o)
	l.mu.Lock()
	defer l.mu.Unlock()
	res := "signed"
	if o.Err != nil {
		res = "error: " + o.Err.Error()
		if len(res) > 90 {
			res = res[:90]
		}
	}
	l.log = append(l.log, fmt.Sprintf("[%d-%d] coordinator %d: %s -> %s", o.Call, o.Ret, o.Coord, o.Msg, res))
	if o.Err != nil || !ok {
		l.nErr++
		return
	}
	l.nSig++
	h := o.Msg.HRS()
	m := l.signd[h]
	if m == nil {
		m = map[string]Outcome{}
		l.signd[h] = m
	}
	k := o.Msg.Content()
	if _, seen := m[k]; !seen {
		m[k] = o
	}
	if len(m) > 1 {
		var all []string
		for _, x := range m {
			all = append(all, fmt.Sprintf("%s by coordinator %d", x.Msg, x.Coord))
		}
		sort.Strings(all)
		l.c.Violation("conflicting-signatures", "two conflicting messages were signed at %s: %s\nhistory of %s",
			h, strings.Join(all, "; "), l.history())
	}
}

// quorums looks for two contents at one height, round and step, each signed by a threshold of cosigners.
func (l *ledger) quorums() {
	type key struct {
		h HRS
		c string
	}
	who := map[key]map[int]bool{}
	contents := map[HRS]map[string]bool{}
	for _, r := range l.cl.releases() {
		m, err := parseSignBytes(r.Bytes)
		if err != nil {
			continue
		}
		k := key{m.HRS, m.Content}
		if who[k] == nil {
			who[k] = map[int]bool{}
		}
		who[k][r.Party] = true
		if contents[m.HRS] == nil {
			contents[m.HRS] = map[string]bool{}
		}
		contents[m.HRS][m.Content] = true
	}
	for h, cs := range contents {
		n := 0
		for c := range cs {
			if len(who[key{h, c}]) >= l.cl.T {
				n++
			}
		}
		l.c.Count("slots with a full set of share signatures", int64(n))
		if n > 1 {
			l.c.Violation("conflicting-quorums", "%d conflicting messages have share signatures of %d cosigners at %s\nhistory of %s",
				n, l.cl.T, h, l.history())
		}
	}
}

// only makes all cosigners but the given ones unreachable for the coordinator.
func (co *Coord) only(ids ...int) {
	in := map[int]bool{}
	for _, i := range ids {
		in[i] = true
	}
	for _, l := range co.Links {
		if in[l.To.ID] {
			l.Set(nil, nil)
		} else {
			l.Set(failGet, failSign)
		}
	}
}

func failGet(signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	return nil, errInjected
}

func failSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	return nil, errInjected
}

// subsets of {1..n} of size k which contain own.
func quorums(n, k, own int) [][]int {
	var out [][]int
	for m := 0; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				s = append(s, i+1)
			}
		}
		if len(s) != k {
			continue
		}
		for _, x := range s {
			if x == own {
				out = append(out, s)
				break
			}
		}
	}
	return out
}

const c01Parts = 12

func checkC01(c *Check) {
	c.Rule("a case is one scenario on a real cluster of cosigners with several coordinators that all believe to be leader: "+
		"either a directed one (sign or half-sign a message, disturb, ask for a message that differs in one signed field over the same "+
		"or another coordinator and quorum) or a random one (concurrent batches near the frontier, faults, replays, restarts); it is "+
		"non-trivial if at least one signature was released and at least one conflicting request was made; distinct by scenario description",
		"cosigners run in one process and restart from their real state files; the raft part of leadership is replaced by coordinators which are always leader")
	c.Need("conflicting requests", "signatures released", "restarts", "partially signed attempts", "replayed cosigner calls")
	var jobs []func(slots []*LeaderSlot)
	for _, nt := range [][2]int{{2, 2}, {3, 2}, {4, 3}, {5, 3}} {
		n, t := nt[0], nt[1]
		for part := 0; part < c01Parts; part++ {
			n, t, part := n, t, part
			jobs = append(jobs, func(s []*LeaderSlot) { c01Directed(c, n, t, part, c01Parts, s) })
		}
	}
	nts := [][2]int{{2, 2}, {3, 2}, {3, 2}, {3, 2}, {4, 3}, {5, 3}, {5, 4}, {7, 4}}
	reps := c.size(12, 120)
	for i := 0; i < reps; i++ {
		nt := nts[i%len(nts)]
		i := i
		jobs = append(jobs, func(s []*LeaderSlot) { c01Random(c, nt[0], nt[1], fmt.Sprintf("random-%d", i), s) })
	}
	testRSAKeys(7)
	const workers = 36
	pool := make(chan []*LeaderSlot, workers)
	all := newLeaderSlots(workers * 3)
	for i := 0; i < workers; i++ {
		pool <- all[3*i : 3*i+3]
	}
	parallel(len(jobs), workers, func(i int) {
		s := <-pool
		jobs[i](s)
		pool <- s
	})
}

// c01Directed enumerates: step x first phase x disturbance x second route x changed field.
func c01Directed(c *Check, n, t, part, parts int, slots []*LeaderSlot) {
	r := c.Rng(fmt.Sprintf("directed-%d-%d-%d", n, t, part))
	cl := newCluster(t, n)
	l := newLedger(c, cl, fmt.Sprintf("directed n=%d t=%d part %d", n, t, part))
	co := []*Coord{newCoord(cl, slots[0], 1), newCoord(cl, slots[1], 2)}
	q1 := quorums(n, t, 1)
	q2 := quorums(n, t, 2)
	height := int64(10)
	idx := 0
	for _, step := range []int8{stepProposal, stepPrevote, stepPrecommit} {
		for _, base := range []int{0, 1} { // content number: nil or block for votes
			for first := 0; first < 3; first++ { // 0 complete, 1 partial (some cosigners signed), 2 all signed but leader lost the answer
				for dist := 0; dist < 5; dist++ {
					for route := 0; route < 3; route++ {
						idx++
						if idx%parts != part {
							continue
						}
						if c.Violated() {
							return
						}
						if first != 0 && dist > 1 && c.Tier == "quick" && r.Intn(3) != 0 {
							continue
						}
						height += 1 + int64(r.Intn(2))
						round := int64(r.Intn(3))
						m := newMsg(chain, HRS{height, round, step}, base, fixedTime.Add(time.Duration(r.Intn(1000))*time.Second))
						l.log = nil
						l.note("scenario step=%d base=%d first=%d disturbance=%d route=%d", step, base, first, dist, route)
						desc := fmt.Sprint(n, t, step, base, first, dist, route)
						fq := q1[r.Intn(len(q1))]
						co[0].only(fq...)
						signed := false
						switch first {
						case 0:
							o := co[0].Sign(m)
							l.add(o)
							signed = o.Err == nil
						case 1:
							// the coordinator's peers sign (some of them), it gets no answer
							for k, lk := range co[0].Links {
								if k%2 == 0 {
									loseAnswer(lk)
								}
							}
							l.add(co[0].Sign(m))
							c.Count("partially signed attempts", 1)
						case 2:
							for _, id := range fq {
								loseAnswer(co[0].Link(id))
							}
							l.add(co[0].Sign(m))
							co[0].own.Set(nil, nil)
							c.Count("partially signed attempts", 1)
						}
						switch dist {
						case 1: // all restart from disk
							for _, p := range cl.Parties {
								must2(c, p.Restart())
							}
							c.Count("restarts", int64(n))
							l.note("all cosigners restart")
						case 2: // coordinator restarts
							co[0].Restart()
							c.Count("restarts", 1)
							l.note("coordinator 1 restarts")
						case 3: // replay everything ever sent to the cosigners for this message
							for _, lk := range append([]*Link{co[0].own}, co[0].Links...) {
								for _, q := range lk.captured() {
									if string(q.SignBytes) == string(m.SignBytes()) {
										lk.To.SetEphemeralSecretPartsAndSign(q)
										c.Count("replayed cosigner calls", 1)
									}
								}
							}
							l.note("replay of all cosigner calls")
						case 4: // the same again with another timestamp
							co[0].only(fq...)
							l.add(co[0].Sign(m.WithTime(m.Time().Add(time.Second))))
						}
						co[0].only(fq...)
						co[0].own.Set(nil, nil)
						var via *Coord
						switch route {
						case 0:
							via = co[0]
						case 1:
							via = co[1]
							via.only(q2[r.Intn(len(q2))]...)
						case 2:
							via = co[0]
							via.only(q1[r.Intn(len(q1))]...)
						}
						vs := m.variants()
						names := make([]string, 0, len(vs))
						for k := range vs {
							names = append(names, k)
						}
						sort.Strings(names)
						ts := timestamps()
						for k, name := range names {
							if c.Tier == "quick" && k > 0 && r.Intn(4) != 0 {
								continue
							}
							v := vs[name]
							if r.Intn(2) == 0 {
								v = v.WithTime(ts[r.Intn(len(ts))])
							}
							o := via.Sign(v)
							l.add(o)
							c.Count("conflicting requests", 1)
							if o.Err == nil {
								c.Count("conflicting requests signed (nothing completed before)", 1)
							}
						}
						// and the original over the other route again
						o := via.Sign(m)
						l.add(o)
						c.Eval(desc)
						if signed && idx%97 == 0 {
							c.Sample(l.log)
						}
					}
				}
			}
		}
	}
	l.quorums()
	c.Count("signatures released", int64(l.nSig))
	c.Count("requests refused", int64(l.nErr))
	c.Count("share signatures released", int64(len(cl.releases())))
}

func must2(c *Check, err error) {
	if err != nil {
		c.Violation("restart-failed", "a cosigner cannot restart from its own state file: %v", err)
	}
}

// loseAnswer lets the call happen but loses the answer.
func loseAnswer(l *Link) {
	l.Set(nil, func(req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
		l.To.SetEphemeralSecretPartsAndSign(req)
		return nil, errInjected
	})
}

func c01Random(c *Check, n, t int, name string, slots []*LeaderSlot) {
	r := c.Rng(name)
	cl := newCluster(t, n)
	l := newLedger(c, cl, fmt.Sprintf("%s n=%d t=%d", name, n, t))
	owners := r.Perm(n)
	k := 3
	if n < 3 {
		k = 2
	}
	var cos []*Coord
	for i := 0; i < k; i++ {
		cos = append(cos, newCoord(cl, slots[i], owners[i]+1))
	}
	front := HRS{1 + int64(r.Intn(3)), 0, stepProposal}
	steps := c.size(60, 150)
	conflicting := 0
	for s := 0; s < steps && !c.Violated(); s++ {
		switch r.Intn(12) {
		case 0:
			p := cl.Parties[r.Intn(n)]
			must2(c, p.Restart())
			l.note("cosigner %d restarts", p.ID)
			c.Count("restarts", 1)
		case 1:
			co := cos[r.Intn(k)]
			co.Restart()
			l.note("coordinator %d restarts", co.Own)
			c.Count("restarts", 1)
		case 2:
			// every link heals
			for _, co := range cos {
				co.own.Set(nil, nil)
				for _, lk := range co.Links {
					lk.Set(nil, nil)
				}
			}
			l.note("heal")
		case 3:
			co := cos[r.Intn(k)]
			lk := co.Links[r.Intn(len(co.Links))]
			mode := r.Intn(4)
			l.note("coordinator %d: link to %d mode %d", co.Own, lk.To.ID, mode)
			switch mode {
			case 0:
				loseAnswer(lk)
			case 1:
				d := time.Duration(r.Intn(30)) * time.Millisecond
				lk.Set(nil, func(req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
					time.Sleep(d)
					return lk.To.SetEphemeralSecretPartsAndSign(req)
				})
			case 2:
				lk.Set(nil, failSign)
			case 3:
				d := time.Duration(r.Intn(30)) * time.Millisecond
				lk.Set(func(h signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
					time.Sleep(d)
					return lk.To.GetEphemeralSecretParts(h)
				}, nil)
			}
		case 4:
			co := cos[r.Intn(k)]
			lks := append([]*Link{co.own}, co.Links...)
			lk := lks[r.Intn(len(lks))]
			reqs := lk.captured()
			if len(reqs) > 0 {
				q := reqs[r.Intn(len(reqs))]
				lk.To.SetEphemeralSecretPartsAndSign(q)
				c.Count("replayed cosigner calls", 1)
				l.note("replay of a call to %d", lk.To.ID)
			}
		case 5:
			co := cos[r.Intn(k)]
			qs := quorums(n, t, co.Own)
			q := qs[r.Intn(len(qs))]
			co.only(q...)
			l.note("coordinator %d reaches %v only", co.Own, q)
		default:
			// a batch of concurrent requests at or near the frontier
			batch := 1 + r.Intn(4)
			at := front
			switch r.Intn(6) {
			case 0:
				at.H -= int64(r.Intn(2))
			case 1:
				at.R -= 1
			case 2:
				at.S = randStep(r)
			}
			if at.H < 1 {
				at.H = 1
			}
			if at.R < 0 {
				at.R = 0
			}
			var wg sync.WaitGroup
			for b := 0; b < batch; b++ {
				m := newMsg(chain, at, r.Intn(3), fixedTime.Add(time.Duration(r.Intn(2))*time.Second))
				if r.Intn(5) == 0 {
					vs := m.variants()
					var names []string
					for k := range vs {
						names = append(names, k)
					}
					sort.Strings(names)
					m = vs[names[r.Intn(len(names))]]
				}
				co := cos[r.Intn(k)]
				wg.Add(1)
				go func() {
					defer wg.Done()
					l.add(co.Sign(m))
				}()
				if b > 0 {
					conflicting++
				}
			}
			wg.Wait()
			if r.Intn(3) != 0 {
				switch {
				case front.S < 3:
					front.S++
				case r.Intn(3) == 0:
					front.R, front.S = front.R+1, stepProposal
				default:
					front = HRS{front.H + 1, int64(r.Intn(2)), stepProposal}
				}
			}
		}
	}
	l.quorums()
	c.Count("signatures released", int64(l.nSig))
	c.Count("requests refused", int64(l.nErr))
	c.Count("conflicting requests", int64(conflicting))
	c.Count("share signatures released", int64(len(cl.releases())))
	if l.nSig > 0 && conflicting > 0 {
		c.Eval(l.name + fmt.Sprint(l.nSig, l.nErr))
		if len(l.log) > 14 {
			c.Sample(l.log[:14])
		}
	}
}

var _ = rand.Int

package main

import (
	"bytes"
	"context"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	tmService "github.com/tendermint/tendermint/libs/service"
	"google.golang.org/grpc"
)

func init() { checks["C28"] = checkC28 }

func checkC28(c *Check) {
	c.Rule("a case is one round of one kind of work (blocks signed, attempts without enough cosigners, answers lost or late, requests refused, "+
		"forwarded or repeated, dealings for blocks others sign, sessions cut, transfers of the leadership); after each of several equal "+
		"rounds the process is left to settle and its goroutines, open files and live heap are counted; distinct by kind and round",
		"growth is told from noise by its being there in every round; what the runtime and libraries keep for reuse settles after the first rounds")
	c.Need("blocks signed", "attempts that failed", "dealings for blocks others sign", "sessions cut", "rounds", "forwarded requests", "refused requests",
		"attempts with silent peers")
	c28Blocks(c)
	c28Failing(c)
	c28Silent(c)
	c28Dealing(c)
	c28Sessions(c)
	c28Nodes(c)
}

type usage struct {
	Goroutines, Files int
	Heap              uint64
}

// settle waits until the number of goroutines stays where it is.
func settle(wait time.Duration) usage {
	var u usage
	end := time.Now().Add(wait)
	low, since := runtime.NumGoroutine(), time.Now()
	for time.Now().Before(end) && time.Since(since) < 1500*time.Millisecond {
		time.Sleep(50 * time.Millisecond)
		if n := runtime.NumGoroutine(); n < low {
			low, since = n, time.Now()
		}
	}
	runtime.GC()
	runtime.GC()
	u.Goroutines = runtime.NumGoroutine()
	if fs, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.Files = len(fs)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.Heap = m.HeapAlloc
	return u
}

// grows runs equal rounds of work and looks for what grows with each. units is how many requests a round makes.
func grows(c *Check, what string, units int, perUnit float64, wait time.Duration, round func(k int)) {
	const rounds = 5
	var us []usage
	for k := 0; k < rounds && !c.Violated(); k++ {
		round(k)
		us = append(us, settle(wait))
		c.Count("rounds", 1)
		c.Eval(fmt.Sprint(what, k))
	}
	if len(us) < rounds {
		return
	}
	c.Sample(map[string]interface{}{"work": what, "requests in a round": units, "after each round": us})
	us = us[1:]
	steady := func(f func(u usage) float64, least float64) bool { // each round adds at least so much
		for k := 1; k < len(us); k++ {
			if f(us[k])-f(us[k-1]) < least {
				return false
			}
		}
		return true
	}
	least := float64(units) / 10
	if least < 3 {
		least = 3
	}
	if steady(func(u usage) float64 { return float64(u.Goroutines) }, least) {
		c.Violation("goroutines-grow", "%s, %d requests in each round: goroutines after the rounds: %+v\n%s", what, units, us, goroutines())
	}
	if steady(func(u usage) float64 { return float64(u.Files) }, least) {
		c.Violation("files-grow", "%s, %d requests in each round: open files after the rounds: %+v", what, units, us)
	}
	if perUnit > 0 && steady(func(u usage) float64 { return float64(u.Heap) }, perUnit*float64(units)) {
		c.Violation("heap-grows", "%s, %d requests in each round: live heap after the rounds: %+v", what, units, us)
	}
}

// goroutines are the kinds of goroutines there are, with their numbers.
func goroutines() string {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	parts := strings.Split(b.String(), "\n\n")
	sort.SliceStable(parts, func(i, j int) bool { return leadingInt(parts[i]) > leadingInt(parts[j]) })
	if len(parts) > 4 {
		parts = parts[:4]
	}
	return strings.Join(parts, "\n")
}

func leadingInt(s string) (n int) {
	fmt.Sscan(strings.TrimSpace(s), &n)
	return
}

// c28Blocks: signing, repeating and refusing blocks.
func c28Blocks(c *Check) {
	cl := newCluster(2, 3)
	co := newCoord(cl, newLeaderSlots(1)[0], 1)
	h := int64(0)
	n := c.size(250, 1500)
	r := mrand.New(mrand.NewSource(c.Rng("blocks").Int63()))
	work := func(most int64) func(int) {
		return func(int) {
			defer cl.forget()
			for i := 0; i < n; i++ {
				h += 1 + r.Int63n(most)
				round := int64(0)
				if most > 1 {
					round = r.Int63n(3)
				}
				m := newMsg(chain, HRS{h, round, 2}, 1, fixedTime)
				if o := co.Sign(m); o.Err == nil {
					c.Count("blocks signed", 1)
				}
				co.Sign(m)
				co.Sign(newMsg(chain, HRS{h, round, 2}, 2, fixedTime))
				co.Sign(newMsg(chain, HRS{h - 1, 0, 2}, 2, fixedTime))
				c.Count("refused requests", 2)
			}
		}
	}
	grows(c, "blocks signed, repeated and refused", n, 200, 10*time.Second, work(1))
	// a validator that is jailed, or catches up, does not sign every height
	grows(c, "blocks signed with heights left out, repeated and refused", n, 200, 10*time.Second, work(7))
}

// c28Failing: attempts that fail in every way.
func c28Failing(c *Check) {
	cl := newCluster(3, 5)
	slots := newLeaderSlots(20)
	var cos []*Coord
	for i, s := range slots {
		co := newCoord(cl, s, 1+i%5)
		cos = append(cos, co)
	}
	h := int64(0)
	per := c.size(3, 6)
	grows(c, "attempts without enough cosigners, or with their answers lost", len(cos)*per, 0, 20*time.Second, func(k int) {
		defer cl.forget()
		base := h
		h += int64(per)
		parallel(len(cos), len(cos), func(i int) {
			for j := 0; j < per; j++ {
				for li, l := range cos[i].Links {
					switch (i + j + k) % 4 {
					case 0:
						l.Set(failGet, failSign)
					case 1:
						loseAnswer(l)
					case 2: // one answers
						if li == 0 {
							l.Set(nil, nil)
						} else {
							l.Set(failGet, failSign)
						}
					case 3: // fails when asked to sign
						l.Set(nil, failSign)
					}
				}
				if o := cos[i].Sign(newMsg(chain, HRS{base + int64(j) + 1, int64(i), 2}, 1, fixedTime)); o.Err != nil {
					c.Count("attempts that failed", 1)
				}
			}
		})
	})
}

// hanging is the network interface of a cosigner that does not finish what it is asked for.
type hanging struct {
	proto.UnimplementedCosignerGRPCServer
	p    *Party
	stop chan struct{}
}

func (x *hanging) GetEphemeralSecretParts(ctx context.Context, q *proto.CosignerGRPCGetEphemeralSecretPartsRequest) (
	*proto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	res, err := x.p.Local().GetEphemeralSecretParts(signer.HRSTKeyFromProto(q.GetHrst()))
	if err != nil {
		return nil, err
	}
	out := &proto.CosignerGRPCGetEphemeralSecretPartsResponse{}
	for _, p := range res.EncryptedSecrets {
		out.EncryptedSecrets = append(out.EncryptedSecrets, &proto.EphemeralSecretPart{SourceID: int32(p.SourceID),
			DestinationID: int32(p.DestinationID), SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey,
			EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
	}
	return out, nil
}

func (x *hanging) SetEphemeralSecretPartsAndSign(ctx context.Context, _ *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest) (
	*proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse, error) {
	select {
	case <-x.stop:
	case <-ctx.Done():
	}
	return nil, errInjected
}

// c28Silent: peers on the network that take requests and never answer.
func c28Silent(c *Check) {
	cl := newCluster(3, 4)
	slots := newLeaderSlots(16)
	stop := make(chan struct{})
	defer close(stop)
	r := c.Rng("silent")
	addrs := map[int]string{1: "127.0.0.1:1"}
	for id, how := range map[int]string{2: "settings", 3: "silent"} {
		addrs[id] = fmt.Sprintf("127.0.0.1:%d", freePort())
		defer dummyPort(addrs[id], how, r)()
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(srv, &hanging{p: cl.Parties[3], stop: stop})
	go srv.Serve(ln)
	defer srv.Stop()
	addrs[4] = ln.Addr().String()
	var vals []*signer.ThresholdValidator
	for _, s := range slots {
		var peers []signer.Cosigner
		for id := 2; id <= 4; id++ {
			peers = append(peers, signer.NewRemoteCosigner(id, "tcp://"+addrs[id]))
		}
		v := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: cl.Priv.PubKey(), Threshold: 2 + len(vals)%2,
			SignState: newState(filepath.Join(newDir("silent"), "pv.json")), Cosigner: cl.Parties[0], Peers: peers,
			RaftStore: s.Store, Logger: nopLogger()})
		s.Store.SetThresholdValidator(v)
		vals = append(vals, v)
	}
	h := int64(0)
	grows(c, "attempts with peers that never answer", 2*len(vals), 0, 25*time.Second, func(int) {
		defer cl.forget()
		h += 2
		parallel(2*len(vals), 2*len(vals), func(i int) {
			m := newMsg(chain, HRS{h + int64(i%2), int64(i / 2), 2}, 1, fixedTime)
			done := make(chan error, 1)
			go func() { done <- m.Clone().SignWith(vals[i/2]) }()
			select {
			case <-done:
			case <-time.After(60 * time.Second): // what is left behind is counted
			}
			c.Count("attempts with silent peers", 1)
		})
	})
}

// c28Dealing: a cosigner deals for every block, but is never among the first, so that others sign; it only hears of the signed blocks.
func c28Dealing(c *Check) {
	cl := newCluster(2, 3)
	p := cl.Parties[2]
	n := c.size(2500, 10000)
	h := int64(0)
	grows(c, "dealings for blocks others sign", n, 150, 5*time.Second, func(int) {
		base := h
		h += int64(n)
		parallel(8, 8, func(w int) {
			for i := w; i < n; i += 8 {
				// blocks that took several rounds are left behind like the others
				m := newMsg(chain, HRS{base + int64(i) + 1, int64(i / 8 % 3), int8(i/24%3) + 1}, 1, fixedTime)
				if _, err := p.Local().GetEphemeralSecretParts(m.HRST()); err != nil {
					c.Violation("dealing-failed", "%s: %v", m, err)
					return
				}
				c.Count("dealings for blocks others sign", 1)
			}
		})
		// the cluster announces what it signed
		m := newMsg(chain, HRS{h, 0, 3}, 1, fixedTime)
		must(p.Local().SaveLastSignedState(signer.SignStateConsensus{Height: h, Step: 3, Signature: make([]byte, 64), SignBytes: m.SignBytes()}))
	})
}

// c28Sessions: chain nodes that hang up, at once, in the handshake and between requests.
func c28Sessions(c *Check) {
	const nodes = 6
	var ss []*Sentry
	var services []tmService.Service
	cl := newCluster(2, 3)
	co := newCoord(cl, newLeaderSlots(1)[0], 1)
	guard := &signer.PvGuard{PrivValidator: co.Validator}
	var cfg []signer.NodeConfig
	for i := 0; i < nodes; i++ {
		s := newSentry()
		ss = append(ss, s)
		cfg = append(cfg, signer.NodeConfig{Address: s.Addr})
	}
	services, err := signer.StartRemoteSigners(services, nopLogger(), chain, guard, cfg)
	must(err)
	h := int64(0)
	n := c.size(25, 120)
	grows(c, "sessions cut", nodes*n, 2000, 10*time.Second, func(int) {
		defer cl.forget()
		base := h
		h += int64(n)
		parallel(nodes, nodes, func(i int) {
			for j := 0; j < n; j++ {
				ss[i].Sign(newMsg(chain, HRS{base + int64(j) + 1, 0, 2}, 1, fixedTime), 8*time.Second)
				if j%2 == 0 {
					ss[i].Call(pingRequest(), 8*time.Second)
				}
				ss[i].drop()
				c.Count("sessions cut", 1)
			}
		})
	})
	for _, s := range services {
		s.Stop()
	}
	for _, s := range ss {
		s.Close()
	}
}

// c28Nodes: complete nodes, with requests to followers and transfers of the leadership.
func c28Nodes(c *Check) {
	ns := newNodes(2, 3)
	r := mrand.New(mrand.NewSource(c.Rng("nodes").Int63()))
	h := int64(0)
	n := c.size(80, 500)
	grows(c, "requests forwarded, repeated and refused, and transfers of the leadership", n, 20000, 15*time.Second, func(k int) {
		defer ns.Cl.forget()
		ns.Transfer(0)
		for i := 0; i < n; i++ {
			h++
			m := newMsg(chain, HRS{h, 0, randStep(r)}, 1, fixedTime)
			if o := ns.Nodes[i%3].Sign(m); o.Err == nil {
				c.Count("forwarded requests", 1)
			}
			ns.Nodes[(i+1)%3].Sign(m)
			ns.Nodes[(i+2)%3].Sign(newMsg(chain, m.HRS(), 2, fixedTime))
			c.Count("refused requests", 1)
		}
	})
}

package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func init() { checks["C04"] = checkC04 }

var chainIDs = []string{chain, "", "x", "cosmoshub-4", strings.Repeat("long-chain-id-", 40), "ünïcode-链-\u0000-id", "a\nb", " padded id\t", "MiXed-Id"}

// randMsg makes any message at the place.
func randMsg(r *rand.Rand, at HRS) Msg {
	m := newMsg(chainIDs[r.Intn(len(chainIDs))], at, r.Intn(3), fixedTime)
	if r.Intn(3) == 0 {
		m.ChainID = chain
	}
	ts := timestamps()
	switch r.Intn(3) {
	case 0:
		m = m.WithTime(ts[r.Intn(len(ts))])
	case 1:
		m = m.WithTime(time.Unix(r.Int63n(1<<34), r.Int63n(1e9)).UTC())
	}
	if m.Vote != nil {
		switch r.Intn(4) {
		case 0:
			m.Vote.BlockID.PartSetHeader.Total = math.MaxUint32
		case 1:
			m.Vote.ValidatorAddress = nil
			m.Vote.ValidatorIndex = math.MaxInt32
		case 2:
			m.Vote.BlockID.Hash = hashN(r.Int(), "x")
		}
	} else {
		switch r.Intn(4) {
		case 0:
			m.Proposal.PolRound = int32(at.R) - 1
		case 1:
			m.Proposal.BlockID = tmProto.BlockID{Hash: hashN(r.Int(), "x"), PartSetHeader: tmProto.PartSetHeader{Total: math.MaxUint32, Hash: hashN(r.Int(), "y")}}
		case 2:
			m.Proposal.BlockID = tmProto.BlockID{}
		}
	}
	return m
}

func checkC04(c *Check) {
	c.Rule("a case is one request to a coordinator of a random cluster (size, threshold, quorum) with a random message (vote or proposal, "+
		"nil or full block ID, extreme heights, rounds, times and chain IDs): new, repeated, with another timestamp, conflicting, lower, "+
		"concurrent with others at the same or other places, or after a restart; every answer is verified with the validator key over the "+
		"answered message; distinct by (cluster, kind, message)",
		"signatures are verified with tendermint's Ed25519 implementation")
	c.Need("signed", "refused", "repeated requests signed", "timestamp variants signed", "signed after restart", "signed concurrently")
	testRSAKeys(10)
	shapes := [][2]int{{2, 2}, {3, 2}, {3, 3}, {4, 3}, {5, 3}, {5, 4}, {6, 4}, {7, 4}, {9, 5}, {10, 6}}
	n := c.size(30, 400)
	slots := newLeaderSlots(10)
	pool := make(chan *LeaderSlot, len(slots))
	for _, s := range slots {
		pool <- s
	}
	parallel(n, 10, func(i int) {
		s := <-pool
		defer func() { pool <- s }()
		c04Scenario(c, i, shapes[i%len(shapes)], s)
	})
	c04Followers(c)
}

func c04Scenario(c *Check, i int, shape [2]int, slot *LeaderSlot) {
	r := c.Rng(fmt.Sprintf("scenario-%d", i))
	n, t := shape[0], shape[1]
	cl := newCluster(t, n)
	own := 1 + r.Intn(n)
	co := newCoord(cl, slot, own)
	qs := quorums(n, t, own)
	pub := cl.Priv.PubKey()
	ask := func(kind string, m Msg) Outcome {
		o := co.Sign(m)
		checkOutcome(c, pub, o)
		if o.Err == nil {
			c.Count("signed", 1)
			c.Count(kind+" signed", 1)
		} else {
			c.Count("refused", 1)
		}
		c.Eval(fmt.Sprintf("%v %s %s", shape, kind, m.Key()))
		return o
	}
	var past []Msg
	at := HRS{1 + r.Int63n(1000), 0, 1}
	if i%5 == 4 {
		at.H = math.MaxInt64 - 60
	}
	steps := 22
	for s := 0; s < steps && !c.Violated(); s++ {
		at = HRS{at.H + 1 + r.Int63n(2), 0, randStep(r)}
		if r.Intn(3) == 0 {
			at.R = r.Int63n(math.MaxInt32)
			if r.Intn(3) == 0 {
				at.R = math.MaxInt32
			}
		}
		co.only(qs[r.Intn(len(qs))]...)
		m := randMsg(r, at)
		if o := ask("new requests", m); o.Err == nil && s%9 == 0 {
			c.Sample(map[string]interface{}{"cluster": fmt.Sprintf("%d of %d", t, n), "signed": o.Got.String(), "signature": fmt.Sprintf("%x", o.Got.Signature())})
		}
		// the same again, other timestamps, the same again
		if r.Intn(2) == 0 {
			ask("repeated requests", m)
			ts := timestamps()
			for k := 0; k < 2; k++ {
				v := m.WithTime(ts[r.Intn(len(ts))])
				ask("timestamp variants", v)
				ask("repeated timestamp variants", v)
			}
			ask("repeated requests", m)
		}
		if r.Intn(3) == 0 {
			ask("timestamp variants", m.WithTime(plus2to64(time.Unix(1, 0)))) // a date of its own
			vs := m.variants()
			var names []string
			for k := range vs {
				names = append(names, k)
			}
			sort.Strings(names)
			ask("conflicting requests", vs[names[r.Intn(len(names))]])
		}
		if len(past) > 0 && r.Intn(2) == 0 {
			p := past[len(past)-1-r.Intn(len(past))%4%len(past)]
			ask("old requests", p)
			ask("old timestamp variants", p.WithTime(p.Time().Add(time.Second)))
		}
		if r.Intn(5) == 0 {
			co.Restart()
			for _, p := range cl.Parties {
				must2(c, p.Restart())
			}
			ask("after restart: repeated requests", m)
			ask("after restart: timestamp variants", m.WithTime(m.Time().Add(time.Minute)))
			c.Count("signed after restart", 1)
		}
		past = append(past, m)
		if r.Intn(3) == 0 {
			// several at once: the same message, timestamp variants, other steps
			co.only(qs[r.Intn(len(qs))]...)
			at.H++
			var wg sync.WaitGroup
			for k := 0; k < 5; k++ {
				x := newMsg(chain, HRS{at.H, 0, 2}, 1, fixedTime.Add(time.Duration(r.Intn(3))*time.Second))
				if r.Intn(4) == 0 {
					x = newMsg(chain, HRS{at.H, 0, 1 + int8(r.Intn(3))}, r.Intn(2), fixedTime)
				}
				wg.Add(1)
				go func() { defer wg.Done(); ask("concurrently", x); c.Count("signed concurrently", 1) }()
			}
			wg.Wait()
		}
	}
}

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	mrand "math/rand"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/tendermint/tendermint/libs/protoio"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func init() { checks["C16"] = checkC16 }

func checkC16(c *Check) {
	c.Rule("a case is one byte string given to the decoder, one pair of byte strings given to the timestamp variant test, one request to a "+
		"cosigner with arbitrary sign bytes, or one message whose slot is observed at the cosigners' side of a coordinator; canonical "+
		"messages are judged by their own fields, damaged and made-up byte strings by decoding them with the chain's canonical types; "+
		"non-trivial are those that decode, or that are within few byte changes of a message; distinct by byte string",
		"the chain's canonical message types decode what the chain would accept")
	c.Need("messages decoded", "pairs: variants", "pairs: different", "byte strings rejected", "byte strings read", "hostile requests refused",
		"slots observed", "other message types")
	r := c.Rng("c16")
	seeds := make([]int64, 8)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(8, 8, func(i int) {
		r := mrand.New(mrand.NewSource(seeds[i]))
		c16Messages(c, r, c.size(8000, 150000))
		c16Bytes(c, r, c.size(40000, 1000000))
	})
	c16Types(c)
	parallel(8, 8, func(i int) { c16Cosigner(c, mrand.New(mrand.NewSource(seeds[i]+1)), c.size(60, 1500)) })
	c16Slots(c, r)
}

func randHRS(r *mrand.Rand) HRS {
	h := []int64{0, 1, 2, 100, 1 << 31, 1 << 32, 1 << 40, math.MaxInt64, math.MaxInt64 - 1, r.Int63(), r.Int63n(1000)}
	ro := []int64{0, 1, 2, 127, 128, 255, 256, 65535, 65536, math.MaxInt32, r.Int63n(1 << 31)}
	return HRS{h[r.Intn(len(h))], ro[r.Intn(len(ro))], randStep(r)}
}

// c16State is what remembers a signed message.
func c16Remember(at HRS, bz []byte) (func([]byte) error, func([]byte) error) {
	a := &signer.SignState{Height: at.H, Round: at.R, Step: at.S, SignBytes: bz, Signature: []byte{1}}
	b := &signer.SignStateConsensus{Height: at.H, Round: at.R, Step: at.S, SignBytes: bz, Signature: []byte{1}}
	return a.OnlyDifferByTimestamp, b.OnlyDifferByTimestamp
}

func c16Pair(c *Check, at HRS, a, b []byte, same bool, what string) {
	f, g := c16Remember(at, a)
	e1, e2 := f(b), g(b)
	if (e1 == nil) != same || (e2 == nil) != same {
		key := "variant-refused"
		if !same {
			key = "conflict-as-variant"
		}
		c.Violation(key, "%s: signed %x, now %x: taken as timestamp variants %v/%v, should be %v (%v)", what, a, b, e1 == nil, e2 == nil, same, e1)
	}
	if same {
		c.Count("pairs: variants", 1)
	} else {
		c.Count("pairs: different", 1)
	}
}

func c16Messages(c *Check, r *mrand.Rand, n int) {
	ts := timestamps()
	for i := 0; i < n; i++ {
		m := randMsg(r, randHRS(r))
		bz := m.SignBytes()
		keep := append([]byte(nil), bz...)
		got, err := signer.UnpackHRST(bz)
		if err != nil || got != m.HRST() {
			c.Violation("misread", "%s: decoded as %+v (%v)", m, got, err)
		}
		c.Count("messages decoded", 1)
		c.Eval(string(bz))
		at := m.HRS()
		c16Pair(c, at, bz, bz, true, "the same message")
		v := m.WithTime(ts[r.Intn(len(ts))])
		c16Pair(c, at, bz, v.SignBytes(), true, "another time")
		v = m.WithTime(time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).UTC())
		c16Pair(c, at, v.SignBytes(), bz, true, "another time")
		for name, x := range m.variants() {
			if r.Intn(2) == 0 {
				x = x.WithTime(ts[r.Intn(len(ts))])
			}
			c16Pair(c, at, bz, x.SignBytes(), false, name)
			c16Pair(c, at, x.SignBytes(), bz, false, name+", the other way round")
		}
		for _, o := range []HRS{{at.H, at.R, at.S%3 + 1}, {at.H, at.R, (at.S+1)%3 + 1}, {at.H ^ 1, at.R, at.S}, {at.H ^ 1<<40, at.R, at.S},
			{at.H, at.R ^ 1, at.S}, {at.H, at.R ^ 1<<30, at.S}} {
			x := newMsg(m.ChainID, o, 1, m.Time())
			if o.S == at.S || o.S != stepProposal && at.S != stepProposal {
				x = m.Clone()
				if x.Vote != nil {
					x.Vote.Height, x.Vote.Round = o.H, int32(o.R)
					x.Vote.Type = tmProto.PrevoteType
					if o.S == stepPrecommit {
						x.Vote.Type = tmProto.PrecommitType
					}
				} else {
					x.Proposal.Height, x.Proposal.Round = o.H, int32(o.R)
				}
			}
			c16Pair(c, at, bz, x.SignBytes(), false, "another height, round or step")
		}
		if !bytes.Equal(keep, bz) {
			c.Violation("bytes-changed", "the sign bytes were changed by reading them")
		}
	}
}

// mutate changes sign bytes a little, often keeping the length prefix right.
func mutate(r *mrand.Rand, bz []byte) []byte {
	b := append([]byte(nil), bz...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			b = []byte{byte(r.Intn(256))}
		}
		switch r.Intn(8) {
		case 0:
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		case 1:
			b[r.Intn(len(b))] = byte(r.Intn(256))
		case 2:
			i := r.Intn(len(b))
			b = append(b[:i], b[i+1:]...)
		case 3:
			i := r.Intn(len(b))
			b = append(b[:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 4:
			b = b[:r.Intn(len(b))]
		case 5:
			b = append(b, rbytes(r, 8)...)
		case 6: // another field number or wire type at a field's start
			b[r.Intn(len(b))] = byte(r.Intn(8)<<3 | r.Intn(6))
		case 7: // repeat a piece
			i := r.Intn(len(b))
			j := i + r.Intn(len(b)-i)
			b = append(b, b[i:j]...)
		}
	}
	if r.Intn(3) > 0 && len(b) > 1 { // the right length in front
		b = append(binary.AppendUvarint(nil, uint64(len(b)-1)), b[1:]...)
	}
	return b
}

func c16Bytes(c *Check, r *mrand.Rand, n int) {
	var prev []byte
	var prevAt HRS
	for i := 0; i < n; i++ {
		m := randMsg(r, randHRS(r))
		var b []byte
		switch r.Intn(12) {
		case 0:
			b = randBytes(r.Intn(200))
		case 1: // a message of another kind
			b = append([]byte(nil), otherMessages(r)...)
		case 2: // fields of a vote and a proposal mixed
			x, y := m.SignBytes(), newMsg(chain, randHRS(r), r.Intn(2), fixedTime).SignBytes()
			b = append(append([]byte{0}, x[1:1+r.Intn(len(x)-1)]...), y[1+r.Intn(len(y)-1):]...)
			b = append(binary.AppendUvarint(nil, uint64(len(b)-1)), b[1:]...)
		case 3: // with an unknown field
			b = withUnknownField(m.SignBytes(), 8+r.Intn(100), byte(r.Intn(128)))
		default:
			b = mutate(r, m.SignBytes())
		}
		want, perr := parseSignBytes(b)
		got, err := signer.UnpackHRST(b)
		switch {
		case perr != nil && err == nil:
			c.Violation("garbage-read", "byte string %x is no message (%v) but is read as %+v", b, perr, got)
		case perr == nil && err != nil:
			c.Violation("message-refused", "byte string %x is a message of %s but is refused: %v", b, want.HRS, err)
		case perr == nil:
			if (HRS{got.Height, got.Round, got.Step}) != want.HRS || got.Timestamp != want.Time.UnixNano() {
				c.Violation("misread", "byte string %x is a message of %s at %d but is read as %+v", b, want.HRS, want.Time.UnixNano(), got)
			}
			c.Count("byte strings read", 1)
			c.Eval(string(b))
		default:
			c.Count("byte strings rejected", 1)
			if i%8 == 0 {
				c.Eval(string(b))
			}
		}
		// as the next message at the place of a signed one
		at := m.HRS()
		mp, merr := parseSignBytes(m.SignBytes())
		if merr != nil {
			panic("harness: " + merr.Error())
		}
		c16Pair(c, at, m.SignBytes(), b, perr == nil && want.HRS.S == at.S && want.Content == mp.Content, "a made up byte string")
		if prev != nil {
			wp, e := parseSignBytes(prev)
			if e == nil {
				c16Pair(c, prevAt, prev, b, perr == nil && want.Content == wp.Content, "two made up byte strings")
			}
		}
		prev = nil
		if perr == nil {
			prev, prevAt = b, want.HRS
		}
	}
}

// otherMessages are valid delimited messages which are not sign bytes of a vote or proposal.
func otherMessages(r *mrand.Rand) []byte {
	m := newMsg(chain, randHRS(r), 1, fixedTime)
	var b []byte
	var err error
	switch r.Intn(5) {
	case 0:
		t := []tmProto.SignedMsgType{0, 3, 4, 31, 33, 64, -1, math.MaxInt32, math.MinInt32}[r.Intn(9)]
		b, err = protoio.MarshalDelimited(&tmProto.CanonicalVote{Type: t, Height: m.HRS().H, Round: m.HRS().R, ChainID: chain, Timestamp: fixedTime})
	case 1:
		t := []tmProto.SignedMsgType{0, 1, 2, 3, 31, 33, -1}[r.Intn(7)]
		b, err = protoio.MarshalDelimited(&tmProto.CanonicalProposal{Type: t, Height: m.HRS().H, Round: m.HRS().R, POLRound: -1, ChainID: chain, Timestamp: fixedTime})
	case 2:
		b, err = protoio.MarshalDelimited(&tmProto.CanonicalVote{Type: tmProto.ProposalType, Height: 5, Round: 1, BlockID: &tmProto.CanonicalBlockID{Hash: hashN(1, "a")}, ChainID: chain, Timestamp: fixedTime})
	case 3:
		v := tmProto.Vote{Type: tmProto.PrevoteType, Height: 4, Round: 1, Timestamp: fixedTime, ValidatorAddress: hashN(1, "v")[:20]}
		b, err = protoio.MarshalDelimited(&v)
	case 4:
		b, err = protoio.MarshalDelimited(&tmProto.CanonicalBlockID{Hash: hashN(1, "a")})
	}
	must(err)
	return b
}

func c16Types(c *Check) {
	for t := int32(-300); t <= 300; t++ {
		for k := 0; k < 2; k++ {
			var b []byte
			var err error
			if k == 0 {
				b, err = protoio.MarshalDelimited(&tmProto.CanonicalVote{Type: tmProto.SignedMsgType(t), Height: 7, Round: 1, ChainID: chain, Timestamp: fixedTime})
			} else {
				b, err = protoio.MarshalDelimited(&tmProto.CanonicalProposal{Type: tmProto.SignedMsgType(t), Height: 7, Round: 1, POLRound: 3, ChainID: chain, Timestamp: fixedTime})
			}
			must(err)
			want, perr := parseSignBytes(b)
			got, err := signer.UnpackHRST(b)
			if (perr == nil) != (err == nil) || err == nil && (HRS{got.Height, got.Round, got.Step}) != want.HRS {
				c.Violation("type-misread", "message type %d (%x): read as %+v (%v), should be %v (%v)", t, b, got, err, want.HRS, perr)
			}
			c.Count("other message types", 1)
			c.Eval(string(b))
		}
	}
}

// c16Cosigner gives a cosigner byte strings that are no messages to sign, with genuine parts.
func c16Cosigner(c *Check, r *mrand.Rand, n int) {
	cl := newCluster(2, 2)
	p, other := cl.Parties[0], cl.Parties[1]
	for i := 0; i < n; i++ {
		m := newMsg(chain, HRS{int64(i + 1), int64(r.Intn(3)), randStep(r)}, 1, fixedTime)
		var b []byte
		switch r.Intn(5) {
		case 0:
			b = nil
		case 1:
			b = randBytes(r.Intn(100))
		case 2:
			b = otherMessages(r)
		default:
			b = mutate(r, m.SignBytes())
		}
		_, perr := parseSignBytes(b)
		before := fileImage(p.StatePath)
		res, err := shareSignBytes(m.HRST(), b, p, other)
		if perr == nil { // it is a message: other checks' business
			continue
		}
		c.Eval(fmt.Sprintf("cosigner %x", b))
		if err == nil || res != nil && len(res.Signature) > 0 {
			c.Violation("garbage-signed", "a cosigner signs %x, which is no vote or proposal (%v)", b, perr)
		}
		if fileImage(p.StatePath) != before {
			c.Violation("garbage-recorded", "the sign state changed on %x, which is no vote or proposal", b)
		}
		c.Count("hostile requests refused", 1)
	}
	// and it still signs
	m := newMsg(chain, HRS{math.MaxInt32, 0, stepPrevote}, 1, fixedTime)
	if _, err := shareSign(m, p, other); err != nil {
		c.Violation("garbage-stops", "after garbage, the cosigner refuses %s: %v", m, err)
	}
}

// c16Slots observes which slot a coordinator asks its cosigners about.
func c16Slots(c *Check, r *mrand.Rand) {
	slots := newLeaderSlots(4)
	parallel(4, 4, func(k int) {
		r := mrand.New(mrand.NewSource(c.Seed*10 + int64(k)))
		n := c.size(60, 1500)
		for i := 0; i < n; i++ {
			cl := newCluster(2, 2)
			co := newCoord(cl, slots[k], 1)
			at := randHRS(r)
			if at.H == 0 {
				at.H = 1
			}
			m := randMsg(r, at)
			var dealt []signer.HRSTKey
			for _, l := range []*Link{co.Link(1), co.Link(2)} {
				l := l
				l.Set(func(h signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
					cl.mu.Lock()
					dealt = append(dealt, h)
					cl.mu.Unlock()
					return l.To.GetEphemeralSecretParts(h)
				}, nil)
			}
			o := co.Sign(m)
			if o.Err != nil {
				c.Violation("message-refused", "%s: %v", m, o.Err)
				continue
			}
			cl.mu.Lock()
			seen := append([]signer.HRSTKey(nil), dealt...)
			cl.mu.Unlock()
			for _, l := range []*Link{co.Link(1), co.Link(2)} {
				l.seen.Lock()
				for _, q := range l.seen.reqs {
					seen = append(seen, q.HRST)
					if !bytes.Equal(q.SignBytes, m.SignBytes()) {
						c.Violation("slot", "%s: the cosigner is asked to sign %x instead of %x", m, q.SignBytes, m.SignBytes())
					}
				}
				l.seen.Unlock()
			}
			for _, h := range seen {
				if h != m.HRST() {
					c.Violation("slot", "%s: the cosigners are asked about %+v", m, h)
				}
				c.Count("slots observed", 1)
			}
			st, _, err := loadHRS(cl.Parties[1].StatePath)
			if err != nil || st != at {
				c.Violation("slot", "%s: the cosigner's watermark is %s (%v)", m, st, err)
			}
			st, _, err = loadHRS(co.PVPath)
			if err != nil || st != at {
				c.Violation("slot", "%s: the coordinator's watermark is %s (%v)", m, st, err)
			}
			c.Eval("slot " + m.Key())
		}
	})
}

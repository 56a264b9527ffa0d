package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

const chain = "Verif-Chain.1"

// Msg is a vote or a proposal to be signed.
type Msg struct {
	ChainID  string
	Vote     *tmProto.Vote
	Proposal *tmProto.Proposal
}

// HRS of a message, computed from its fields only.
type HRS struct {
	H, R int64
	S    int8
}

func (a HRS) Less(b HRS) bool {
	if a.H != b.H {
		return a.H < b.H
	}
	if a.R != b.R {
		return a.R < b.R
	}
	return a.S < b.S
}

func (a HRS) String() string { return fmt.Sprintf("%d/%d/%d", a.H, a.R, a.S) }

const (
	stepProposal  = 1
	stepPrevote   = 2
	stepPrecommit = 3
)

func hashN(n int, salt string) []byte {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s-%d", salt, n)))
	return h[:]
}

// blockID number 0 is the nil block.
func blockID(n int) tmProto.BlockID {
	if n == 0 {
		return tmProto.BlockID{}
	}
	return tmProto.BlockID{Hash: hashN(n, "block"), PartSetHeader: tmProto.PartSetHeader{Total: uint32(n), Hash: hashN(n, "part")}}
}

// newMsg makes the message for a height, round and step with content number v at time ts.
func newMsg(chainID string, at HRS, v int, ts time.Time) Msg {
	if at.S == stepProposal {
		return Msg{ChainID: chainID, Proposal: &tmProto.Proposal{Type: tmProto.ProposalType, Height: at.H, Round: int32(at.R),
			PolRound: -1, BlockID: blockID(v + 1), Timestamp: ts}}
	}
	t := tmProto.PrevoteType
	if at.S == stepPrecommit {
		t = tmProto.PrecommitType
	}
	return Msg{ChainID: chainID, Vote: &tmProto.Vote{Type: t, Height: at.H, Round: int32(at.R), BlockID: blockID(v),
		Timestamp: ts, ValidatorAddress: hashN(1, "val")[:20], ValidatorIndex: 1}}
}

func (m Msg) Clone() Msg {
	if m.Vote != nil {
		v := *m.Vote
		v.BlockID.Hash = append([]byte(nil), v.BlockID.Hash...)
		v.BlockID.PartSetHeader.Hash = append([]byte(nil), v.BlockID.PartSetHeader.Hash...)
		v.Signature = append([]byte(nil), v.Signature...)
		return Msg{ChainID: m.ChainID, Vote: &v}
	}
	p := *m.Proposal
	p.BlockID.Hash = append([]byte(nil), p.BlockID.Hash...)
	p.BlockID.PartSetHeader.Hash = append([]byte(nil), p.BlockID.PartSetHeader.Hash...)
	p.Signature = append([]byte(nil), p.Signature...)
	return Msg{ChainID: m.ChainID, Proposal: &p}
}

func (m Msg) HRS() HRS {
	if m.Vote != nil {
		s := int8(stepPrevote)
		if m.Vote.Type == tmProto.PrecommitType {
			s = stepPrecommit
		}
		return HRS{m.Vote.Height, int64(m.Vote.Round), s}
	}
	return HRS{m.Proposal.Height, int64(m.Proposal.Round), stepProposal}
}

func (m Msg) Time() time.Time {
	if m.Vote != nil {
		return m.Vote.Timestamp
	}
	return m.Proposal.Timestamp
}

func (m Msg) WithTime(ts time.Time) Msg {
	if ts.Year() > 9999 { // not a time a message can carry
		ts = time.Unix(ts.Unix()%1e9, 0).UTC()
	}
	n := m.Clone()
	if n.Vote != nil {
		n.Vote.Timestamp = ts
	} else {
		n.Proposal.Timestamp = ts
	}
	return n
}

func (m Msg) Signature() []byte {
	if m.Vote != nil {
		return m.Vote.Signature
	}
	return m.Proposal.Signature
}

func (m Msg) HRST() signer.HRSTKey {
	h := m.HRS()
	return signer.HRSTKey{Height: h.H, Round: h.R, Step: h.S, Timestamp: m.Time().UnixNano()}
}

func (m Msg) SignBytes() []byte {
	if m.Vote != nil {
		return tm.VoteSignBytes(m.ChainID, m.Vote)
	}
	return tm.ProposalSignBytes(m.ChainID, m.Proposal)
}

var fixedTime = time.Unix(1600000000, 0).UTC()

// Content identifies everything that is signed except the timestamp.
func (m Msg) Content() string {
	h := sha256.Sum256(m.WithTime(fixedTime).SignBytes())
	return hex.EncodeToString(h[:8])
}

func (m Msg) Key() string {
	h := sha256.Sum256(m.SignBytes())
	return hex.EncodeToString(h[:8])
}

func (m Msg) String() string {
	kind := "proposal"
	var bh []byte
	if m.Vote != nil {
		kind = "vote"
		bh = m.Vote.BlockID.Hash
	} else {
		bh = m.Proposal.BlockID.Hash
	}
	if len(bh) > 4 {
		bh = bh[:4]
	}
	return fmt.Sprintf("%s %s block=%x time=%d chain=%s", kind, m.HRS(), bh, m.Time().UnixNano(), m.ChainID)
}

// SignWith asks pv to sign the message, in place.
func (m Msg) SignWith(pv tm.PrivValidator) error {
	if m.Vote != nil {
		return pv.SignVote(m.ChainID, m.Vote)
	}
	return pv.SignProposal(m.ChainID, m.Proposal)
}

// variants returns messages at the same height, round and step which each differ from m in one
// field that is signed, other than the timestamp.
func (m Msg) variants() map[string]Msg {
	out := map[string]Msg{}
	add := func(name string, f func(n *Msg)) {
		n := m.Clone()
		f(&n)
		out[name] = n
	}
	add("chain id", func(n *Msg) { n.ChainID += "x" })
	if len(m.ChainID) > 0 && m.ChainID[0] != 'V' {
		add("chain id case", func(n *Msg) { n.ChainID = "V" + n.ChainID[1:] })
	}
	bid := func(n *Msg) *tmProto.BlockID {
		if n.Vote != nil {
			return &n.Vote.BlockID
		}
		return &n.Proposal.BlockID
	}
	if len(bid(&m).Hash) < 32 || len(bid(&m).PartSetHeader.Hash) < 32 {
		add("nil to block", func(n *Msg) { *bid(n) = blockID(7) })
	} else {
		add("block to nil", func(n *Msg) { *bid(n) = tmProto.BlockID{} })
		add("hash first byte", func(n *Msg) { bid(n).Hash[0] ^= 1 })
		add("hash last byte", func(n *Msg) { bid(n).Hash[31] ^= 0x80 })
		add("parts total", func(n *Msg) { bid(n).PartSetHeader.Total++ })
		add("parts hash", func(n *Msg) { bid(n).PartSetHeader.Hash[31] ^= 1 })
		add("other block", func(n *Msg) { *bid(n) = blockID(9) })
	}
	if m.Proposal != nil {
		add("pol round", func(n *Msg) { n.Proposal.PolRound++ })
		add("pol round far", func(n *Msg) { n.Proposal.PolRound = 1 << 30 })
	}
	return out
}

// timestamps to use for variants of a message.
func timestamps() []time.Time {
	return []time.Time{
		fixedTime,
		fixedTime.Add(1),
		fixedTime.Add(time.Second),
		fixedTime.Add(-time.Hour),
		time.Unix(0, 0).UTC(),
		time.Unix(0, 1).UTC(),
		time.Unix(0, -1).UTC(),
		time.Time{}, // year 1, outside the range of UnixNano
		time.Unix(0, math.MaxInt64).UTC(),
		time.Unix(0, math.MinInt64).UTC(),
		time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
	}
}

// plus2to64 returns the time 2^64 ns after t, which has the same UnixNano.
func plus2to64(t time.Time) time.Time {
	return t.Add(math.MaxInt64).Add(math.MaxInt64).Add(2)
}

func randStep(r *rand.Rand) int8 { return int8(1 + r.Intn(3)) }

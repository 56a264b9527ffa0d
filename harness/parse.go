package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sort"
	"time"

	"github.com/tendermint/tendermint/libs/protoio"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

// Parsed is what sign bytes say, read with the canonical message types of the chain.
type Parsed struct {
	HRS     HRS
	Time    time.Time
	Content string // everything but the timestamp
}

// signBytesType reads the type field of canonical sign bytes.
func parseSignBytes(bz []byte) (Parsed, error) {
	var v tmProto.CanonicalVote
	if err := protoio.UnmarshalDelimited(bz, &v); err == nil && (v.Type == tmProto.PrevoteType || v.Type == tmProto.PrecommitType) {
		s := int8(stepPrevote)
		if v.Type == tmProto.PrecommitType {
			s = stepPrecommit
		}
		p := Parsed{HRS: HRS{v.Height, v.Round, s}, Time: v.Timestamp}
		v.Timestamp = fixedTime
		b, err := protoio.MarshalDelimited(&v)
		if err != nil {
			return p, err
		}
		h := sha256.Sum256(b)
		p.Content = hex.EncodeToString(h[:8])
		return p, nil
	}
	var pr tmProto.CanonicalProposal
	if err := protoio.UnmarshalDelimited(bz, &pr); err != nil {
		return Parsed{}, err
	}
	if pr.Type != tmProto.ProposalType {
		return Parsed{}, fmt.Errorf("type %v", pr.Type)
	}
	p := Parsed{HRS: HRS{pr.Height, pr.Round, stepProposal}, Time: pr.Timestamp}
	pr.Timestamp = fixedTime
	b, err := protoio.MarshalDelimited(&pr)
	if err != nil {
		return p, err
	}
	h := sha256.Sum256(b)
	p.Content = hex.EncodeToString(h[:8])
	return p, nil
}

func sortedKeys(m map[string]Msg) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

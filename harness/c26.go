package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	mrand "math/rand"
	"net"
	"strings"
	"sync"
	"time"

	gproto "github.com/golang/protobuf/proto"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

func init() { checks["C26"] = checkC26 }

func checkC26(c *Check) {
	c.Rule("a case is one request or byte stream sent to the network port of one of the real cosigner processes of a cluster under signing "+
		"load: service calls with any field values, missing messages, mutated encodings, parts of a compromised cosigner, calls given up, and "+
		"streams that are no RPC; after each batch all processes have to be up, both state files of each have to be readable and not lower, "+
		"and each node has to sign a new block; non-trivial if the bytes were sent; distinct by their digest and the node",
		"whoever can speak to the port is trusted with heights: sign bytes that can be read stay near the present height")
	c.Need("calls answered", "calls refused", "mutated encodings", "calls given up", "streams that are no RPC", "compromised parts",
		"blocks signed", "restarts", "share signatures released", "unreadable sign bytes")
	shapes := [][2]int{{2, 3}, {2, 2}}
	if c.Tier == "thorough" {
		shapes = [][2]int{{2, 3}, {2, 2}, {3, 5}, {3, 3}}
	}
	parallel(len(shapes), 4, func(i int) { c26Run(c, shapes[i][0], shapes[i][1], c.Rng(fmt.Sprint("run", i))) })
}

// rawCodec sends and receives bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *(v.(*[]byte)), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*(v.(*[]byte)) = append([]byte(nil), b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

const service = "/proto.CosignerGRPC/"

type c26 struct {
	c    *Check
	hc   *Homes
	led  *ledger
	what string

	mu    sync.Mutex
	at    HRS
	mark  map[string]HRS            // highest watermark read from each state file
	seen  map[HRS]map[string]string // what has been fully signed
	share map[int]map[HRS]string    // content of the share signatures released by each cosigner
	nonce map[int]map[string][2]string
	log   []string
}

func (x *c26) now() HRS {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.at
}

func (x *c26) next(r *mrand.Rand) HRS {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.at = HRS{x.at.H + 1, int64(r.Intn(2)), randStep(r)}
	return x.at
}

func (x *c26) note(format string, a ...interface{}) {
	x.mu.Lock()
	x.log = append(x.log, fmt.Sprintf(format, a...))
	if len(x.log) > 60 {
		x.log = x.log[len(x.log)-60:]
	}
	x.mu.Unlock()
}

func (x *c26) history() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.what + ", last requests:\n  " + strings.Join(x.log, "\n  ")
}

// marks reads the state files.
func (x *c26) marks(when string) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, h := range x.hc.Nodes {
		for name, path := range map[string]string{"coordinator": h.pvPath(), "share": h.sharePath()} {
			at, s, err := loadHRS(path)
			if err != nil {
				x.c.Violation("state-unreadable", "%s: the %s state of node %d after %s: %v", x.what, name, h.ID, when, err)
				return false
			}
			if at.Less(x.mark[path]) {
				x.c.Violation("state-lower", "%s: the %s state of node %d went from %s down to %s at %s", x.what, name, h.ID, x.mark[path], at, when)
				return false
			}
			if len(s.SignBytes) > 0 {
				if _, err := parseSignBytes(s.SignBytes); err != nil {
					x.c.Violation("state-garbage", "%s: the %s state of node %d at %s has sign bytes %x: %v", x.what, name, h.ID, when, []byte(s.SignBytes), err)
					return false
				}
			}
			x.mark[path] = at
			if at.H > x.at.H {
				x.at = HRS{at.H, 0, 1}
			}
		}
	}
	return true
}

// signed takes a full signature into account.
func (x *c26) signed(bz, sig []byte, how string) {
	p, err := parseSignBytes(bz)
	if err != nil {
		x.c.Violation("garbage-signed", "%s: the cluster signed %x (%s), which is no vote or proposal\n%s", x.what, bz, how, x.history())
		return
	}
	if !x.hc.Cl.Priv.PubKey().VerifySignature(bz, sig) {
		x.c.Violation("bad-signature", "%s: %s returned the signature %x, which is none of %x\n%s", x.what, how, sig, bz, x.history())
		return
	}
	x.mu.Lock()
	m := x.seen[p.HRS]
	if m == nil {
		m = map[string]string{}
		x.seen[p.HRS] = m
	}
	m[p.Content] = how
	if x.at.H < p.HRS.H {
		x.at = HRS{p.HRS.H, 0, 1}
	}
	n := len(m)
	x.mu.Unlock()
	if n > 1 {
		x.c.Violation("conflicting-signatures", "%s: two conflicting messages were signed at %s: %v\n%s", x.what, p.HRS, m, x.history())
	}
}

// released takes a share signature into account.
func (x *c26) released(id int, bz, pub, sig []byte) {
	x.c.Count("share signatures released", 1)
	p, err := parseSignBytes(bz)
	if err != nil {
		x.c.Violation("garbage-signed", "%s: cosigner %d signed %x, which is no vote or proposal\n%s", x.what, id, bz, x.history())
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.share[id] == nil {
		x.share[id], x.nonce[id] = map[HRS]string{}, map[string][2]string{}
	}
	if was, ok := x.share[id][p.HRS]; ok && was != p.Content {
		x.c.Violation("conflicting-shares", "%s: cosigner %d signed two conflicting messages at %s", x.what, id, p.HRS)
	}
	x.share[id][p.HRS] = p.Content
	if x.at.H < p.HRS.H {
		x.at = HRS{p.HRS.H, 0, 1}
	}
	k, v := string(pub), [2]string{string(bz), string(sig)}
	if was, ok := x.nonce[id][k]; ok && was != v {
		x.c.Violation("nonce-twice", "%s: cosigner %d made two different signatures with the ephemeral public key %x", x.what, id, pub)
	}
	x.nonce[id][k] = v
}

func anyInt(r *mrand.Rand, near int64) int64 {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return math.MinInt64
	case 3:
		return math.MaxInt64
	case 4:
		return int64(r.Uint64())
	case 5:
		return math.MaxInt32 + int64(r.Intn(3))
	case 6:
		return int64(r.Intn(300)) - 20
	}
	return near - int64(r.Intn(3))
}

func exactly(r *mrand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func anyBytes(r *mrand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return make([]byte, 32)
	case 2:
		return bytes.Repeat([]byte{0xff}, 31+r.Intn(3))
	case 3:
		return rbytes(r, 1+r.Intn(20000))
	}
	return exactly(r, []int{1, 31, 32, 33, 64, 127, 128, 129, 256}[r.Intn(9)])
}

// someBytes returns sign bytes: those of a message near the present height, or such that cannot be read.
func (x *c26) signBytes(r *mrand.Rand) (bz []byte, at *Msg) {
	h := x.now().H
	if r.Intn(6) > 0 {
		m := newMsg(chain, HRS{max64(1, h-1+int64(r.Intn(4))), int64(r.Intn(3)), randStep(r)}, r.Intn(3), fixedTime.Add(time.Duration(r.Intn(3))))
		if r.Intn(8) == 0 {
			m.ChainID = []string{"", "other", strings.Repeat("x", 300)}[r.Intn(3)]
		}
		return m.SignBytes(), &m
	}
	for {
		b := anyBytes(r)
		switch r.Intn(4) {
		case 0:
			b = append([]byte(nil), otherMessages(r)...)
		case 1, 2:
			b = mutate(r, randMsg(r, HRS{h, 0, randStep(r)}).SignBytes())
		}
		if _, err := parseSignBytes(b); err != nil {
			x.c.Count("unreadable sign bytes", 1)
			return b, nil
		}
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (x *c26) hrst(r *mrand.Rand, m *Msg) *proto.HRST {
	if m != nil && r.Intn(6) > 0 {
		k := m.HRST()
		return &proto.HRST{Height: k.Height, Round: k.Round, Step: int32(k.Step), Timestamp: k.Timestamp}
	}
	if r.Intn(8) == 0 {
		return nil
	}
	return &proto.HRST{Height: anyInt(r, x.now().H), Round: anyInt(r, 1), Step: int32(anyInt(r, 3)), Timestamp: anyInt(r, fixedTime.UnixNano())}
}

// parts are parts for a cosigner: genuine ones, ones of a compromised cosigner, and ones nobody made.
func (x *c26) parts(r *mrand.Rand, to *Home, k *proto.HRST) []*proto.EphemeralSecretPart {
	var out []*proto.EphemeralSecretPart
	cl := x.hc.Cl
	for _, h := range x.hc.Nodes {
		how := r.Intn(10)
		if h == to && r.Intn(4) > 0 {
			continue
		}
		switch {
		case how < 7 && h != to && k != nil: // its own
			res, err := x.get(h, k)
			if err != nil {
				continue
			}
			for _, p := range res.GetEncryptedSecrets() {
				if int(p.GetDestinationID()) == to.ID || r.Intn(20) == 0 {
					out = append(out, p)
				}
			}
		case how < 9: // signed by it, and made up
			plain := anyBytes(r)
			if len(plain) > 62 {
				plain = plain[:r.Intn(63)]
			}
			p := secPart{SourceID: h.ID, DestinationID: to.ID, SourceEphemeralSecretPublicKey: anyBytes(r),
				EncryptedSharePart: encryptTo(&cl.Parties[to.ID-1].Key.RSAKey.PublicKey, plain)}
			if r.Intn(3) == 0 {
				p.SourceEphemeralSecretPublicKey = multBase(leToInt(plain))
			}
			if r.Intn(8) == 0 {
				p.EncryptedSharePart = anyBytes(r)
			}
			resign(&p, &cl.Parties[h.ID-1].Key.RSAKey)
			out = append(out, &proto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
				SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
			x.c.Count("compromised parts", 1)
		default:
			out = append(out, &proto.EphemeralSecretPart{SourceID: int32(anyInt(r, int64(h.ID))), DestinationID: int32(anyInt(r, int64(to.ID))),
				SourceEphemeralSecretPublicKey: anyBytes(r), EncryptedSharePart: anyBytes(r), SourceSig: anyBytes(r)})
		}
	}
	if len(out) > 0 && r.Intn(5) == 0 {
		out = append(out, out...)
	}
	if r.Intn(10) == 0 {
		out = append(out, &proto.EphemeralSecretPart{})
	}
	if r.Intn(40) == 0 {
		for k := 0; k < 2000; k++ {
			out = append(out, &proto.EphemeralSecretPart{SourceID: int32(k)})
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (x *c26) get(h *Home, k *proto.HRST) (*proto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	cl, cc := dialCosigner(h.Addr)
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	return cl.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: k})
}

// call sends one hostile request to a node.
func (x *c26) call(r *mrand.Rand, to *Home, cc *grpc.ClientConn) {
	var method string
	var req gproto.Message
	var bz []byte
	switch n := r.Intn(20); {
	case n < 6:
		b, m := x.signBytes(r)
		k := x.hrst(r, m)
		blk := &proto.Block{Height: k.GetHeight(), Round: k.GetRound(), Step: k.GetStep(), SignBytes: b, Timestamp: k.GetTimestamp()}
		if top := x.now().H + 2; blk.Height > top { // the leader takes it as the place at which work has begun
			blk.Height = top
		}
		q := &proto.CosignerGRPCSignBlockRequest{ChainID: chain, Block: blk}
		if r.Intn(8) == 0 {
			q.Block = nil
		}
		if r.Intn(8) == 0 {
			q.ChainID = string(rune('a'+r.Intn(26))) + strings.Repeat("y", r.Intn(5000))
		}
		method, req, bz = "SignBlock", q, b
	case n < 14:
		b, m := x.signBytes(r)
		k := x.hrst(r, m)
		if k != nil && r.Intn(4) > 0 { // it takes part only if it has dealt itself
			x.get(to, k)
		}
		method, req, bz = "SetEphemeralSecretPartsAndSign", &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
			EncryptedSecrets: x.parts(r, to, k), Hrst: k, SignBytes: b}, b
	case n < 19:
		_, m := x.signBytes(r)
		method, req = "GetEphemeralSecretParts", &proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: x.hrst(r, m)}
	default:
		method, req = "TransferLeadership", &proto.CosignerGRPCTransferLeadershipRequest{
			LeaderID: []string{"", "0", "-1", "1", "2", "99", "x", " 1", strings.Repeat("1", 5000)}[r.Intn(9)]}
	}
	wire, err := gproto.Marshal(req)
	must(err)
	mutated := false
	if r.Intn(3) == 0 && method != "SignBlock" || r.Intn(6) == 0 {
		w := append([]byte(nil), wire...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			w = mutateWire(r, w)
		}
		if x.harmless(method, w) {
			wire, mutated = w, true
			x.c.Count("mutated encodings", 1)
		}
	}
	if r.Intn(200) == 0 && !mutated {
		wire, mutated = append(wire, make([]byte, 5<<20)...), true
	}
	wait := 20 * time.Second
	if r.Intn(8) == 0 {
		wait = time.Duration(r.Intn(6000)) * time.Microsecond
	}
	d := sha256.Sum256(wire)
	x.note("%s to node %d, %d bytes %x", method, to.ID, len(wire), head(wire, 160))
	ctx, cancel := context.WithTimeout(context.Background(), wait)
	defer cancel()
	var res []byte
	err = cc.Invoke(ctx, service+method, &wire, &res, grpc.ForceCodec(rawCodec{}))
	x.c.Eval(fmt.Sprint(to.ID, hex.EncodeToString(d[:8])))
	if wait < time.Second {
		x.c.Count("calls given up", 1)
	}
	if err != nil {
		x.c.Count("calls refused", 1)
		return
	}
	x.c.Count("calls answered", 1)
	if mutated { // what it said is in the bytes sent
		switch method {
		case "SignBlock":
			q := &proto.CosignerGRPCSignBlockRequest{}
			if gproto.Unmarshal(wire, q) != nil {
				return
			}
			bz = q.GetBlock().GetSignBytes()
		case "SetEphemeralSecretPartsAndSign":
			q := &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{}
			if gproto.Unmarshal(wire, q) != nil {
				return
			}
			bz = q.GetSignBytes()
		}
	}
	switch method {
	case "SignBlock":
		a := &proto.CosignerGRPCSignBlockResponse{}
		if err := gproto.Unmarshal(res, a); err != nil {
			x.c.Violation("bad-answer", "%s: node %d answers %x: %v\n%s", x.what, to.ID, res, err, x.history())
			return
		}
		x.c.Count("blocks signed by direct calls", 1)
		x.signed(bz, a.GetSignature(), fmt.Sprintf("a direct call to node %d", to.ID))
	case "SetEphemeralSecretPartsAndSign":
		a := &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{}
		if err := gproto.Unmarshal(res, a); err != nil {
			x.c.Violation("bad-answer", "%s: node %d answers %x: %v\n%s", x.what, to.ID, res, err, x.history())
			return
		}
		x.released(to.ID, bz, a.GetEphemeralPublic(), a.GetSignature())
	}
}

// harmless: a mutated request does not ask for a height far up.
func (x *c26) harmless(method string, w []byte) bool {
	var bz []byte
	var h int64
	switch method {
	case "SignBlock":
		q := &proto.CosignerGRPCSignBlockRequest{}
		if gproto.Unmarshal(w, q) != nil {
			return true
		}
		if q.GetBlock().GetHeight() > x.now().H+2 {
			return false
		}
		bz, h = q.GetBlock().GetSignBytes(), q.GetBlock().GetHeight()
	case "SetEphemeralSecretPartsAndSign":
		q := &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{}
		if gproto.Unmarshal(w, q) != nil {
			return true
		}
		bz = q.GetSignBytes()
	}
	p, err := parseSignBytes(bz)
	if err != nil {
		return true
	}
	top := x.now().H + 2
	return p.HRS.H <= top && h <= top
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func mutateWire(r *mrand.Rand, b []byte) []byte {
	if len(b) == 0 {
		return rbytes(r, 1+r.Intn(30))
	}
	i := r.Intn(len(b))
	if r.Intn(2) == 0 && i > 24 { // the start has the lengths
		i = r.Intn(24)
	}
	switch r.Intn(7) {
	case 0:
		b[i] ^= 1 << r.Intn(8)
	case 1:
		b[i] = byte(r.Intn(256))
	case 2:
		b = b[:i]
	case 3:
		b = append(b[:i], b[i+1:]...)
	case 4:
		b = append(append(append([]byte(nil), b[:i]...), rbytes(r, 1+r.Intn(12))...), b[i:]...)
	case 5:
		b = append(b, rbytes(r, 1+r.Intn(40))...)
	case 6: // an unknown field
		b = append(b, byte(15<<3|2), 3, 1, 2, 3)
	}
	return b
}

// stream sends bytes that are no RPC.
func (x *c26) stream(r *mrand.Rand, to *Home) {
	conn, err := net.DialTimeout("tcp", to.Addr, 2*time.Second)
	if err != nil {
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(3 * time.Second))
	preface := []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
	settings := []byte{0, 0, 0, 4, 0, 0, 0, 0, 0}
	var b []byte
	switch r.Intn(9) {
	case 0:
		b = rbytes(r, 1+r.Intn(5000))
	case 1:
		b = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case 2:
		b = append([]byte{22, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3}, exactly(r, 200)...)
	case 3:
		b = preface[:r.Intn(len(preface))]
	case 4:
		b = append(append([]byte(nil), preface...), exactly(r, r.Intn(600))...)
	case 5: // frames of all kinds on any stream
		b = append(append([]byte(nil), preface...), settings...)
		for k := 0; k < 1+r.Intn(20); k++ {
			n := r.Intn(60)
			b = append(b, 0, 0, byte(n), byte(r.Intn(11)), byte(r.Intn(256)), 0, 0, 0, byte(r.Intn(6)))
			b = append(b, exactly(r, n)...)
		}
	case 6: // a frame said to be long
		b = append(append(append([]byte(nil), preface...), settings...), 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 1)
	case 7: // many pings and resets
		b = append(append([]byte(nil), preface...), settings...)
		for k := 0; k < 300; k++ {
			b = append(b, 0, 0, 8, 6, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8)
			b = append(b, 0, 0, 4, 3, 0, 0, 0, 0, byte(1+2*(k%100)), 0, 0, 0, 8)
		}
	case 8:
	}
	d := sha256.Sum256(b)
	x.note("stream to node %d, %d bytes %x", to.ID, len(b), head(b, 80))
	conn.Write(b)
	if r.Intn(2) == 0 {
		conn.Read(make([]byte, 512))
	}
	if r.Intn(2) == 0 {
		conn.(*net.TCPConn).SetLinger(0)
	}
	x.c.Count("streams that are no RPC", 1)
	x.c.Eval(fmt.Sprint("stream", to.ID, hex.EncodeToString(d[:8])))
}

// alive: every node signs a new block for its chain node.
func (x *c26) alive(r *mrand.Rand, when string) bool {
	for _, h := range x.hc.Nodes {
		ok := false
		var last error
		end := time.Now().Add(90 * time.Second)
		for tries := 0; !ok && (time.Now().Before(end) || tries < 20); tries++ {
			if x.hc.crashed(x.c) {
				x.c.Sample(x.history())
				return false
			}
			if !x.marks(when) {
				return false
			}
			m := newMsg(chain, x.next(r), r.Intn(3), fixedTime)
			o := h.Sentries[0].Sign(m, 20*time.Second)
			o.Coord = h.ID
			x.led.add(o)
			if ok, last = o.Err == nil, o.Err; ok {
				x.signed(m.WithTime(o.Got.Time()).SignBytes(), o.Got.Signature(), fmt.Sprintf("node %d for its chain node", h.ID))
			} else {
				time.Sleep(50 * time.Millisecond)
			}
		}
		if !ok {
			x.c.Violation("does-not-sign", "%s: node %d does not sign new blocks for 90 s after %s: %v\n%s", x.what, h.ID, when, last, x.history())
			return false
		}
		x.c.Count("blocks signed", 1)
	}
	return true
}

func c26Run(c *Check, t, n int, r *mrand.Rand) {
	hc := newHomes(t, n, 1)
	defer hc.stopAll()
	hc.startAll()
	what := fmt.Sprintf("%d of %d", t, n)
	x := &c26{c: c, hc: hc, led: newLedger(c, hc.Cl, what), what: what, mark: map[string]HRS{}, seen: map[HRS]map[string]string{},
		share: map[int]map[HRS]string{}, nonce: map[int]map[string][2]string{}}
	if !x.alive(r, "the start") {
		return
	}
	batches := c.size(12, 80)
	for b := 0; b < batches && !c.Violated(); b++ {
		const workers = 4
		stop := make(chan struct{})
		var load, wg sync.WaitGroup
		for i, h := range hc.Nodes { // honest load
			h, lr := h, mrand.New(mrand.NewSource(r.Int63()+int64(i)))
			load.Add(1)
			go func() {
				defer load.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(lr.Intn(40)) * time.Millisecond):
					}
					at := x.now()
					if lr.Intn(3) == 0 {
						at = x.next(lr)
					}
					m := newMsg(chain, at, lr.Intn(2), fixedTime)
					o := h.Sentries[0].Sign(m, 8*time.Second)
					o.Coord = h.ID
					x.led.add(o)
					if o.Err == nil {
						x.signed(m.WithTime(o.Got.Time()).SignBytes(), o.Got.Signature(), fmt.Sprintf("node %d for its chain node", h.ID))
						c.Count("signatures under load", 1)
					}
				}
			}()
		}
		for w := 0; w < workers; w++ {
			wr := mrand.New(mrand.NewSource(r.Int63() + int64(w)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				var ccs []*grpc.ClientConn
				for _, h := range hc.Nodes {
					cc, err := grpc.Dial(h.Addr, grpc.WithTransportCredentials(insecure.NewCredentials()),
						grpc.WithDefaultCallOptions(grpc.MaxCallSendMsgSize(64<<20)))
					must(err)
					defer cc.Close()
					ccs = append(ccs, cc)
				}
				for k := 0; k < 90; k++ {
					i := wr.Intn(n)
					if k%6 == 5 {
						x.stream(wr, hc.Nodes[i])
					} else {
						x.call(wr, hc.Nodes[i], ccs[i])
					}
				}
			}()
		}
		wg.Wait()
		close(stop)
		load.Wait()
		if !x.alive(r, fmt.Sprintf("batch %d", b)) {
			return
		}
		if b%3 == 1 {
			h := hc.Nodes[r.Intn(n)]
			h.Proc.kill()
			h.start()
			c.Count("restarts", 1)
			if !x.alive(r, fmt.Sprintf("batch %d and a restart", b)) {
				return
			}
		}
	}
	c.Sample(x.history()[:min(900, len(x.history()))])
}

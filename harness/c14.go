package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gogo/protobuf/proto"
	"github.com/strangelove-ventures/horcrux/signer"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/tendermint/tendermint/crypto"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/libs/protoio"
	"github.com/tendermint/tendermint/p2p/conn"
	"github.com/tendermint/tendermint/privval"
	privvalproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	rpcTypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	tm "github.com/tendermint/tendermint/types"
	"google.golang.org/grpc"
)

func init() {
	checks["C14"] = checkC14
	checks["C24"] = checkC24
}

// mockPV answers as the message asks it to: what it does is a function of the message alone.
type mockPV struct {
	key  tmEd.PrivKey
	nap  func()
	in   func() // on entry
	out  func() // on exit
	mu   sync.Mutex
	pubs int
}

func contentNumber(bz []byte) int {
	h := sha256.Sum256(bz)
	return int(h[0])<<8 | int(h[1])
}

// plan tells what the mock does with a message: an error (with its text), or a signature, maybe with an earlier time.
func (pv *mockPV) plan(m Msg) (Msg, error) {
	bz, err := trySignBytes(m)
	if err != nil {
		return m, err
	}
	n := contentNumber(bz)
	switch n % 6 {
	case 0:
		switch n / 6 % 3 {
		case 0:
			return m, beyondError()
		case 1:
			return m, &rpcTypes.RPCError{Code: n, Message: "rpc", Data: fmt.Sprintf("%x", sha256.Sum256(bz))}
		}
		return m, fmt.Errorf("reason %x", sha256.Sum256(bz))
	case 1:
		if n%5 == 0 {
			return m, errors.New("")
		}
		return m, fmt.Errorf("%s %x", strings.Repeat("long reason ", 200), sha256.Sum256(bz))
	case 2:
		m = m.WithTime(m.Time().Add(-time.Second)) // like a validator that signed before with another time
		bz = m.SignBytes()
	}
	sig, _ := pv.key.Sign(bz)
	m = m.Clone()
	if m.Vote != nil {
		m.Vote.Signature = sig
	} else {
		m.Proposal.Signature = sig
	}
	return m, nil
}

// trySignBytes fails for a message that has none (tendermint panics).
func trySignBytes(m Msg) (bz []byte, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("not signable: %v", p)
		}
	}()
	return m.SignBytes(), nil
}

func (pv *mockPV) GetPubKey() (crypto.PubKey, error) {
	if pv.in != nil {
		pv.in()
		defer pv.out()
	}
	pv.nap()
	return pv.key.PubKey(), nil
}

func (pv *mockPV) SignVote(chainID string, v *tmProto.Vote) error {
	if pv.in != nil {
		pv.in()
		defer pv.out()
	}
	m, err := pv.plan(Msg{ChainID: chainID, Vote: v})
	pv.nap()
	if err == nil {
		*v = *m.Vote
	}
	return err
}

func (pv *mockPV) SignProposal(chainID string, p *tmProto.Proposal) error {
	if pv.in != nil {
		pv.in()
		defer pv.out()
	}
	m, err := pv.plan(Msg{ChainID: chainID, Proposal: p})
	pv.nap()
	if err == nil {
		*p = *m.Proposal
	}
	return err
}

// exchange is one request on a session and what its response must be.
type exchange struct {
	kind  string
	req   privvalproto.Message
	check func(res privvalproto.Message) string // "" if right
}

func checkC14(c *Check) {
	c.Rule("a case is (a) one request of a burst on a session with a chain node (bursts are pipelined, written in one piece or byte by "+
		"byte) and its response, judged against the validator's own answer for exactly that message, (b) one malformed request, (c) one "+
		"session cut at a given byte of the handshake, of a request or of a response, refused or left, after which the session must come "+
		"back and other sessions must have answered throughout; distinct by (kind of request or cut, position)",
		"sessions come back within a minute; the remote signer waits 3 s between attempts")
	c.Need("malformed requests to real validators", "responses matched", "error responses matched", "malformed requests answered", "sessions cut", "sessions re-established",
		"answers on other sessions during faults", "pipelined bursts", "sessions back after a long outage", "answers after a quiet time")
	r := c.Rng("sessions")
	var napMu sync.Mutex
	napRng := rand.New(rand.NewSource(c.Seed))
	pv := &mockPV{key: genKey(), nap: func() {
		napMu.Lock()
		d := time.Duration(napRng.Intn(300)) * time.Microsecond
		napMu.Unlock()
		time.Sleep(d)
	}}
	beyondError()
	// (a), (b): steady sessions
	steady := 6
	var sentries []*c14Node
	var cfg []signer.NodeConfig
	for k := 0; k < steady; k++ {
		s := newC14Node()
		sentries = append(sentries, s)
		cfg = append(cfg, signer.NodeConfig{Address: s.addr})
	}
	// (c): sessions to be cut
	faulty := c.size(48, 96)
	var cuts []*c14Node
	for k := 0; k < faulty; k++ {
		s := newC14Node()
		cuts = append(cuts, s)
		cfg = append(cfg, signer.NodeConfig{Address: s.addr})
	}
	// some nodes are not there when the signer starts
	for _, s := range cuts[:6] {
		s.down()
	}
	svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, &signer.PvGuard{PrivValidator: pv}, cfg)
	must(err)
	if len(svcs) != len(cfg) {
		c.Violation("sessions-missing", "%d sessions were started for %d chain nodes", len(svcs), len(cfg))
	}
	for _, s := range svcs {
		if !s.IsRunning() {
			c.Violation("session-not-running", "a session is not running after the start")
		}
	}
	long := make(chan struct{})
	go func() {
		defer close(long)
		var quiet sync.WaitGroup
		quiet.Add(1)
		go func() {
			defer quiet.Done()
			c14Quiet(c)
		}()
		c14Outages(c)
		quiet.Wait()
	}()
	defer func() { <-long }()
	c14Real(c)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var fwg sync.WaitGroup
	for k, s := range cuts {
		k, s := k, s
		fr := c.Rng(fmt.Sprint("cuts", k))
		fwg.Add(1)
		go func() { defer fwg.Done(); c14Cuts(c, fr, pv, s, k, faulty) }()
	}
	for k, s := range sentries {
		s := s
		sr := c.Rng(fmt.Sprint("steady", k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; !c.Violated(); n++ {
				select {
				case <-stop:
					if n >= c.size(60, 1000) {
						return
					}
				default:
				}
				if !c14Burst(c, sr, pv, s, 1+sr.Intn(12), "steady") {
					return
				}
				c.Count("answers on other sessions during faults", 1)
				if n%6 == 5 && !c14Malformed(c, sr, pv, s) {
					return
				}
			}
		}()
	}
	fwg.Wait()
	close(stop)
	wg.Wait()
	_ = r
	for _, s := range svcs {
		s.Stop()
	}
	for _, s := range append(sentries, cuts...) {
		s.down()
	}
}

// c14Node is a chain node whose connections can be cut at any byte.
type c14Node struct {
	addr string
	key  tmEd.PrivKey
	mu   sync.Mutex
	ln   net.Listener
	next chan *cutConn // accepted connections
	sc   *conn.SecretConnection
	raw  *cutConn
	made int // connections accepted
}

// cutConn breaks after a number of bytes read or written (-1: never).
type cutConn struct {
	net.Conn
	mu   sync.Mutex
	r, w int
}

func (x *cutConn) limit(r, w int) { x.mu.Lock(); x.r, x.w = r, w; x.mu.Unlock() }

func (x *cutConn) Read(b []byte) (int, error) {
	x.mu.Lock()
	left := x.r
	x.mu.Unlock()
	if left == 0 {
		x.Conn.Close()
		return 0, io.ErrClosedPipe
	}
	if left > 0 && len(b) > left {
		b = b[:left]
	}
	n, err := x.Conn.Read(b)
	if left > 0 {
		x.mu.Lock()
		x.r -= n
		x.mu.Unlock()
	}
	return n, err
}

func (x *cutConn) Write(b []byte) (int, error) {
	x.mu.Lock()
	left := x.w
	x.mu.Unlock()
	if left >= 0 && len(b) > left {
		n, _ := x.Conn.Write(b[:left])
		time.Sleep(time.Millisecond)
		x.Conn.Close()
		return n, io.ErrClosedPipe
	}
	n, err := x.Conn.Write(b)
	if left >= 0 {
		x.mu.Lock()
		x.w -= n
		x.mu.Unlock()
	}
	return n, err
}

func newC14Node() *c14Node {
	s := &c14Node{key: tmEd.GenPrivKey(), next: make(chan *cutConn, 64)}
	s.up()
	return s
}

func (s *c14Node) up() {
	s.mu.Lock()
	defer s.mu.Unlock()
	host := "127.0.0.1:0"
	if s.addr != "" {
		host = strings.TrimPrefix(s.addr, "tcp://")
	}
	var err error
	for i := 0; i < 100; i++ {
		if s.ln, err = net.Listen("tcp", host); err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	must(err)
	s.addr = "tcp://" + s.ln.Addr().String()
	go func(ln net.Listener) {
		for {
			x, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.made++
			s.mu.Unlock()
			s.next <- &cutConn{Conn: x, r: -1, w: -1}
		}
	}(s.ln)
}

func (s *c14Node) down() {
	s.mu.Lock()
	s.ln.Close()
	s.mu.Unlock()
	for {
		select {
		case x := <-s.next:
			x.Close()
			continue
		default:
		}
		break
	}
	s.drop()
}

func (s *c14Node) drop() {
	if s.raw != nil {
		s.raw.Close()
	}
	s.raw, s.sc = nil, nil
}

const c14Patience = 60 * time.Second

var errNoConn = errors.New("no connection was made")

// connect waits for a connection, which breaks after r bytes read or w bytes written, and makes the session.
func (s *c14Node) connect(r, w int) error {
	s.drop()
	select {
	case x := <-s.next:
		x.limit(r, w)
		s.raw = x
	case <-time.After(c14Patience):
		return errNoConn
	}
	s.raw.SetDeadline(time.Now().Add(c14Patience))
	sc, err := conn.MakeSecretConnection(s.raw, s.key)
	if err != nil {
		s.drop()
		return err
	}
	s.sc = sc
	return nil
}

// session makes sure there is one that answers.
func (s *c14Node) session(pv *mockPV) error {
	var err error
	for try := 0; try < 8; try++ {
		if s.sc == nil {
			if err = s.connect(-1, -1); err == errNoConn {
				return err
			}
			if err != nil {
				continue
			}
		}
		if err = s.send(frame(pingRequest()), false, nil); err == nil {
			var res privvalproto.Message
			if res, err = s.receive(); err == nil {
				if res.GetPingResponse() == nil {
					return fmt.Errorf("a ping was answered with %v", res)
				}
				return nil
			}
		}
		s.drop()
	}
	return err
}

func frame(m privvalproto.Message) []byte {
	var b bytes.Buffer
	_, err := protoio.NewDelimitedWriter(&b).WriteMsg(&m)
	must(err)
	return b.Bytes()
}

func (s *c14Node) send(b []byte, dribble bool, r *rand.Rand) error {
	s.raw.SetDeadline(time.Now().Add(c14Patience))
	for len(b) > 0 {
		n := len(b)
		if dribble {
			n = 1 + r.Intn(40)
			if n > len(b) {
				n = len(b)
			}
		}
		if _, err := s.sc.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func (s *c14Node) receive() (res privvalproto.Message, err error) {
	s.raw.SetDeadline(time.Now().Add(c14Patience))
	_, err = protoio.NewDelimitedReader(s.sc, 1<<20).ReadMsg(&res)
	return
}

func c14Exchange(r *rand.Rand, pv *mockPV) exchange {
	switch r.Intn(8) {
	case 0:
		return exchange{"ping", pingRequest(), func(res privvalproto.Message) string {
			if res.GetPingResponse() == nil {
				return "not a ping response"
			}
			return ""
		}}
	case 1:
		return exchange{"public key", pubKeyRequest(), func(res privvalproto.Message) string {
			k, err := pubKeyOf(res)
			if err != nil {
				return err.Error()
			}
			if !k.Equals(pv.key.PubKey()) {
				return "another key"
			}
			return ""
		}}
	}
	m := randMsg(r, HRS{r.Int63(), r.Int63n(math.MaxInt32), randStep(r)})
	m.ChainID = chain
	for m.Time().Year() < 2 || m.Time().Year() > 9998 { // room for the earlier time
		m = m.WithTime(time.Unix(r.Int63n(1e10), 0).UTC())
	}
	if r.Intn(6) == 0 {
		if m.Vote != nil {
			m.Vote.Signature = []byte("a signature that came with the request")
		} else {
			m.Proposal.Signature = []byte("a signature that came with the request")
		}
	}
	want, werr := pv.plan(m)
	return exchange{"sign", request(m), func(res privvalproto.Message) string {
		got, err := response(m, res)
		if werr != nil {
			ref, ok := err.(*errRefused)
			if !ok {
				return fmt.Sprintf("the validator refused (%v), the answer is %v", werr, err)
			}
			if !strings.Contains(ref.text, werr.Error()) {
				return fmt.Sprintf("the validator refused with %q, the answer says %q", werr, ref.text)
			}
			if len(got.Signature()) != 0 {
				return fmt.Sprintf("an error answer carries signature %x", got.Signature())
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("the validator signed, the answer is %v", err)
		}
		if !sameRest(want, got) || !bytes.Equal(want.Signature(), got.Signature()) {
			return fmt.Sprintf("the validator signed %s with %x, the answer is %s with %x", want, want.Signature(), got, got.Signature())
		}
		return ""
	}}
}

// c14Burst sends a number of requests at once and reads the responses; a final ping finds responses too many.
func c14Burst(c *Check, r *rand.Rand, pv *mockPV, s *c14Node, n int, where string) bool {
	if s.sc == nil {
		if err := s.session(pv); err != nil {
			c.Violation("no-session", "%s: no session with a chain node: %v", where, err)
			return false
		}
	}
	var xs []exchange
	var out []byte
	for i := 0; i < n; i++ {
		x := c14Exchange(r, pv)
		xs = append(xs, x)
		out = append(out, frame(x.req)...)
	}
	dribble := r.Intn(3) == 0
	go s.send(out, dribble, r)
	for i, x := range xs {
		res, err := s.receive()
		if err != nil {
			c.Violation("no-answer", "%s: request %d of %d (%s) of a burst was not answered: %v", where, i+1, n, x.kind, err)
			return false
		}
		if why := x.check(res); why != "" {
			c.Violation("wrong-answer", "%s: request %d of %d (%s): %s\nrequest %v\nresponse %v", where, i+1, n, x.kind, why, x.req, res)
			return false
		}
		c.Count("responses matched", 1)
		if re := errorOf(res); re != nil {
			c.Count("error responses matched", 1)
		}
		c.Eval(fmt.Sprintf("%s %d of %d dribble %v error %v", x.kind, i+1, n, dribble, errorOf(res) != nil))
	}
	if n > 1 {
		c.Count("pipelined bursts", 1)
	}
	return true
}

func errorOf(res privvalproto.Message) *privvalproto.RemoteSignerError {
	switch x := res.Sum.(type) {
	case *privvalproto.Message_SignedVoteResponse:
		return x.SignedVoteResponse.Error
	case *privvalproto.Message_SignedProposalResponse:
		return x.SignedProposalResponse.Error
	case *privvalproto.Message_PubKeyResponse:
		return x.PubKeyResponse.Error
	}
	return nil
}

// malformed requests that are whole messages: they get one answer, which signs nothing.
func c14MalformedMessages() map[string]privvalproto.Message {
	vote := func(f func(v *tmProto.Vote)) privvalproto.Message {
		m := newMsg(chain, HRS{5, 0, 2}, 1, fixedTime)
		f(m.Vote)
		return request(m)
	}
	prop := func(f func(p *tmProto.Proposal)) privvalproto.Message {
		m := newMsg(chain, HRS{5, 0, 1}, 1, fixedTime)
		f(m.Proposal)
		return request(m)
	}
	return map[string]privvalproto.Message{
		"vote request without vote":         {Sum: &privvalproto.Message_SignVoteRequest{SignVoteRequest: &privvalproto.SignVoteRequest{}}},
		"proposal request without proposal": {Sum: &privvalproto.Message_SignProposalRequest{SignProposalRequest: &privvalproto.SignProposalRequest{}}},
		"vote of unknown type":              vote(func(v *tmProto.Vote) { v.Type = 0 }),
		"vote of type proposal":             vote(func(v *tmProto.Vote) { v.Type = tmProto.ProposalType }),
		"vote of type 77":                   vote(func(v *tmProto.Vote) { v.Type = 77 }),
		"vote with short hash":              vote(func(v *tmProto.Vote) { v.BlockID.Hash = []byte{1, 2, 3} }),
		"vote with long parts hash":         vote(func(v *tmProto.Vote) { v.BlockID.PartSetHeader.Hash = make([]byte, 33) }),
		"proposal with short hash":          prop(func(p *tmProto.Proposal) { p.BlockID.Hash = []byte{1} }),
		"proposal with long parts hash":     prop(func(p *tmProto.Proposal) { p.BlockID.PartSetHeader.Hash = make([]byte, 100) }),
	}
}

// messages that are no requests; they get one answer without content
func c14NoRequests() map[string]privvalproto.Message {
	return map[string]privvalproto.Message{
		"empty message":        {},
		"a ping response":      {Sum: &privvalproto.Message_PingResponse{PingResponse: &privvalproto.PingResponse{}}},
		"a signed vote":        {Sum: &privvalproto.Message_SignedVoteResponse{SignedVoteResponse: &privvalproto.SignedVoteResponse{}}},
		"a public key":         {Sum: &privvalproto.Message_PubKeyResponse{PubKeyResponse: &privvalproto.PubKeyResponse{}}},
		"an invalid chain":     {Sum: &privvalproto.Message_PubKeyRequest{PubKeyRequest: &privvalproto.PubKeyRequest{ChainId: strings.Repeat("x", 5000)}}},
		"a signed proposal":    {Sum: &privvalproto.Message_SignedProposalResponse{SignedProposalResponse: &privvalproto.SignedProposalResponse{}}},
		"a very long response": {Sum: &privvalproto.Message_SignedVoteResponse{SignedVoteResponse: &privvalproto.SignedVoteResponse{Vote: tmProto.Vote{Signature: make([]byte, 9000)}}}},
	}
}

// c14Malformed sends something that is no proper request, between proper ones.
func c14Malformed(c *Check, r *rand.Rand, pv *mockPV, s *c14Node) bool {
	bad, none := c14MalformedMessages(), c14NoRequests()
	for i := 0; i < 3; i++ {
		name, m, isBad := pick(r, bad), privvalproto.Message{}, true
		m = bad[name]
		if r.Intn(2) == 0 {
			name, isBad = pick(r, none), false
			m = none[name]
		}
		before, after := c14Exchange(r, pv), c14Exchange(r, pv)
		if err := s.send(append(append(frame(before.req), frame(m)...), frame(after.req)...), false, r); err != nil {
			c.Violation("no-answer", "session lost while sending %s: %v", name, err)
			return false
		}
		for k, x := range []*exchange{&before, nil, &after} {
			res, err := s.receive()
			if err != nil {
				c.Violation("malformed-not-answered", "%s: response %d of 3 did not come: %v", name, k+1, err)
				return false
			}
			if x != nil {
				if why := x.check(res); why != "" {
					c.Violation("wrong-answer", "request next to %s: %s", name, why)
					return false
				}
				continue
			}
			c.Count("malformed requests answered", 1)
			c.Eval("malformed " + name)
			if !isBad {
				continue
			}
			_, isVote := m.Sum.(*privvalproto.Message_SignVoteRequest)
			var sig []byte
			ok := false
			if isVote && res.GetSignedVoteResponse() != nil {
				sig, ok = res.GetSignedVoteResponse().Vote.Signature, res.GetSignedVoteResponse().Error != nil
			} else if !isVote && res.GetSignedProposalResponse() != nil {
				sig, ok = res.GetSignedProposalResponse().Proposal.Signature, res.GetSignedProposalResponse().Error != nil
			}
			if !ok || len(sig) > 0 {
				c.Violation("malformed-not-refused", "%s was answered with %v", name, res)
				return false
			}
		}
	}
	return true
}

// c14Real sends malformed requests to the validators in use, which do not stand them.
func c14Real(c *Check) {
	dir := newDir("real")
	testRSAKeys(3)
	cl := newCluster(2, 3)
	for name, pv := range map[string]tm.PrivValidator{
		"single signer":       privval.GenFilePV(filepath.Join(dir, "key.json"), filepath.Join(dir, "state.json")),
		"threshold validator": newCoord(cl, newLeaderSlots(1)[0], 1).Validator,
	} {
		s := newC14Node()
		svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, &signer.PvGuard{PrivValidator: pv}, []signer.NodeConfig{{Address: s.addr}})
		must(err)
		if err := s.session(nil); err != nil {
			c.Violation("no-session", "%s: %v", name, err)
			return
		}
		h := int64(10)
		try := func(what string, m privvalproto.Message) (res privvalproto.Message, ok bool) {
			err := s.send(frame(m), false, nil)
			if err == nil {
				res, err = s.receive()
			}
			if err != nil {
				c.Violation("malformed-not-answered", "%s: %s was not answered: %v", name, what, err)
			}
			return res, err == nil
		}
		for what, m := range c14MalformedMessages() {
			res, ok := try(what, m)
			if !ok {
				return
			}
			c.Count("malformed requests to real validators", 1)
			c.Eval(name + " malformed " + what)
			var sig []byte
			if r := res.GetSignedVoteResponse(); r != nil {
				sig = r.Vote.Signature
			} else if r := res.GetSignedProposalResponse(); r != nil {
				sig = r.Proposal.Signature
			}
			if errorOf(res) == nil || len(sig) > 0 {
				c.Violation("malformed-not-refused", "%s: %s was answered with %v", name, what, res)
			}
			// it signs on
			h++
			good := newMsg(chain, HRS{h, 0, 2}, 1, fixedTime)
			if res, ok = try("a vote", request(good)); !ok {
				return
			}
			if _, err := response(good, res); err != nil {
				c.Violation("no-answer", "%s: after %s, a vote was answered with %v", name, what, err)
			}
		}
		for what, m := range c14NoRequests() {
			if _, ok := try(what, m); !ok {
				return
			}
			c.Eval(name + " malformed " + what)
		}
		for _, v := range svcs {
			v.Stop()
		}
		s.down()
	}
}

func pick(r *rand.Rand, m map[string]privvalproto.Message) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks[r.Intn(len(ks))]
}

// c14Cuts breaks the session in different ways and expects it back each time.
func c14Cuts(c *Check, r *rand.Rand, pv *mockPV, s *c14Node, k, total int) {
	back := func(how string) bool {
		if s.sc == nil || how != "" {
			if err := s.session(pv); err != nil {
				c.Violation("session-lost", "%s: the session did not come back: %v", how, err)
				return false
			}
		}
		if how != "" {
			c.Count("sessions re-established", 1)
			c.Eval("cut " + how)
		}
		return c14Burst(c, r, pv, s, 1+r.Intn(4), "after "+how)
	}
	if k < 6 {
		time.Sleep(time.Duration(500+r.Intn(3000)) * time.Millisecond)
		s.up()
		if !back("node was not there at the start") {
			return
		}
	}
	rounds := c.size(10, 80)
	slow := 0
	for n := 0; n < rounds && !c.Violated(); n++ {
		how := ""
		kind := r.Intn(9)
		if kind < 3 && slow >= c.size(3, 12) { // the signer waits 3 s after these
			kind = 3 + r.Intn(6)
		}
		switch kind {
		case 0: // handshake cut
			slow++
			s.drop()
			a, b := -1, -1
			if r.Intn(2) == 0 {
				a = r.Intn(1100)
			} else {
				b = r.Intn(1100)
			}
			if err := s.connect(a, b); err == errNoConn {
				c.Violation("session-lost", "no new connection after the last one broke")
				return
			}
			how = fmt.Sprintf("handshake after %d read, %d written", a, b)
			if s.sc != nil { // the handshake was shorter
				how += " (whole)"
			}
			s.drop()
		case 1: // node away for a while
			slow++
			s.down()
			time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
			s.up()
			how = "node away"
		case 2: // not the protocol
			slow++
			s.drop()
			select {
			case x := <-s.next:
				x.Write(randGarbage(r))
				time.Sleep(2 * time.Millisecond)
				x.Close()
			case <-time.After(c14Patience):
				c.Violation("session-lost", "no new connection after the last one broke")
				return
			}
			how = "garbage instead of a handshake"
		case 3: // closed between requests
			s.drop()
			how = "closed between requests"
		case 4: // request cut
			if !back("") {
				return
			}
			req := frame(c14Exchange(r, pv).req)
			s.send(req[:r.Intn(len(req))], false, r)
			s.drop()
			how = "request cut"
		case 5: // frame cut
			if !back("") {
				return
			}
			at := r.Intn(1100)
			s.raw.limit(-1, at)
			s.send(frame(c14Exchange(r, pv).req), false, r)
			s.drop()
			how = fmt.Sprintf("frame cut at %d", at)
		case 6: // response not read, or cut
			if !back("") {
				return
			}
			at := r.Intn(1100)
			s.raw.limit(at, -1)
			for i := 0; i < 1+r.Intn(5); i++ {
				s.send(frame(c14Exchange(r, pv).req), false, r)
			}
			s.receive()
			s.drop()
			how = fmt.Sprintf("response cut at %d", at)
		case 7: // no message at all, too long, or not decodable
			if !back("") {
				return
			}
			g := randGarbage(r)
			s.send(g, false, r)
			// whatever comes back, or not; then a close
			s.raw.SetDeadline(time.Now().Add(20 * time.Millisecond))
			io.ReadAll(s.sc)
			s.drop()
			how = fmt.Sprintf("garbage %d", len(g)%7)
		case 8: // frame that does not decrypt
			if !back("") {
				return
			}
			s.raw.Write(make([]byte, 1044))
			s.raw.SetDeadline(time.Now().Add(20 * time.Millisecond))
			io.ReadAll(s.raw)
			s.drop()
			how = "forged frame"
		}
		c.Count("sessions cut", 1)
		if !back(how) {
			return
		}
	}
}

func randGarbage(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	case 1:
		return append([]byte{0x80, 0x80, 0x04}, make([]byte, 3000)...)
	case 2:
		return []byte{0x03, 0x0a, 0x7f, 0x01}
	case 3:
		// a vote with a time out of range
		m, err := proto.Marshal(&privvalproto.Message{Sum: &privvalproto.Message_SignVoteRequest{SignVoteRequest: &privvalproto.SignVoteRequest{
			Vote: newMsg(chain, HRS{5, 0, 2}, 1, fixedTime).Vote, ChainId: chain}}})
		must(err)
		for i := range m {
			if r.Intn(20) == 0 {
				m[i] ^= byte(1 << r.Intn(8))
			}
		}
		return append(proto.EncodeVarint(uint64(len(m))), m...)
	}
	b := make([]byte, 1+r.Intn(2000))
	r.Read(b)
	return b
}

// checkC24 watches the validator behind the guard.
func checkC24(c *Check) {
	c.Rule("a case is one request made while others are waiting, on sessions with chain nodes or directly on the guard, of a validator "+
		"that counts who is inside; non-trivial if another request was waiting or inside when it was made; distinct by (kind, number of "+
		"others)", "the monitor sits inside the guarded validator; the sessions are real")
	c.Need("entries", "requests made while the validator was busy", "answers matched", "direct calls", "public key reads",
		"requests that waited for seconds", "attempts of cosigner processes watched by a peer")
	slow := make(chan struct{})
	go func() {
		defer close(slow)
		parallel(3, 3, func(i int) { []func(*Check){c24Slow, c24Single, c24Cosigner}[i](c) })
	}()
	defer func() { <-slow }()
	var mu sync.Mutex
	inside, pending := 0, 0
	nr := rand.New(rand.NewSource(c.Seed))
	pv := &mockPV{key: genKey()}
	pv.in = func() {
		mu.Lock()
		defer mu.Unlock()
		inside++
		c.Count("entries", 1)
		if inside > 1 {
			c.Violation("two-inside", "%d requests are inside the guarded validator at once", inside)
		}
	}
	pv.out = func() { mu.Lock(); inside--; mu.Unlock() }
	pv.nap = func() {
		mu.Lock()
		d := time.Duration(nr.Intn(200)) * time.Microsecond
		mu.Unlock()
		time.Sleep(d)
	}
	note := func(kind string) func() {
		mu.Lock()
		others := pending
		pending++
		mu.Unlock()
		if others > 0 {
			c.Count("requests made while the validator was busy", 1)
			c.Eval(fmt.Sprintf("%s with %d others", kind, others))
		} else {
			c.Eval("")
		}
		return func() { mu.Lock(); pending--; mu.Unlock() }
	}
	guard := &signer.PvGuard{PrivValidator: pv}
	var nodes []*c14Node
	var cfg []signer.NodeConfig
	for k := 0; k < 8; k++ {
		s := newC14Node()
		nodes = append(nodes, s)
		cfg = append(cfg, signer.NodeConfig{Address: s.addr})
	}
	svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, guard, cfg)
	must(err)
	var wg sync.WaitGroup
	n := c.size(1200, 20000)
	for k, s := range nodes {
		s := s
		r := c.Rng(fmt.Sprint("session", k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := s.session(pv); err != nil {
				c.Inconclusive("no session: %v", err)
				return
			}
			for i := 0; i < n && !c.Violated(); i++ {
				x := c14Exchange(r, pv)
				done := note("session " + x.kind)
				err := s.send(frame(x.req), false, r)
				var res privvalproto.Message
				if err == nil {
					res, err = s.receive()
				}
				done()
				if err != nil {
					c.Violation("no-answer", "a request (%s) was not answered: %v", x.kind, err)
					return
				}
				if why := x.check(res); why != "" {
					c.Violation("wrong-answer", "session: %s: %s", x.kind, why)
					return
				}
				c.Count("answers matched", 1)
			}
		}()
	}
	for k := 0; k < 8; k++ {
		r := c.Rng(fmt.Sprint("direct", k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n && !c.Violated(); i++ {
				c.Count("direct calls", 1)
				if r.Intn(4) == 0 {
					done := note("direct public key")
					key, err := guard.GetPubKey()
					done()
					c.Count("public key reads", 1)
					if err != nil || !key.Equals(pv.key.PubKey()) {
						c.Violation("wrong-answer", "public key: %v, %v", key, err)
					}
					continue
				}
				m := newMsg(fmt.Sprint("chain", r.Intn(3)), HRS{r.Int63(), r.Int63n(1000), randStep(r)}, r.Intn(3), fixedTime)
				want, werr := pv.plan(m)
				got := m.Clone()
				done := note("direct sign")
				err := got.SignWith(guard)
				done()
				if (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() ||
					err == nil && (!sameRest(want, got) || !bytes.Equal(want.Signature(), got.Signature())) {
					c.Violation("wrong-answer", "direct: %s gave %s, %v instead of %s, %v", m, got, err, want, werr)
				}
			}
		}()
	}
	wg.Wait()
	for _, s := range svcs {
		s.Stop()
	}
	for _, s := range nodes {
		s.down()
	}
}

// c24Slow: a validator that takes its time, as one does that waits for its peers; the others wait as long as that takes.
func c24Slow(c *Check) {
	waits := []time.Duration{3 * time.Second, 6 * time.Second, 12 * time.Second}
	if c.Tier == "thorough" {
		waits = append(waits, 35*time.Second, 65*time.Second, 130*time.Second)
	}
	parallel(len(waits), len(waits), func(i int) {
		pv := &mockPV{key: genKey()}
		var inside, calls int32
		started := make(chan struct{})
		pv.in = func() {
			if k := atomic.AddInt32(&inside, 1); k > 1 {
				c.Violation("two-inside", "%d requests are inside the guarded validator at once, while one of them takes %s", k, waits[i])
			}
		}
		pv.out = func() { atomic.AddInt32(&inside, -1) }
		pv.nap = func() {
			if atomic.AddInt32(&calls, 1) == 1 {
				close(started)
				time.Sleep(waits[i])
			}
		}
		guard := &signer.PvGuard{PrivValidator: pv}
		s := newC14Node()
		svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, guard, []signer.NodeConfig{{Address: s.addr}})
		must(err)
		var wg sync.WaitGroup
		r := c.Rng(fmt.Sprint("slow", i))
		one := func(k int, m Msg) {
			want, werr := pv.plan(m)
			got := m.Clone()
			begin := time.Now()
			err := got.SignWith(guard)
			if (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() ||
				err == nil && (!sameRest(want, got) || !bytes.Equal(want.Signature(), got.Signature())) {
				c.Violation("wrong-answer", "direct, request %d behind one that takes %s: %s gave %s, %v instead of %s, %v", k, waits[i], m, got, err, want, werr)
			}
			if time.Since(begin) > 2*time.Second {
				c.Count("requests that waited for seconds", 1)
			}
			c.Eval(fmt.Sprintf("slow %s %d", waits[i], k))
		}
		for k := 0; k < 7; k++ {
			k, m := k, newMsg(chain, HRS{r.Int63(), r.Int63n(1000), int8(1 + k%3)}, r.Intn(3), fixedTime)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if k > 0 {
					<-started
				}
				if k == 6 {
					if key, err := guard.GetPubKey(); err != nil || !key.Equals(pv.key.PubKey()) {
						c.Violation("wrong-answer", "public key: %v, %v", key, err)
					}
					return
				}
				one(k, m)
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-started
			s.session(pv) // asks for the key; the wait may end this session, which is its business
		}()
		wg.Wait()
		for _, v := range svcs {
			v.Stop()
		}
		s.down()
	})
}

// c14Quiet: a session on which the chain node asks nothing for a while is still there for its next request.
func c14Quiet(c *Check) {
	pauses := []time.Duration{6 * time.Second, 12 * time.Second, 35 * time.Second, 70 * time.Second, 97 * time.Second}
	if c.Tier == "thorough" {
		pauses = append(pauses, 130*time.Second, 320*time.Second)
	}
	pv := &mockPV{key: genKey(), nap: func() {}}
	var nodes []*c14Node
	var cfg []signer.NodeConfig
	for i := 0; i < 2*len(pauses); i++ {
		nodes = append(nodes, newC14Node())
		cfg = append(cfg, signer.NodeConfig{Address: nodes[i].addr})
	}
	svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, &signer.PvGuard{PrivValidator: pv}, cfg)
	must(err)
	defer func() {
		for _, s := range svcs {
			s.Stop()
		}
	}()
	parallel(len(nodes), len(nodes), func(i int) {
		s, pause, r := nodes[i], pauses[i/2], c.Rng(fmt.Sprint("quiet", i))
		defer s.drop()
		if err := s.connect(-1, -1); err != nil {
			c.Inconclusive("no session to keep quiet: %v", err)
			return
		}
		ask := func() bool {
			x := c14Exchange(r, pv)
			err := s.send(frame(x.req), false, r)
			var res privvalproto.Message
			if err == nil {
				res, err = s.receive()
			}
			what := ""
			if err == nil {
				what = x.check(res)
			}
			if err != nil || what != "" {
				c.Violation("quiet-session", "a %s on a session that asked nothing for %s (%d requests before): %v %s", x.kind, pause, i%2, err, what)
				return false
			}
			return true
		}
		if i%2 == 1 && !ask() {
			return
		}
		time.Sleep(pause)
		if ask() {
			c.Count("answers after a quiet time", 1)
		}
		c.Eval(fmt.Sprintf("quiet %s %d", pause, i%2))
	})
}

// c14Outages: nodes that are away for long, or long fail in the handshake; however long that was, the session comes back soon after.
func c14Outages(c *Check) {
	const bound = 45 * time.Second
	outages := []time.Duration{20 * time.Second, 70 * time.Second, 100 * time.Second}
	if c.Tier == "thorough" {
		outages = append(outages, 200*time.Second, 333*time.Second)
	}
	pv := &mockPV{key: genKey(), nap: func() {}}
	var cfg []signer.NodeConfig
	var ss []*Sentry
	for range outages {
		s := newSentry()
		ss = append(ss, s)
		cfg = append(cfg, signer.NodeConfig{Address: s.Addr})
	}
	var mu sync.Mutex
	var attempts []time.Time
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer ln.Close()
	go func() { // a node that hangs up at once
		for {
			x, err := ln.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			attempts = append(attempts, time.Now())
			mu.Unlock()
			x.Close()
		}
	}()
	cfg = append(cfg, signer.NodeConfig{Address: "tcp://" + ln.Addr().String()})
	svcs, err := signer.StartRemoteSigners(nil, nopLogger(), chain, &signer.PvGuard{PrivValidator: pv}, cfg)
	must(err)
	begin := time.Now()
	parallel(len(outages), len(outages), func(i int) {
		if _, err := ss[i].session(30 * time.Second); err != nil {
			c.Inconclusive("outage of %s: no session before it", outages[i])
			return
		}
		ss[i].Close()
		time.Sleep(outages[i])
		var ln net.Listener
		for k := 0; k < 100; k++ {
			var err error
			if ln, err = net.Listen("tcp", strings.TrimPrefix(ss[i].Addr, "tcp://")); err == nil {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		if ln == nil {
			c.Inconclusive("outage of %s: the port is taken", outages[i])
			return
		}
		back := newSentryOn(ln)
		defer back.Close()
		up := time.Now()
		if _, err := back.session(bound); err != nil {
			c.Violation("not-re-established", "a chain node that was away for %s and came back has no session %s later", outages[i], bound)
			return
		}
		if res, err := back.Call(pubKeyRequest(), 20*time.Second); err != nil || res.GetPubKeyResponse() == nil {
			c.Violation("no-answer", "the session with a chain node that was away for %s answers the question for the public key with %v, %v", outages[i], res, err)
			return
		}
		c.Count("sessions back after a long outage", 1)
		c.Eval(fmt.Sprintf("outage %s", outages[i]))
		c.Sample(fmt.Sprintf("after an outage of %s the session was back in %s", outages[i], time.Since(up)))
	})
	mu.Lock()
	last := begin
	for _, t := range append(attempts, time.Now()) {
		if t.Sub(last) > bound {
			c.Violation("not-re-established", "a chain node that hangs up in the handshake is left alone for %s after %d attempts", t.Sub(last), len(attempts))
			break
		}
		last = t
	}
	mu.Unlock()
	for _, s := range svcs {
		s.Stop()
	}
}

// c24Single: the single signer process. Its state is saved by the validator when it signs, so two saves at once are two requests inside.
func c24Single(c *Check) {
	if straceMissing {
		return
	}
	s := newSingle(c, "guarded single signer", 3)
	defer s.close()
	trace := filepath.Join(s.dir, "trace")
	log, err := os.OpenFile(filepath.Join(s.dir, "log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	p := &Proc{cmd: exec.Command("strace", "-f", "-qq", "-o", trace, "-s", "400", "-e", "signal=none",
		"-e", "trace=openat,rename,renameat,renameat2", "-e", "inject=rename,renameat,renameat2:delay_enter=400000",
		hx(), "signer", "start", "--home", s.dir), Log: log.Name(), done: make(chan struct{})}
	p.cmd.Env = append(os.Environ(), "HOME="+emptyHome(), "GOTRACEBACK=all")
	p.cmd.Stdout, p.cmd.Stderr = log, log
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(p.cmd.Start())
	log.Close()
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	s.proc = p
	at := HRS{1, 0, 1}
	if !s.signNew(0, &at, c.Rng("single guard")) {
		endTraced(p)
		c.Inconclusive("the single signer does not sign")
		return
	}
	for k := 0; k < c.size(6, 60) && !c.Violated(); k++ {
		at.H++
		parallel(3, 3, func(i int) {
			s.ask(i, newMsg(s.chain, HRS{at.H, 0, int8(1 + (i+k)%3)}, k%3, fixedTime), 40*time.Second)
		})
		c.Eval(fmt.Sprintf("single signer %d", k))
	}
	endTraced(p)
	b, err := os.ReadFile(trace)
	must(err)
	saving, waiting := map[string]bool{}, map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		pid, call, _ := strings.Cut(l, " ")
		if strings.Contains(call, "openat") && strings.Contains(call, "O_CREAT") && strings.Contains(call, filepath.Join(s.dir, "state")+"/") {
			if len(saving) > 0 {
				c.Violation("two-inside", "the single signer saves its state (%s) while it is saving it already (%v): two requests are inside the validator\n%s",
					strings.TrimSpace(call), saving, s.history())
				return
			}
			if m := reStrArg.FindStringSubmatch(call); m != nil {
				saving[m[1]] = true
			}
			c.Count("saves of a single signer process watched", 1)
		}
		if strings.Contains(call, "rename") {
			if m := reStrArg.FindStringSubmatch(call); m != nil {
				if strings.Contains(call, "<unfinished") {
					waiting[pid] = m[1]
				} else {
					delete(saving, m[1])
				}
			} else if strings.Contains(call, "resumed>") {
				delete(saving, waiting[pid])
				delete(waiting, pid)
			}
		}
	}
}

var reStrArg = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

// watcher is the network interface of a cosigner which notes when it is asked for parts, and never gives them.
type watcher struct {
	hproto.UnimplementedCosignerGRPCServer
	mu   sync.Mutex
	seen map[HRS]time.Time
}

func (w *watcher) GetEphemeralSecretParts(ctx context.Context, q *hproto.CosignerGRPCGetEphemeralSecretPartsRequest) (
	*hproto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	w.mu.Lock()
	at := HRS{q.GetHrst().GetHeight(), q.GetHrst().GetRound(), int8(q.GetHrst().GetStep())}
	if _, ok := w.seen[at]; !ok {
		w.seen[at] = time.Now()
	}
	w.mu.Unlock()
	<-ctx.Done()
	return nil, errInjected
}

func (w *watcher) when(at HRS) (time.Time, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	t, ok := w.seen[at]
	return t, ok
}

// c24Cosigner: cosigner processes, seen by a peer they cannot do without: it must not be asked for a second message of a node while
// the first one is not answered.
func c24Cosigner(c *Check) {
	hc := newHomes(3, 3, 2)
	defer hc.stopAll()
	w := &watcher{seen: map[HRS]time.Time{}}
	ln, err := net.Listen("tcp", hc.Nodes[2].Addr)
	must(err)
	srv := grpc.NewServer()
	hproto.RegisterCosignerGRPCServer(srv, w)
	go srv.Serve(ln)
	defer srv.Stop()
	hc.Nodes[0].start()
	hc.Nodes[1].start()
	h := int64(1)
	for end := time.Now().Add(90 * time.Second); ; h++ {
		m := newMsg(chain, HRS{h, 0, 2}, 1, fixedTime)
		hc.Nodes[0].Sentries[0].Sign(m, 20*time.Second)
		if _, ok := w.when(m.HRS()); ok {
			break
		}
		if time.Now().After(end) {
			c.Inconclusive("the cosigners do not start an attempt")
			return
		}
	}
	early := map[int]int{}
	for k := 0; k < c.size(6, 30) && !c.Violated(); k++ {
		nd := hc.Nodes[k%2]
		first, second := newMsg(chain, HRS{h + 1, 0, int8(1 + k%3)}, 1, fixedTime), newMsg(chain, HRS{h + 2, 0, int8(1 + k%3)}, 1, fixedTime)
		h += 2
		answered := make(chan time.Time, 1)
		go func() {
			nd.Sentries[0].Sign(first, 60*time.Second)
			answered <- time.Now()
		}()
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			if _, ok := w.when(first.HRS()); ok {
				break
			}
		}
		nd.Sentries[1].Sign(second, 60*time.Second)
		end := <-answered
		if t2, ok := w.when(second.HRS()); ok {
			if t1, ok := w.when(first.HRS()); ok && t2.After(t1) {
				c.Count("attempts of cosigner processes watched by a peer", 1)
				c.Eval(fmt.Sprintf("cosigner %d attempt %d", nd.ID, k))
				if end.Sub(t2) > 2*time.Second {
					if early[nd.ID]++; early[nd.ID] == 2 {
						c.Violation("two-inside", "cosigner process %d asks its peer for parts for %s %s before it answers the request for %s of another chain node, for the second time",
							nd.ID, second, end.Sub(t2), first)
					}
				}
			}
		}
	}
}

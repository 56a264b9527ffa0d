package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"errors"
	"fmt"
	"math"
	"math/big"
	mrand "math/rand"
	"net"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() { checks["C13"] = checkC13 }

func checkC13(c *Check) {
	c.Rule("a case is (a) one message asked of a follower of a complete cluster, then of the leader and of the other nodes, with the "+
		"answers compared with each other and the record of the signing node, (b) one cosigner call made through the network client "+
		"against a server that records what arrives and answers with generated content, or (c) one cosigner call made over the network "+
		"and directly on twin cosigners with the same key; non-trivial if the request is not answered by the node asked; distinct by "+
		"(kind, entry node role, message class or field values)",
		"twin cosigners differ in their random nonces; their answers are compared after removing those")
	c.Need("signed through a follower", "refused through a follower", "compared with the leader's answer", "requests compared on the wire",
		"responses compared on the wire", "remote calls compared with direct calls", "errors carried over the wire", "asked during a leadership change",
		"slow answers carried over the wire", "signed through a follower of a slow leader")
	testRSAKeys(5)
	var wg sync.WaitGroup
	for _, f := range []func(){
		func() { c13Followers(c, 2, 3) }, func() { c13Followers(c, 3, 5) }, func() { c13Followers(c, 2, 2) },
		func() { c13Wire(c) }, func() { c13Remote(c) }, func() { c13SlowWire(c) }, func() { c13SlowLeader(c) },
	} {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
}

// c13Followers asks all nodes of a complete cluster.
func c13Followers(c *Check, t, n int) {
	r := c.Rng(fmt.Sprint("followers", t, n))
	ns := newNodes(t, n)
	pub := ns.Cl.Priv.PubKey()
	var log []string
	hist := func() string {
		if len(log) > 40 {
			log = log[len(log)-40:]
		}
		return fmt.Sprintf("%d of %d\n  %s", t, n, strings.Join(log, "\n  "))
	}
	ask := func(nd *Node, kind string, m Msg) Outcome {
		o := nd.Sign(m)
		log = append(log, fmt.Sprintf("%s: node %d: %s: %v", kind, nd.ID, m, o.Err))
		checkOutcome(c, pub, o)
		return o
	}
	at := HRS{1 + r.Int63n(100), 0, 2}
	top := func() HRS { return at }
	rounds := c.size(120, 1500)
	for k := 0; k < rounds && !c.Violated(); k++ {
		leader := ns.Leader()
		if leader == nil {
			c.Inconclusive("no leader")
			return
		}
		stable := func() bool { return ns.Leader() == leader }
		f := ns.Nodes[r.Intn(n)]
		for f == leader {
			f = ns.Nodes[r.Intn(n)]
		}
		before := top()
		switch r.Intn(6) {
		case 0:
			if at.S < 3 {
				at.S++
			} else {
				at.R++
			}
		case 1:
			at = HRS{at.H, at.R + 1 + int64(r.Intn(1000)), randStep(r)}
		case 2:
			at = HRS{at.H + 1 + r.Int63n(1<<40), r.Int63n(math.MaxInt32), randStep(r)}
		default:
			at = HRS{at.H + 1, 0, randStep(r)}
		}
		if k == rounds-1 {
			at = HRS{math.MaxInt64, math.MaxInt32, 3}
		}
		m := randMsg(r, at)
		o := ask(f, "new by follower", m)
		class := fmt.Sprintf("%d of %d step %d time %d", t, n, m.HRS().S, m.Time().UnixNano())
		if o.Err != nil {
			if !stable() {
				c.Count("leader changed by itself", 1)
				at = HRS{at.H + 4, 0, 1}
				continue
			}
			// does the leader refuse it as well?
			m2 := newMsg(chain, HRS{at.H + 1, 0, 1}, 1, fixedTime)
			if at.H == math.MaxInt64 {
				continue
			}
			at = m2.HRS()
			if l := ask(leader, "new by leader", m2); l.Err == nil && stable() {
				c.Violation("follower-fails", "the follower failed to have %s signed (%v) while the leader signs\n%s", m, o.Err, hist())
			} else {
				c.Count("signing failed on both", 1)
			}
			continue
		}
		c.Count("signed through a follower", 1)
		c.Eval("signed " + class)
		// the node which signed recorded exactly this message
		h, st, err := loadHRS(leader.PVPath)
		if stable() && (err != nil || h != m.HRS() || !bytes.Equal(st.SignBytes, m.SignBytes()) || !bytes.Equal(st.Signature, o.Got.Signature())) {
			c.Violation("record-differs", "the leader's record after signing %s for a follower is %s, bytes %x, signature %x (%v)\n%s",
				m, h, []byte(st.SignBytes), st.Signature, err, hist())
		}
		// the same from everybody
		for _, nd := range append([]*Node{leader}, ns.Nodes...) {
			p := ask(nd, "repeated", m)
			if !stable() {
				break
			}
			if p.Err != nil {
				c.Violation("repeat-refused", "node %d refused to repeat %s: %v\n%s", nd.ID, m, p.Err, hist())
			} else if !bytes.Equal(p.Got.Signature(), o.Got.Signature()) {
				c.Violation("answers-differ", "node %d gave signature %x for %s, the follower gave %x\n%s", nd.ID, p.Got.Signature(), m, o.Got.Signature(), hist())
			} else {
				c.Count("compared with the leader's answer", 1)
				c.Eval(fmt.Sprintf("repeat %s by leader %v", class, nd == leader))
			}
		}
		// what the leader refuses is refused through a follower
		bad := map[string]Msg{}
		for name, v := range m.variants() {
			if name == "chain id" || r.Intn(3) == 0 {
				bad["conflict: "+name] = v
			}
		}
		if before.Less(at) {
			bad["below"] = newMsg(chain, before, 2, fixedTime.Add(time.Duration(1+r.Intn(1e6))))
			bad["far below"] = newMsg(chain, HRS{before.H / 2, 0, 1}, 1, fixedTime)
		}
		for name, v := range bad {
			p := ask(f, name, v)
			if p.Err == nil {
				if stable() {
					c.Violation("refusal-lost", "through a follower, %s (%s) was answered with success\n%s", v, name, hist())
				}
				continue
			}
			c.Count("refused through a follower", 1)
			c.Eval(fmt.Sprintf("refused %s", name))
		}
		// several nodes at once, with a leadership change now and then
		if k%5 == 4 && at.H < math.MaxInt64-10 {
			at = HRS{at.H + 1, 0, randStep(r)}
			ms := []Msg{newMsg(chain, at, 1, fixedTime), newMsg(chain, at, 1, fixedTime.Add(time.Second)), newMsg(chain, at, 2, fixedTime)}
			var wg sync.WaitGroup
			outs := make([]Outcome, 3*n)
			for i := range outs {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[i] = ns.Nodes[i%n].Sign(ms[i/n%3])
				}()
			}
			if k%10 == 9 {
				ns.Transfer(0)
				c.Count("asked during a leadership change", int64(len(outs)))
			}
			wg.Wait()
			content := ""
			for _, p := range outs {
				checkOutcome(c, pub, p)
				if p.Err == nil {
					if content != "" && content != p.Msg.Content() {
						c.Violation("conflict", "nodes signed %s and a conflicting message at once\n%s", p.Msg, hist())
					}
					content = p.Msg.Content()
				}
			}
			c.Eval(fmt.Sprintf("at once %v", k%10 == 9))
		}
	}
}

// capture is a cosigner network interface that records requests and gives prepared answers.
type capture struct {
	proto.UnimplementedCosignerGRPCServer
	mu    sync.Mutex
	parts *proto.CosignerGRPCGetEphemeralSecretPartsRequest
	sign  *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest
	pa    *proto.CosignerGRPCGetEphemeralSecretPartsResponse
	sa    *proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse
	err   error
	nap   time.Duration // before each answer
}

func (s *capture) GetEphemeralSecretParts(_ context.Context, q *proto.CosignerGRPCGetEphemeralSecretPartsRequest) (
	*proto.CosignerGRPCGetEphemeralSecretPartsResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	time.Sleep(s.nap)
	s.parts = q
	return s.pa, s.err
}

func (s *capture) SetEphemeralSecretPartsAndSign(_ context.Context, q *proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest) (
	*proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	time.Sleep(s.nap)
	s.sign = q
	return s.sa, s.err
}

func rbytes(r *mrand.Rand, max int) []byte {
	b := make([]byte, 1+r.Intn(max))
	r.Read(b)
	return b
}

func randInt64(r *mrand.Rand) int64 {
	edge := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, 1 << 53, 1<<53 + 1}
	if r.Intn(2) == 0 {
		return edge[r.Intn(len(edge))]
	}
	return int64(r.Uint64())
}

// c13Wire compares what a client sends and receives with what is on the wire.
func c13Wire(c *Check) {
	r := c.Rng("wire")
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := grpc.NewServer()
	cap := &capture{}
	proto.RegisterCosignerGRPCServer(srv, cap)
	go srv.Serve(ln)
	defer srv.Stop()
	rc := signer.NewRemoteCosigner(7, "tcp://"+ln.Addr().String())
	if rc.GetID() != 7 || rc.GetAddress() != "tcp://"+ln.Addr().String() {
		c.Violation("remote-identity", "a remote cosigner 7 at %s reports %d at %s", ln.Addr(), rc.GetID(), rc.GetAddress())
	}
	part := func() signer.CosignerEphemeralSecretPart {
		return signer.CosignerEphemeralSecretPart{SourceID: 1 + r.Intn(255), DestinationID: 1 + r.Intn(255),
			SourceEphemeralSecretPublicKey: rbytes(r, 40), EncryptedSharePart: rbytes(r, 700), SourceSig: rbytes(r, 700)}
	}
	samePart := func(a signer.CosignerEphemeralSecretPart, b *proto.EphemeralSecretPart) bool {
		return int64(a.SourceID) == int64(b.SourceID) && int64(a.DestinationID) == int64(b.DestinationID) &&
			bytes.Equal(a.SourceEphemeralSecretPublicKey, b.SourceEphemeralSecretPublicKey) &&
			bytes.Equal(a.EncryptedSharePart, b.EncryptedSharePart) && bytes.Equal(a.SourceSig, b.SourceSig)
	}
	sameParts := func(a []signer.CosignerEphemeralSecretPart, b []*proto.EphemeralSecretPart) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !samePart(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	sameHRST := func(a signer.HRSTKey, b *proto.HRST) bool {
		return a.Height == b.GetHeight() && a.Round == b.GetRound() && int32(a.Step) == b.GetStep() && a.Timestamp == b.GetTimestamp()
	}
	n := c.size(1500, 20000)
	for k := 0; k < n && !c.Violated(); k++ {
		h := signer.HRSTKey{Height: randInt64(r), Round: randInt64(r), Step: int8(r.Intn(256) - 128), Timestamp: randInt64(r)}
		var sent []signer.CosignerEphemeralSecretPart
		for i := r.Intn(5); i > 0; i-- {
			sent = append(sent, part())
		}
		var answer []signer.CosignerEphemeralSecretPart
		cap.pa = &proto.CosignerGRPCGetEphemeralSecretPartsResponse{}
		for i := r.Intn(12); i > 0; i-- {
			p := part()
			answer = append(answer, p)
			cap.pa.EncryptedSecrets = append(cap.pa.EncryptedSecrets, &proto.EphemeralSecretPart{SourceID: int32(p.SourceID), DestinationID: int32(p.DestinationID),
				SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey, EncryptedSharePart: p.EncryptedSharePart, SourceSig: p.SourceSig})
		}
		cap.sa = &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{EphemeralPublic: rbytes(r, 32), Signature: rbytes(r, 32), Timestamp: randInt64(r)}
		bz := rbytes(r, 5000)
		cap.err = nil
		reason := ""
		if r.Intn(4) == 0 {
			reason = fmt.Sprintf("reason-%d", k)
			cap.err = errors.New(reason)
			if r.Intn(3) == 0 {
				cap.err = status.Error(codes.Code(1+r.Intn(16)), reason)
			}
		}
		cap.parts, cap.sign = nil, nil
		pr, perr := rc.GetEphemeralSecretParts(h)
		sr, serr := rc.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: sent, HRST: h, SignBytes: bz})
		if cap.parts == nil || cap.sign == nil {
			c.Violation("not-sent", "a call to a remote cosigner did not reach it: %v, %v", perr, serr)
			return
		}
		if !sameHRST(h, cap.parts.Hrst) || !sameHRST(h, cap.sign.Hrst) || !bytes.Equal(bz, cap.sign.SignBytes) || !sameParts(sent, cap.sign.EncryptedSecrets) {
			c.Violation("request-changed", "calls for %+v, %d parts, bytes %x arrived as %v and %v", h, len(sent), bz, cap.parts, cap.sign)
		}
		c.Count("requests compared on the wire", 2)
		c.Eval(fmt.Sprintf("wire %+v", h))
		if cap.err != nil {
			for _, e := range []error{perr, serr} {
				if e == nil || !strings.Contains(e.Error(), reason) {
					c.Violation("error-lost", "a remote cosigner's error %v arrived as %v", cap.err, e)
				}
			}
			if pr != nil || sr != nil {
				c.Violation("error-with-answer", "a failed remote call gave %+v, %+v", pr, sr)
			}
			c.Count("errors carried over the wire", 2)
			continue
		}
		if perr != nil || serr != nil {
			c.Violation("success-lost", "a remote cosigner's answers arrived as errors: %v, %v", perr, serr)
			return
		}
		if !sameParts(pr.EncryptedSecrets, cap.pa.EncryptedSecrets) {
			c.Violation("parts-changed", "a remote cosigner's parts %v arrived as %+v", cap.pa, pr)
		}
		if !bytes.Equal(sr.EphemeralPublic, cap.sa.EphemeralPublic) || !bytes.Equal(sr.Signature, cap.sa.Signature) ||
			!sr.Timestamp.Equal(time.Unix(0, cap.sa.Timestamp)) {
			c.Violation("response-changed", "a remote cosigner's answer %v arrived as %+v", cap.sa, sr)
		}
		c.Count("responses compared on the wire", 2)
	}
}

// c13SlowWire: an answer that a cosigner needs up to two seconds for is the answer.
func c13SlowWire(c *Check) {
	parallel(c.size(8, 40), 8, func(i int) {
		r := c.Rng(fmt.Sprint("slow wire", i))
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		srv := grpc.NewServer()
		cap := &capture{nap: time.Duration(1100+r.Intn(900)) * time.Millisecond,
			pa: &proto.CosignerGRPCGetEphemeralSecretPartsResponse{},
			sa: &proto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{EphemeralPublic: rbytes(r, 32), Signature: rbytes(r, 32)}}
		proto.RegisterCosignerGRPCServer(srv, cap)
		go srv.Serve(ln)
		defer srv.Stop()
		rc := signer.NewRemoteCosigner(1+i, "tcp://"+ln.Addr().String())
		var fails []string
		for try := 0; try < 3; try++ {
			_, perr := rc.GetEphemeralSecretParts(signer.HRSTKey{Height: 1})
			sr, serr := rc.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: signer.HRSTKey{Height: 1}, SignBytes: []byte{1}})
			if perr == nil && serr == nil && bytes.Equal(sr.Signature, cap.sa.Signature) {
				c.Count("slow answers carried over the wire", 2)
				break
			}
			fails = append(fails, fmt.Sprintf("%v, %v", perr, serr))
		}
		c.Eval(fmt.Sprint("slow wire ", i))
		if len(fails) == 3 {
			c.Violation("slow-answer-lost", "answers that took %s arrived three times as %v", cap.nap, fails)
		}
	})
}

// slowPeer takes its time for each phase.
type slowPeer struct {
	signer.Cosigner
	nap time.Duration
}

func (p slowPeer) GetEphemeralSecretParts(h signer.HRSTKey) (*partsResp, error) {
	time.Sleep(p.nap)
	return p.Cosigner.GetEphemeralSecretParts(h)
}

func (p slowPeer) SetEphemeralSecretPartsAndSign(q signReq) (*signResp, error) {
	time.Sleep(p.nap)
	return p.Cosigner.SetEphemeralSecretPartsAndSign(q)
}

// c13SlowLeader: a follower waits for a leader that needs more than two seconds, since its peers do.
func c13SlowLeader(c *Check) {
	ns, _ := newNodesWith(2, 2, 0, func(p signer.Cosigner) signer.Cosigner { return slowPeer{p, 1050 * time.Millisecond} })
	at := HRS{100, 0, 1}
	for k := 0; k < c.size(3, 20) && !c.Violated(); k++ {
		var fails []string
		for try := 0; try < 3; try++ {
			leader := ns.Leader()
			if leader == nil {
				c.Inconclusive("no leader")
				return
			}
			f := ns.Nodes[0]
			if f == leader {
				f = ns.Nodes[1]
			}
			at.H++
			m := newMsg(chain, at, 1, fixedTime)
			begin := time.Now()
			o := f.Sign(m)
			checkOutcome(c, ns.Cl.Priv.PubKey(), o)
			if o.Err == nil {
				c.Count("signed through a follower of a slow leader", 1)
				break
			}
			l := leader.Sign(m)
			checkOutcome(c, ns.Cl.Priv.PubKey(), l)
			if l.Err != nil { // the leader refuses as well
				continue
			}
			fails = append(fails, fmt.Sprintf("%s after %s: %v", m, time.Since(begin), o.Err))
		}
		c.Eval(fmt.Sprint("slow leader ", k))
		if len(fails) == 3 {
			c.Violation("slow-leader", "a follower of a leader that needs 2.1 s failed three times with what the leader signs: %s", strings.Join(fails, "; "))
		}
	}
}

// c13Remote compares calls over the network with direct calls to a cosigner with the same key and the same past.
func c13Remote(c *Check) {
	r := c.Rng("remote")
	ns := newNodes(2, 3)
	cl := ns.Cl
	nd := ns.Nodes[0]
	remote := signer.NewRemoteCosigner(1, "tcp://"+nd.Addr)
	if nd == ns.Leader() {
		c.Count("remote is leader", 1)
	}
	// the twin is told of what the node's announcements tell: nothing, here
	twinParty := &Party{cl: cl, ID: 1, Key: cl.Parties[0].Key, StatePath: filepath.Join(newDir("twin"), "share.json")}
	must(twinParty.start())
	twin := twinParty.lc
	// the other cosigners are local helpers without state of the cluster
	helper := func(id int) *signer.LocalCosigner {
		p := &Party{cl: cl, ID: id, Key: cl.Parties[id-1].Key, StatePath: filepath.Join(newDir("helper"), "share.json")}
		must(p.start())
		return p.lc
	}
	helpers := []*signer.LocalCosigner{helper(2), helper(3)}
	open := func(p signer.CosignerEphemeralSecretPart) (*big.Int, error) {
		b, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &cl.Parties[p.DestinationID-1].Key.RSAKey, p.EncryptedSharePart, nil)
		if err != nil {
			return nil, err
		}
		return leToInt(b), nil
	}
	// shape describes a parts answer without its random content
	shape := func(res *partsResp, err error) string {
		if err != nil {
			return "error: " + clean(err)
		}
		var out []string
		for _, p := range res.EncryptedSecrets {
			_, e := open(p)
			out = append(out, fmt.Sprintf("%d->%d key %d opens %v", p.SourceID, p.DestinationID, len(p.SourceEphemeralSecretPublicKey), e == nil))
		}
		sortStrings(out)
		return strings.Join(out, "; ")
	}
	at := HRS{10, 0, 1}
	released := map[string]bool{}
	n := c.size(500, 5000)
	for k := 0; k < n && !c.Violated(); k++ {
		kind := []string{"ok", "ok", "ok", "below", "conflict", "no parts", "altered part", "wrong bytes", "other time", "again", "same part for another slot"}[r.Intn(11)]
		m := newMsg(chain, at, 1, fixedTime)
		switch kind {
		case "ok", "no parts", "altered part", "wrong bytes", "same part for another slot":
			at = HRS{at.H + int64(r.Intn(2)), at.R + 1, randStep(r)}
			if r.Intn(10) == 0 {
				at = HRS{at.H + 1, 0, randStep(r)}
			}
			m = randMsg(r, at)
			m.ChainID = chain
		case "below":
			m = newMsg(chain, HRS{at.H - 1, 5, 2}, 1, fixedTime)
		case "conflict":
			m = newMsg(chain, at, 9, fixedTime)
		}
		h := m.HRST()
		bz := m.SignBytes()
		switch kind {
		case "wrong bytes":
			bz = append([]byte(nil), bz[:len(bz)-1-r.Intn(len(bz)-1)]...)
		case "other time":
			h.Timestamp += 5
		}
		src := helpers[r.Intn(2)]
		all, err := deal(h, src)
		must(err)
		parts := partsFor(1, all)
		switch kind {
		case "no parts":
			parts = nil
		case "altered part":
			parts[0].EncryptedSharePart = append([]byte(nil), parts[0].EncryptedSharePart...)
			parts[0].EncryptedSharePart[3] ^= 1
		case "same part for another slot":
			h.Height++
		}
		rp, re := remote.GetEphemeralSecretParts(h)
		dp, de := twin.GetEphemeralSecretParts(h)
		if a, b := shape(rp, re), shape(dp, de); a != b {
			c.Violation("parts-differ", "parts for %+v over the network: %s; directly: %s", h, a, b)
		}
		req := signReq{EncryptedSecrets: parts, HRST: h, SignBytes: bz}
		rs, rerr := remote.SetEphemeralSecretPartsAndSign(req)
		ds, derr := twin.SetEphemeralSecretPartsAndSign(req)
		c.Count("remote calls compared with direct calls", 2)
		c.Eval(fmt.Sprintf("remote %s step %d", kind, m.HRS().S))
		if (rerr == nil) != (derr == nil) || rerr != nil && clean(rerr) != clean(derr) {
			c.Violation("results-differ", "%s, %s: over the network %v, directly %v", kind, m, rerr, derr)
			return
		}
		if rerr != nil {
			c.Count("errors carried over the wire", 1)
			if rs != nil && len(rs.Signature) != 0 {
				c.Violation("error-with-signature", "a failed remote call carries %x", rs.Signature)
			}
			continue
		}
		c.Count("share signatures compared", 1)
		if !ds.Timestamp.IsZero() && !rs.Timestamp.Equal(ds.Timestamp) {
			c.Violation("timestamp-differs", "%s: timestamp over the network %v, directly %v", m, rs.Timestamp, ds.Timestamp)
		}
		// the nonce share behind either share signature is the sum of what was dealt to the cosigner by itself and by the other
		theirs := new(big.Int)
		if len(parts) > 0 {
			theirs, err = open(parts[0])
			must(err)
		}
		for who, x := range map[string]*signResp{"over the network": rs, "directly": ds} {
			// a share signature given before may be given again
			id := fmt.Sprintf("%s %x %x %x", who, bz, x.EphemeralPublic, x.Signature)
			if released[id] {
				c.Count("share signatures given again "+who, 1)
				continue
			}
			released[id] = true
			if kind == "other time" {
				continue // signs with what was dealt for the message's own slot before, if anything
			}
			dealt := rp
			if who == "directly" {
				dealt = dp
			}
			own := map[int]*big.Int{}
			for _, p := range dealt.EncryptedSecrets {
				if own[p.DestinationID], err = open(p); err != nil {
					c.Violation("part-unreadable", "%s: part for cosigner %d: %v", who, p.DestinationID, err)
					return
				}
			}
			if own[2] == nil || own[3] == nil {
				c.Violation("part-missing", "%s: parts for %d cosigners", who, len(own))
				return
			}
			want := new(big.Int).Sub(new(big.Int).Lsh(own[2], 1), own[3]) // the line through 2 and 3, at 1
			want.Add(want, theirs).Mod(want, orderL)
			if got := nonceShare(cl.Pub(), x.EphemeralPublic, bz, x.Signature, cl.Parties[0].Key.ShareKey); got.Cmp(want) != 0 {
				c.Violation("share-signature-invalid", "%s: the share signature %x with key %x %s is not made with the nonce dealt before",
					m, x.Signature, x.EphemeralPublic, who)
			}
		}
		if reflect.DeepEqual(rs, ds) {
			c.Count("twins with equal nonces", 1)
		}
	}
}

// clean removes from an error what the transport adds.
func clean(err error) string {
	s := err.Error()
	if st, ok := status.FromError(err); ok {
		s = st.Message()
	}
	// error texts may quote raw hashes, which a string on the wire cannot hold
	return strings.Map(func(r rune) rune {
		if r < ' ' || r > '~' {
			return -1
		}
		return r
	}, s)
}

// c04Followers has complete clusters sign random messages through random nodes.
func c04Followers(c *Check) {
	parallel(2, 2, func(i int) {
		r := c.Rng(fmt.Sprint("followers", i))
		ns := newNodes(2+i, 3+2*i)
		at := HRS{1, 0, 1}
		for k := 0; k < c.size(80, 1500) && !c.Violated(); k++ {
			if r.Intn(3) > 0 {
				at = HRS{at.H + 1 + r.Int63n(3), r.Int63n(4), randStep(r)}
			}
			m := randMsg(r, at)
			nd := ns.Nodes[r.Intn(len(ns.Nodes))]
			o := nd.Sign(m)
			checkOutcome(c, ns.Cl.Priv.PubKey(), o)
			if o.Err == nil {
				c.Count("signed by complete nodes", 1)
			} else {
				c.Count("refused by complete nodes", 1)
			}
			c.Eval(fmt.Sprintf("node %d %s", nd.ID, m.Key()))
			if r.Intn(25) == 0 {
				ns.Transfer(0)
			}
		}
	})
}

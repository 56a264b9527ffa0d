package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/tendermint/tendermint/crypto"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
	tmLog "github.com/tendermint/tendermint/libs/log"
)

// Party is one cosigner: its key share, its state file and the running cosigner over them.
type Party struct {
	cl        *Cluster
	ID        int
	Key       signer.CosignerKey
	StatePath string

	mu       sync.RWMutex // write-locked while restarting
	lc       *signer.LocalCosigner
	Restarts int
}

// Cluster is a set of cosigners of one validator key.
type Cluster struct {
	T, N    int
	Priv    tmEd.PrivKey
	Parties []*Party
	Dir     string
	Address func(id int) string

	mu       sync.Mutex
	Released []Release
	OnSign   func(r Release)
}

// Release is a share signature that left a cosigner.
type Release struct {
	Party      int
	Bytes      []byte
	R, S       []byte
	Call, Ret  int64
	HRST       signer.HRSTKey
	Restarts   int
	EncSources []int
}

func newCluster(t, n int) *Cluster {
	cl := &Cluster{T: t, N: n, Priv: genKey(), Dir: newDir("cluster")}
	rsaKeys := testRSAKeys(n)
	shares := dealKey(cl.Priv, t, n)
	for i := 0; i < n; i++ {
		p := &Party{cl: cl, ID: i + 1, StatePath: filepath.Join(cl.Dir, fmt.Sprintf("share%d.json", i+1))}
		p.Key = signer.CosignerKey{PubKey: cl.Priv.PubKey(), ShareKey: shares[i], ID: i + 1, RSAKey: *rsaKeys[i]}
		for _, k := range rsaKeys {
			p.Key.CosignerKeys = append(p.Key.CosignerKeys, &k.PublicKey)
		}
		must(p.start())
		cl.Parties = append(cl.Parties, p)
	}
	return cl
}

// save writes what is needed to load the cluster in another process.
func (cl *Cluster) save() {
	for _, p := range cl.Parties {
		b, err := json.Marshal(&p.Key)
		must(err)
		must(os.WriteFile(filepath.Join(cl.Dir, fmt.Sprintf("key%d.json", p.ID)), b, 0o600))
	}
	must(os.WriteFile(filepath.Join(cl.Dir, "cluster"), []byte(fmt.Sprintf("%d %d %x", cl.T, cl.N, cl.Priv.Bytes())), 0o600))
}

// loadCluster loads a cluster from its directory, with the state files found there.
func loadCluster(dir string) (*Cluster, error) {
	b, err := os.ReadFile(filepath.Join(dir, "cluster"))
	if err != nil {
		return nil, err
	}
	cl := &Cluster{Dir: dir}
	var priv []byte
	if _, err := fmt.Sscanf(string(b), "%d %d %x", &cl.T, &cl.N, &priv); err != nil {
		return nil, err
	}
	cl.Priv = tmEd.PrivKey(priv)
	for i := 1; i <= cl.N; i++ {
		p := &Party{cl: cl, ID: i, StatePath: filepath.Join(dir, fmt.Sprintf("share%d.json", i))}
		if p.Key, err = signer.LoadCosignerKey(filepath.Join(dir, fmt.Sprintf("key%d.json", i))); err != nil {
			return nil, err
		}
		if err := p.start(); err != nil {
			return nil, err
		}
		cl.Parties = append(cl.Parties, p)
	}
	return cl, nil
}

func (cl *Cluster) Pub() []byte { return cl.Priv.PubKey().Bytes() }

func (cl *Cluster) address(id int) string {
	if cl.Address != nil {
		return cl.Address(id)
	}
	return fmt.Sprintf("tcp://127.0.0.1:%d", 1000+id)
}

func (p *Party) start() error {
	// what the cosigner start command does
	state, err := signer.LoadOrCreateSignState(p.StatePath)
	if err != nil {
		return err
	}
	var peers []signer.CosignerPeer
	for i, k := range p.Key.CosignerKeys {
		peers = append(peers, signer.CosignerPeer{ID: i + 1, PublicKey: *k})
	}
	p.lc = signer.NewLocalCosigner(signer.LocalCosignerConfig{
		CosignerKey: p.Key, SignState: &state, RsaKey: p.Key.RSAKey, Peers: peers,
		Address: p.cl.address(p.ID), Total: uint8(p.cl.N), Threshold: uint8(p.cl.T),
	})
	return nil
}

// Restart replaces the cosigner by one that knows only what is on disk. Calls in progress finish first
// (kills in the middle of a call are the business of the crash checks).
func (p *Party) Restart() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Restarts++
	return p.start()
}

func (p *Party) Local() *signer.LocalCosigner {
	p.mu.RLock()
	defer p.mu.RUnlock()
	return p.lc
}

// Party is itself a Cosigner, which records what is released.

func (p *Party) GetID() int         { return p.ID }
func (p *Party) GetAddress() string { return p.cl.address(p.ID) }

func (p *Party) GetEphemeralSecretParts(hrst signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	p.mu.RLock()
	defer p.mu.RUnlock()
	return p.lc.GetEphemeralSecretParts(hrst)
}

func (p *Party) SetEphemeralSecretPartsAndSign(
	req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	p.mu.RLock()
	defer p.mu.RUnlock()
	call := tick()
	res, err := p.lc.SetEphemeralSecretPartsAndSign(req)
	if err == nil && res != nil {
		var src []int
		for _, e := range req.EncryptedSecrets {
			src = append(src, e.SourceID)
		}
		r := Release{Party: p.ID, Bytes: append([]byte(nil), req.SignBytes...), R: append([]byte(nil), res.EphemeralPublic...),
			S: append([]byte(nil), res.Signature...), Call: call, Ret: tick(), HRST: req.HRST, Restarts: p.Restarts, EncSources: src}
		p.cl.mu.Lock()
		p.cl.Released = append(p.cl.Released, r)
		p.cl.mu.Unlock()
		if p.cl.OnSign != nil {
			p.cl.OnSign(r)
		}
	}
	return res, err
}

func (cl *Cluster) releases() []Release {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	return append([]Release(nil), cl.Released...)
}

// forget drops what has been recorded.
func (cl *Cluster) forget() {
	cl.mu.Lock()
	cl.Released = nil
	cl.mu.Unlock()
}

// nonce recovers the nonce share of a release.
func (cl *Cluster) nonce(r Release) *big.Int {
	return nonceShare(cl.Pub(), r.R, r.Bytes, r.S, cl.Parties[r.Party-1].Key.ShareKey)
}

// partsFor selects from the parts dealt by the given sources those meant for dst.
func partsFor(dst int, all map[int]*signer.CosignerEphemeralSecretPartsResponse) []signer.CosignerEphemeralSecretPart {
	var out []signer.CosignerEphemeralSecretPart
	for src := 1; src <= 64; src++ {
		if all[src] == nil || src == dst {
			continue
		}
		for _, p := range all[src].EncryptedSecrets {
			if p.DestinationID == dst {
				out = append(out, p)
			}
		}
	}
	return out
}

// deal asks the given cosigners for their parts of a message slot.
func deal(hrst signer.HRSTKey, cs ...signer.Cosigner) (map[int]*signer.CosignerEphemeralSecretPartsResponse, error) {
	out := map[int]*signer.CosignerEphemeralSecretPartsResponse{}
	for _, c := range cs {
		r, err := c.GetEphemeralSecretParts(hrst)
		if err != nil {
			return nil, err
		}
		out[c.GetID()] = r
	}
	return out, nil
}

// shareSign makes one cosigner sign a message with the help of the others in the set.
func shareSign(m Msg, target signer.Cosigner, others ...signer.Cosigner) (*signer.CosignerSignResponse, error) {
	return shareSignBytes(m.HRST(), m.SignBytes(), target, others...)
}

func shareSignBytes(hrst signer.HRSTKey, bz []byte, target signer.Cosigner, others ...signer.Cosigner) (
	*signer.CosignerSignResponse, error) {
	all, err := deal(hrst, append([]signer.Cosigner{target}, others...)...)
	if err != nil {
		return nil, fmt.Errorf("deal: %w", err)
	}
	return target.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: partsFor(target.GetID(), all), HRST: hrst, SignBytes: bz})
}

// ---- coordinators -------------------------------------------------------------------------------

// LeaderSlot is a raft store that is the leader of a cluster of its own. It stands for a node which
// believes to be leader. Its own cosigner, which raft events go to, is not part of any tested cluster.
type LeaderSlot struct {
	Store *signer.RaftStore
	// Sac is the slot's own cosigner, on whose state file announcements can be seen.
	Sac *Party
}

func nopLogger() tmLog.Logger { return tmLog.NewNopLogger() }

func newLeaderSlots(n int) []*LeaderSlot {
	out := make([]*LeaderSlot, n)
	parallel(n, n, func(i int) {
		dir := newDir("raft")
		sac := newCluster(1, 1)
		st := signer.NewRaftStore("1", dir, "127.0.0.1:0", 10*time.Second, nopLogger(), sac.Parties[0].lc, nil)
		idle := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: sac.Priv.PubKey(), Threshold: 1,
			SignState: newState(filepath.Join(dir, "idle.json")), Cosigner: sac.Parties[0], RaftStore: st, Logger: nopLogger()})
		st.SetThresholdValidator(idle)
		_, err := st.Open()
		must(err)
		out[i] = &LeaderSlot{Store: st, Sac: sac.Parties[0]}
	})
	for _, s := range out {
		must(waitLeader(s.Store))
	}
	return out
}

// waitLeader waits until the store accepts writes.
func waitLeader(st *signer.RaftStore) error {
	var err error
	for i := 0; i < 600; i++ {
		if err = st.Set("probe", "x"); err == nil {
			return nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	return fmt.Errorf("no leader: %v", err)
}

func newState(path string) signer.SignState {
	s, err := signer.LoadOrCreateSignState(path)
	must(err)
	return s
}

// Coord is a coordinator: a threshold validator of the cluster on a node that is leader.
type Coord struct {
	cl        *Cluster
	slot      *LeaderSlot
	Own       int
	PVPath    string
	Validator *signer.ThresholdValidator
	Links     []*Link
	own       *Link
	mu        sync.RWMutex
}

// newCoord puts a coordinator on a slot; every cosigner call goes through a Link.
func newCoord(cl *Cluster, slot *LeaderSlot, own int) *Coord {
	return newCoordAt(cl, slot, own, filepath.Join(newDir("coord"), "pv.json"))
}

func newCoordAt(cl *Cluster, slot *LeaderSlot, own int, pvPath string) *Coord {
	co := &Coord{cl: cl, slot: slot, Own: own, PVPath: pvPath}
	for _, p := range cl.Parties {
		l := &Link{To: p}
		if p.ID == own {
			co.own = l
		} else {
			co.Links = append(co.Links, l)
		}
	}
	co.start()
	return co
}

func (co *Coord) start() {
	var peers []signer.Cosigner
	for _, l := range co.Links {
		peers = append(peers, l)
	}
	state := newState(co.PVPath)
	co.Validator = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
		Pubkey: co.cl.Priv.PubKey(), Threshold: co.cl.T, SignState: state, Cosigner: co.own, Peers: peers,
		RaftStore: co.slot.Store, Logger: nopLogger()})
	co.slot.Store.SetThresholdValidator(co.Validator)
}

// Restart replaces the coordinator by one that knows only what is on disk.
func (co *Coord) Restart() {
	co.mu.Lock()
	defer co.mu.Unlock()
	co.start()
}

// Link returns the link to a cosigner.
func (co *Coord) Link(id int) *Link {
	if id == co.Own {
		return co.own
	}
	for _, l := range co.Links {
		if l.To.ID == id {
			return l
		}
	}
	return nil
}

// Outcome of one sign request.
type Outcome struct {
	Msg       Msg // as requested
	Got       Msg // as returned
	Err       error
	Coord     int
	Call, Ret int64
}

// Sign makes one request to the coordinator.
func (co *Coord) Sign(m Msg) Outcome {
	co.mu.RLock()
	defer co.mu.RUnlock()
	o := Outcome{Msg: m.Clone(), Got: m.Clone(), Coord: co.Own, Call: tick()}
	o.Err = o.Got.SignWith(co.Validator)
	o.Ret = tick()
	return o
}

// sameRest tells whether two messages agree in everything but the signature.
func sameRest(a, b Msg) bool {
	a, b = a.Clone(), b.Clone()
	if a.Vote != nil && b.Vote != nil {
		a.Vote.Signature, b.Vote.Signature = nil, nil
		return a.Vote.Timestamp.Equal(b.Vote.Timestamp) && a.Vote.String() == b.Vote.String()
	}
	if a.Proposal != nil && b.Proposal != nil {
		a.Proposal.Signature, b.Proposal.Signature = nil, nil
		return a.Proposal.Timestamp.Equal(b.Proposal.Timestamp) && a.Proposal.String() == b.Proposal.String()
	}
	return false
}

// checkOutcome is the oracle for a single answer: a success carries a signature valid for exactly the
// requested message, an error carries none.
func checkOutcome(c *Check, pub crypto.PubKey, o Outcome) bool {
	req, got := o.Msg, o.Got
	if o.Err != nil {
		if len(got.Signature()) != 0 {
			c.Violation("error-with-signature", "request %s failed (%v) but carries signature %x", req, o.Err, got.Signature())
			return false
		}
		return true
	}
	if string(req.SignBytes()) != string(got.SignBytes()) || !sameRest(req, got) {
		c.Violation("message-changed", "request %s came back as %s", req, got)
		return false
	}
	if len(got.Signature()) != 64 || !pub.VerifySignature(got.SignBytes(), got.Signature()) {
		c.Violation("invalid-signature", "request %s succeeded with signature %x, which does not verify", req, got.Signature())
		return false
	}
	return true
}

// ---- faults -------------------------------------------------------------------------------------

var errInjected = errors.New("injected: unavailable")

// Link carries a coordinator's calls to a cosigner, and may misbehave.
type Link struct {
	To *Party
	// Get and Sign may replace the call; nil passes it through.
	Get  func(hrst signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error)
	Sig  func(req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error)
	mu   sync.RWMutex
	seen struct {
		sync.Mutex
		get, sig int64
		reqs     []signer.CosignerSetEphemeralSecretPartsAndSignRequest
	}
}

func (l *Link) Set(get func(hrst signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error),
	sig func(req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error)) {
	l.mu.Lock()
	l.Get, l.Sig = get, sig
	l.mu.Unlock()
}

func (l *Link) GetID() int         { return l.To.ID }
func (l *Link) GetAddress() string { return l.To.GetAddress() }

func (l *Link) GetEphemeralSecretParts(hrst signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	l.seen.Lock()
	l.seen.get++
	l.seen.Unlock()
	l.mu.RLock()
	f := l.Get
	l.mu.RUnlock()
	if f != nil {
		return f(hrst)
	}
	return l.To.GetEphemeralSecretParts(hrst)
}

func (l *Link) SetEphemeralSecretPartsAndSign(
	req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	l.seen.Lock()
	l.seen.sig++
	if len(l.seen.reqs) < 64 {
		l.seen.reqs = append(l.seen.reqs, req)
	}
	l.seen.Unlock()
	l.mu.RLock()
	f := l.Sig
	l.mu.RUnlock()
	if f != nil {
		return f(req)
	}
	return l.To.SetEphemeralSecretPartsAndSign(req)
}

func (l *Link) calls() (get, sig int64) {
	l.seen.Lock()
	defer l.seen.Unlock()
	return l.seen.get, l.seen.sig
}

func (l *Link) captured() []signer.CosignerSetEphemeralSecretPartsAndSignRequest {
	l.seen.Lock()
	defer l.seen.Unlock()
	return append([]signer.CosignerSetEphemeralSecretPartsAndSignRequest(nil), l.seen.reqs...)
}

// loadHRS reads a state file the way a restarting node does.
func loadHRS(path string) (HRS, signer.SignState, error) {
	s, err := signer.LoadSignState(path)
	return HRS{s.Height, s.Round, s.Step}, s, err
}

func copyFile(src, dst string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0o600)
}

var beyondOnce sync.Once
var beyondErr error = &signer.BeyondBlockError{}

// beyondError is the error a leader gives for a block that the cluster has gone beyond, as its type and with its text.
func beyondError() error {
	beyondOnce.Do(func() {
		cl := newCluster(2, 2)
		co := newCoord(cl, newLeaderSlots(1)[0], 1)
		s := signer.NewSignStateConsensus(9, 0, 3)
		must(co.Validator.SaveLastSignedStateInitiated(s))
		err := newMsg(chain, HRS{5, 0, 2}, 1, time.Unix(1600000000, 0).UTC()).SignWith(co.Validator)
		if _, ok := err.(*signer.BeyondBlockError); ok {
			beyondErr = err
		}
	})
	return beyondErr
}

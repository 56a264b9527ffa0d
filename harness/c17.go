package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
)

func init() { checks["C17"] = checkC17 }

// single is a single signer process over a home directory, with its chain nodes.
type single struct {
	c        *Check
	what     string
	chain    string
	priv     tmEd.PrivKey
	dir      string
	sentries []*Sentry
	proc     *Proc
	starts   int

	mu  sync.Mutex
	all []Outcome // successes
	log []string
}

var (
	singleChains = []string{"Verif-Chain.1", "verif-chain-1", "UPPER_7", "x", "chain with spaces", "kette-ü", "trailing.", strings.Repeat("Long-", 10)}
	singleCount  int32
)

func newSingle(c *Check, what string, sentries int) *single {
	s := &single{c: c, what: what, priv: genKey(), dir: newDir("single")}
	s.chain = singleChains[int(atomic.AddInt32(&singleCount, 1))%len(singleChains)]
	s.what += fmt.Sprintf(", chain %q", s.chain)
	var addrs []string
	for i := 0; i < sentries; i++ {
		s.sentries = append(s.sentries, newSentry())
		addrs = append(addrs, s.sentries[i].Addr)
	}
	out, code := runHx("config", "init", s.chain, strings.Join(addrs, ","), "--home", s.dir)
	if code != 0 {
		c.Violation("init-refused", "config init for a single signer: %s", out)
	}
	b, err := tmjson.MarshalIndent(filePVKey(s.priv), "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(s.dir, "priv_validator_key.json"), b, 0o600))
	return s
}

func (s *single) statePath() string {
	return filepath.Join(s.dir, "state", s.chain+"_priv_validator_state.json")
}

func (s *single) start() {
	s.starts++
	s.note("start")
	s.proc = startHx(filepath.Join(s.dir, fmt.Sprintf("log%d", s.starts)), "signer", "start", "--home", s.dir)
}

func (s *single) close() {
	if s.proc != nil && s.proc.running() {
		s.proc.kill()
	}
	for _, x := range s.sentries {
		x.Close()
	}
}

func (s *single) note(f string, a ...interface{}) {
	s.mu.Lock()
	s.log = append(s.log, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

func (s *single) history() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	return s.what + "\n" + strings.Join(l, "\n")
}

// watermark of the state file, in either format.
func (s *single) watermark() (HRS, error) {
	b, err := os.ReadFile(s.statePath())
	if err != nil {
		return HRS{}, err
	}
	var st privval.FilePVLastSignState
	if err := tmjson.Unmarshal(b, &st); err == nil {
		return HRS{st.Height, int64(st.Round), st.Step}, nil
	}
	h, _, err := loadHRS(s.statePath())
	return h, err
}

// ask makes one request and judges its answer against all answers so far.
func (s *single) ask(k int, m Msg, wait time.Duration) Outcome {
	o := s.sentries[k].Sign(m, wait)
	o.Coord = k
	c := s.c
	if o.Err != nil {
		s.note("node %d: %s: %v", k, m, o.Err)
		if len(o.Got.Signature()) > 0 {
			c.Violation("error-with-signature", "%s failed (%v) with signature %x\n%s", m, o.Err, o.Got.Signature(), s.history())
		}
		c.Count("requests refused or lost", 1)
		return o
	}
	s.note("node %d: %s: signed with time %d", k, m, o.Got.Time().UnixNano())
	// the answer may carry the timestamp of an earlier one
	if !sameRest(o.Got.WithTime(m.Time()), m) || len(o.Got.Signature()) != 64 ||
		!s.priv.PubKey().VerifySignature(o.Got.SignBytes(), o.Got.Signature()) {
		c.Violation("invalid-signature", "%s answered by %s with signature %x\n%s", m, o.Got, o.Got.Signature(), s.history())
		return o
	}
	c.Count("signatures", 1)
	s.mu.Lock()
	var bad string
	for _, p := range s.all {
		switch {
		case p.Got.HRS() == o.Got.HRS() && p.Got.Content() != o.Got.Content():
			bad = fmt.Sprintf("double sign: %s and %s", p.Got, o.Got)
		case p.Got.HRS() == o.Got.HRS() && string(p.Got.Signature()) != string(o.Got.Signature()):
			bad = fmt.Sprintf("two signatures for one slot: %s and %s", p.Got, o.Got)
		case p.Ret < o.Call && o.Got.HRS().Less(p.Got.HRS()):
			bad = fmt.Sprintf("signed %s after %s", o.Got, p.Got)
		}
	}
	s.all = append(s.all, o)
	s.mu.Unlock()
	if bad != "" {
		c.Violation("double-sign", "%s\n%s", bad, s.history())
	}
	if w, err := s.watermark(); err != nil || w.Less(o.Got.HRS()) {
		c.Violation("not-persisted", "%s signed, but the state file holds %s (%v)\n%s", o.Got, w, err, s.history())
	}
	return o
}

func (s *single) ended() bool {
	if s.proc.running() {
		return false
	}
	s.c.Violation("process-ended", "the process ended with status %d: %s\n%s", s.proc.code, s.proc.crash(), s.history())
	return true
}

// signNew asks for new heights until one is signed.
func (s *single) signNew(k int, at *HRS, r *mrand.Rand) bool {
	for i := 0; i < 4; i++ {
		at.H++
		at.R, at.S = int64(r.Intn(3)), randStep(r)
		o := s.ask(k, newMsg(s.chain, *at, r.Intn(3), fixedTime.Add(time.Duration(r.Int63n(1e12)))), 40*time.Second)
		if o.Err == nil {
			return true
		}
		if !s.proc.running() {
			return false
		}
	}
	return false
}

func checkC17(c *Check) {
	c.Rule("a case is one request to a real single signer process over the chain node protocol: new, repeated, conflicting, lower or "+
		"timestamp-only different, concurrent over several nodes, with kills and restarts in between, from initial states of every kind; "+
		"all answers of a home directory's life are checked together; distinct by request and state kind",
		"ed25519 verification and the canonical message encoding of the chain are right")
	c.Need("signatures", "restarts", "kills under load", "conflicts refused", "initial states", "damaged states refused", "concurrent rounds")
	r := c.Rng("c17")
	type job func(r *mrand.Rand)
	var jobs []job
	for _, kind := range c17Kinds {
		kind := kind
		jobs = append(jobs, func(r *mrand.Rand) { c17Initial(c, kind, r) })
	}
	for i := 0; i < c.size(8, 60); i++ {
		i := i
		jobs = append(jobs, func(r *mrand.Rand) { c17Life(c, i, r) })
	}
	jobs = append(jobs, func(r *mrand.Rand) { c17Damaged(c, r) })
	seeds := make([]int64, len(jobs))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(len(jobs), 6, func(i int) { jobs[i](mrand.New(mrand.NewSource(seeds[i]))) })
}

var c17Kinds = []string{"missing", "empty", "after init", "own format", "own format, far", "cosigner format", "cosigner format, height only",
	"own format, height only", "cosigner format, far", "key file named elsewhere"}

// c17Initial starts over a state of a kind and asks around its watermark.
func c17Initial(c *Check, kind string, r *mrand.Rand) {
	for step := int8(1); step <= 3; step++ {
		s := newSingle(c, "initial state: "+kind, 1)
		base := HRS{50, 2, step}
		if strings.Contains(kind, "far") {
			base = HRS{1 << 52, 1<<31 - 1, step}
		}
		m := newMsg(s.chain, base, 1, fixedTime)
		sig, err := s.priv.Sign(m.SignBytes())
		must(err)
		mark := HRS{}
		known := false
		must(os.Remove(s.statePath()))
		switch {
		case kind == "missing":
		case kind == "empty":
			must(os.WriteFile(s.statePath(), nil, 0o600))
		case kind == "after init":
			st := newState(s.statePath())
			_ = st
		case strings.HasPrefix(kind, "own format") || strings.HasPrefix(kind, "key file"):
			lss := privval.FilePVLastSignState{Height: base.H, Round: int32(base.R), Step: base.S, Signature: sig, SignBytes: m.SignBytes()}
			mark, known = base, true
			if strings.Contains(kind, "height only") {
				lss.Round, lss.Step, lss.Signature, lss.SignBytes = 0, 0, nil, nil
				mark, known = HRS{base.H, 0, 0}, false
			}
			b, err := tmjson.MarshalIndent(lss, "", "  ")
			must(err)
			must(os.WriteFile(s.statePath(), b, 0o600))
		case strings.HasPrefix(kind, "cosigner format"):
			st := newState(s.statePath())
			ssc := signer.SignStateConsensus{Height: base.H, Round: base.R, Step: base.S, Signature: sig, SignBytes: m.SignBytes()}
			mark, known = base, true
			if strings.Contains(kind, "height only") {
				ssc = signer.NewSignStateConsensus(base.H, 0, 0)
				mark, known = HRS{base.H, 0, 0}, false
			}
			must(st.Save(ssc, nil))
		}
		if strings.HasPrefix(kind, "key file") {
			other := filepath.Join(newDir("key"), "my key.json")
			must(os.Rename(filepath.Join(s.dir, "priv_validator_key.json"), other))
			f := filepath.Join(s.dir, "config.yaml")
			b, err := os.ReadFile(f)
			must(err)
			must(os.WriteFile(f, append([]byte("key-file: "+other+"\n"), b...), 0o644))
		}
		s.start()
		if known {
			o := s.ask(0, m, 40*time.Second)
			if o.Err != nil {
				c.Violation("repeat-refused", "the message signed last is refused: %v\n%s", o.Err, s.history())
			} else if string(o.Got.Signature()) != string(sig) {
				c.Violation("double-sign", "the message signed last gets another signature\n%s", s.history())
			}
			o = s.ask(0, m.WithTime(fixedTime.Add(time.Hour)), 40*time.Second)
			if o.Err == nil && string(o.Got.Signature()) != string(sig) {
				c.Violation("double-sign", "the message signed last gets another signature with another time\n%s", s.history())
			}
			vs := m.variants()
			delete(vs, "chain id") // the chain ID is the one of the configuration
			delete(vs, "chain id case")
			for _, name := range sortedKeys(vs) {
				for _, x := range []Msg{vs[name], vs[name].WithTime(fixedTime.Add(time.Minute))} {
					if o := s.ask(0, x, 40*time.Second); o.Err == nil {
						c.Violation("double-sign", "%s is signed, differs in %s from %s which the state file holds\n%s", x, name, m, s.history())
					}
					c.Count("conflicts refused", 1)
					c.Eval(kind + name + fmt.Sprint(step))
				}
			}
		}
		if mark.H > 0 {
			var lower []HRS
			for dh := int64(-1); dh <= 0; dh++ {
				for dr := int64(-1); dr <= 1; dr++ {
					for st := int8(1); st <= 3; st++ {
						h := HRS{mark.H + dh, mark.R + dr, st}
						if h.Less(mark) && h.R >= 0 && h.R < 1<<31 {
							lower = append(lower, h)
						}
					}
				}
			}
			lower = append(lower, HRS{1, 0, 1}, HRS{mark.H - 1, 1<<31 - 1, 3})
			for _, h := range lower {
				if o := s.ask(0, newMsg(s.chain, h, 1, fixedTime), 40*time.Second); o.Err == nil {
					c.Violation("double-sign", "%s is signed, below %s which the state file holds\n%s", h, mark, s.history())
				}
				c.Eval(kind + h.String())
			}
		}
		at := mark
		if !known && mark.H > 0 { // the first slot of the height is free
			at.S = 1
			if o := s.ask(0, newMsg(s.chain, at, 1, fixedTime), 40*time.Second); o.Err != nil {
				c.Violation("new-refused", "a new block is refused: %v\n%s", o.Err, s.history())
			}
		}
		if !s.signNew(0, &at, r) {
			if !s.ended() {
				c.Violation("new-refused", "new blocks are refused\n%s", s.history())
			}
		}
		c.Count("initial states", 1)
		s.close()
	}
}

// c17Life is the life of one home directory.
func c17Life(c *Check, i int, r *mrand.Rand) {
	n := 1 + r.Intn(4)
	s := newSingle(c, fmt.Sprintf("life %d with %d nodes", i, n), n)
	defer s.close()
	at := HRS{int64(r.Intn(5)), 0, 1}
	for k := 0; k < c.size(6, 12) && !c.Violated(); k++ {
		s.start()
		if k > 0 {
			c.Count("restarts", 1)
			// what was signed last, and conflicting with it
			s.mu.Lock()
			var last Outcome
			for _, o := range s.all {
				if last.Got.ChainID == "" || !o.Got.HRS().Less(last.Got.HRS()) {
					last = o
				}
			}
			s.mu.Unlock()
			if last.Got.ChainID != "" {
				m := last.Msg
				if r.Intn(2) == 0 {
					s.ask(r.Intn(n), m, 40*time.Second)
				}
				vs := m.variants()
				delete(vs, "chain id")
				delete(vs, "chain id case")
				names := sortedKeys(vs)
				s.ask(r.Intn(n), vs[names[r.Intn(len(names))]], 40*time.Second)
				c.Count("conflicts refused", 1)
			}
		}
		if !s.signNew(r.Intn(n), &at, r) {
			if !s.ended() {
				c.Violation("new-refused", "new blocks are refused after a restart\n%s", s.history())
			}
			return
		}
		if r.Intn(3) == 0 { // a quiet stop
			s.proc.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[r.Intn(3)])
			select {
			case <-s.proc.done:
			case <-time.After(15 * time.Second):
				s.proc.kill()
			}
			s.note("stop")
			continue
		}
		// load over all nodes, ended by a kill
		var wg sync.WaitGroup
		stop := make(chan struct{})
		cur := at
		var mu sync.Mutex
		for w := 0; w < n; w++ {
			w, r := w, mrand.New(mrand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; ; j++ {
					select {
					case <-stop:
						return
					default:
					}
					mu.Lock()
					if r.Intn(3) == 0 {
						if cur.S < 3 && r.Intn(3) > 0 {
							cur.S++
						} else if r.Intn(2) == 0 {
							cur = HRS{cur.H, cur.R + 1, 1 + int8(r.Intn(2))}
						} else {
							cur = HRS{cur.H + 1, 0, randStep(r)}
						}
					}
					h := cur
					mu.Unlock()
					if r.Intn(5) == 0 { // an old place
						h.H -= int64(r.Intn(2))
						h.S = randStep(r)
					}
					m := newMsg(s.chain, h, r.Intn(3), fixedTime.Add(time.Duration(r.Intn(4))*time.Second))
					s.ask(w, m, 3*time.Second)
					c.Eval(m.Key() + s.what)
				}
			}()
		}
		time.Sleep(time.Duration(20+r.Intn(250)) * time.Millisecond)
		if r.Intn(4) > 0 {
			s.proc.kill()
			s.note("kill")
			c.Count("kills under load", 1)
			close(stop)
			wg.Wait()
		} else {
			close(stop)
			wg.Wait()
			s.proc.kill()
			s.note("kill")
		}
		c.Count("concurrent rounds", 1)
		at = cur
		if w, err := s.watermark(); err != nil {
			c.Violation("unreadable", "after a kill the state file cannot be read: %v\n%s", err, s.history())
		} else if at.Less(w) {
			at = w
		}
	}
	if i == 0 {
		s.mu.Lock()
		c.Sample(s.log[:min(12, len(s.log))])
		s.mu.Unlock()
	}
}

// c17Damaged: a state that exists but cannot be read must not be taken as empty.
func c17Damaged(c *Check, r *mrand.Rand) {
	full := `{"height":"40","round":2,"step":3,"signature":"` + strings.Repeat("A", 86) + `==","signbytes":"0A0B"}`
	damaged := map[string]string{"cut": full[:len(full)/2], "cut by one": full[:len(full)-1], "not json": "height 40", "zeros": strings.Repeat("\x00", 100),
		"list": "[]", "height is an object": `{"height":{},"round":0,"step":0}`, "signature is no base64": `{"height":"40","round":2,"step":3,"signature":"!"}`,
		"height is too large": `{"height":"99999999999999999999","round":0,"step":0}`}
	var names []string
	for n := range damaged {
		names = append(names, n)
	}
	sortStrings(names)
	names = append(names, "a directory")
	parallel(len(names), 3, func(i int) {
		s := newSingle(c, "damaged state: "+names[i], 1)
		defer s.close()
		must(os.Remove(s.statePath()))
		if names[i] == "a directory" {
			must(os.Mkdir(s.statePath(), 0o755))
		} else {
			must(os.WriteFile(s.statePath(), []byte(damaged[names[i]]), 0o600))
		}
		s.start()
		select {
		case <-s.proc.done:
			if s.proc.code == 0 {
				c.Violation("damaged-accepted", "ended with success over %s", s.what)
			}
			c.Count("damaged states refused", 1)
		case <-time.After(4 * time.Second):
			at := HRS{39, 0, 1}
			o := s.ask(0, newMsg(s.chain, at, 1, fixedTime), 40*time.Second)
			if o.Err == nil {
				c.Violation("damaged-accepted", "runs and signs height 39 over %s", s.what)
			} else {
				c.Violation("damaged-accepted", "runs over %s: %v", s.what, o.Err)
			}
		}
		if names[i] != "a directory" {
			if b, err := os.ReadFile(s.statePath()); err != nil || string(b) != damaged[names[i]] {
				c.Violation("damaged-changed", "the state file was changed over %s", s.what)
			}
		}
		c.Eval("damaged " + names[i])
	})
}

var _ = json.Marshal

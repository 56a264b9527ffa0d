package main

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	tmEd "github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
	"google.golang.org/grpc"
	"google.golang.org/grpc/health"
	healthpb "google.golang.org/grpc/health/grpc_health_v1"
)

func init() { checks["C31"] = checkC31 }

func checkC31(c *Check) {
	c.Rule("a case is one step in the life of a signer set up and run with the real commands as documented (migration of a validator that has "+
		"signed, chain nodes added and removed, a node rebuilt from its share, a new chain ID, the way back to a single signer), after which "+
		"every chain node asks for new, old and conflicting blocks; or one command run with three homes on the machine, whose files are all "+
		"compared before and after; distinct by step or by command and home",
		"")
	c.Need("blocks signed", "requests at or below the migrated position", "migrations", "nodes rebuilt", "chain nodes added", "chain nodes removed",
		"chain IDs changed", "ways back", "nodes left out", "commands with three homes", "files compared")
	jobs := []func(r *mrand.Rand){}
	for k := 0; k < c.size(3, 10); k++ {
		k := k
		jobs = append(jobs, func(r *mrand.Rand) { c31Life(c, r, k) })
	}
	jobs = append(jobs, func(r *mrand.Rand) { c31Where(c, r) })
	parallel(len(jobs), 4, func(i int) { jobs[i](c.Rng(fmt.Sprint("job", i))) })
}

// tree is what is below a directory: path to kind, mode and digest.
func tree(dirs ...string) map[string]string {
	out := map[string]string{}
	for _, d := range dirs {
		filepath.Walk(d, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			v := info.Mode().String()
			if info.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				v += fmt.Sprintf(" %x", sha256.Sum256(b))
			}
			out[p] = v
			return nil
		})
	}
	return out
}

// changed are the paths that differ.
func changed(a, b map[string]string) (out []string) {
	for p, v := range a {
		if b[p] != v {
			out = append(out, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// machine is the computer of one signer.
type machine struct {
	id       int
	dir      string // of the user: $HOME
	home     string
	flag     bool // the home is given with --home
	keyFile  string
	cwd      string
	addr     string
	sentries []*Sentry
	proc     *Proc
	starts   int
	mode     string
}

func newMachine(id int, flag bool) *machine {
	m := &machine{id: id, dir: newDir(fmt.Sprintf("machine%d", id)), cwd: newDir("cwd"), flag: flag, mode: "cosigner",
		addr: fmt.Sprintf("127.0.0.1:%d", freePort())}
	m.home = filepath.Join(m.dir, ".horcrux")
	if flag {
		m.home = filepath.Join(m.dir, "elsewhere")
	}
	return m
}

func (m *machine) args(args []string) []string {
	if m.flag {
		return append(append([]string(nil), args...), "--home", m.home)
	}
	return args
}

func (m *machine) run(args ...string) (string, int) {
	cmd := exec.Command(hx(), m.args(args)...)
	cmd.Env = append(os.Environ(), "HOME="+m.dir)
	cmd.Dir = m.cwd
	b, err := cmd.CombinedOutput()
	if err != nil && cmd.ProcessState == nil {
		panic("harness: " + err.Error())
	}
	return string(b), cmd.ProcessState.ExitCode()
}

func (m *machine) start() {
	m.starts++
	log := filepath.Join(filepath.Dir(m.dir), fmt.Sprintf("%s.log%d", filepath.Base(m.dir), m.starts))
	f, err := os.Create(log)
	must(err)
	defer f.Close()
	p := &Proc{cmd: exec.Command(hx(), m.args([]string{m.mode, "start"})...), Log: log, done: make(chan struct{})}
	p.cmd.Env = append(os.Environ(), "HOME="+m.dir, "GOTRACEBACK=all")
	p.cmd.Dir = m.cwd
	p.cmd.Stdout, p.cmd.Stderr = f, f
	must(p.cmd.Start())
	m.proc = p
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
}

func (m *machine) stop(s syscall.Signal) {
	if m.proc == nil {
		return
	}
	m.proc.signal(s)
	select {
	case <-m.proc.done:
	case <-time.After(20 * time.Second):
		m.proc.kill()
	}
	m.proc = nil
}

func (m *machine) state(chainID, kind string) string {
	return filepath.Join(m.home, "state", chainID+kind)
}

const (
	pvKind    = "_priv_validator_state.json"
	shareKind = "_share_sign_state.json"
)

type life struct {
	c     *Check
	r     *mrand.Rand
	what  string
	t, n  int
	chain string
	priv  tmEd.PrivKey
	ms    []*machine
	led   *ledger
	at    HRS // highest asked for
	floor HRS // nothing new is signed here or below
}

func (x *life) fail(key, f string, a ...interface{}) bool {
	x.c.Violation(key, "%s\nhistory of %s", fmt.Sprintf(f, a...), x.led.history())
	return false
}

// command runs a command on a machine, which may change the named files below its home only.
func (x *life) command(m *machine, may []string, args ...string) (string, bool) {
	watched := func() map[string]string {
		all := tree(m.cwd)
		for _, o := range x.ms {
			if o.proc != nil && o.proc.running() { // it writes below these itself
				for p, v := range tree(o.dir) {
					if rel, err := filepath.Rel(o.home, p); err == nil && (strings.HasPrefix(rel, "state") || strings.HasPrefix(rel, "raft")) {
						continue
					}
					all[p] = v
				}
				continue
			}
			for p, v := range tree(o.dir) {
				all[p] = v
			}
		}
		return all
	}
	before := watched()
	out, code := m.run(args...)
	after := watched()
	x.led.note("machine %d: %v: status %d", m.id, args, code)
	x.c.Count("files compared", int64(len(after)))
	if code != 0 {
		return out, x.fail("command-failed", "%v on machine %d: status %d: %s", args, m.id, code, out)
	}
	ok := map[string]bool{}
	for _, f := range may {
		ok[filepath.Join(m.home, f)] = true
	}
	for _, p := range changed(before, after) {
		if !ok[p] {
			return out, x.fail("other-file-changed", "%v on machine %d changes %s", args, m.id, p)
		}
	}
	return out, true
}

// init makes the configuration of a machine as documented.
func (x *life) init(m *machine) bool {
	var peers, nodes []string
	for _, o := range x.ms {
		if o != m {
			peers = append(peers, fmt.Sprintf("tcp://%s|%d", o.addr, o.id))
		}
	}
	for _, s := range m.sentries {
		nodes = append(nodes, s.Addr)
	}
	args := []string{"config", "init", x.chain, strings.Join(nodes, ","), "-c", "-p", strings.Join(peers, ","), "-l", "tcp://" + m.addr,
		"-t", fmt.Sprint(x.t), "--timeout", "1500ms"}
	if m.keyFile != "" {
		args = append(args, "--keyfile", m.keyFile)
	}
	_, ok := x.command(m, []string{"", "config.yaml", "state", "state/" + x.chain + pvKind, "state/" + x.chain + shareKind},
		args...)
	return ok
}

// share is where the key share is kept.
func (m *machine) share() string {
	if m.keyFile != "" {
		return m.keyFile
	}
	return filepath.Join(m.home, "share.json")
}

func (x *life) ask(m *machine, s *Sentry, msg Msg) Outcome {
	o := s.Sign(msg, 20*time.Second)
	o.Coord = m.id
	x.led.add(o)
	if o.Err == nil {
		x.c.Count("blocks signed", 1)
	}
	return o
}

// works: every chain node of every machine gets a new block signed, and nothing old that is not known.
func (x *life) works(ms ...*machine) bool {
	if len(ms) == 0 {
		ms = x.ms
	}
	for _, m := range ms {
		for si, s := range m.sentries {
			var last error
			ok := false
			for end := time.Now().Add(90 * time.Second); !ok && time.Now().Before(end); {
				x.at = HRS{x.at.H + 1, int64(x.r.Intn(2)), randStep(x.r)}
				o := x.ask(m, s, newMsg(x.chain, x.at, x.r.Intn(3), fixedTime.Add(time.Duration(x.r.Intn(1000))*time.Second)))
				ok, last = o.Err == nil, o.Err
				if x.c.Violated() {
					return false
				}
				if !m.proc.running() {
					return x.fail("process-ended", "machine %d: the process ended with status %d: %s", m.id, m.proc.code, m.proc.crash())
				}
				if !ok {
					time.Sleep(100 * time.Millisecond)
				}
			}
			if !ok {
				return x.fail("does-not-sign", "chain node %d of machine %d gets no new block signed for 90 s: %v", si, m.id, last)
			}
			for k := 0; k < 2; k++ {
				x.old(m, s)
			}
			res, err := s.Call(pubKeyRequest(), 20*time.Second)
			if err == nil {
				pk, err := pubKeyOf(res)
				if err != nil || !pk.Equals(x.priv.PubKey()) {
					return x.fail("other-key", "machine %d answers with the public key %v (%v) instead of %v", m.id, pk, err, x.priv.PubKey())
				}
			}
		}
	}
	return !x.c.Violated()
}

// old asks for something at or below what was signed.
func (x *life) old(m *machine, s *Sentry) {
	at := HRS{x.at.H - int64(x.r.Intn(4)), int64(x.r.Intn(2)), randStep(x.r)}
	switch x.r.Intn(3) {
	case 0:
		at = HRS{x.floor.H - int64(x.r.Intn(3)), int64(x.r.Intn(2)), randStep(x.r)}
	case 1:
		at = x.floor
	}
	x.oldAt(m, s, at)
}

func (x *life) oldAt(m *machine, s *Sentry, at HRS) {
	if at.H < 1 {
		at.H = 1
	}
	if at.S == 0 {
		at.S = 1
	}
	msg := newMsg(x.chain, at, x.r.Intn(4), fixedTime.Add(time.Duration(x.r.Intn(3))*time.Second))
	x.led.mu.Lock()
	_, known := x.led.signd[at][msg.Content()]
	x.led.mu.Unlock()
	o := x.ask(m, s, msg)
	if !x.floor.Less(at) {
		x.c.Count("requests at or below the migrated position", 1)
		if o.Err == nil && !known {
			x.fail("signed-below", "machine %d signs %s, where the validator was at %s before", m.id, msg, x.floor)
		}
	}
}

func c31Life(c *Check, r *mrand.Rand, k int) {
	shape := [][2]int{{2, 3}, {2, 3}, {3, 4}, {3, 5}, {2, 2}}[k%5]
	x := &life{c: c, r: r, t: shape[0], n: shape[1], chain: []string{"cosmoshub-4", chain, "test.net_1"}[k%3], priv: genKey()}
	x.what = fmt.Sprintf("life %d, %d of %d", k, x.t, x.n)
	x.led = newLedger(c, &Cluster{T: x.t, N: x.n, Priv: x.priv}, x.what)
	for i := 1; i <= x.n; i++ {
		x.ms = append(x.ms, newMachine(i, (i+k)%3 == 0))
		m := x.ms[i-1]
		if (i+k)%4 == 0 {
			m.keyFile = filepath.Join(newDir("keys"), "my_share.json")
		}
		for j := 0; j < 1+(i+k)%2; j++ {
			m.sentries = append(m.sentries, newSentry())
		}
	}
	defer func() {
		for _, m := range x.ms {
			if m.proc != nil && m.proc.running() {
				m.proc.kill()
			}
			for _, s := range m.sentries {
				s.Close()
			}
		}
	}()
	if !x.migrate(k) {
		return
	}
	for _, m := range x.ms {
		m.start()
	}
	for end := time.Now().Add(6 * time.Second); time.Now().Before(end) && !c.Violated(); {
		for _, m := range x.ms { // before anything new
			x.oldAt(m, m.sentries[0], HRS{x.floor.H, int64(r.Intn(int(x.floor.R) + 1)), randStep(r)})
			x.oldAt(m, m.sentries[0], x.floor)
		}
		time.Sleep(100 * time.Millisecond)
	}
	if !x.works() {
		return
	}
	c.Count("migrations", 1)
	c.Eval(x.what + " migrated")
	steps := []string{"add", "rebuild", "remove", "chain", "without", "back"}
	switch k % 3 {
	case 1:
		steps = []string{"rebuild", "without", "add", "elect", "rebuild", "chain", "remove", "back"}
	case 2:
		steps = []string{"add", "chain", "rebuild", "without", "crash", "remove", "back"}
	}
	for i, s := range steps {
		if c.Violated() {
			return
		}
		m := x.ms[r.Intn(x.n)]
		x.led.note("step %s, machine %d", s, m.id)
		ok := true
		switch s {
		case "add":
			ok = x.add(m)
		case "remove":
			ok = x.remove()
		case "rebuild":
			ok = x.n < 3 || x.rebuild(m)
		case "without":
			ok = x.n < 3 || x.without()
		case "chain":
			ok = x.newChain(fmt.Sprintf("%s-next%d", x.chain, i))
		case "elect":
			_, ok = x.command(m, nil, "elect")
		case "crash":
			for _, m := range x.ms {
				m.proc.kill()
			}
			for _, m := range x.ms {
				m.start()
			}
		case "back":
			x.back()
			c.Eval(x.what + " back")
			return
		}
		if !ok {
			return
		}
		if last := x.at; s == "crash" || s == "chain" || s == "rebuild" {
			for end := time.Now().Add(4 * time.Second); time.Now().Before(end) && !c.Violated(); time.Sleep(100 * time.Millisecond) {
				for _, m := range x.ms { // before anything new
					x.oldAt(m, m.sentries[0], HRS{last.H - int64(r.Intn(2)), last.R, randStep(r)})
					x.oldAt(m, m.sentries[0], last)
				}
			}
		}
		if !x.works() {
			return
		}
		c.Eval(fmt.Sprint(x.what, " ", i, s))
	}
}

// migrate follows docs/migrating.md, from a validator that has signed.
func (x *life) migrate(k int) bool {
	r, c := x.r, x.c
	vdir := newDir("validator")
	pv := privval.NewFilePV(x.priv, filepath.Join(vdir, "priv_validator_key.json"), filepath.Join(vdir, "priv_validator_state.json"))
	pv.Save()
	at := HRS{int64(100 + r.Intn(1e6)), 0, 0}
	for i := 0; i < 20; i++ {
		switch r.Intn(3) {
		case 0:
			at = HRS{at.H + 1, 0, 1}
		case 1:
			at = HRS{at.H, at.R + 1, 1}
		case 2:
			if at.S == 3 {
				at = HRS{at.H + 1, 0, randStep(r)}
			} else {
				at.S++
			}
		}
		m := newMsg(x.chain, at, r.Intn(3), fixedTime)
		o := Outcome{Msg: m.Clone(), Call: tick()}
		must(m.SignWith(pv))
		o.Got, o.Ret = m, tick()
		x.led.add(o)
	}
	x.at, x.floor = at, at
	for _, m := range x.ms {
		if !x.init(m) {
			return false
		}
	}
	cwd := newDir("split")
	if b, err := runUmask(cwd, "022", "create-shares", filepath.Join(vdir, "priv_validator_key.json"), fmt.Sprint(x.t), fmt.Sprint(x.n)); err != nil {
		return x.fail("command-failed", "create-shares: %v: %s", err, b)
	}
	for _, m := range x.ms {
		must(os.Rename(filepath.Join(cwd, fmt.Sprintf("private_share_%d.json", m.id)), m.share()))
	}
	if left, _ := os.ReadDir(cwd); len(left) != 0 {
		return x.fail("files-left", "create-shares %d of %d also leaves %v", x.t, x.n, left)
	}
	if k%3 == 1 { // with the command
		x.floor = HRS{at.H + 1, 0, 0}
		x.at = x.floor
		for _, m := range x.ms {
			if _, ok := x.command(m, []string{"state", "state/" + x.chain + pvKind, "state/" + x.chain + shareKind}, "state", "set", fmt.Sprint(x.floor.H)); !ok {
				return false
			}
		}
	} else { // with the truncated file
		b := []byte(fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d\n}\n", at.H, at.R, at.S))
		for _, m := range x.ms {
			must(os.WriteFile(m.state(x.chain, pvKind), b, 0o600))
			must(os.WriteFile(m.state(x.chain, shareKind), b, 0o600))
		}
	}
	for _, m := range x.ms {
		out, ok := x.command(m, nil, "state", "show")
		if !ok {
			return false
		}
		if hs := shownHeights(out); len(hs) != 2 || hs[0] != x.floor.H || hs[1] != x.floor.H {
			return x.fail("state-shown", "machine %d is set to height %d, shown is %q", m.id, x.floor.H, out)
		}
	}
	return !c.Violated()
}

var shownHeight = regexp.MustCompile(`Height:\s+(\d+)`)

func shownHeights(out string) (hs []int64) {
	for _, g := range shownHeight.FindAllStringSubmatch(out, -1) {
		h, _ := strconv.ParseInt(g[1], 10, 64)
		hs = append(hs, h)
	}
	return hs
}

func (x *life) restart(m *machine) {
	m.stop([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[x.r.Intn(2)])
	m.start()
}

func (x *life) add(m *machine) bool {
	s := newSentry()
	stopped := x.r.Intn(2) == 0
	if stopped {
		m.stop(syscall.SIGTERM)
	}
	if _, ok := x.command(m, []string{"config.yaml"}, "config", "nodes", "add", s.Addr); !ok {
		s.Close()
		return false
	}
	x.restart(m)
	m.sentries = append(m.sentries, s)
	x.c.Count("chain nodes added", 1)
	return true
}

func (x *life) remove() bool {
	var m *machine
	for _, o := range x.ms {
		if len(o.sentries) > 1 && (m == nil || x.r.Intn(2) == 0) {
			m = o
		}
	}
	if m == nil {
		return true
	}
	i := x.r.Intn(len(m.sentries))
	s := m.sentries[i]
	if _, ok := x.command(m, []string{"config.yaml"}, "config", "nodes", "remove", s.Addr); !ok {
		return false
	}
	m.sentries = append(append([]*Sentry(nil), m.sentries[:i]...), m.sentries[i+1:]...)
	m.stop(syscall.SIGTERM)
	s.mu.Lock()
	conns := s.Conns
	s.mu.Unlock()
	m.start()
	if !x.works(m) {
		return false
	}
	time.Sleep(500 * time.Millisecond)
	s.mu.Lock()
	now := s.Conns
	s.mu.Unlock()
	s.Close()
	if now != conns {
		return x.fail("removed-node-dialed", "the removed chain node of machine %d got a session after the restart", m.id)
	}
	x.c.Count("chain nodes removed", 1)
	return true
}

// rebuild: the machine is lost but for its share.
func (x *life) rebuild(m *machine) bool {
	share, err := os.ReadFile(m.share())
	must(err)
	m.stop(syscall.SIGKILL)
	// the others go on
	var others []*machine
	for _, o := range x.ms {
		if o != m {
			others = append(others, o)
		}
	}
	if !x.works(others[x.r.Intn(len(others))]) {
		return false
	}
	must(os.RemoveAll(m.home))
	if !x.init(m) {
		return false
	}
	must(os.WriteFile(m.share(), share, 0o600))
	// the position is taken from the others
	high := int64(0)
	for _, o := range others {
		out, ok := x.command(o, nil, "state", "show")
		if !ok {
			return false
		}
		for _, h := range shownHeights(out) {
			if h > high {
				high = h
			}
		}
	}
	if _, ok := x.command(m, []string{"state", "state/" + x.chain + pvKind, "state/" + x.chain + shareKind}, "state", "set", fmt.Sprint(high+1)); !ok {
		return false
	}
	x.at.H = high + 2
	m.start()
	x.c.Count("nodes rebuilt", 1)
	return true
}

// without: one machine is gone, the others are configured to go on without it, until it is back.
func (x *life) without() bool {
	gone := x.ms[[]int{0, 0, x.n / 2, x.n - 1}[x.r.Intn(4)]]
	gone.stop(syscall.SIGTERM)
	var others []*machine
	addr := gone.addr
	for _, o := range x.ms {
		if o != gone {
			others = append(others, o)
		}
	}
	for _, o := range others {
		if _, ok := x.command(o, []string{"config.yaml"}, "config", "peers", "remove", fmt.Sprint(gone.id)); !ok {
			return false
		}
		x.restart(o)
	}
	if !x.works(others...) {
		return false
	}
	for _, o := range others {
		if _, ok := x.command(o, []string{"config.yaml"}, "config", "peers", "add", fmt.Sprintf("tcp://%s|%d", addr, gone.id)); !ok {
			return false
		}
		x.restart(o)
	}
	gone.start()
	x.c.Count("nodes left out", 1)
	return true
}

func (x *life) newChain(id string) bool {
	was := map[*machine][2]HRS{}
	for _, m := range x.ms {
		m.stop(syscall.SIGTERM)
		pv, _, err := loadHRS(m.state(x.chain, pvKind))
		must(err)
		sh, _, err := loadHRS(m.state(x.chain, shareKind))
		must(err)
		was[m] = [2]HRS{pv, sh}
	}
	for _, m := range x.ms {
		var may []string
		for _, ch := range []string{x.chain, id} {
			may = append(may, "state/"+ch+pvKind, "state/"+ch+shareKind)
		}
		if _, ok := x.command(m, append(may, "state", "config.yaml"), "config", "chain-id", "set", id); !ok {
			return false
		}
		pv, _, err := loadHRS(m.state(id, pvKind))
		sh, _, err2 := loadHRS(m.state(id, shareKind))
		if err != nil || err2 != nil || was[m] != [2]HRS{pv, sh} {
			return x.fail("position-lost", "machine %d was at %v under %s and is at %s and %s (%v, %v) under %s", m.id, was[m], x.chain, pv, sh, err, err2, id)
		}
	}
	x.chain = id
	for _, m := range x.ms {
		m.start()
	}
	x.c.Count("chain IDs changed", 1)
	return true
}

// back: a single signer takes over from the cosigners.
func (x *life) back() {
	var best HRS
	var from string
	for _, m := range x.ms {
		m.stop(syscall.SIGTERM)
		for _, kind := range []string{pvKind, shareKind} {
			if at, _, err := loadHRS(m.state(x.chain, kind)); err == nil && (from == "" || best.Less(at)) && kind == pvKind {
				best, from = at, m.state(x.chain, kind)
			}
		}
	}
	s := newMachine(99, x.r.Intn(2) == 0)
	s.mode = "signer"
	for k := 0; k < 2; k++ {
		s.sentries = append(s.sentries, newSentry())
	}
	x.ms = append(x.ms, s)
	if _, ok := x.command(s, []string{"", "config.yaml", "state", "state/" + x.chain + pvKind}, "config", "init", x.chain,
		s.sentries[0].Addr+","+s.sentries[1].Addr); !ok {
		return
	}
	b, err := tmjson.MarshalIndent(filePVKey(x.priv), "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(s.home, "priv_validator_key.json"), b, 0o600))
	must(copyFile(from, s.state(x.chain, pvKind)))
	x.floor = best
	s.start()
	for try := 0; try < 20; try++ { // at the position itself
		msg := newMsg(x.chain, best, try%4, fixedTime)
		x.led.mu.Lock()
		_, known := x.led.signd[best][msg.Content()]
		x.led.mu.Unlock()
		if o := x.askAgain(s, msg); o.Err == nil && !known {
			x.fail("signed-below", "the single signer signs %s, where the cluster was at %s before", msg, best)
			return
		}
	}
	if x.works(s) {
		x.c.Count("ways back", 1)
	}
}

// askAgain asks a single signer, whose answer may carry the timestamp of the first one.
func (x *life) askAgain(m *machine, msg Msg) Outcome {
	o := m.sentries[0].Sign(msg, 20*time.Second)
	o.Coord = m.id
	if o.Err == nil {
		o.Msg = o.Msg.WithTime(o.Got.Time())
	}
	x.led.add(o)
	return o
}

// ---- commands and homes ---------------------------------------------------------------------------

// homePlace is one of several complete homes on a machine.
type homePlace struct {
	name   string
	dir    string
	chain  string
	height int64
	priv   tmEd.PrivKey
	share  signer.CosignerKey
	sentry *Sentry
	elects *electServer
}

// electServer answers the calls of elect.
type electServer struct {
	proto.UnimplementedCosignerGRPCServer
	addr string
	srv  *grpc.Server
	mu   sync.Mutex
	got  []string
}

func (e *electServer) TransferLeadership(_ context.Context, req *proto.CosignerGRPCTransferLeadershipRequest) (
	*proto.CosignerGRPCTransferLeadershipResponse, error) {
	e.mu.Lock()
	e.got = append(e.got, req.GetLeaderID())
	e.mu.Unlock()
	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
}

func newElectServer() *electServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	e := &electServer{addr: ln.Addr().String(), srv: grpc.NewServer()}
	proto.RegisterCosignerGRPCServer(e.srv, e)
	hs := health.NewServer()
	hs.SetServingStatus("Leader", healthpb.HealthCheckResponse_SERVING)
	healthpb.RegisterHealthServer(e.srv, hs)
	go e.srv.Serve(ln)
	return e
}

func (e *electServer) calls() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.got)
}

func newHomePlace(name, dir string, height int64, single bool) *homePlace {
	p := &homePlace{name: name, dir: dir, chain: "chain-" + name, height: height, sentry: newSentry(), elects: newElectServer()}
	cl := newCluster(3, 5)
	p.priv, p.share = cl.Priv, cl.Parties[0].Key
	must(os.MkdirAll(filepath.Join(dir, "state"), 0o755))
	b, err := json.Marshal(&p.share)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "share.json"), b, 0o600))
	b, err = tmjson.MarshalIndent(filePVKey(p.priv), "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(dir, "priv_validator_key.json"), b, 0o600))
	st := []byte(fmt.Sprintf("{\"height\":\"%d\",\"round\":\"0\",\"step\":3}", height))
	must(os.WriteFile(filepath.Join(dir, "state", p.chain+pvKind), st, 0o600))
	cfg := fmt.Sprintf("home-dir: %s\nchain-id: %s\n", dir, p.chain)
	if !single {
		must(os.WriteFile(filepath.Join(dir, "state", p.chain+shareKind), st, 0o600))
		cfg += fmt.Sprintf("cosigner:\n  threshold: 3\n  shares: 5\n  p2p-listen: tcp://127.0.0.1:%d\n  peers:\n"+
			"  - share-id: 2\n    p2p-addr: tcp://%s\n  - share-id: 3\n    p2p-addr: tcp://127.0.0.1:%d\n  rpc-timeout: 1500ms\n",
			freePort(), p.elects.addr, freePort())
	}
	cfg += fmt.Sprintf("chain-nodes:\n- priv-val-addr: %s\n- priv-val-addr: tcp://127.0.0.1:9\n", p.sentry.Addr)
	must(os.WriteFile(filepath.Join(dir, "config.yaml"), []byte(cfg), 0o644))
	return p
}

func (p *homePlace) close() {
	p.sentry.Close()
	p.elects.srv.Stop()
}

// c31Where: each command works on the home it is given, or else on the one of the user, and on nothing else.
func c31Where(c *Check, r *mrand.Rand) {
	st := func(p *homePlace, kinds ...string) []string {
		out := []string{"state"}
		for _, k := range kinds {
			out = append(out, "state/"+p.chain+k)
		}
		return out
	}
	type cmd struct {
		args   []string
		single bool
		needs  func(p *homePlace) []string // files that change
		may    func(p *homePlace) []string
		shows  func(p *homePlace) string
		long   bool
		elect  bool
	}
	cfg := func(*homePlace) []string { return []string{"config.yaml"} }
	none := func(*homePlace) []string { return nil }
	// addresses are only known by their place
	cmds := []cmd{
		{args: []string{"config", "nodes", "add", "tcp://127.0.0.1:1111"}, needs: cfg},
		{args: []string{"config", "nodes", "remove", "tcp://127.0.0.1:9"}, needs: cfg},
		{args: []string{"config", "peers", "add", "tcp://127.0.0.1:2222|4"}, needs: cfg},
		{args: []string{"config", "peers", "remove", "3"}, needs: cfg},
		{args: []string{"config", "peers", "shares", "4"}, needs: cfg},
		{args: []string{"config", "chain-id", "set", "other-chain"}, needs: func(p *homePlace) []string {
			return append(st(p, pvKind, shareKind), "config.yaml", "state/other-chain"+pvKind, "state/other-chain"+shareKind)
		}},
		{args: []string{"config", "init", "new-chain", "tcp://127.0.0.1:3333", "-o", "-c", "-t", "2", "-p", "tcp://127.0.0.1:4444|2,tcp://127.0.0.1:4445|3",
			"-l", "tcp://127.0.0.1:4446"}, needs: func(p *homePlace) []string {
			return []string{"config.yaml", "state", "state/new-chain" + pvKind, "state/new-chain" + shareKind}
		}},
		{args: []string{"config", "init", "new-chain", "tcp://127.0.0.1:3333", "-o"}, single: true, needs: func(p *homePlace) []string {
			return []string{"config.yaml", "state", "state/new-chain" + pvKind}
		}},
		{args: []string{"state", "set", "900000"}, needs: func(p *homePlace) []string { return st(p, pvKind, shareKind)[1:] },
			may: func(p *homePlace) []string { return st(p) }},
		{args: []string{"state", "show"}, needs: none, shows: func(p *homePlace) string { return fmt.Sprint(p.height) }},
		{args: []string{"cosigner", "address"}, needs: none, shows: func(p *homePlace) string { return p.priv.PubKey().Address().String() }},
		{args: []string{"elect"}, needs: none, elect: true},
		{args: []string{"elect", "2"}, needs: none, elect: true},
		{args: []string{"version"}, needs: none},
		{args: []string{"signer", "start"}, single: true, long: true, needs: func(p *homePlace) []string { return st(p, pvKind)[1:] },
			may: func(p *homePlace) []string { return st(p) }},
		{args: []string{"cosigner", "start"}, long: true, needs: func(p *homePlace) []string {
			return []string{"raft", "raft/logs.dat", "raft/stable.dat", "raft/snapshots"}
		},
			may: func(p *homePlace) []string { return append(st(p, pvKind, shareKind), "", "raft/snapshots/permTest") }},
		{args: []string{"create-shares", "KEY", "2", "3"}, needs: none},
	}
	for round := 0; round < c.size(1, 3); round++ {
		for _, k := range cmds {
			for _, how := range []string{"default", "home", "relative"} {
				if c.Violated() {
					return
				}
				if how == "relative" && k.long { // the home is part of the configuration
					continue
				}
				user, cwd, other := newDir("user"), newDir("cwd"), newDir("other")
				hs := []int64{1000 + r.Int63n(1e5), 200000 + r.Int63n(1e5), 400000 + r.Int63n(1e5)}
				def := newHomePlace("user", filepath.Join(user, ".horcrux"), hs[0], k.single)
				oth := newHomePlace("other", other, hs[1], k.single)
				here := newHomePlace("cwd", cwd, hs[2], k.single)
				in := newHomePlace("cwdhidden", filepath.Join(cwd, ".horcrux"), hs[2], k.single)
				all := []*homePlace{def, oth, here, in}
				target, args := def, append([]string(nil), k.args...)
				for i, a := range args {
					if a == "KEY" {
						args[i] = filepath.Join(user, "key.json")
						must(copyFile(filepath.Join(def.dir, "priv_validator_key.json"), args[i]))
					}
				}
				switch how {
				case "home":
					target, args = oth, append(args, "--home", other)
				case "relative":
					rel, err := filepath.Rel(cwd, other)
					must(err)
					target, args = oth, append(args, "--home", rel)
				}
				before := tree(user, cwd, other)
				calls := target.elects.calls()
				x := exec.Command(hx(), args...)
				x.Dir = cwd
				x.Env = append(os.Environ(), "HOME="+user)
				what := fmt.Sprintf("%v (%s)", k.args, how)
				var out []byte
				ok := true
				if k.long {
					out, ok = c31Long(c, x, k.single, target, all, what)
				} else {
					var err error
					out, err = x.CombinedOutput()
					if err != nil {
						c.Violation("command-failed", "%s: %v: %s", what, err, out)
						ok = false
					}
				}
				after := tree(user, cwd, other)
				for _, p := range all {
					p.close()
				}
				if !ok {
					return
				}
				c.Count("commands with three homes", 1)
				c.Count("files compared", int64(len(after)))
				c.Eval(what)
				may := map[string]bool{}
				for _, f := range k.needs(target) {
					may[filepath.Join(target.dir, f)] = true
				}
				if k.may != nil {
					for _, f := range k.may(target) {
						may[filepath.Join(target.dir, f)] = true
					}
				}
				if k.args[0] == "create-shares" { // into the current directory
					may[cwd] = true
					for i := 1; i <= 3; i++ {
						may[filepath.Join(cwd, fmt.Sprintf("private_share_%d.json", i))] = true
					}
				}
				diff := map[string]bool{}
				for _, p := range changed(before, after) {
					diff[p] = true
					if !may[p] {
						c.Violation("other-file-changed", "%s, home %s, user's home %s, current directory %s: changes %s", what, target.dir, def.dir, cwd, p)
						return
					}
				}
				for _, f := range k.needs(target) {
					p := filepath.Join(target.dir, f)
					if !diff[p] && f != "state" {
						c.Violation("home-not-changed", "%s, home %s, user's home %s, current directory %s: %s is as before", what, target.dir, def.dir, cwd, p)
						return
					}
				}
				if k.shows != nil && !strings.Contains(string(out), k.shows(target)) {
					c.Violation("other-home-shown", "%s: %q does not show %s", what, out, k.shows(target))
					return
				}
				if k.elect && target.elects.calls() != calls+1 {
					c.Violation("other-cluster-called", "%s: the cluster of the home was called %d times: %s", what, target.elects.calls()-calls, out)
					return
				}
			}
		}
	}
}

// c31Long runs a signer until its chain node has got what it can, and stops it.
func c31Long(c *Check, x *exec.Cmd, single bool, target *homePlace, all []*homePlace, what string) (out []byte, ok bool) {
	log, err := os.Create(filepath.Join(scratchDir(), fmt.Sprintf("long-%d.log", tick())))
	must(err)
	defer log.Close()
	x.Stdout, x.Stderr = log, log
	must(x.Start())
	done := make(chan struct{})
	go func() { x.Wait(); close(done) }()
	defer func() {
		x.Process.Signal(syscall.SIGTERM)
		select {
		case <-done:
		case <-time.After(15 * time.Second):
			x.Process.Kill()
			<-done
		}
		out, _ = os.ReadFile(log.Name())
		for _, p := range all {
			p.sentry.mu.Lock()
			n := p.sentry.Conns
			p.sentry.mu.Unlock()
			if p != target && n > 0 {
				c.Violation("other-node-dialed", "%s: the chain node of %s got a session", what, p.dir)
				ok = false
			}
		}
	}()
	res, err := target.sentry.Call(pubKeyRequest(), 60*time.Second)
	if err != nil {
		b, _ := os.ReadFile(log.Name())
		c.Violation("home-not-served", "%s: the chain node of %s gets no answer: %v\n%s", what, target.dir, err, b)
		return nil, false
	}
	if pk, err := pubKeyOf(res); err != nil || !pk.Equals(target.priv.PubKey()) {
		c.Violation("other-key", "%s: answered with the public key %v (%v) instead of %v", what, pk, err, target.priv.PubKey())
		return nil, false
	}
	if single {
		m := newMsg(target.chain, HRS{target.height + 1, 0, 2}, 1, fixedTime)
		if o := target.sentry.Sign(m, 20*time.Second); o.Err != nil || !checkOutcome(c, target.priv.PubKey(), o) {
			c.Violation("does-not-sign", "%s: %s, at %d: %v", what, m, target.height, o.Err)
			return nil, false
		}
	}
	return nil, true
}

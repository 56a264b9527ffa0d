package main

import (
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() { checks["C19"] = checkC19 }

func checkC19(c *Check) {
	c.Rule("a case is one config init with generated flags, or one start of a cosigner or single signer process over a generated configuration "+
		"and home; accepted or rejected is compared with the rules, and what was written with the flags; distinct by (command, what is wrong where, shape)",
		"an accepted start is one that listens on its address or reaches its chain node; the range of thresholds config init accepts below a majority is not judged")
	c.Need("inits accepted", "inits rejected", "starts accepted", "starts rejected", "single inits accepted", "single inits rejected", "single starts accepted", "single starts rejected",
		"inits over a configuration refused", "inits over a configuration")
	n := c.size(260, 3000)
	parallel(n, 8, func(i int) {
		if !c.Violated() {
			c19Init(c, c.Rng(fmt.Sprint("init", i)), i)
		}
	})
	c19Starts(c)
	c19SingleStarts(c)
}

// fault is one way in which a configuration for a cosigner breaks the rules.
type fault struct {
	name string
	// make changes the model; it tells whether that broke a rule
	make func(r *mrand.Rand, m *cfgModel) bool
}

func anyOf(r *mrand.Rand, s ...string) string { return s[r.Intn(len(s))] }

var badTimeouts = []string{"abc", "1", "1x", "1.5", "ms", "-", "1s2", "1 s", "１s"}

var cfgFaults = []fault{
	{"same share number twice", func(r *mrand.Rand, m *cfgModel) bool {
		p := m.Cosigner.Peers
		if len(p) < 2 {
			return false
		}
		i := r.Intn(len(p) - 1)
		p[i+1+r.Intn(len(p)-i-1)].ID = p[i].ID
		return true
	}},
	{"share number out of range", func(r *mrand.Rand, m *cfgModel) bool {
		p := m.Cosigner.Peers
		p[r.Intn(len(p))].ID = []int{0, -1, m.Cosigner.Shares + 1, m.Cosigner.Shares + 7, 1 << 32, -m.Cosigner.Shares}[r.Intn(6)]
		return true
	}},
	{"chain ID empty", func(r *mrand.Rand, m *cfgModel) bool { m.ChainID = ""; return true }},
	{"timeout", func(r *mrand.Rand, m *cfgModel) bool {
		m.Cosigner.Timeout = anyOf(r, badTimeouts...)
		return true
	}},
	{"empty timeout", func(r *mrand.Rand, m *cfgModel) bool { m.Cosigner.Timeout = ""; return true }},
	{"listen address", func(r *mrand.Rand, m *cfgModel) bool { m.Cosigner.Listen = anyOf(r, badAddrs...); return true }},
	{"chain node", func(r *mrand.Rand, m *cfgModel) bool {
		m.Nodes[r.Intn(len(m.Nodes))].Addr = anyOf(r, badAddrs...)
		return true
	}},
	{"threshold above the peers", func(r *mrand.Rand, m *cfgModel) bool {
		m.Cosigner.Threshold = len(m.Cosigner.Peers) + 2 + r.Intn(3)
		return true
	}},
}

// c19Init runs config init and compares.
func c19Init(c *Check, r *mrand.Rand, i int) {
	dir := newDir("init")
	home := dir
	inner := r.Intn(3) == 0
	if inner { // below a directory which does not exist
		home = filepath.Join(dir, "not", "there yet")
	}
	m := randomCfg(r, home)
	single := i%4 == 3
	if single {
		m.Cosigner = nil
	}
	wrong := "nothing"
	args := []string(nil)
	if i%3 != 0 {
		if single {
			switch r.Intn(3) {
			case 0:
				m.ChainID, wrong = "", "chain ID empty"
			case 1:
				m.Nodes, wrong = nil, "no chain node"
			case 2:
				m.Nodes[r.Intn(len(m.Nodes))].Addr, wrong = anyOf(r, badAddrs...), "chain node"
			}
		} else {
			switch k := r.Intn(len(cfgFaults) + 6); {
			case k < len(cfgFaults):
				if cfgFaults[k].make(r, &m) {
					wrong = cfgFaults[k].name
				}
			case k == len(cfgFaults):
				m.Cosigner.Listen, wrong = fmt.Sprintf("tcp://%s:%d", anyOf(r, "0.0.0.0", "0.0.0.0", "[::]", "[0:0::0]"), r.Intn(65536)), "listen on any address"
			case k == len(cfgFaults)+1:
				m.Cosigner.Listen, wrong = anyOf(r, "", "tcp://10.0.0.1", "10.0.0.1", "tcp://", "node", "tcp://:2222", "tcp://10.0.0.1:"), "listen address incomplete"
			case k == len(cfgFaults)+2: // broken peers
				args = m.initArgs(home, r)
				for j := range args {
					if args[j] == "-p" {
						ps := strings.Split(args[j+1], ",")
						x := r.Intn(len(ps))
						ps[x] = anyOf(r, "tcp://a:1", "tcp://a:1|", "tcp://a:1|x", "tcp://a:1|2|3", "|", "", "tcp://a:1|2.0", strings.Replace(ps[x], "|", "|0x", 1), strings.Replace(ps[x], "|", "|_", 1), "tcp://a:1| 2", "2", "tcp://a:1|99999999999999999999")
						args[j+1] = strings.Join(ps, ",")
					}
				}
				wrong = "peer malformed"
			case k == len(cfgFaults)+3:
				args = m.initArgs(home, r)
				for j := range args {
					if args[j] == "-t" {
						args[j+1] = anyOf(r, "x", "", "1.5", "2 of 3")
					}
				}
				wrong = "threshold malformed"
			case k == len(cfgFaults)+4:
				args = append(m.initArgs(home, r), "more")
				if len(m.Nodes) == 0 {
					args = append(args, "more")
				}
				wrong = "too many arguments"
			case k == len(cfgFaults)+5:
				m.Nodes = nil // that is allowed for a cosigner
			}
		}
	}
	if args == nil {
		args = m.initArgs(home, r)
	}
	// without --home
	var env []string
	if r.Intn(4) == 0 && home == dir {
		env = []string{"HOME=" + dir}
		home = filepath.Join(dir, ".horcrux")
		m.HomeDir = home
		for j := range args {
			if args[j] == "--home" {
				args = append(args[:j:j], args[j+2:]...)
				break
			}
		}
	}
	before := treeImage(dir)
	out, code := runHxEnv(env, args...)
	ctx := fmt.Sprintf("%q (wrong: %s): status %d: %s", args, wrong, code, tailString(out, 500))
	kind := "inits"
	if single {
		kind = "single inits"
	}
	c.Eval(fmt.Sprintf("init %v %s shares %d", single, wrong, len(args)))
	if wrong != "nothing" {
		if code == 0 {
			c.Violation("init-accepts", "%s", ctx)
		}
		if after := treeImage(dir); after != before {
			c.Violation("rejected-init-writes", "%s\nbefore:\n%s\nafter:\n%s", ctx, before, after)
		}
		c.Count(kind+" rejected", 1)
		return
	}
	if code != 0 {
		c.Violation("init-rejects", "%s", ctx)
		return
	}
	c.Count(kind+" accepted", 1)
	got, err := readCfg(home)
	if err != nil || !got.equal(m) {
		c.Violation("init-differs", "%s\nwritten (%v):\n%s\nshould be:\n%s", ctx, err, got.text(), m.text())
		return
	}
	files := []string{"priv_validator"}
	if !single {
		files = append(files, "share_sign")
	}
	for _, f := range files {
		p := filepath.Join(home, "state", m.ChainID+"_"+f+"_state.json")
		s, ok := readRaw(c, p)
		if ok && !s.equal(rawState{}) {
			c.Violation("init-state", "%s\n%s holds %s", ctx, p, s)
		}
	}
	// once more over it
	before = treeImage(dir)
	if _, code = runHxEnv(env, args...); code == 0 {
		c.Violation("init-overwrites", "%s; the same again is accepted without -o", ctx)
	}
	if after := treeImage(dir); after != before {
		c.Violation("rejected-init-writes", "%s; the same again\nbefore:\n%s\nafter:\n%s", ctx, before, after)
	}
	c.Count("inits over a configuration refused", 1)
	m2 := m.clone()
	m2.Nodes = distinctNodes(r, 2)
	args2 := m2.initArgs(home, r)
	args2 = append([]string{"config", "init", "-o"}, args2[2:]...)
	if out, code = runHx(args2...); code != 0 {
		c.Violation("init-rejects", "%q: status %d: %s", args2, code, out)
	}
	if got, err = readCfg(home); err != nil || !got.equal(m2) {
		c.Violation("init-differs", "%q\nwritten (%v):\n%s\nshould be:\n%s", args2, err, got.text(), m2.text())
	}
	c.Count("inits over a configuration", 1)
}

// started waits until the process has ended or is up.
func started(p *Proc, up func() bool) (ok, ended bool) {
	end := time.Now().Add(120 * time.Second)
	for time.Now().Before(end) {
		if !p.running() {
			return false, true
		}
		if up() {
			// it has to stay up
			select {
			case <-p.done:
				return false, true
			case <-time.After(300 * time.Millisecond):
				return true, false
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false, false
}

func listens(addr string) bool {
	cc, err := net.DialTimeout("tcp", addr, time.Second)
	if err != nil {
		return false
	}
	cc.Close()
	return true
}

type startCase struct {
	name   string
	change func(r *mrand.Rand, h *Home, m *cfgModel) bool // false: not for this shape
	ok     bool
}

const beyondShares = "own share beyond the shares" // of the last cosigner

func c19Starts(c *Check) {
	cases := []startCase{
		{"nothing", func(r *mrand.Rand, h *Home, m *cfgModel) bool { return true }, true},
		{"key file elsewhere", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.KeyFile = filepath.Join(h.Dir, "elsewhere.json")
			must(os.Rename(filepath.Join(h.Dir, "share.json"), m.KeyFile))
			return true
		}, true},
		{"no validator state", func(r *mrand.Rand, h *Home, m *cfgModel) bool { must(os.Remove(h.pvPath())); return true }, true},
		{"no chain nodes", func(r *mrand.Rand, h *Home, m *cfgModel) bool { m.Nodes = nil; return true }, true},
		{"one peer not listed", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			if len(m.Cosigner.Peers) < m.Cosigner.Threshold {
				return false
			}
			i := r.Intn(len(m.Cosigner.Peers))
			m.Cosigner.Peers = append(m.Cosigner.Peers[:i], m.Cosigner.Peers[i+1:]...)
			return true
		}, true},
		{"own share among the peers", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.Cosigner.Peers[r.Intn(len(m.Cosigner.Peers))].ID = h.ID
			return true
		}, false},
		{beyondShares, func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			var keep []cfgPeer
			for _, p := range m.Cosigner.Peers {
				if p.ID < h.ID && len(keep) < h.ID-2 {
					keep = append(keep, p)
				}
			}
			if len(keep) == 0 || len(keep)+1 < m.Cosigner.Threshold {
				return false
			}
			m.Cosigner.Peers, m.Cosigner.Shares = keep, h.ID-1
			return true
		}, false},
		{"threshold not above half", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.Cosigner.Threshold = m.Cosigner.Shares / 2
			return true
		}, false},
		{"threshold small", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.Cosigner.Threshold = []int{1, 0, -1, -2, -256}[r.Intn(5)]
			return m.Cosigner.Threshold*2 <= m.Cosigner.Shares
		}, false},
		{"shares raised", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.Cosigner.Shares = 2*m.Cosigner.Threshold + r.Intn(3)
			return true
		}, false},
		{"shares lowered", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.Cosigner.Shares -= 1 + r.Intn(m.Cosigner.Shares)
			return true
		}, false},
		{"key file missing", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			must(os.Remove(filepath.Join(h.Dir, "share.json")))
			return true
		}, false},
		{"key file set and missing", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.KeyFile = filepath.Join(h.Dir, "nowhere.json")
			return true
		}, false},
		{"key file damaged", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			p := filepath.Join(h.Dir, "share.json")
			b, err := os.ReadFile(p)
			must(err)
			must(os.WriteFile(p, [][]byte{nil, b[:len(b)/2], []byte("null"), []byte("{}"), []byte("[]"), b[1:]}[r.Intn(6)], 0o600))
			return true
		}, false},
		{"share state missing", func(r *mrand.Rand, h *Home, m *cfgModel) bool { must(os.Remove(h.sharePath())); return true }, false},
		{"share state of another chain", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			m.ChainID = "another-chain"
			return true
		}, false},
		{"share state empty", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			must(os.WriteFile(h.sharePath(), nil, 0o600))
			return true
		}, false},
		{"share state damaged", func(r *mrand.Rand, h *Home, m *cfgModel) bool {
			must(os.WriteFile(h.sharePath(), []byte("{\"height\": \"12"), 0o600))
			return true
		}, false},
		{"no cosigner section", func(r *mrand.Rand, h *Home, m *cfgModel) bool { m.Cosigner = nil; return true }, false},
		{"no configuration", func(r *mrand.Rand, h *Home, m *cfgModel) bool { *m = cfgModel{}; return true }, false},
		{"listen address taken", func(r *mrand.Rand, h *Home, m *cfgModel) bool { m.Cosigner.Listen = h.Sentries[0].Addr; return true }, false},
	}
	for _, f := range cfgFaults {
		f := f
		cases = append(cases, startCase{f.name, func(r *mrand.Rand, h *Home, m *cfgModel) bool { return f.make(r, m) }, false})
	}
	shapes := [][2]int{{2, 2}, {2, 3}, {3, 4}, {3, 5}, {4, 6}, {3, 3}}
	rounds := c.size(2, 12)
	type job struct {
		c    startCase
		t, n int
		k    int
	}
	var jobs []job
	for k := 0; k < rounds; k++ {
		for i, sc := range cases {
			s := shapes[(i+k*5)%len(shapes)]
			if sc.name == beyondShares { // makes sense for these only
				s = [][2]int{{2, 3}, {3, 4}, {4, 6}}[k%3]
			}
			jobs = append(jobs, job{sc, s[0], s[1], k})
		}
		for _, s := range shapes {
			jobs = append(jobs, job{cases[0], s[0], s[1], k})
		}
	}
	parallel(len(jobs), 8, func(i int) {
		if c.Violated() {
			return
		}
		j := jobs[i]
		r := c.Rng(fmt.Sprint("start", i))
		hc := newHomes(j.t, j.n, 1+r.Intn(3))
		defer hc.stopAll()
		h := hc.Nodes[r.Intn(j.n)]
		if j.c.name == beyondShares {
			h = hc.Nodes[j.n-1]
		}
		m, err := readCfg(h.Dir)
		must(err)
		r.Shuffle(len(m.Cosigner.Peers), func(a, b int) { p := m.Cosigner.Peers; p[a], p[b] = p[b], p[a] })
		if !j.c.change(r, h, &m) {
			return
		}
		if m.ChainID == "" && m.Cosigner == nil {
			must(os.Remove(filepath.Join(h.Dir, "config.yaml")))
		} else {
			m.write(h.Dir)
		}
		before := treeImage(filepath.Join(h.Dir, "state"))
		h.start()
		ok, ended := started(h.Proc, func() bool { return h.Addr != "" && listens(h.Addr) })
		b, _ := os.ReadFile(h.Proc.Log)
		ctx := fmt.Sprintf("start %d of %d, %s\n%s\n%s", j.t, j.n, j.c.name, m.text(), tailString(string(b), 1500))
		c.Eval(fmt.Sprintf("start %s %d of %d", j.c.name, j.t, j.n))
		if j.c.ok {
			if !ok {
				c.Violation("start-refused", "status %d (ended %v): %s", h.Proc.code, ended, ctx)
			}
			c.Count("starts accepted", 1)
			return
		}
		if !ended {
			c.Violation("start-accepted", "%s", ctx)
			return
		}
		if h.Proc.code == 0 {
			c.Violation("refused-with-success", "%s", ctx)
		}
		// no signature may have been prepared with that configuration
		if after := treeImage(filepath.Join(h.Dir, "state")); after != before && !strings.Contains(after, "another-chain") {
			c.Violation("refused-start-writes", "%s\nstate before:\n%s\nafter:\n%s", ctx, before, after)
		}
		c.Count("starts rejected", 1)
	})
}

func c19SingleStarts(c *Check) {
	type sc struct {
		name   string
		change func(s *single, m *cfgModel)
		ok     bool
	}
	cases := []sc{
		{"nothing", func(s *single, m *cfgModel) {}, true},
		{"no state", func(s *single, m *cfgModel) { must(os.Remove(s.statePath())) }, true},
		{"empty state", func(s *single, m *cfgModel) { must(os.WriteFile(s.statePath(), nil, 0o600)) }, true},
		{"key file elsewhere", func(s *single, m *cfgModel) {
			m.KeyFile = filepath.Join(s.dir, "elsewhere.json")
			must(os.Rename(filepath.Join(s.dir, "priv_validator_key.json"), m.KeyFile))
		}, true},
		{"chain ID empty", func(s *single, m *cfgModel) { m.ChainID = "" }, false},
		{"no chain nodes", func(s *single, m *cfgModel) { m.Nodes = nil }, false},
		{"first chain node", func(s *single, m *cfgModel) { m.Nodes = []cfgNode{{badAddrs[0]}, m.Nodes[0]} }, false},
		{"middle chain node", func(s *single, m *cfgModel) { m.Nodes = []cfgNode{m.Nodes[0], {badAddrs[1]}, m.Nodes[0]} }, false},
		{"last chain node", func(s *single, m *cfgModel) { m.Nodes = append(m.Nodes, cfgNode{badAddrs[2]}) }, false},
		{"key file missing", func(s *single, m *cfgModel) { must(os.Remove(filepath.Join(s.dir, "priv_validator_key.json"))) }, false},
		{"key file damaged", func(s *single, m *cfgModel) {
			must(os.WriteFile(filepath.Join(s.dir, "priv_validator_key.json"), []byte("{\"address\""), 0o600))
		}, false},
		{"state damaged", func(s *single, m *cfgModel) { must(os.WriteFile(s.statePath(), []byte("{\"height\": \"12"), 0o600)) }, false},
	}
	parallel(len(cases), 8, func(i int) {
		s := newSingle(c, cases[i].name, 1)
		defer s.close()
		m, err := readCfg(s.dir)
		must(err)
		cases[i].change(s, &m)
		m.write(s.dir)
		s.start()
		ok, ended := started(s.proc, func() bool { _, err := s.sentries[0].session(time.Second); return err == nil })
		b, _ := os.ReadFile(s.proc.Log)
		ctx := fmt.Sprintf("single start, %s\n%s\n%s", cases[i].name, m.text(), tailString(string(b), 1500))
		c.Eval("single start " + cases[i].name)
		if cases[i].ok {
			if !ok {
				c.Violation("start-refused", "status %d (ended %v): %s", s.proc.code, ended, ctx)
			}
			c.Count("single starts accepted", 1)
			return
		}
		if !ended {
			c.Violation("start-accepted", "%s", ctx)
		} else if s.proc.code == 0 {
			c.Violation("refused-with-success", "%s", ctx)
		}
		c.Count("single starts rejected", 1)
	})
}

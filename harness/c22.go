package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { checks["C22"] = checkC22 }

func checkC22(c *Check) {
	c.Rule("a case is one state set or state show by the real command over a home whose two state files hold generated positions; files before and after "+
		"are read by an own parser and compared with the height asked for; distinct by (height relative to both files, positions, argument form, fault)",
		"durable means written to a file that is synced and renamed before the command ends, as seen in its system calls",
		"the process that must not be running is one named horcrux")
	c.Need("heights set", "heights refused", "states shown", "kills", "kept or set after a kill", "system calls failed", "runs refused while running", "runs after it ended", "traces",
		"clusters started after set", "sets without --home")
	if b, _ := exec.Command("pgrep", "horcrux").Output(); len(b) > 0 {
		c.Inconclusive("a process named horcrux runs outside of this check: %s", b)
		return
	}
	parallel(c.size(48, 600), 8, func(i int) {
		if !c.Violated() {
			c22Sequence(c, c.Rng(fmt.Sprint("seq", i)), i)
		}
	})
	c22Faults(c)
	parallel(c.size(2, 8), 4, func(i int) { c22Cluster(c, c.Rng(fmt.Sprint("cluster", i))) })
	c22Running(c)
}

type stateHome struct {
	dir, home, chain string
	env              []string
	paths            [2]string
}

func newStateHome(r *mrand.Rand, noFlag, plain bool) stateHome {
	h := stateHome{dir: newDir("state")}
	h.home = h.dir
	if noFlag {
		h.home = filepath.Join(h.dir, ".horcrux")
		must(os.Mkdir(h.home, 0o755))
		h.env = []string{"HOME=" + h.dir}
	}
	m := randomCfg(r, h.home)
	if plain || strings.ContainsAny(m.ChainID, "\n") {
		m.ChainID = "verif-chain-1"
	}
	h.chain = m.ChainID
	m.write(h.home)
	must(os.Mkdir(filepath.Join(h.home, "state"), 0o755))
	h.paths = [2]string{filepath.Join(h.home, "state", h.chain+"_priv_validator_state.json"), filepath.Join(h.home, "state", h.chain+"_share_sign_state.json")}
	for _, p := range h.paths {
		newState(p)
	}
	return h
}

func (h stateHome) cmd(words ...string) []string {
	if h.env != nil {
		return append([]string{"state"}, words...)
	}
	return append([]string{"state", words[0], "--home", h.home}, words[1:]...)
}

func randomPos(r *mrand.Rand, near int64) rawState {
	s := rawState{H: near + int64(r.Intn(5)) - 2}
	switch r.Intn(8) {
	case 0:
		s.H = r.Int63()
	case 1:
		s.H = 0
	case 2:
		s.H = []int64{math.MaxInt64, 1 << 53, 1<<53 + 1, 1<<31 - 1}[r.Intn(4)]
	}
	if s.H < 0 {
		s.H = 0
	}
	if r.Intn(3) != 0 && s.H > 0 {
		s.R, s.S = int64(r.Intn(3)), randStep(r)
		if r.Intn(3) != 0 {
			s.Sig = make([]byte, 64)
			r.Read(s.Sig)
			s.Bytes = newMsg(chain, s.hrs(), r.Intn(3), fixedTime).SignBytes()
		}
		if r.Intn(2) == 0 {
			s.Eph = make([]byte, 32)
			r.Read(s.Eph)
		}
	}
	return s
}

// writeState writes as the code does: what is empty is left out.
func writeState(p string, s rawState) {
	var b strings.Builder
	fmt.Fprintf(&b, "{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d,\n  \"ephemeral_public\": ", s.H, s.R, s.S)
	if len(s.Eph) == 0 {
		b.WriteString("null")
	} else {
		fmt.Fprintf(&b, "\"%s\"", base64.StdEncoding.EncodeToString(s.Eph))
	}
	if len(s.Sig) > 0 {
		fmt.Fprintf(&b, ",\n  \"signature\": \"%s\",\n  \"signbytes\": \"%X\"", base64.StdEncoding.EncodeToString(s.Sig), s.Bytes)
	}
	b.WriteString("\n}")
	must(os.WriteFile(p, []byte(b.String()), 0o600))
}

func heightArg(r *mrand.Rand, a, b int64) string {
	hs := []int64{a - 1, a, a + 1, b - 1, b, b + 1, max(a, b) + int64(r.Intn(1000)), max(a, b) + 1, min(a, b) - int64(r.Intn(1000)), 0, 1, math.MaxInt64, r.Int63()}
	h := hs[r.Intn(len(hs))]
	s := strconv.FormatInt(h, 10)
	switch r.Intn(12) {
	case 0:
		return anyOf(r, "x", "", "1.5", "1e9", "0x10", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "5 ", " 5", "1_0", "１", "+", "-")
	case 1:
		if h >= 0 {
			return "+" + s
		}
	case 2:
		if h >= 0 {
			return "000" + s
		}
	}
	return s
}

func c22Sequence(c *Check, r *mrand.Rand, i int) {
	h := newStateHome(r, i%4 == 3, false)
	var log []string
	near := int64(100 + r.Intn(1000))
	for k := 0; k < 8; k++ {
		if k%2 == 0 {
			a := randomPos(r, near)
			b := randomPos(r, a.H)
			if r.Intn(3) == 0 {
				b = a
			}
			writeState(h.paths[0], a)
			writeState(h.paths[1], b)
		}
		var at [2]rawState
		var before [2][]byte
		for j, p := range h.paths {
			var ok bool
			if at[j], ok = readRaw(c, p); !ok {
				return
			}
			before[j], _ = os.ReadFile(p)
		}
		if h.env != nil {
			c.Count("sets without --home", 1)
		}
		c22Show(c, h, at)
		arg := heightArg(r, at[0].H, at[1].H)
		img := treeImage(h.dir)
		out, code := runHxEnv(h.env, h.cmd("set", "--", arg)...)
		log = append(log, fmt.Sprintf("set %q over %s and %s: status %d", arg, at[0].hrs(), at[1].hrs(), code))
		ctx := func() string { return strings.Join(log, "\n") + "\n" + tailString(out, 300) }
		n, err := strconv.ParseInt(arg, 10, 64)
		want := HRS{n, 0, 0}
		may := err == nil && !want.Less(at[0].hrs()) && !want.Less(at[1].hrs())
		c.Eval(fmt.Sprintf("%s %s %q %v", at[0].hrs(), at[1].hrs(), arg, may))
		if !may {
			if code == 0 {
				c.Violation("set-accepted", "%s", ctx())
			}
			if x := treeImage(h.dir); x != img {
				c.Violation("refused-and-changed", "%s\nbefore\n%s\nafter\n%s", ctx(), img, x)
			}
			c.Count("heights refused", 1)
			continue
		}
		if code != 0 {
			c.Violation("set-refused", "%s", ctx())
			return
		}
		c.Count("heights set", 1)
		for j, p := range h.paths {
			s, ok := readRaw(c, p)
			if ok && !s.equal(rawState{H: n}) && !(at[j].hrs() == want && s.equal(at[j])) {
				c.Violation("set-differs", "%s\n%s holds %s", ctx(), filepath.Base(p), s)
			}
		}
	}
}

var shown = regexp.MustCompile(`(?s)Private Validator State:\n(.*)Share Sign State:\n(.*)$`)

// c22Show compares what is printed with the files.
func c22Show(c *Check, h stateHome, at [2]rawState) {
	img := treeImage(h.dir)
	out, code := runHxEnv(h.env, h.cmd("show")...)
	m := shown.FindStringSubmatch(out)
	if code != 0 || m == nil {
		c.Violation("show-fails", "status %d: %s", code, out)
		return
	}
	for j, s := range at {
		want := map[string]string{"Height": fmt.Sprint(s.H), "Round": fmt.Sprint(s.R), "Step": fmt.Sprint(s.S)}
		if len(s.Eph) > 0 {
			want["Ephemeral Public Key"] = base64.StdEncoding.EncodeToString(s.Eph)
		}
		if len(s.Sig) > 0 {
			want["Signature"], want["SignBytes"] = base64.StdEncoding.EncodeToString(s.Sig), fmt.Sprintf("%X", s.Bytes)
		}
		got := map[string]string{}
		for _, l := range strings.Split(m[1+j], "\n") {
			if f := strings.SplitN(l, ":", 2); len(f) == 2 {
				got[strings.TrimSpace(f[0])] = strings.TrimSpace(f[1])
			}
		}
		for k, v := range want {
			if got[k] != v {
				c.Violation("show-differs", "file holds %s, but shown is %s=%q:\n%s", s, k, got[k], out)
				return
			}
		}
		for k := range got {
			if _, ok := want[k]; !ok && got[k] != "" {
				c.Violation("show-differs", "file holds %s, but shown is %s=%q:\n%s", s, k, got[k], out)
				return
			}
		}
	}
	if treeImage(h.dir) != img {
		c.Violation("show-writes", "state show changed the home")
	}
	c.Count("states shown", 1)
}

// c22Faults kills the command at, and fails, each of its system calls on the home, and looks at the order of them.
func c22Faults(c *Check) {
	if straceMissing {
		c.Inconclusive("strace is not available")
		return
	}
	calls := []string{"renameat", "renameat2", "rename", "openat", "write", "fsync", "fdatasync", "unlinkat", "linkat", "ftruncate", "fchmodat", "fchmod", "close"}
	h := newStateHome(c.Rng("trace"), false, true)
	writeState(h.paths[0], rawState{H: 10, R: 1, S: 2})
	writeState(h.paths[1], rawState{H: 11, R: 1, S: 2})
	trace := filepath.Join(newDir("trace"), "t")
	cmd := exec.Command("strace", append([]string{"-f", "-qq", "-y", "-o", trace, "-e", "trace=" + strings.Join(calls, ","), hx()}, h.cmd("set", "500")...)...)
	cmd.Env = append(os.Environ(), "HOME="+emptyHome())
	if out, code := outCode(cmd); code != 0 {
		c.Violation("set-refused", "state set 500 under strace: %s", out)
		return
	}
	b, err := os.ReadFile(trace)
	must(err)
	c22Durable(c, h, string(b))
	type job struct {
		call, inject string
		k            int
	}
	var jobs []job
	count := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.SplitN(l, " ", 2); len(f) == 2 {
			call := strings.TrimSpace(f[1])
			if j := strings.Index(call, "("); j > 0 {
				name := call[:j]
				count[name]++
				if strings.Contains(l, h.dir) {
					jobs = append(jobs, job{name, "signal=KILL", count[name]})
					if name != "close" {
						jobs = append(jobs, job{name, "error=ENOSPC", count[name]})
						jobs = append(jobs, job{name, "error=EIO", count[name]})
					}
				}
			}
		}
	}
	parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		if c.Violated() {
			return
		}
		r := c.Rng(fmt.Sprint("fault", i))
		h := newStateHome(r, false, true)
		at := [2]rawState{{H: 10, R: 1, S: 2, Sig: []byte("signature"), Bytes: []byte("bytes"), Eph: []byte("eph")}, {H: 11, R: 0, S: 1}}
		for k, s := range at {
			writeState(h.paths[k], s)
		}
		cmd := exec.Command("strace", append([]string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + j.call, "-e", fmt.Sprintf("inject=%s:%s:when=%d", j.call, j.inject, j.k),
			hx()}, h.cmd("set", "500")...)...)
		cmd.Env = append(os.Environ(), "HOME="+emptyHome())
		stop := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		out, code := outCode(cmd)
		stop.Stop()
		what := fmt.Sprintf("state set 500, %s number %d: %s; status %d: %s", j.call, j.k, j.inject, code, tailString(out, 400))
		c.Eval(fmt.Sprintf("%s %s %d", j.call, j.inject, j.k))
		if strings.HasPrefix(j.inject, "signal") {
			c.Count("kills", 1)
		} else {
			c.Count("system calls failed", 1)
		}
		for k, p := range h.paths {
			s, ok := readRaw(c, p)
			if !ok {
				c.Violation("torn", "%s", what)
				return
			}
			isNew := s.equal(rawState{H: 500})
			if !isNew && !s.equal(at[k]) || code == 0 && !isNew {
				c.Violation("neither-kept-nor-set", "%s\n%s held %s and holds %s", what, filepath.Base(p), at[k], s)
				return
			}
		}
		c.Count("kept or set after a kill", 1)
	})
}

var (
	reOpen   = regexp.MustCompile(`openat\([^,]*, "([^"]*)", ([A-Z_|]*)[^)]*\)\s+= (\d+)`)
	reFd     = regexp.MustCompile(`(write|fsync|fdatasync|close)\((\d+)<([^>]*)>`)
	reRename = regexp.MustCompile(`rename[a-z0-9]*\((?:[^"]*, )?"([^"]*)", (?:[^"]*, )?"([^"]*)"`)
)

// c22Durable: both files are replaced by renaming a file that was synced after its last write.
func c22Durable(c *Check, h stateHome, trace string) {
	dirty := map[string]bool{}
	durable := map[string]bool{}
	for _, l := range strings.Split(trace, "\n") {
		if m := reOpen.FindStringSubmatch(l); m != nil && strings.Contains(m[2], "O_SYNC") {
			dirty[m[1]+"\x00sync"] = true
		}
		if m := reFd.FindStringSubmatch(l); m != nil {
			switch m[1] {
			case "write":
				if !dirty[m[3]+"\x00sync"] {
					dirty[m[3]] = true
				}
				durable[m[3]] = false
				if dirty[m[3]+"\x00sync"] {
					durable[m[3]] = true
				}
			case "fsync", "fdatasync":
				delete(dirty, m[3])
				durable[m[3]] = true
			}
		}
		if m := reRename.FindStringSubmatch(l); m != nil {
			if dirty[m[1]] {
				durable[m[2]] = false
			} else {
				durable[m[2]] = true
			}
		}
	}
	for _, p := range h.paths {
		if !durable[p] {
			c.Violation("not-durable", "state set ends without %s having been synced:\n%s", filepath.Base(p), trace)
		}
	}
	c.Count("traces", 1)
}

// c22Cluster sets the height on all nodes of a cluster, which then signs above it only.
func c22Cluster(c *Check, r *mrand.Rand) {
	hc := newHomes(2, 2, 1)
	defer hc.stopAll()
	n := int64(1000 + r.Intn(1000))
	for _, h := range hc.Nodes {
		if out, code := runHx("state", "set", fmt.Sprint(n), "--home", h.Dir); code != 0 {
			c.Violation("set-refused", "state set %d: %s", n, out)
			return
		}
	}
	hc.startAll()
	end := time.Now().Add(120 * time.Second)
	for _, h := range hc.Nodes {
		for _, m := range []Msg{newMsg(chain, HRS{n - 1, 5, 3}, 1, fixedTime), newMsg(chain, HRS{1, 0, 1}, 1, fixedTime)} {
			if o := h.Sentries[0].Sign(m, 10*time.Second); o.Err == nil {
				c.Violation("signed-below", "state set to %d on all nodes, signed %s", n, m)
			}
		}
	}
	m := newMsg(chain, HRS{n, 0, 1}, 1, fixedTime)
	for {
		o := hc.Nodes[0].Sentries[0].Sign(m, 10*time.Second)
		if o.Err == nil {
			break
		}
		if time.Now().After(end) {
			c.Violation("does-not-sign", "state set to %d on all nodes, %s: %v", n, m, o.Err)
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.Count("clusters started after set", 1)
	c.Eval("cluster")
}

// c22Running: a command called horcrux refuses while another is there, and only then.
func c22Running(c *Check) {
	dir := newDir("bin")
	exe := filepath.Join(dir, "horcrux")
	must(copyFile(hx(), exe))
	must(os.Chmod(exe, 0o755))
	set := func(bin string, h stateHome, height string) (string, int) {
		cmd := exec.Command(bin, h.cmd("set", height)...)
		cmd.Env = append(os.Environ(), "HOME="+emptyHome())
		return outCode(cmd)
	}
	r := c.Rng("running")
	var once sync.Once
	for k, what := range []string{"cosigner", "single", "stopped", "elsewhere", "killed"} {
		h := newStateHome(r, false, true)
		// nothing is running: the command itself is no reason to refuse
		if out, code := set(exe, h, "10"); code != 0 {
			c.Violation("set-refused", "state set as horcrux while nothing runs: %s", out)
			return
		}
		hc := newHomes(2, 2, 1)
		s := newSingle(c, what, 1)
		args := []string{"cosigner", "start", "--home", hc.Nodes[0].Dir}
		if what == "single" {
			args = []string{"signer", "start", "--home", s.dir}
		}
		cmd := exec.Command(exe, args...)
		cmd.Env = append(os.Environ(), "HOME="+emptyHome())
		if what == "elsewhere" { // as a service: another user, another directory
			chownAll(hc.Nodes[0].Dir)
			for d := exe; strings.HasPrefix(d, scratchDir()); d = filepath.Dir(d) {
				must(os.Chmod(d, 0o777))
			}
			cmd.Dir = "/"
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}, Setsid: true}
		}
		var log bytes.Buffer
		cmd.Stdout, cmd.Stderr = &log, &log
		must(cmd.Start())
		done := make(chan struct{})
		go func() { cmd.Wait(); close(done) }()
		up := func() bool { return listens(hc.Nodes[0].Addr) }
		if what == "single" {
			up = func() bool { _, err := s.sentries[0].session(time.Second); return err == nil }
		}
		end := time.Now().Add(60 * time.Second)
		for !up() && time.Now().Before(end) {
			time.Sleep(20 * time.Millisecond)
		}
		select {
		case <-done:
			c.Violation("start-fails", "%s does not start as horcrux: %s", what, tailString(log.String(), 800))
			return
		default:
		}
		if what == "stopped" {
			cmd.Process.Signal(syscall.SIGSTOP)
		}
		for _, bin := range []string{exe, hx()} {
			before := treeImage(h.dir)
			out, code := set(bin, h, fmt.Sprint(20+k))
			if code == 0 || treeImage(h.dir) != before {
				c.Violation("set-while-running", "%s (%s) runs as horcrux, state set by %s: status %d %s", what, strings.Join(args, " "), filepath.Base(bin), code, out)
			}
			c.Count("runs refused while running", 1)
			c.Eval("running " + what + filepath.Base(bin))
		}
		// also on its own home
		own := stateHome{home: hc.Nodes[0].Dir}
		if what != "single" {
			if out, code := set(exe, own, "99"); code == 0 {
				c.Violation("set-while-running", "%s runs as horcrux, state set on its home: status %d %s", what, code, out)
			}
		}
		cmd.Process.Signal(syscall.SIGCONT)
		cmd.Process.Kill()
		<-done
		hc.stopAll()
		s.close()
		if out, code := set(exe, h, fmt.Sprint(30+k)); code != 0 {
			c.Violation("set-refused", "state set after horcrux ended: %s", out)
		}
		c.Count("runs after it ended", 1)
		once.Do(func() { c.Sample(fmt.Sprintf("%s: %s", what, tailString(log.String(), 300))) })
	}
}

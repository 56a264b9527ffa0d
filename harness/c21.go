package main

import (
	"fmt"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() { checks["C21"] = checkC21 }

func checkC21(c *Check) {
	c.Rule("a case is one chain-id set by the real command over a home with sign state, with or without something in the way; every file of the home is "+
		"compared with before; distinct by (what is in the way, new and old chain ID, mode)",
		"failures of single system calls are injected with strace; a kill in the middle is outside the property")
	c.Need("moved", "set to the same", "refused", "refused for existing state", "system calls failed", "read-only homes", "single signers", "states kept over renames")
	n := c.size(160, 2000)
	exe := hxForNobody()
	parallel(n, 8, func(i int) {
		if !c.Violated() {
			c21One(c, c.Rng(fmt.Sprint("one", i)), i, exe)
		}
	})
	c21Calls(c)
}

type c21Home struct {
	dir, old, pv, share string
	m                   cfgModel
	single              bool
}

func (h c21Home) path(chainID, kind string) string {
	return filepath.Join(h.dir, "state", chainID+"_"+kind+"_state.json")
}

func newC21Home(r *mrand.Rand, single bool) c21Home {
	dir := newDir("chain")
	h := c21Home{dir: dir, m: randomCfg(r, dir), single: single}
	if single {
		h.m.Cosigner = nil
	}
	h.old = h.m.ChainID
	h.m.write(dir)
	must(os.Mkdir(filepath.Join(dir, "state"), 0o755))
	h.pv, h.share = h.path(h.old, "priv_validator"), h.path(h.old, "share_sign")
	sig := make([]byte, 64)
	for k, p := range []string{h.pv, h.share} {
		if k == 1 && single {
			continue
		}
		r.Read(sig)
		must(writeRaw(p, rawState{H: r.Int63(), R: int64(r.Intn(3)), S: randStep(r), Eph: sig[:32], Sig: sig, Bytes: sig[:40]}))
	}
	// bystanders
	must(os.WriteFile(h.path("bystander", "priv_validator"), []byte("x"), 0o600))
	must(os.WriteFile(filepath.Join(dir, "share.json"), []byte("key"), 0o600))
	must(os.Mkdir(filepath.Join(dir, "raft"), 0o700))
	must(os.WriteFile(filepath.Join(dir, "raft", "raft.db"), []byte("raft"), 0o600))
	return h
}

// moved is the tree image after the state files have moved, without the configuration.
func (h c21Home) moved(image, to string) string {
	var out []string
	for _, l := range strings.Split(image, "\n") {
		if strings.Contains(l, " config.yaml ") {
			continue
		}
		for _, k := range []string{"priv_validator", "share_sign"} {
			if h.single && k == "share_sign" {
				continue
			}
			name := func(id string) string {
				return " " + strings.ReplaceAll(filepath.Join("state", id+"_"+k+"_state.json"), "\n", "\\n") + " "
			}
			l = strings.Replace(l, name(h.old), name(to), 1)
		}
		out = append(out, l)
	}
	return sortedLines(out)
}

func sortedLines(l []string) string {
	m := map[string]Msg{}
	for _, x := range l {
		m[x] = Msg{}
	}
	return strings.Join(sortedKeys(m), "\n")
}

// judge compares home and configuration with before; success tells whether it had to, might or must not succeed.
func (h c21Home) judge(c *Check, before, to, what, out string, code int, may, must_ bool) {
	after := treeImage(h.dir)
	cfgText, _ := os.ReadFile(filepath.Join(h.dir, "config.yaml"))
	ctx := fmt.Sprintf("chain-id set %q from %q (%s): status %d: %s\nbefore:\n%s\nafter:\n%s\nconfiguration:\n%s", to, h.old, what, code, tailString(out, 500), before, after, cfgText)
	if code != 0 {
		if must_ {
			c.Violation("refused", "%s", ctx)
		} else if after != before {
			c.Violation("failed-and-changed", "%s", ctx)
		}
		c.Count("refused", 1)
		return
	}
	if !may {
		c.Violation("accepted", "%s", ctx)
		return
	}
	want := h.m.clone()
	want.ChainID = to
	got, err := readCfg(h.dir)
	if err != nil || !got.equal(want) {
		c.Violation("config-differs", "%v %s", err, ctx)
	}
	var rest []string
	for _, l := range strings.Split(after, "\n") {
		if !strings.Contains(l, " config.yaml ") {
			rest = append(rest, l)
		}
	}
	if exp := h.moved(before, to); sortedLines(rest) != exp {
		c.Violation("not-carried-along", "should be\n%s\n%s", exp, ctx)
	}
	c.Count("states kept over renames", 1)
}

func c21One(c *Check, r *mrand.Rand, i int, exe string) {
	single := i%3 == 2
	h := newC21Home(r, single)
	to := oddChains[r.Intn(len(oddChains))]
	for to == h.old {
		to = oddChains[r.Intn(len(oddChains))]
	}
	pvTo, shareTo := h.path(to, "priv_validator"), h.path(to, "share_sign")
	if single {
		c.Count("single signers", 1)
	}
	put := func(p string) {
		switch r.Intn(5) {
		case 0:
			must(os.WriteFile(p, []byte("present"), 0o600))
		case 1:
			must(os.WriteFile(p, nil, 0o600))
		case 2:
			must(os.Mkdir(p, 0o755))
		case 3:
			must(os.Symlink("nowhere", p))
		case 4:
			must(writeRaw(p, rawState{H: 1 << 40, R: 1, S: 1}))
		}
	}
	ways := []string{"nothing", "nothing", "same", "pv exists", "share exists", "both exist", "no pv", "no share", "no state directory", "config read only", "state read only",
		"home read only", "no argument", "two arguments", "empty"}
	what := ways[(i/3)%len(ways)]
	may, must_ := false, false
	args := []string{"config", "chain-id", "set", "--home", h.dir, "--", to}
	nobody := false
	switch what {
	case "nothing":
		may, must_ = true, true
	case "same":
		to = h.old
		args[len(args)-1] = to
		may = true
		c.Count("set to the same", 1)
	case "pv exists":
		put(pvTo)
	case "share exists":
		put(shareTo)
		may = single // has no share state; the file belongs to nobody
	case "both exist":
		put(pvTo)
		put(shareTo)
	case "no pv":
		must(os.Remove(h.pv))
		may = false
	case "no share":
		if single {
			may, must_ = true, true
		} else {
			must(os.Remove(h.share))
		}
	case "no state directory":
		must(os.RemoveAll(filepath.Join(h.dir, "state")))
	case "config read only", "state read only", "home read only":
		chownAll(h.dir)
		nobody = true
		switch what {
		case "config read only":
			must(os.Chmod(filepath.Join(h.dir, "config.yaml"), 0o444))
			may = true // depends on how it is written
		case "state read only":
			must(os.Chmod(filepath.Join(h.dir, "state"), 0o555))
		case "home read only":
			must(os.Chmod(h.dir, 0o555))
			may = true
		}
		c.Count("read-only homes", 1)
	case "empty":
		to = ""
		args[len(args)-1] = to
	case "no argument":
		args = args[:5]
	case "two arguments":
		args = append(args, "more")
	}
	before := treeImage(h.dir)
	var out string
	var code int
	if nobody {
		out, code = asNobody(h.dir, append([]string{exe}, args...)...)
	} else {
		out, code = runHx(args...)
	}
	if strings.Contains(what, "exist") && !may {
		c.Count("refused for existing state", 1)
	}
	c.Eval(fmt.Sprintf("%s %q %q %v", what, h.old, to, single))
	if code == 0 {
		c.Count("moved", 1)
	}
	h.judge(c, before, to, what, out, code, may, must_)
	if code == 0 && !nobody && what == "nothing" { // and back
		h2 := h
		h2.old, h2.m.ChainID = to, to
		before2 := treeImage(h.dir)
		out, code = runHx("config", "chain-id", "set", "--home", h.dir, "--", h.old)
		h2.judge(c, before2, h.old, "back", out, code, true, true)
		if treeImage(h.dir) != before {
			c.Violation("not-carried-along", "there and back from %q by %q:\n%s\nand was\n%s", h.old, to, treeImage(h.dir), before)
		}
	}
}

// c21Calls fails each file system call of the command in turn.
func c21Calls(c *Check) {
	if straceMissing {
		c.Inconclusive("strace is not available")
		return
	}
	calls := []string{"renameat", "renameat2", "rename", "openat", "write", "fsync", "unlinkat", "linkat", "newfstatat", "ftruncate", "fchmodat"}
	type job struct {
		call   string
		k      int
		errno  string
		single bool
	}
	var jobs []job
	var mu sync.Mutex
	// how often is each called, on files of the home
	for _, single := range []bool{false, true} {
		single := single
		r := c.Rng(fmt.Sprint("calls", single))
		h := newC21Home(r, single)
		trace := filepath.Join(newDir("trace"), "t")
		cmd := exec.Command("strace", "-f", "-qq", "-y", "-o", trace, "-e", "trace="+strings.Join(calls, ","), hx(), "config", "chain-id", "set", "--home", h.dir, "--", "new")
		cmd.Env = append(os.Environ(), "HOME="+emptyHome())
		if out, code := outCode(cmd); code != 0 {
			c.Inconclusive("chain-id set under strace: %s", out)
			return
		}
		b, err := os.ReadFile(trace)
		must(err)
		count := map[string]int{}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.SplitN(l, " ", 2); len(f) == 2 {
				call := strings.TrimSpace(f[1])
				if j := strings.Index(call, "("); j > 0 {
					name := call[:j]
					count[name]++
					if strings.Contains(l, h.dir) {
						for _, e := range []string{"ENOSPC", "EIO"} {
							if e == "EIO" && c.Tier != "thorough" && name == "newfstatat" {
								continue
							}
							mu.Lock()
							jobs = append(jobs, job{name, count[name], e, single})
							mu.Unlock()
						}
					}
				}
			}
		}
	}
	parallel(len(jobs), 8, func(i int) {
		if c.Violated() {
			return
		}
		j := jobs[i]
		r := c.Rng(fmt.Sprint("call", i))
		h := newC21Home(r, j.single)
		before := treeImage(h.dir)
		trace := filepath.Join(newDir("trace"), "t")
		cmd := exec.Command("strace", "-f", "-qq", "-o", trace, "-e", "trace="+j.call, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", j.call, j.errno, j.k),
			hx(), "config", "chain-id", "set", "--home", h.dir, "--", "new")
		cmd.Env = append(os.Environ(), "HOME="+emptyHome())
		stop := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
		out, code := outCode(cmd)
		stop.Stop()
		if b, _ := os.ReadFile(trace); strings.Count(string(b), "(INJECTED)") > 1 { // strace counts per thread
			c.Count("runs with more than one failed call", 1)
			return
		}
		c.Count("system calls failed", 1)
		c.Eval(fmt.Sprintf("%s %d %s %v", j.call, j.k, j.errno, j.single))
		// the failure may hit something else; success is fine if it is one
		h.judge(c, before, "new", fmt.Sprintf("%s number %d gives %s", j.call, j.k, j.errno), out, code, true, false)
	})
}

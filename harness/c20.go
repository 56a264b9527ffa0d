package main

import (
	"fmt"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() { checks["C20"] = checkC20 }

func checkC20(c *Check) {
	c.Rule("a case is one edit of the configuration by the real command, in a sequence of edits over one home; whether it is accepted and what the file "+
		"says afterwards are compared with a model of sets, and every other file with what it was; distinct by (command, arguments, configuration before)",
		"chain node and peer arguments as the command line can carry them (no commas inside of an address)")
	c.Need("nodes added", "nodes removed", "peers added", "peers removed", "shares set", "edits refused", "edits without effect", "nodes given twice",
		"edits of a configuration that cannot be written", "edits with the disk full", "edits without --home")
	n := c.size(48, 600)
	parallel(n, 8, func(i int) {
		if !c.Violated() {
			c20Sequence(c, c.Rng(fmt.Sprint("seq", i)), i)
		}
	})
	c20Faults(c)
}

// edit is one command with what it should do to the configuration.
type edit struct {
	kind string
	args []string
	want *cfgModel // nil: refused
}

func without(ns []cfgNode, rm []cfgNode) (out []cfgNode) {
	for _, n := range ns {
		keep := true
		for _, r := range rm {
			keep = keep && n != r
		}
		if keep {
			out = append(out, n)
		}
	}
	return
}

func nodeList(ns []cfgNode) string { return cfgModel{Nodes: ns}.nodeArg() }

func randomEdit(c *Check, r *mrand.Rand, m cfgModel) edit {
	w := m.clone()
	kinds := []string{"nodes add", "nodes add", "nodes remove", "nodes remove", "peers add", "peers add", "peers remove", "peers remove", "set-shares"}
	switch k := kinds[r.Intn(len(kinds))]; k {
	case "nodes add":
		arg := distinctNodes(r, 1+r.Intn(3))
		if r.Intn(2) == 0 && len(m.Nodes) > 0 {
			arg = append(arg, m.Nodes[r.Intn(len(m.Nodes))])
		}
		if r.Intn(3) == 0 && len(m.Nodes) > 0 {
			if a := similarAddr(r, m.Nodes[r.Intn(len(m.Nodes))].Addr); !badURL(a) {
				arg = append(arg, cfgNode{a})
			}
		}
		if r.Intn(6) == 0 && len(m.Nodes) > 0 { // nothing new
			arg = append([]cfgNode(nil), m.Nodes[:1+r.Intn(len(m.Nodes))]...)
		}
		if r.Intn(4) == 0 {
			arg = append(arg, arg[r.Intn(len(arg))])
			c.Count("nodes given twice", 1)
		}
		r.Shuffle(len(arg), func(i, j int) { arg[i], arg[j] = arg[j], arg[i] })
		e := edit{k, []string{"nodes", "add", nodeList(arg)}, nil}
		if r.Intn(5) == 0 {
			arg[r.Intn(len(arg))].Addr = badAddrs[r.Intn(len(badAddrs))]
			e.args[2] = nodeList(arg)
			return e
		}
		for _, a := range arg {
			if len(without([]cfgNode{a}, w.Nodes)) > 0 {
				w.Nodes = append(w.Nodes, a)
			}
		}
		if len(w.Nodes) > len(m.Nodes) {
			e.want = &w
		}
		return e
	case "nodes remove":
		var arg []cfgNode
		for _, n := range m.Nodes {
			if r.Intn(3) == 0 {
				arg = append(arg, n)
			}
		}
		if len(arg) == 0 || r.Intn(3) == 0 {
			arg = append(arg, distinctNodes(r, 1)...)
		}
		if r.Intn(3) == 0 { // not in the configuration, but like one that is
			if a := similarAddr(r, m.Nodes[r.Intn(len(m.Nodes))].Addr); !badURL(a) {
				arg = append(arg, cfgNode{a})
			}
		}
		if r.Intn(8) == 0 {
			arg = append([]cfgNode(nil), m.Nodes...)
		}
		if len(arg) == 0 {
			arg = distinctNodes(r, 1)
		}
		if r.Intn(4) == 0 {
			arg = append(arg, arg[r.Intn(len(arg))])
		}
		r.Shuffle(len(arg), func(i, j int) { arg[i], arg[j] = arg[j], arg[i] })
		e := edit{k, []string{"nodes", "remove", nodeList(arg)}, nil}
		if r.Intn(6) == 0 {
			arg = append(arg, cfgNode{badAddrs[r.Intn(len(badAddrs))]})
			r.Shuffle(len(arg), func(i, j int) { arg[i], arg[j] = arg[j], arg[i] })
			e.args[2] = nodeList(arg)
			return e
		}
		w.Nodes = without(w.Nodes, arg)
		if len(w.Nodes) > 0 {
			e.want = &w
		}
		return e
	case "peers add":
		ps, shares := m.Cosigner.Peers, m.Cosigner.Shares
		var arg []cfgPeer
		used := map[int]bool{}
		for _, p := range ps {
			used[p.ID] = true
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			id := 1 + r.Intn(shares)
			if r.Intn(4) != 0 { // a free one, if there is
				for _, i := range r.Perm(shares) {
					if !used[i+1] {
						id = i + 1
						break
					}
				}
			}
			if r.Intn(8) == 0 {
				id = []int{0, -1, shares + 1, shares + 2, 1 << 33}[r.Intn(5)]
			}
			used[id] = true
			a := oddAddr(r)
			if len(ps) > 0 && r.Intn(4) == 0 {
				if a = ps[r.Intn(len(ps))].Addr; r.Intn(2) == 0 {
					a = similarAddr(r, a)
				}
			}
			arg = append(arg, cfgPeer{id, a})
		}
		if len(ps) > 0 && r.Intn(3) == 0 {
			arg = append(arg, ps[r.Intn(len(ps))]) // listed already
		}
		if len(ps) > 0 && r.Intn(8) == 0 { // nothing new
			arg = []cfgPeer{ps[r.Intn(len(ps))]}
		}
		r.Shuffle(len(arg), func(i, j int) { arg[i], arg[j] = arg[j], arg[i] })
		e := edit{k, []string{"peers", "add", peerArg(arg)}, nil}
		if r.Intn(8) == 0 {
			bad := anyOf(r, "tcp://a:1", "tcp://a:1|", "tcp://a:1|x", "tcp://a:1|2|3", "", fmt.Sprintf("tcp://a:1|0x%x", shares), "tcp://a:1|0o1")
			e.args[2] = []string{e.args[2] + "," + bad, bad + "," + e.args[2]}[r.Intn(2)]
			return e
		}
		for _, a := range arg {
			have := false
			for _, p := range ps {
				have = have || p == a
			}
			if !have {
				w.Cosigner.Peers = append(w.Cosigner.Peers, a)
			}
		}
		if len(w.Cosigner.Peers) > len(ps) && peerRules(w.Cosigner.Peers, shares) == "" {
			e.want = &w
		}
		return e
	case "peers remove":
		ps := m.Cosigner.Peers
		var ids []string
		rm := map[int]bool{}
		add := func(id int) { ids = append(ids, strconv.Itoa(id)); rm[id] = true }
		for _, p := range ps {
			if r.Intn(3) == 0 {
				add(p.ID)
			}
		}
		if len(ids) == 0 || r.Intn(3) == 0 {
			add(r.Intn(m.Cosigner.Shares + 3))
		}
		if r.Intn(10) == 0 {
			for _, p := range ps {
				add(p.ID)
			}
		}
		if r.Intn(4) == 0 {
			ids = append(ids, ids[r.Intn(len(ids))])
		}
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		e := edit{k, []string{"peers", "remove", ""}, nil}
		bad := r.Intn(8) == 0
		if bad {
			ids = append(ids, anyOf(r, "x", "", "1.0", "0x1", "99999999999999999999", "2|3"))
			r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		}
		e.args[2] = strings.Join(ids, ",")
		if bad {
			return e
		}
		w.Cosigner.Peers = nil
		for _, p := range ps {
			if !rm[p.ID] {
				w.Cosigner.Peers = append(w.Cosigner.Peers, p)
			}
		}
		if len(w.Cosigner.Peers) > 0 {
			e.want = &w
		}
		return e
	default:
		n := m.Cosigner.Shares + r.Intn(7) - 3
		e := edit{k, []string{"peers", "set-shares", strconv.Itoa(n)}, nil}
		if r.Intn(8) == 0 {
			e.args[2] = anyOf(r, "x", "", "3.0", "99999999999999999999", "-5", "0")
			return e
		}
		w.Cosigner.Shares = n
		if peerRules(m.Cosigner.Peers, n) == "" {
			e.want = &w
		}
		return e
	}
}

func (e edit) command(home string) []string {
	return []string{"config", e.args[0], e.args[1], "--home", home, "--", e.args[2]}
}

func c20Sequence(c *Check, r *mrand.Rand, i int) {
	dir := newDir("edit")
	home := dir
	var env []string
	if i%5 == 4 {
		home = filepath.Join(dir, ".horcrux")
		must(os.Mkdir(home, 0o755))
		env = []string{"HOME=" + dir}
	}
	m := randomCfg(r, home)
	if r.Intn(4) == 0 {
		m.HomeDir = "/somewhere/else"
	}
	m.write(home)
	must(os.Mkdir(filepath.Join(home, "state"), 0o755))
	newState(filepath.Join(home, "state", m.ChainID+"_share_sign_state.json"))
	cfg := filepath.Join(home, "config.yaml")
	var log []string
	others := func() string {
		var out []string
		for _, l := range strings.Split(treeImage(home), "\n") {
			if !strings.Contains(l, " config.yaml ") {
				out = append(out, l)
			}
		}
		return strings.Join(out, "\n")
	}
	rest := others()
	for k := 0; k < 14; k++ {
		e := randomEdit(c, r, m)
		before, err := os.ReadFile(cfg)
		must(err)
		args := e.command(home)
		if env != nil {
			args = []string{"config", e.args[0], e.args[1], "--", e.args[2]}
			c.Count("edits without --home", 1)
		}
		out, code := runHxEnv(env, args...)
		log = append(log, fmt.Sprintf("%q: %d", args, code))
		ctx := fmt.Sprintf("%s\n%s\nbefore:\n%s", strings.Join(log, "\n"), tailString(out, 400), before)
		after, err := os.ReadFile(cfg)
		if err != nil {
			c.Violation("config-lost", "%v after %s", err, ctx)
			return
		}
		if x := others(); x != rest {
			c.Violation("other-files", "files changed from\n%s\nto\n%s\nby %s", rest, x, ctx)
			return
		}
		c.Eval(fmt.Sprintf("%q %s", args, m.text()))
		if e.want == nil {
			if code == 0 {
				c.Violation("edit-accepted", "%s\nafter:\n%s", ctx, after)
				return
			}
			if string(after) != string(before) {
				c.Violation("refused-edit-writes", "%s\nafter:\n%s", ctx, after)
				return
			}
			c.Count("edits refused", 1)
			continue
		}
		if code != 0 {
			c.Violation("edit-refused", "%s", ctx)
			return
		}
		got, err := readCfg(home)
		if err != nil || !got.equal(*e.want) {
			c.Violation("edit-differs", "%s\nafter (%v):\n%s\nshould be:\n%s", ctx, err, after, e.want.text())
			return
		}
		if got.equal(m) {
			c.Count("edits without effect", 1)
		}
		c.Count(map[string]string{"nodes add": "nodes added", "nodes remove": "nodes removed", "peers add": "peers added", "peers remove": "peers removed",
			"set-shares": "shares set"}[e.kind], 1)
		m = got
	}
}

// asNobody runs a command as a user without rights.
func asNobody(dir string, args ...string) (string, int) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	return outCode(cmd)
}

func outCode(cmd *exec.Cmd) (string, int) {
	b, err := cmd.CombinedOutput()
	if cmd.ProcessState == nil {
		must(err)
	}
	return string(b), cmd.ProcessState.ExitCode()
}

// hxForNobody is a copy of the command which everybody may run, in a directory everybody may enter.
func hxForNobody() string {
	dir := newDir("nobody")
	for d := dir; strings.HasPrefix(d, scratchDir()); d = filepath.Dir(d) {
		must(os.Chmod(d, 0o777))
	}
	exe := filepath.Join(dir, "hx")
	must(copyFile(hx(), exe))
	must(os.Chmod(exe, 0o755))
	return exe
}

func chownAll(dir string) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		must(err)
		must(os.Lchown(p, 65534, 65534))
		return nil
	})
}

// straced runs the command with one write to the file failing as on a full disk, and tells how many did: strace counts per thread.
func straced(file string, args ...string) (string, int, int) {
	if straceMissing {
		panic("harness: no strace")
	}
	trace := newDir("trace") + "/trace"
	cmd := exec.Command("strace", append([]string{"-f", "-qq", "-o", trace, "-P", file, "-e", "trace=write", "-e", "inject=write:error=ENOSPC:when=1", hx()}, args...)...)
	cmd.Env = append(os.Environ(), "HOME="+emptyHome())
	done := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	defer done.Stop()
	out, code := outCode(cmd)
	b, _ := os.ReadFile(trace)
	return out, code, strings.Count(string(b), "(INJECTED)")
}

func c20Faults(c *Check) {
	exe := hxForNobody()
	n := c.size(24, 200)
	parallel(n, 8, func(i int) {
		if c.Violated() {
			return
		}
		r := c.Rng(fmt.Sprint("fault", i))
		dir := newDir("edit")
		m := randomCfg(r, dir)
		m.write(dir)
		cfg := filepath.Join(dir, "config.yaml")
		var e edit
		for e.want == nil || e.want.equal(m) {
			e = randomEdit(c, r, m)
		}
		var out string
		var code int
		what := ""
		before := treeImage(dir)
		if i%2 == 0 {
			what = "config.yaml is read only"
			chownAll(dir)
			must(os.Chmod(dir, 0o555))
			must(os.Chmod(cfg, 0o444))
			before = treeImage(dir)
			out, code = asNobody(dir, append([]string{exe}, e.command(dir)...)...)
			c.Count("edits of a configuration that cannot be written", 1)
		} else {
			what = "the disk is full"
			var failed int
			if out, code, failed = straced(cfg, e.command(dir)...); failed > 1 {
				c.Count("edits with more than one failing write", 1)
				return
			}
			c.Count("edits with the disk full", 1)
		}
		after, _ := os.ReadFile(cfg)
		ctx := fmt.Sprintf("%s; %q: status %d: %s\nbefore:\n%s\nafter:\n%s", what, e.args, code, tailString(out, 400), m.text(), after)
		c.Eval(what + fmt.Sprint(e.args))
		got, err := readCfg(dir)
		switch {
		case code == 0 && (err != nil || !got.equal(*e.want)):
			c.Violation("fault-success", "%s", ctx)
		case code == 0 && i%2 == 0:
			c.Violation("read-only-success", "%s", ctx)
		case code != 0 && treeImage(dir) != before:
			c.Violation("failed-edit-writes", "%s", ctx)
		}
	})
}

package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
)

func init() {
	checks["C03"] = checkC03
	helpers["cosign"] = helperCosign
	helpers["coordinate"] = helperCoordinate
}

func checkC03(c *Check) {
	c.Level = "fault_enumeration"
	c.Rule("a case is (a) one release of a share or block signature, at whose return the state file is read back, sequentially and "+
		"under concurrency, or (b) one run of a signing process ended by SIGKILL, or disturbed by an I/O error, at the n-th occurrence of "+
		"one kind of system call, after which the state files are loaded, restarted from, and asked for conflicting and lower messages; "+
		"non-trivial if signatures were released before the end; distinct by (workload, system call, n, fault)",
		"a process kill is modelled, not a power loss", "faults are injected into file-related system calls of the signing process by strace")
	c.Need("state files read at a return", "releases behind a synced state file", "killed runs with releases", "runs with an I/O error", "conflicts refused after a crash")
	testRSAKeys(3)
	slots := newLeaderSlots(8)
	c03Returns(c, slots)
	c03LostLead(c)
	c03Synced(c)
	c03Crashes(c, slots)
}

// c03Returns reads the state files at the moment signatures are handed out.
func c03Returns(c *Check, slots []*LeaderSlot) {
	n := c.size(8, 60)
	pairs := make(chan []*LeaderSlot, 4) // a store belongs to one coordinator at a time
	for i := 0; i < 4; i++ {
		pairs <- slots[2*i : 2*i+2]
	}
	parallel(n, 4, func(i int) {
		pair := <-pairs
		defer func() { pairs <- pair }()
		r := c.Rng(fmt.Sprintf("returns-%d", i))
		cl := newCluster(2, 3)
		cl.OnSign = func(rel Release) {
			c.Count("state files read at a return", 1)
			p := cl.Parties[rel.Party-1]
			m, err := parseSignBytes(rel.Bytes)
			must(err)
			img, ok := readState(c, p.StatePath)
			if !ok {
				return
			}
			checkDurable(c, fmt.Sprintf("cosigner %d", rel.Party), m, img)
		}
		co := newCoord(cl, pair[0], 1)
		var co2 *Coord
		if i%2 == 1 {
			co2 = newCoord(cl, pair[1], 2)
		}
		h := int64(1)
		for s := 0; s < 30 && !c.Violated(); s++ {
			var wg sync.WaitGroup
			k := 1 + r.Intn(4)
			for j := 0; j < k; j++ {
				m := newMsg(chain, HRS{h + int64(r.Intn(2)), int64(r.Intn(2)), randStep(r)}, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(2))*time.Second))
				via := co
				if co2 != nil && r.Intn(2) == 0 {
					via = co2
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					o := via.Sign(m)
					if o.Err != nil {
						return
					}
					c.Count("state files read at a return", 1)
					img, ok := readState(c, via.PVPath)
					if !ok {
						return
					}
					p, err := parseSignBytes(m.SignBytes())
					must(err)
					checkDurable(c, fmt.Sprintf("coordinator %d", via.Own), p, img)
					c.Eval(fmt.Sprintf("return %d %s", i, m.Key()))
				}()
			}
			wg.Wait()
			h += int64(r.Intn(3))
		}
	})
}

// c03LostLead: the leadership is lost during an attempt, so that the block can not be announced any more.
func c03LostLead(c *Check) {
	if !hooked {
		return
	}
	c.Need("attempts while the leadership was lost")
	n := c.size(6, 30)
	slots := newLeaderSlots(n)
	parallel(n, 6, func(i int) {
		r := c.Rng(fmt.Sprint("lost lead ", i))
		cl := newCluster(2, 3)
		co := newCoord(cl, slots[i], 1)
		h := int64(1 + r.Intn(5))
		if o := co.Sign(newMsg(chain, HRS{h, 0, 2}, 1, fixedTime)); o.Err != nil {
			c.Inconclusive("lost lead: %v", o.Err)
			return
		}
		var once sync.Once
		lose := func() { once.Do(func() { raftOf(co.slot.Store).Shutdown().Error() }) }
		for k, l := range co.Links {
			l, k := l, k
			l.Set(func(q signer.HRSTKey) (*partsResp, error) {
				if i%3 == 0 {
					lose()
				}
				return l.To.GetEphemeralSecretParts(q)
			}, func(q signReq) (*signResp, error) {
				if i%3 == 1 && k == 0 {
					lose()
				}
				res, err := l.To.SetEphemeralSecretPartsAndSign(q)
				if i%3 != 0 {
					lose()
				}
				return res, err
			})
		}
		m := newMsg(chain, HRS{h + 1, int64(r.Intn(2)), randStep(r)}, 1, fixedTime)
		o := co.Sign(m)
		checkOutcome(c, cl.Priv.PubKey(), o)
		c.Eval(fmt.Sprintf("leadership lost %d", i))
		c.Count("attempts while the leadership was lost", 1)
		if o.Err != nil {
			return
		}
		c.Count("blocks signed while the leadership was lost", 1)
		img, ok := readState(c, co.PVPath)
		if !ok {
			return
		}
		p, err := parseSignBytes(m.SignBytes())
		must(err)
		checkDurable(c, "coordinator 1, which lost the leadership during the attempt,", p, img)
	})
}

func checkDurable(c *Check, who string, m Parsed, img stateImage) {
	if img.at.Less(m.HRS) {
		c.Violation("not-durable", "%s handed out a signature at %s while its state file holds %s", who, m.HRS, img)
		return
	}
	if img.at == m.HRS {
		f, err := parseSignBytes([]byte(img.bz))
		if err != nil || f.Content != m.Content {
			c.Violation("not-durable-bytes", "%s handed out a signature at %s, its state file holds that place but sign bytes %x", who, m.HRS, img.bz)
		}
	}
}

// ---- processes to be killed ----------------------------------------------------------------------

func emit(format string, a ...interface{}) {
	os.Stdout.Write([]byte(fmt.Sprintf(format+"\n", a...)))
}

// crashMessages is the workload of the processes to be killed.
func crashMessages(from int64) []Msg {
	var ms []Msg
	for h := from; h < from+2; h++ {
		ms = append(ms, newMsg(chain, HRS{h, 0, 1}, 1, fixedTime), newMsg(chain, HRS{h, 0, 2}, 1, fixedTime))
		v := newMsg(chain, HRS{h, 1, 3}, 1, fixedTime)
		ms = append(ms, v, v.WithTime(fixedTime.Add(time.Second)), v)
	}
	return ms
}

// helperCosign DIR MODE: one cosigner signs shares and says so.
func helperCosign(args []string) {
	cl, err := loadCluster(args[0])
	if err != nil {
		emit("STARTFAIL %v", err)
		os.Exit(3)
	}
	p := cl.Parties[0]
	var mu sync.Mutex
	one := func(m Msg) {
		res, err := shareSign(m, p, cl.Parties[1])
		if err == nil && len(res.Signature) > 0 {
			mu.Lock()
			emit("REL %x %x", m.SignBytes(), res.Signature)
			mu.Unlock()
		}
	}
	switch args[1] {
	case "seq":
		for i, m := range crashMessages(6) {
			if i == 5 {
				tell(p, newMsg(chain, HRS{6, 2, 3}, 1, fixedTime))
			}
			one(m)
		}
	case "conc":
		r := rand.New(rand.NewSource(int64(os.Getpid())))
		for h := int64(6); ; h++ {
			var wg sync.WaitGroup
			for k := 0; k < 4; k++ {
				m := newMsg(chain, HRS{h, int64(r.Intn(2)), randStep(r)}, r.Intn(2), fixedTime)
				wg.Add(1)
				go func() { defer wg.Done(); one(m) }()
			}
			wg.Wait()
		}
	}
	emit("DONE")
	os.Exit(0)
}

// helperCoordinate DIR: a coordinator with its cluster signs blocks and says so.
func helperCoordinate(args []string) {
	cl, err := loadCluster(args[0])
	if err != nil {
		emit("STARTFAIL %v", err)
		os.Exit(3)
	}
	pv := filepath.Join(args[0], "pv.json")
	if _, err := signer.LoadOrCreateSignState(pv); err != nil {
		emit("STARTFAIL %v", err)
		os.Exit(3)
	}
	cl.OnSign = func(r Release) {
		if r.Party == 1 {
			emit("REL %x %x", r.Bytes, r.S)
		}
	}
	os.Setenv("VERIF_SCRATCH", args[0])
	slot := newLeaderSlots(1)[0]
	co := newCoordAt(cl, slot, 1, pv)
	for _, m := range crashMessages(6) {
		o := co.Sign(m)
		if o.Err == nil {
			emit("SIG %x %x", m.SignBytes(), o.Got.Signature())
		}
	}
	emit("DONE")
	os.Exit(0)
}

type crashRun struct {
	workload string
	fault    []string // strace arguments; nil: killed by the parent
	after    time.Duration
	desc     string
}

type crashResult struct {
	rel, sig [][2][]byte
	done     bool
	startErr string
	out      string
}

var straceMissing = func() bool { _, err := exec.LookPath("strace"); return err != nil }()

func runCrash(dir string, cr crashRun) crashResult {
	self, err := os.Executable()
	must(err)
	args := []string{self, "helper"}
	switch cr.workload {
	case "coordinate":
		args = append(args, "coordinate", dir)
	case "conc":
		args = append(args, "cosign", dir, "conc")
	default:
		args = append(args, "cosign", dir, "seq")
	}
	if cr.fault != nil {
		args = append(append([]string{"strace", "-f", "-qq", "-o", "/dev/null"}, cr.fault...), args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+dir, "TMPDIR="+dir)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	pr, pw, err := os.Pipe()
	must(err)
	cmd.Stdout = pw
	must(cmd.Start())
	pw.Close()
	var killer *time.Timer
	if cr.fault == nil {
		killer = time.AfterFunc(cr.after, func() { cmd.Process.Kill() })
	} else {
		killer = time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	}
	var res crashResult
	var out bytes.Buffer
	sc := bufio.NewReader(io.TeeReader(pr, &out))
	for {
		l, err := sc.ReadString('\n')
		if err != nil {
			break // a line without its end was cut by the kill
		}
		f := strings.Fields(l)
		if len(f) == 3 && (f[0] == "REL" || f[0] == "SIG") {
			b, err1 := hex.DecodeString(f[1])
			s, err2 := hex.DecodeString(f[2])
			if err1 != nil || err2 != nil {
				continue
			}
			if f[0] == "REL" {
				res.rel = append(res.rel, [2][]byte{b, s})
			} else {
				res.sig = append(res.sig, [2][]byte{b, s})
			}
		}
		if len(f) > 0 && f[0] == "DONE" {
			res.done = true
		}
		if len(f) > 0 && f[0] == "STARTFAIL" {
			res.startErr = l
		}
	}
	cmd.Wait()
	killer.Stop()
	pr.Close()
	res.out = out.String() + tailString(errb.String(), 2000)
	return res
}

func tailString(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func c03Crashes(c *Check, slots []*LeaderSlot) {
	if straceMissing {
		c.Inconclusive("strace is not available")
	}
	slotPool := make(chan *LeaderSlot, len(slots))
	for _, s := range slots {
		slotPool <- s
	}
	judge := func(cr crashRun) bool {
		cl := newCluster(2, 2)
		cl.save()
		slot := <-slotPool
		defer func() { slotPool <- slot }()
		// something is signed already
		first := newMsg(chain, HRS{5, 0, 3}, 1, fixedTime)
		pv := filepath.Join(cl.Dir, "pv.json")
		if o := newCoordAt(cl, slot, 1, pv).Sign(first); o.Err != nil {
			c.Inconclusive("first block: %v", o.Err)
			return false
		}
		res := runCrash(cl.Dir, cr)
		c.Count("runs", 1)
		desc := cr.workload + " " + cr.desc
		if !res.done && len(res.rel)+len(res.sig) > 0 {
			c.Count("killed runs with releases", 1)
		}
		if strings.Contains(cr.desc, "error") {
			c.Count("runs with an I/O error", 1)
		}
		c.Eval(fmt.Sprintf("%s releases=%d", desc, len(res.rel)+len(res.sig)))
		c03After(c, cl, slot, pv, first, desc, res)
		if strings.Contains(desc, "renameat") && len(res.rel) == 3 {
			c.Sample(map[string]interface{}{"fault": desc, "share signatures released before": len(res.rel),
				"block signatures released before": len(res.sig)})
		}
		return res.done
	}
	// kill points and I/O errors by enumeration of system calls
	calls := []string{"openat", "write", "close", "renameat", "fsync", "unlinkat", "rename", "renameat2", "ftruncate", "pwrite64", "fdatasync", "mkdirat", "linkat"}
	type seriesT struct{ workload, call, fault string }
	var series []seriesT
	for _, call := range calls {
		for _, f := range []string{"signal=SIGKILL", "error=ENOSPC", "error=EIO+"} {
			series = append(series, seriesT{"seq", call, f})
		}
	}
	if c.Tier == "thorough" {
		for _, call := range calls {
			series = append(series, seriesT{"coordinate", call, "signal=SIGKILL"})
		}
	} else {
		for _, call := range []string{"renameat", "rename", "renameat2"} {
			series = append(series, seriesT{"coordinate", call, "signal=SIGKILL"})
		}
	}
	if !straceMissing {
		// first how often each call occurs in an undisturbed run, so that only those are enumerated
		counts := map[string]map[string]int{"seq": countCalls("seq", calls), "coordinate": countCalls("coordinate", calls)}
		var runs []crashRun
		for _, s := range series {
			n := counts[s.workload][s.call]
			c.Count("system calls of interest", int64(n))
			step := 1
			if lim := c.size(60, 1000); n > lim {
				step = (n + lim - 1) / lim
			}
			if s.fault != "signal=SIGKILL" && c.Tier == "quick" && step < 2 && n > 12 {
				step = 2
			}
			for k := 1; k <= n; k += step {
				when := strconv.Itoa(k)
				f := s.fault
				if strings.HasSuffix(f, "+") {
					f, when = strings.TrimSuffix(f, "+"), when+"+"
				}
				runs = append(runs, crashRun{workload: s.workload, desc: fmt.Sprintf("%s %s when=%s", s.call, f, when),
					fault: []string{"-e", "trace=" + s.call, "-e", fmt.Sprintf("inject=%s:%s:when=%s", s.call, f, when)}})
			}
		}
		parallel(len(runs), 8, func(i int) {
			if !c.Violated() {
				judge(runs[i])
			}
		})
	}
	// kills at random times of a concurrent workload
	n := c.size(24, 300)
	r := c.Rng("kill")
	delays := make([]time.Duration, n)
	for i := range delays {
		delays[i] = time.Duration(20+r.Intn(150)) * time.Millisecond
	}
	parallel(n, 8, func(i int) {
		if !c.Violated() {
			judge(crashRun{workload: "conc", desc: fmt.Sprintf("kill at a random time %d", i), after: delays[i]})
		}
	})
}

var (
	reSyncOpen = regexp.MustCompile(`openat\([^,]*, "([^"]*)", ([A-Z_|]*)`)
	reSyncFd   = regexp.MustCompile(`(write|pwrite64|ftruncate|fsync|fdatasync)\(\d+<([^>]*)>`)
	reSyncTell = regexp.MustCompile(`write\(1<[^>]*>, "(REL|SIG) `)
	reSyncAll  = regexp.MustCompile(`(syncfs|sync)\(`)
)

// c03Synced: what the state file holds when a signature is handed out has been synced to disk.
func c03Synced(c *Check) {
	if straceMissing {
		return
	}
	for _, workload := range []string{"seq", "coordinate"} {
		cl := newCluster(2, 2)
		cl.save()
		f := filepath.Join(newDir("synced"), "calls")
		res := runCrash(cl.Dir, crashRun{workload: workload, fault: []string{"-o", f, "-y", "-s", "8", "-e",
			"trace=openat,write,pwrite64,ftruncate,fsync,fdatasync,sync,syncfs,rename,renameat,renameat2"}})
		b, _ := os.ReadFile(f)
		sync, dirty := map[string]bool{}, map[string]bool{}
		for _, l := range strings.Split(string(b), "\n") {
			if m := reSyncTell.FindStringSubmatch(l); m != nil {
				path := cl.Parties[0].StatePath
				if m[1] == "SIG" {
					path = filepath.Join(cl.Dir, "pv.json")
				}
				if dirty[path] {
					c.Violation("not-synced", "%s: a signature (%s) is handed out while the state file %s has not been synced to disk since it was written",
						workload, m[1], filepath.Base(path))
					return
				}
				c.Count("releases behind a synced state file", 1)
				continue
			}
			if m := reSyncOpen.FindStringSubmatch(l); m != nil {
				sync[m[1]] = strings.Contains(m[2], "O_SYNC") || strings.Contains(m[2], "O_DSYNC")
			}
			if m := reSyncFd.FindStringSubmatch(l); m != nil {
				dirty[m[2]] = !strings.HasSuffix(m[1], "sync") && !sync[m[2]]
			} else if reSyncAll.MatchString(l) {
				dirty = map[string]bool{}
			}
			if m := reRename.FindStringSubmatch(l); m != nil {
				dirty[m[2]] = dirty[m[1]]
			}
		}
		c.Eval(fmt.Sprintf("synced %s releases=%d", workload, len(res.rel)+len(res.sig)))
	}
}

// countCalls counts the system calls of an undisturbed run.
func countCalls(workload string, calls []string) map[string]int {
	cl := newCluster(2, 2)
	cl.save()
	f := filepath.Join(newDir("count"), "calls")
	runCrash(cl.Dir, crashRun{workload: workload, fault: []string{"-o", f, "-e", "trace=" + strings.Join(calls, ",")}})
	b, _ := os.ReadFile(f)
	out := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		for _, call := range calls {
			if strings.Contains(l, " "+call+"(") {
				out[call]++
			}
		}
	}
	return out
}

// c03After restarts from the files and looks for anything that was forgotten.
func c03After(c *Check, cl *Cluster, slot *LeaderSlot, pv string, first Msg, desc string, res crashResult) {
	type done struct {
		p   Parsed
		b   []byte
		sig []byte
	}
	decode := func(x [][2][]byte) []done {
		var out []done
		for _, e := range x {
			p, err := parseSignBytes(e[0])
			must(err)
			out = append(out, done{p, e[0], e[1]})
		}
		return out
	}
	rel, sig := decode(res.rel), decode(res.sig)
	fp, _ := parseSignBytes(first.SignBytes())
	rel = append([]done{{p: fp, b: first.SignBytes()}}, rel...)
	sig = append([]done{{p: fp, b: first.SignBytes()}}, sig...)
	maxOf := func(d []done) done {
		m := d[0]
		for _, x := range d {
			if m.p.HRS.Less(x.p.HRS) {
				m = x
			}
		}
		return m
	}
	share := cl.Parties[0].StatePath
	for _, f := range []struct {
		path string
		max  done
	}{{share, maxOf(rel)}, {pv, maxOf(sig)}} {
		at, st, err := loadHRS(f.path)
		if err != nil {
			c.Violation("unloadable-after-crash", "%s: state file %s cannot be loaded: %v\n%s", desc, filepath.Base(f.path), err, res.out)
			return
		}
		if at.Less(f.max.p.HRS) {
			c.Violation("watermark-lost", "%s: state file %s holds %s, but a signature at %s was handed out\n%s", desc, filepath.Base(f.path), at, f.max.p.HRS, res.out)
			return
		}
		if at == f.max.p.HRS {
			p, err := parseSignBytes(st.SignBytes)
			if err != nil || p.Content != f.max.p.Content {
				c.Violation("watermark-bytes-lost", "%s: state file %s holds %s with other sign bytes than those handed out", desc, filepath.Base(f.path), at)
			}
		}
	}
	// restart from the files
	again, err := loadCluster(cl.Dir)
	if err != nil {
		c.Violation("restart-failed", "%s: the cosigner does not restart: %v", desc, err)
		return
	}
	top := maxOf(rel)
	p := again.Parties[0]
	var asks []Msg
	for _, m := range append(crashMessages(6), first) {
		asks = append(asks, m)
		vs := m.variants()
		var names []string
		for k := range vs {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names[:4] {
			asks = append(asks, vs[k])
		}
	}
	for _, m := range asks {
		h := m.HRS()
		if top.p.HRS.Less(h) {
			continue
		}
		ps, _ := parseSignBytes(m.SignBytes())
		if h == top.p.HRS && ps.Content == top.p.Content {
			continue
		}
		if r, err := shareSign(m, p, again.Parties[1]); err == nil {
			c.Violation("conflict-after-crash", "%s: after the restart the cosigner signed %s (signature %x), although it had handed out a signature at %s\n%s",
				desc, m, r.Signature, top.p.HRS, res.out)
			return
		}
		c.Count("conflicts refused after a crash", 1)
	}
	// the coordinator, too
	co := newCoordAt(again, slot, 1, pv)
	stop := maxOf(sig)
	for _, m := range asks {
		h := m.HRS()
		ps, _ := parseSignBytes(m.SignBytes())
		if stop.p.HRS.Less(h) || h == stop.p.HRS && ps.Content == stop.p.Content {
			continue
		}
		o := co.Sign(m)
		checkOutcome(c, cl.Priv.PubKey(), o)
		if o.Err == nil {
			c.Violation("block-conflict-after-crash", "%s: after the restart the coordinator signed %s, although it had handed out a signature at %s",
				desc, m, stop.p.HRS)
			return
		}
		c.Count("conflicts refused after a crash", 1)
		if c.Tier == "quick" && c.Get("conflicts refused after a crash")%7 != 0 {
			break
		}
	}
}

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	radmin "github.com/Jille/raftadmin/proto"
	"github.com/anishathalye/porcupine"
	"github.com/hashicorp/raft"
	"github.com/strangelove-ventures/horcrux/signer"
)

func init() {
	checks["C11"] = checkC11
	helpers["kvnode"] = helperKVNode
}

func checkC11(c *Check) {
	c.Rule("a case is one operation of a concurrent history on the replicated store of a three node cluster, recorded with call and " +
		"return times; histories on a stable leader are judged by a linearizability checker (porcupine), others by what every node " +
		"holds after a marker written afterwards is visible; nodes run in this process (leadership transfers) and as processes of their " +
		"own (kill, restart, snapshot); non-trivial if another operation on the key overlapped or a fault happened since the last; " +
		"distinct by (operation, key kind, value kind, outcome, faults since)")
	c.Need("operations checked for linearizability", "overlapping operations", "linearizability rounds", "writes refused by followers",
		"kills", "snapshots", "acknowledged writes found after restarts", "announcements checked for retention", "nodes compared", "votes asked again after a restart")
	if !straceMissing {
		c.Need("acknowledgements behind a synced log")
	}
	if hooked {
		c.Need("catch-ups by snapshot of running nodes")
	}
	var wg sync.WaitGroup
	wg.Add(4)
	go func() { defer wg.Done(); c11Votes(c); c11Synced(c) }()
	go func() { defer wg.Done(); c11InProcess(c) }()
	go func() { defer wg.Done(); c11Processes(c) }()
	go func() { defer wg.Done(); c11FSM(c); c11CatchUp(c) }()
	wg.Wait()
}

// c11FSM drives the state machine the way the consensus mechanism does, against a map.
func c11FSM(c *Check) {
	if !hooked {
		return
	}
	// is that how the log is written
	sac := newCluster(1, 1)
	st := signer.NewRaftStore("1", newDir("fsm"), "127.0.0.1:0", time.Second, nopLogger(), sac.Parties[0].lc, nil)
	fsmOf(st).Apply(&raft.Log{Index: 1, Term: 1, Type: raft.LogCommand, Data: []byte(`{"op":"set","key":"mark","value":"x"}`)})
	if got, _ := st.Get("mark"); got != "x" {
		c.Count("state machine left out: another log format", 1)
		return
	}
	c.Need("state machine steps", "snapshots restored over other contents", "snapshots that failed")
	parallel(c.size(60, 1000), 4, func(i int) {
		if !c.Violated() {
			c11FSMRun(c, c.Rng(fmt.Sprint("fsm", i)))
		}
	})
}

type kvSink struct {
	bytes.Buffer
	failWrite, failClose, cancelled, closed bool
}

func (s *kvSink) ID() string    { return "x" }
func (s *kvSink) Cancel() error { s.cancelled = true; return nil }
func (s *kvSink) Write(b []byte) (int, error) {
	if s.failWrite {
		n, _ := s.Buffer.Write(b[:len(b)/2])
		return n, errInjected
	}
	return s.Buffer.Write(b)
}
func (s *kvSink) Close() error {
	if s.failClose {
		return errInjected
	}
	s.closed = true
	return nil
}

func c11FSMRun(c *Check, r *rand.Rand) {
	type inst struct {
		st *signer.RaftStore
		m  map[string]string
	}
	var insts []*inst
	for k := 0; k < 2; k++ {
		dir := newDir("fsm")
		sac := newCluster(1, 1)
		st := signer.NewRaftStore("1", dir, "127.0.0.1:0", time.Second, nopLogger(), sac.Parties[0].lc, nil)
		st.SetThresholdValidator(signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: sac.Priv.PubKey(), Threshold: 1,
			SignState: newState(filepath.Join(dir, "idle.json")), Cosigner: sac.Parties[0], RaftStore: st, Logger: nopLogger()}))
		insts = append(insts, &inst{st, map[string]string{}})
	}
	type held struct {
		snap raft.FSMSnapshot
		m    map[string]string
	}
	var snaps []held
	type image struct {
		b []byte
		m map[string]string
	}
	var images []image
	clone := func(m map[string]string) map[string]string {
		o := map[string]string{}
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	var seq, index int64
	var log []string
	for step := 0; step < 150; step++ {
		n := r.Intn(2)
		x := insts[n]
		f := fsmOf(x.st)
		apply := func(b []byte) {
			index++
			f.Apply(&raft.Log{Index: uint64(index), Term: 1, Type: raft.LogCommand, Data: b})
		}
		what := ""
		switch k := r.Intn(16); {
		case k < 6:
			key := kvKeys[r.Intn(len(kvKeys))]
			v, _ := kvValue(r, &seq)
			b, _ := json.Marshal(map[string]string{"op": "set", "key": key, "value": v})
			apply(b)
			x.m[key] = v
			what = "set " + key
		case k < 9:
			key := kvKeys[r.Intn(len(kvKeys))]
			b, _ := json.Marshal(map[string]string{"op": "delete", "key": key})
			apply(b)
			delete(x.m, key)
			what = "delete " + key
		case k == 9:
			v, _ := json.Marshal(signer.NewSignStateConsensus(r.Int63n(1000), 0, 1))
			b, _ := json.Marshal(map[string]string{"op": "set", "key": "LSS", "value": string(v)})
			apply(b)
			what = "announcement"
		case k == 10:
			apply([]byte([]string{"", "{", "null", "[]", `{"op":"x","key":"a","value":"y"}`, `{"op":"","key":"a"}`, `{"key":"a","value":"z"}`,
				`{"op":"set","key":"LSS","value":"{"}`, `{"op":1}`}[r.Intn(9)]))
			what = "nonsense"
		case k < 13:
			s, err := f.Snapshot()
			if err != nil {
				c.Violation("snapshot-failed", "%v", err)
				return
			}
			snaps = append(snaps, held{s, clone(x.m)})
			what = "snapshot"
		case k == 13 && len(snaps) > 0:
			i := r.Intn(len(snaps))
			h := snaps[i]
			snaps = append(snaps[:i], snaps[i+1:]...)
			sink := &kvSink{failWrite: r.Intn(6) == 0, failClose: r.Intn(6) == 0}
			err := h.snap.Persist(sink)
			h.snap.Release()
			what = fmt.Sprintf("persist %v %v", sink.failWrite, sink.failClose)
			if sink.failWrite || sink.failClose {
				c.Count("snapshots that failed", 1)
				if err == nil || !sink.cancelled {
					c.Violation("failed-snapshot-kept", "writing the snapshot failed, but Persist says %v and the snapshot is cancelled: %v", err, sink.cancelled)
				}
			} else if err != nil || !sink.closed || sink.cancelled {
				c.Violation("snapshot-failed", "Persist: %v, closed %v, cancelled %v", err, sink.closed, sink.cancelled)
			} else {
				images = append(images, image{append([]byte(nil), sink.Bytes()...), h.m})
			}
		case k == 14 && len(images) > 0:
			im := images[r.Intn(len(images))]
			if len(x.m) > 0 {
				c.Count("snapshots restored over other contents", 1)
			}
			if err := f.Restore(io.NopCloser(bytes.NewReader(im.b))); err != nil {
				c.Violation("restore-failed", "%v: %q", err, im.b)
				return
			}
			x.m = clone(im.m)
			what = "restore"
		case k == 15 && len(images) > 0:
			im := images[r.Intn(len(images))]
			if err := f.Restore(io.NopCloser(bytes.NewReader(im.b[:r.Intn(len(im.b))]))); err == nil {
				c.Violation("torn-snapshot-restored", "part of %q was restored without an error", im.b)
			}
			what = "restore of a torn snapshot"
		default:
			continue
		}
		log = append(log, fmt.Sprintf("%d %s", n, what))
		c.Count("state machine steps", 1)
		c.Eval(strings.Join(log[max(0, len(log)-3):], ";"))
		for i, y := range insts {
			for _, key := range append([]string{"LSS"}, kvKeys...) {
				if v, _ := y.st.Get(key); v != y.m[key] {
					c.Violation("state-machine", "key %q of instance %d is %q, not %q, after %s", key, i, cut(v), cut(y.m[key]), strings.Join(log, "; "))
					return
				}
			}
		}
	}
}

// c11CatchUp stops nodes long enough that a leader brings them up to date with a snapshot.
func c11CatchUp(c *Check) {
	if !hooked {
		return
	}
	r := c.Rng("catchup")
	kc := newKVCluster(c, 3)
	defer kc.stop()
	if b := kc.barrier("start"); b != "" {
		c.Inconclusive("the cluster of store processes did not start: %s", b)
		return
	}
	var keys []string
	for i := 0; i < 12; i++ {
		keys = append(keys, fmt.Sprint("k", i))
	}
	want := map[string]string{}
	var seq int64
	for round := 0; round < c.size(6, 60) && !c.Violated(); round++ {
		leader := -1
		for try := 0; try < 400 && leader < 0; try++ {
			for i, p := range kc.nodes {
				if res, ok := p.do(kvMsg{Op: "leader"}); ok && res.Leader == p.addr {
					leader = i
				}
			}
			if leader < 0 {
				time.Sleep(25 * time.Millisecond)
			}
		}
		if leader < 0 {
			c.Inconclusive("no leader")
			return
		}
		victim := kc.nodes[(leader+1+r.Intn(2))%3]
		for _, p := range kc.nodes {
			op := "eager"
			if p == victim {
				op = "lazy" // takes no snapshots of its own, so the ones it has were sent to it
			}
			p.do(kvMsg{Op: op})
		}
		before, _ := victim.do(kvMsg{Op: "snapindex"})
		victim.cmd.Process.Signal(syscall.SIGSTOP)
		for k := 0; k < 60; k++ {
			key := keys[r.Intn(len(keys))]
			op, v := "set", ""
			if r.Intn(3) == 0 {
				op = "delete"
			} else {
				v, _ = kvValue(r, &seq)
			}
			acked := false
			for try := 0; try < 600 && !acked; try++ {
				for _, p := range kc.nodes {
					if p != victim && !acked {
						res, ok := p.do(kvMsg{Op: op, K: key, V: v})
						acked = ok && res.Err == ""
					}
				}
				if !acked {
					time.Sleep(20 * time.Millisecond)
				}
			}
			if !acked {
				victim.cmd.Process.Signal(syscall.SIGCONT)
				if !kc.crashed() {
					c.Inconclusive("writes were not acknowledged with one node stopped")
				}
				return
			}
			want[key] = v
		}
		for _, p := range kc.nodes {
			if p != victim {
				kc.snapshot(p)
			}
		}
		victim.cmd.Process.Signal(syscall.SIGCONT)
		if b := kc.barrier(fmt.Sprint("catchup", round)); b != "" {
			if !c.Violated() {
				c.Violation("not-converged", "after a node was stopped for a while (round %d): %s", round, b)
			}
			return
		}
		after, _ := victim.do(kvMsg{Op: "snapindex"})
		if len(before.Vals) == 1 && len(after.Vals) == 1 && before.Vals[0] != after.Vals[0] {
			c.Count("catch-ups by snapshot of running nodes", 1)
		}
		for _, p := range kc.nodes {
			res, ok := p.do(kvMsg{Op: "get", Keys: keys})
			if !ok || len(res.Vals) != len(keys) {
				c.Inconclusive("node %d did not answer", p.id)
				return
			}
			for k, key := range keys {
				if res.Vals[k] != want[key] {
					c.Violation("catch-up", "after node %d was stopped for a while (round %d): key %q is %q on node %d, last acknowledged %q", victim.id, round,
						key, cut(res.Vals[k]), p.id, cut(want[key]))
				}
			}
			c.Eval(fmt.Sprintf("catch-up %d %d", round, p.id))
			c.Count("nodes compared", 1)
		}
	}
}

type kvIn struct {
	Op, Key, Val string
}

var kvModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var keys []string
		for _, o := range h {
			k := o.Input.(kvIn).Key
			if m[k] == nil {
				keys = append(keys, k)
			}
			m[k] = append(m[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range keys {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() interface{} { return "" },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		i := in.(kvIn)
		switch i.Op {
		case "set":
			return true, i.Val
		case "delete":
			return true, ""
		}
		return st.(string) == out.(string), st
	},
	DescribeOperation: func(in, out interface{}) string { return fmt.Sprintf("%v -> %v", in, out) },
}

// kvHistory is a recorded history.
type kvHistory struct {
	mu  sync.Mutex
	ops []porcupine.Operation
}

func (h *kvHistory) add(client int, in kvIn, out string, call, ret int64) {
	h.mu.Lock()
	h.ops = append(h.ops, porcupine.Operation{ClientId: client, Input: in, Output: out, Call: call, Return: ret})
	h.mu.Unlock()
}

const never = int64(1) << 62 // an operation of unknown outcome may take effect at any later time

func overlapping(ops []porcupine.Operation) int64 {
	n := int64(0)
	for i, a := range ops {
		for j, b := range ops {
			if i != j && a.Input.(kvIn).Key == b.Input.(kvIn).Key && a.Call < b.Return && b.Call < a.Return {
				n++
				break
			}
		}
	}
	return n
}

func (h *kvHistory) check(c *Check, what string) {
	switch porcupine.CheckOperationsTimeout(kvModel, h.ops, 60*time.Second) {
	case porcupine.Illegal:
		var b strings.Builder
		for _, o := range h.ops {
			fmt.Fprintf(&b, "  client %d [%d-%d] %+v -> %q\n", o.ClientId, o.Call, o.Return, o.Input, cut(o.Output.(string)))
		}
		c.Violation("not-linearizable", "%s: no order of the operations explains the results\n%s", what, b.String())
	case porcupine.Unknown:
		c.Inconclusive("linearizability check of %s took too long", what)
	default:
		c.Count("operations checked for linearizability", int64(len(h.ops)))
		c.Count("overlapping operations", overlapping(h.ops))
		c.Count("linearizability rounds", 1)
	}
}

func cut(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}

// kvValue makes a value that occurs nowhere else.
func kvValue(r *rand.Rand, seq *int64) (string, string) {
	n := atomic.AddInt64(seq, 1)
	kinds := []string{"plain", "quotes", "unicode", "json", "html", "control", "long"}
	k := kinds[r.Intn(len(kinds))]
	s := fmt.Sprint("v", n)
	switch k {
	case "quotes":
		s += `"'\/` + "`"
	case "unicode":
		s += "\u2028\u00e9\U0001f600\uffff"
	case "json":
		s = fmt.Sprintf(`{"op":"delete","key":"a","value":%d}`, n)
	case "html":
		s += "<&>"
	case "control":
		s += "\x00\x01\n\t\r"
	case "long":
		s += strings.Repeat("x", 2000)
	}
	return s, k
}

var kvKeys = []string{"a", "b", "key with space", "LSSx", "lss", "", "\u00fc\u2028\"", "{}"}

func c11InProcess(c *Check) {
	r := c.Rng("inprocess")
	ns := newNodes(2, 3)
	var seq int64
	all := map[string]bool{}
	for _, k := range kvKeys {
		all[k] = true
	}
	converged := func(what string) map[string]string {
		if b := ns.Barrier(90 * time.Second); b != "" {
			c.Violation("not-converged", "%s: %s did not apply the log", what, b)
			return nil
		}
		m := map[string]string{}
		for k := range all {
			for i, n := range ns.Nodes {
				v, _ := n.Store.Get(k)
				if i == 0 {
					m[k] = v
				} else if v != m[k] {
					c.Violation("diverged", "%s: key %q is %q on node 1 and %q on node %d", what, k, cut(m[k]), cut(v), n.ID)
				}
			}
			c.Count("nodes compared", 1)
		}
		return m
	}
	for round := 0; round < c.size(14, 150) && !c.Violated(); round++ {
		start := converged("before a round")
		if start == nil {
			return
		}
		leader := ns.Leader()
		h := &kvHistory{}
		for k, v := range start {
			if v != "" {
				h.add(99, kvIn{"set", k, v}, "", -2, -1)
			}
		}
		transfer := round%3 == 2
		base := tick()
		var wg sync.WaitGroup
		const clients = 6
		for cl := 0; cl < clients; cl++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(cl int) {
				defer wg.Done()
				keys := kvKeys[:2+rr.Intn(len(kvKeys)-2)]
				lost := false // after a write of unknown outcome a client waits for the next round
				for k := 0; k < 30 && !lost; k++ {
					in := kvIn{Op: []string{"set", "set", "get", "get", "delete"}[rr.Intn(5)], Key: keys[rr.Intn(len(keys))]}
					kind := ""
					if in.Op == "set" {
						in.Val, kind = kvValue(rr, &seq)
					}
					node := leader
					if in.Op != "get" && rr.Intn(12) == 0 {
						// a node that is not the leader
						n := ns.Nodes[rr.Intn(3)]
						if n != leader && !transfer {
							if err := kvDo(n.Store, in); err == nil {
								c.Violation("follower-wrote", "node %d, not the leader, accepted %+v", n.ID, in)
							}
							c.Count("writes refused by followers", 1)
							c.Eval(fmt.Sprintf("follower %s %s", in.Op, in.Key))
							continue
						}
					}
					call := tick()
					var out string
					var err error
					if in.Op == "get" {
						out, err = node.Store.Get(in.Key)
					} else {
						err = kvDo(node.Store, in)
					}
					ret := tick()
					if in.Op == "get" && transfer {
						continue // reads of a node that may no longer lead may be old
					}
					if err != nil && refused(err.Error()) {
						c.Count("writes refused by followers", 1)
						time.Sleep(2 * time.Millisecond)
						continue // had no effect; if it has one after all, nothing explains the value
					}
					if err != nil {
						c.Count("operations without acknowledgement", 1)
						ret, lost = never, true
					}
					c.Eval(fmt.Sprintf("%s %s %s %v transfer %v", in.Op, in.Key, kind, err == nil, transfer))
					h.add(cl, in, out, call, ret)
				}
			}(cl)
		}
		if transfer {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(3 * time.Millisecond)
				ns.Transfer(0)
			}()
		}
		wg.Wait()
		stable := ns.Leader() == leader
		end := converged("after a round")
		if end == nil {
			return
		}
		if transfer {
			c.Count("rounds with a leadership transfer", 1)
		}
		if !transfer && !stable {
			c.Count("rounds spoilt by an election", 1)
			continue
		}
		for k, v := range end {
			t := tick()
			h.add(98, kvIn{"get", k, ""}, v, t, tick())
		}
		_ = base
		h.check(c, fmt.Sprintf("round %d (leadership transfer: %v)", round, transfer))
		// announcements are events only
		l := ns.Leader()
		if err := l.Store.Emit("LSS", signer.NewSignStateConsensus(int64(round+1), 0, 1)); err == nil {
			converged("after an announcement")
			for _, n := range ns.Nodes {
				if v, _ := n.Store.Get("LSS"); v != "" {
					c.Violation("announcement-kept", "node %d keeps the announcement as an entry: %q", n.ID, cut(v))
				}
				c.Count("announcements checked for retention", 1)
			}
		}
	}
}

// refused tells whether an error means that the node did not take the write at all.
func refused(e string) bool {
	return e == "not leader" || e == "node is not the leader" || e == "leadership transfer in progress"
}

func kvDo(st *signer.RaftStore, in kvIn) error {
	if in.Op == "set" {
		return st.Set(in.Key, in.Val)
	}
	return st.Delete(in.Key)
}

// ---- nodes as processes -------------------------------------------------------------------------

type kvMsg struct {
	N        int64
	Op, K, V string
	Err      string
	Leader   string
	Keys     []string
	Vals     []string
}

// helperKVNode runs one replicated store; commands come on stdin.
func helperKVNode(args []string) {
	id, dir, addr := args[0], args[1], args[2]
	must(os.MkdirAll(dir, 0o755))
	os.Setenv("VERIF_SCRATCH", dir)
	sac := newCluster(1, 1)
	var peers []signer.Cosigner
	for _, p := range strings.Split(args[3], ",") {
		if p == "-" {
			continue // alone
		}
		var pid int
		var pa string
		_, err := fmt.Sscanf(strings.Replace(p, "=", " ", 1), "%d %s", &pid, &pa)
		must(err)
		peers = append(peers, signer.NewRemoteCosigner(pid, "tcp://"+pa))
	}
	st := signer.NewRaftStore(id, dir, "tcp://"+addr, 10*time.Second, nopLogger(), sac.Parties[0].lc, peers)
	st.SetThresholdValidator(signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: sac.Priv.PubKey(), Threshold: 1,
		SignState: newState(filepath.Join(dir, "idle.json")), Cosigner: sac.Parties[0], RaftStore: st, Logger: nopLogger()}))
	must(st.Start())
	var mu sync.Mutex
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	for in.Scan() {
		var m kvMsg
		must(json.Unmarshal(in.Bytes(), &m))
		go func() {
			var err error
			switch m.Op {
			case "set":
				err = st.Set(m.K, m.V)
			case "delete":
				err = st.Delete(m.K)
			case "get":
				for _, k := range m.Keys {
					v, _ := st.Get(k)
					m.Vals = append(m.Vals, v)
				}
			case "emit":
				err = st.Emit("LSS", signer.NewSignStateConsensus(m.N, 0, 1))
			case "eager", "lazy":
				if ra := raftOf(st); ra != nil {
					rc := raft.ReloadableConfig{TrailingLogs: 4, SnapshotInterval: 100 * time.Millisecond, SnapshotThreshold: 10}
					if m.Op == "lazy" {
						rc = raft.ReloadableConfig{TrailingLogs: 1 << 20, SnapshotInterval: time.Hour, SnapshotThreshold: 1 << 20}
					}
					err = ra.ReloadConfig(rc)
				}
			case "snapindex":
				if ra := raftOf(st); ra != nil {
					m.Vals = []string{ra.Stats()["last_snapshot_index"]}
				}
			case "leader":
				m.Leader = string(st.GetLeader())
			}
			if err != nil {
				m.Err = err.Error()
			}
			b, err := json.Marshal(m)
			must(err)
			mu.Lock()
			os.Stdout.Write(append(b, '\n'))
			mu.Unlock()
		}()
	}
	os.Exit(0)
}

type kvProc struct {
	id      int
	dir     string
	addr    string
	peers   string
	wrap    []string // command to run it under
	cmd     *exec.Cmd
	in      io.WriteCloser
	log     string
	mu      sync.Mutex
	waiting map[int64]chan kvMsg
	dead    chan struct{}
	seq     int64
}

func (p *kvProc) start() {
	self, err := os.Executable()
	must(err)
	argv := append(append([]string{}, p.wrap...), self, "helper", "kvnode", fmt.Sprint(p.id), p.dir, p.addr, p.peers)
	p.cmd = exec.Command(argv[0], argv[1:]...)
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	f, err := os.OpenFile(p.log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	p.cmd.Stderr = f
	p.in, err = p.cmd.StdinPipe()
	must(err)
	out, err := p.cmd.StdoutPipe()
	must(err)
	must(p.cmd.Start())
	f.Close()
	p.mu.Lock()
	p.waiting = map[int64]chan kvMsg{}
	dead := make(chan struct{})
	p.dead = dead
	p.mu.Unlock()
	cmd := p.cmd
	go func() {
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var m kvMsg
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue // something the store printed
			}
			p.mu.Lock()
			if ch := p.waiting[m.N]; ch != nil {
				ch <- m
				delete(p.waiting, m.N)
			}
			p.mu.Unlock()
		}
		cmd.Wait()
		close(dead)
	}()
}

func (p *kvProc) kill() {
	p.cmd.Process.Signal(syscall.SIGCONT)
	p.cmd.Process.Signal(syscall.SIGKILL)
	<-p.dead
}

// do makes a request; ok is false if no answer came.
func (p *kvProc) do(m kvMsg) (res kvMsg, ok bool) {
	ch := make(chan kvMsg, 1)
	p.mu.Lock()
	p.seq++
	m.N = p.seq
	p.waiting[m.N] = ch
	dead := p.dead
	select {
	case <-dead: // nobody there to take it
		p.mu.Unlock()
		return kvMsg{Err: "not leader"}, true
	default:
	}
	b, err := json.Marshal(m)
	must(err)
	_, err = p.in.Write(append(b, '\n'))
	p.mu.Unlock()
	if err != nil {
		return res, false
	}
	select {
	case res = <-ch:
		return res, true
	case <-dead:
		select {
		case res = <-ch:
			return res, true
		default:
		}
		return res, false
	case <-time.After(40 * time.Second):
		return res, false
	}
}

// kvCluster is three of them.
type kvCluster struct {
	c     *Check
	nodes []*kvProc
}

func newKVCluster(c *Check, n int) *kvCluster {
	kc := &kvCluster{c: c}
	var addrs []string
	for i := 0; i < n; i++ {
		addrs = append(addrs, fmt.Sprintf("127.0.0.1:%d", freePort()))
	}
	for i := 0; i < n; i++ {
		p := &kvProc{id: i + 1, dir: newDir("kv"), addr: addrs[i]}
		p.log = filepath.Join(p.dir, "stderr")
		var ps []string
		for j := 0; j < n; j++ {
			if j != i {
				ps = append(ps, fmt.Sprintf("%d=%s", j+1, addrs[j]))
			}
		}
		p.peers = strings.Join(ps, ",")
		p.start()
		kc.nodes = append(kc.nodes, p)
	}
	return kc
}

func (kc *kvCluster) stop() {
	for _, p := range kc.nodes {
		p.kill()
	}
}

// crashed tells whether a node ended by itself.
func (kc *kvCluster) crashed() bool {
	for _, p := range kc.nodes {
		select {
		case <-p.dead:
			b, _ := os.ReadFile(p.log)
			i := strings.Index(string(b), "panic: ")
			if i < 0 {
				i = strings.Index(string(b), "fatal error: ")
			}
			if i < 0 {
				continue // killed
			}
			if strings.HasPrefix(string(b)[i:], "panic: harness") {
				panic("harness: kvnode: " + string(b)[i:])
			}
			kc.c.Violation("crash", "node %d crashed: %s", p.id, tailString(string(b)[i:], 3000))
			return true
		default:
		}
	}
	return false
}

// write makes a write at whoever leads, until it is acknowledged or the tries are used up; the outcome of
// tries that were not acknowledged stays unknown.
func (kc *kvCluster) write(op, k, v string, tries int) bool {
	for i := 0; i < tries; i++ {
		for _, p := range kc.nodes {
			if p == nil {
				continue
			}
			select {
			case <-p.dead:
				continue
			default:
			}
			if res, ok := p.do(kvMsg{Op: op, K: k, V: v}); ok && res.Err == "" {
				return true
			}
		}
		if i%20 == 19 && kc.crashed() {
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
	return false
}

func (kc *kvCluster) barrier(v string) string {
	if !kc.write("set", "barrier", v, 1200) {
		return "no leader accepts writes"
	}
	for i := 0; ; i++ {
		var behind []string
		for _, p := range kc.nodes {
			res, ok := p.do(kvMsg{Op: "get", Keys: []string{"barrier"}})
			if !ok || len(res.Vals) != 1 || res.Vals[0] != v {
				behind = append(behind, fmt.Sprint("node ", p.id))
			}
		}
		if len(behind) == 0 {
			return ""
		}
		if i > 4500 || kc.crashed() {
			return strings.Join(behind, ", ") + " behind"
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (kc *kvCluster) snapshot(p *kvProc) bool {
	_, cc := dialCosigner(p.addr)
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cl := radmin.NewRaftAdminClient(cc)
	f, err := cl.Snapshot(ctx, &radmin.SnapshotRequest{})
	if err != nil {
		return false
	}
	res, err := cl.Await(ctx, f)
	return err == nil && res.GetError() == ""
}

// keyLog is what is known about one key, written by one client only.
type keyLog struct {
	acked   string   // value of the last acknowledged write ("" after a delete)
	unknown []string // values of later writes that were not acknowledged
}

func (l *keyLog) allowed(v string) bool {
	if v == l.acked {
		return true
	}
	for _, u := range l.unknown {
		if v == u {
			return true
		}
	}
	return false
}

func c11Processes(c *Check) {
	r := c.Rng("processes")
	kc := newKVCluster(c, 3)
	defer kc.stop()
	logs := map[string]*keyLog{}
	var keys []string
	const clients = 8
	for i := 0; i < clients; i++ {
		for _, k := range []string{"x", "y\u00e9\"", "z z"} {
			key := fmt.Sprintf("%s%d", k, i)
			keys = append(keys, key)
			logs[key] = &keyLog{}
		}
	}
	if b := kc.barrier("start"); b != "" {
		c.Inconclusive("the cluster of store processes did not start: %s", b)
		return
	}
	var seq int64
	for round := 0; round < c.size(7, 60) && !c.Violated(); round++ {
		fault := []string{"kill leader", "snapshot and kill all", "kill follower", "kill all", "snapshot", "kill two", "snapshot while writing"}[round%7]
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for cl := 0; cl < clients; cl++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func(cl int) {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					key := keys[cl*3+rr.Intn(3)]
					l := logs[key]
					op, val, kind := "set", "", ""
					if rr.Intn(4) == 0 {
						op = "delete"
					} else {
						val, kind = kvValue(rr, &seq)
					}
					p := kc.nodes[rr.Intn(3)]
					res, ok := p.do(kvMsg{Op: op, K: key, V: val})
					switch {
					case ok && res.Err == "":
						l.acked, l.unknown = val, nil
						c.Count("acknowledged writes", 1)
						c.Eval(fmt.Sprintf("%s %s acknowledged, %s", op, kind, fault))
					case ok && refused(res.Err):
						c.Count("writes refused by followers", 1)
						time.Sleep(time.Millisecond)
					default:
						l.unknown = append(l.unknown, val)
						c.Count("operations without acknowledgement", 1)
						c.Eval(fmt.Sprintf("%s %s unknown, %s", op, kind, fault))
						time.Sleep(5 * time.Millisecond)
					}
				}
			}(cl)
		}
		time.Sleep(time.Duration(100+r.Intn(300)) * time.Millisecond)
		leader := 0
		for i, p := range kc.nodes {
			if res, ok := p.do(kvMsg{Op: "leader"}); ok && res.Leader == p.addr {
				leader = i
			}
		}
		var victims []*kvProc
		switch fault {
		case "kill leader":
			victims = kc.nodes[leader : leader+1]
		case "kill follower":
			victims = kc.nodes[(leader+1)%3 : (leader+1)%3+1]
		case "kill two":
			victims = append(victims, kc.nodes[leader], kc.nodes[(leader+2)%3])
		case "kill all":
			victims = kc.nodes
		case "snapshot and kill all":
			for _, p := range kc.nodes {
				if kc.snapshot(p) {
					c.Count("snapshots", 1)
				}
			}
			victims = kc.nodes
		case "snapshot", "snapshot while writing":
			for k := 0; k < 2; k++ {
				for _, p := range kc.nodes {
					if kc.snapshot(p) {
						c.Count("snapshots", 1)
					}
				}
				time.Sleep(20 * time.Millisecond)
			}
			victims = kc.nodes[(leader+1)%3 : (leader+1)%3+1]
		}
		for _, p := range victims {
			p.kill()
			c.Count("kills", 1)
		}
		time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
		if fault != "kill all" && fault != "snapshot and kill all" {
			time.Sleep(time.Second) // let the rest go on without it
		}
		for _, p := range victims {
			p.start()
		}
		time.Sleep(time.Duration(r.Intn(500)) * time.Millisecond)
		close(stop)
		wg.Wait()
		for _, p := range kc.nodes {
			p.do(kvMsg{Op: "emit"})
		}
		if b := kc.barrier(fmt.Sprint("round", round)); b != "" {
			if !c.Violated() {
				c.Violation("not-converged", "after %s (round %d): %s", fault, round, b)
			}
			return
		}
		var first []string
		for i, p := range kc.nodes {
			res, ok := p.do(kvMsg{Op: "get", Keys: append([]string{"LSS"}, keys...)})
			if !ok || len(res.Vals) == 0 {
				c.Inconclusive("node %d did not answer", p.id)
				return
			}
			if res.Vals[0] != "" {
				c.Violation("announcement-kept", "node %d keeps an announcement as an entry: %q", p.id, cut(res.Vals[0]))
			}
			c.Count("announcements checked for retention", 1)
			if i == 0 {
				first = res.Vals
			}
			for k, key := range keys {
				v := res.Vals[k+1]
				if v != first[k+1] {
					c.Violation("diverged", "after %s (round %d): key %q is %q on node %d and %q on node 1", fault, round, key, cut(v), p.id, cut(first[k+1]))
				} else if !logs[key].allowed(v) {
					c.Violation("acknowledged-write-lost", "after %s (round %d): key %q is %q on node %d, last acknowledged %q, later attempts %q",
						fault, round, key, cut(v), p.id, cut(logs[key].acked), logs[key].unknown)
				} else {
					c.Count("acknowledged writes found after restarts", 1)
				}
			}
			c.Count("nodes compared", 1)
		}
		for k, key := range keys {
			// attempts of a past round can no longer take effect: everything before the barrier is decided
			logs[key].acked, logs[key].unknown = first[k+1], nil
		}
	}
}

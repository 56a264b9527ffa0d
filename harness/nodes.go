package main

import (
	"context"
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"time"

	radmin "github.com/Jille/raftadmin/proto"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
)

// Node is a complete cosigner node running in this process: what the cosigner start command puts together.
type Node struct {
	ID     int
	Party  *Party
	Addr   string // host:port
	PVPath string
	Store  *signer.RaftStore
	Val    *signer.ThresholdValidator
}

// Nodes is a cluster of them, which talk to each other over the loopback network.
type Nodes struct {
	Cl    *Cluster
	Nodes []*Node
	seq   int
}

// newNodes starts a cluster and waits for its leader.
func newNodes(t, n int) *Nodes {
	ns, _ := newNodesBut(t, n, 0)
	return ns
}

// newNodesBut leaves one node (0: none) to be started later.
func newNodesBut(t, n, late int) (*Nodes, func() *Node) {
	return newNodesWith(t, n, late, func(p signer.Cosigner) signer.Cosigner { return p })
}

// newNodesWith has every node see its peers through wrap.
func newNodesWith(t, n, late int, wrap func(signer.Cosigner) signer.Cosigner) (*Nodes, func() *Node) {
	cl := newCluster(t, n)
	ns := &Nodes{Cl: cl}
	startLate := func() *Node { return nil }
	addrs := map[int]string{}
	for i := 1; i <= n; i++ {
		addrs[i] = fmt.Sprintf("127.0.0.1:%d", freePort())
	}
	cl.Address = func(id int) string { return "tcp://" + addrs[id] }
	for _, p := range cl.Parties {
		must(p.start())
		dir := newDir("node")
		nd := &Node{ID: p.ID, Party: p, Addr: addrs[p.ID], PVPath: filepath.Join(dir, "pv.json")}
		var peers []signer.Cosigner
		for _, o := range cl.Parties {
			if o != p {
				peers = append(peers, wrap(signer.NewRemoteCosigner(o.ID, cl.address(o.ID))))
			}
		}
		if p.ID%2 == 1 { // a configuration may list them in any order
			for i, j := 0, len(peers)-1; i < j; i, j = i+1, j-1 {
				peers[i], peers[j] = peers[j], peers[i]
			}
		}
		nd.Store = signer.NewRaftStore(fmt.Sprint(p.ID), dir, cl.address(p.ID), 10*time.Second, nopLogger(), p.lc, peers)
		nd.Val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: cl.Priv.PubKey(), Threshold: t,
			SignState: newState(nd.PVPath), Cosigner: p.lc, Peers: peers, RaftStore: nd.Store, Logger: nopLogger()})
		nd.Store.SetThresholdValidator(nd.Val)
		if p.ID == late {
			startLate = func() *Node {
				must(nd.Store.Start())
				ns.Nodes = append(ns.Nodes, nd)
				return nd
			}
			continue
		}
		must(nd.Store.Start())
		ns.Nodes = append(ns.Nodes, nd)
	}
	if ns.Leader() == nil {
		panic("harness: no leader was elected")
	}
	return ns, startLate
}

// pastLog writes more to the store than the leader keeps in its log after a snapshot, and takes snapshots, so that
// a node which was away has to be sent a snapshot; it returns the number of writes.
func (ns *Nodes) pastLog(write func(l *Node, k int)) int {
	l := ns.Leader()
	const writers, each = 128, 90
	var wg sync.WaitGroup
	for w := 0; w < writers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < each; k++ {
				write(l, w*each+k)
			}
		}()
	}
	wg.Wait()
	for _, n := range ns.Nodes {
		n.snapshot()
	}
	return writers * each
}

// snapshot has the node take one.
func (n *Node) snapshot() bool {
	_, cc := dialCosigner(n.Addr)
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cl := radmin.NewRaftAdminClient(cc)
	f, err := cl.Snapshot(ctx, &radmin.SnapshotRequest{})
	if err != nil {
		return false
	}
	r, err := cl.Await(ctx, f)
	return err == nil && r.GetError() == ""
}

// Leader waits until all nodes agree on a leader that accepts writes.
func (ns *Nodes) Leader() *Node {
	for i := 0; i < 1200; i++ {
		var l *Node
		first := string(ns.Nodes[0].Store.GetLeader())
		same := first != ""
		for _, n := range ns.Nodes {
			same = same && string(n.Store.GetLeader()) == first
			if n.Addr == first {
				l = n
			}
		}
		if same && l != nil && l.Store.Set("probe", "x") == nil {
			return l
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil
}

// Follower returns a node that is not the leader.
func (ns *Nodes) Follower(k int) *Node {
	l := ns.Leader()
	var fs []*Node
	for _, n := range ns.Nodes {
		if n != l {
			fs = append(fs, n)
		}
	}
	return fs[k%len(fs)]
}

// Transfer asks for a leadership transfer to a node (0: any) and waits for it.
func (ns *Nodes) Transfer(to int) *Node {
	l := ns.Leader()
	cl, cc := dialCosigner(l.Addr)
	defer cc.Close()
	id := ""
	if to != 0 {
		id = fmt.Sprint(to)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cl.TransferLeadership(ctx, &proto.CosignerGRPCTransferLeadershipRequest{LeaderID: id})
	for i := 0; i < 100; i++ {
		if now := ns.Leader(); now != nil && now != l && (to == 0 || now.ID == to) {
			return now
		}
		time.Sleep(20 * time.Millisecond)
	}
	return ns.Leader()
}

// Barrier returns once every node has applied everything the leader had committed before; the result names
// a node that has not done so in the time given.
func (ns *Nodes) Barrier(wait time.Duration) string {
	ns.seq++
	v := fmt.Sprint("barrier", ns.seq)
	end := time.Now().Add(wait)
	for {
		if l := ns.Leader(); l != nil && l.Store.Set("barrier", v) == nil {
			break
		}
		if time.Now().After(end) {
			return "no leader accepts writes"
		}
	}
	for polls := 0; ; polls++ {
		var behind []string
		for _, n := range ns.Nodes {
			if got, _ := n.Store.Get("barrier"); got != v {
				behind = append(behind, fmt.Sprintf("node %d", n.ID))
			}
		}
		if len(behind) == 0 {
			return ""
		}
		if time.Now().After(end) && polls > 1000 {
			return strings.Join(behind, ", ")
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// Sign asks one node.
func (n *Node) Sign(m Msg) Outcome {
	o := Outcome{Msg: m.Clone(), Got: m.Clone(), Coord: n.ID, Call: tick()}
	o.Err = o.Got.SignWith(n.Val)
	o.Ret = tick()
	return o
}

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	gRPCTransport "github.com/Jille/raft-grpc-transport"
	"github.com/hashicorp/raft"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// c11Votes: what a node has promised in an election is still known after it was killed. With two votes in one
// term there are two leaders, each of which acknowledges writes that the other's history does not have.
func c11Votes(c *Check) {
	r := c.Rng("votes")
	tr := gRPCTransport.New(raft.ServerAddress("127.0.0.1:1"), []grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials())}).Transport()
	addrs := []string{fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort())}
	p := &kvProc{id: 1, dir: newDir("kvvote"), addr: addrs[0], peers: "2=" + addrs[1] + ",3=" + addrs[2]}
	p.log = filepath.Join(p.dir, "stderr")
	p.start()
	defer func() { p.kill() }()
	vote := func(term uint64, candidate string) (raft.RequestVoteResponse, bool) {
		for i := 0; i < 400; i++ {
			var resp raft.RequestVoteResponse
			req := raft.RequestVoteRequest{RPCHeader: raft.RPCHeader{ProtocolVersion: 3}, Term: term, Candidate: []byte(candidate), LastLogIndex: 1 << 40, LastLogTerm: term - 1}
			if tr.RequestVote("1", raft.ServerAddress(addrs[0]), &req, &resp) == nil {
				return resp, true
			}
			time.Sleep(25 * time.Millisecond)
		}
		return raft.RequestVoteResponse{}, false
	}
	term := uint64(1000)
	for round := 0; round < c.size(6, 40) && !c.Violated(); round++ {
		term += uint64(1000 + r.Intn(1000))
		a, b := addrs[1+round%2], addrs[2-round%2]
		resp, ok := vote(term, a)
		if !ok {
			c.Inconclusive("a store process answers no vote requests")
			return
		}
		if !resp.Granted {
			continue // it has gone on to an election of its own in between
		}
		restart := round%3 != 2
		if restart {
			p.kill()
			c.Count("kills", 1)
			p.start()
		}
		again, ok := vote(term, b)
		if !ok {
			if !(&kvCluster{c: c, nodes: []*kvProc{p}}).crashed() {
				c.Inconclusive("a store process answers no vote requests after a restart")
			}
			return
		}
		if again.Granted {
			c.Violation("voted-twice", "in term %d a node votes for %s and then (killed and restarted in between: %v) for %s too: two leaders of one term", term, a, restart, b)
		} else if again.Term < term {
			c.Violation("term-forgotten", "a node that voted in term %d is in term %d after being killed and restarted", term, again.Term)
		}
		c.Count("votes asked again after a restart", 1)
		c.Eval(fmt.Sprintf("vote round restart=%v own election in between=%v", restart, again.Term > term))
	}
}

var reKVAck = regexp.MustCompile(`write\(1<[^>]*>, "\{\\"N\\":(\d+),`)

// c11Synced: a write is acknowledged once it has been synced to disk, not before.
func c11Synced(c *Check) {
	if straceMissing {
		return
	}
	r := c.Rng("synced")
	dir := newDir("kvsync")
	f := filepath.Join(newDir("kvcalls"), "calls")
	p := &kvProc{id: 1, dir: dir, addr: fmt.Sprintf("127.0.0.1:%d", freePort()), peers: "-", wrap: []string{"strace", "-f", "-qq", "-o", f, "-y", "-s", "24",
		"-e", "trace=openat,write,pwrite64,ftruncate,fsync,fdatasync,msync,sync,syncfs,rename,renameat,renameat2"}}
	p.log = filepath.Join(dir, "stderr")
	p.start()
	stop := func() {
		p.in.Close()
		select {
		case <-p.dead:
		case <-time.After(20 * time.Second):
			p.kill()
		}
	}
	kc := &kvCluster{c: c, nodes: []*kvProc{p}}
	if !kc.write("set", "start", "1", 600) {
		stop()
		c.Inconclusive("a store process alone accepts no writes")
		return
	}
	acked := map[string]string{}
	var seq int64
	for i := 0; i < c.size(30, 200); i++ {
		op, v := "set", ""
		if i%4 == 3 {
			op = "delete"
		} else {
			v, _ = kvValue(r, &seq)
		}
		if res, ok := p.do(kvMsg{Op: op, K: fmt.Sprint("k", r.Intn(5)), V: v}); ok && res.Err == "" {
			acked[fmt.Sprint(res.N)] = op
		}
		time.Sleep(time.Millisecond)
	}
	stop()
	b, err := os.ReadFile(f)
	must(err)
	sync, dirty, wrote := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		if m := reKVAck.FindStringSubmatch(l); m != nil {
			if acked[m[1]] == "" {
				continue
			}
			for path := range wrote {
				if dirty[path] {
					c.Violation("not-synced", "the acknowledgement of a %s leaves the node while %s has not been synced to disk since it was written", acked[m[1]], filepath.Base(path))
					return
				}
			}
			if len(wrote) == 0 {
				c.Violation("not-written", "the acknowledgement of a %s leaves the node before anything was written to disk", acked[m[1]])
				return
			}
			wrote = map[string]bool{}
			c.Count("acknowledgements behind a synced log", 1)
			c.Eval("synced " + acked[m[1]])
			continue
		}
		if m := reSyncOpen.FindStringSubmatch(l); m != nil {
			sync[m[1]] = strings.Contains(m[2], "O_SYNC") || strings.Contains(m[2], "O_DSYNC")
		}
		if m := reSyncFd.FindStringSubmatch(l); m != nil && strings.HasPrefix(m[2], dir) && m[2] != p.log {
			isSync := strings.HasSuffix(m[1], "sync")
			dirty[m[2]] = !isSync && !sync[m[2]]
			wrote[m[2]] = wrote[m[2]] || !isSync
		} else if reSyncAll.MatchString(l) {
			dirty = map[string]bool{}
		}
		if m := reRename.FindStringSubmatch(l); m != nil {
			dirty[m[2]], wrote[m[2]] = dirty[m[1]], wrote[m[1]]
		}
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// hx is the horcrux command built from the tree.
func hx() string {
	p := os.Getenv("VERIF_HX")
	if p == "" {
		panic("harness: VERIF_HX is not set")
	}
	return p
}

// runHx runs a horcrux command to its end.
func runHx(args ...string) (out string, code int) { return runHxEnv(nil, args...) }

func runHxEnv(env []string, args ...string) (out string, code int) {
	cmd := exec.Command(hx(), args...)
	cmd.Env = append(append(os.Environ(), "HOME="+emptyHome()), env...)
	b, err := cmd.CombinedOutput()
	if err == nil {
		return string(b), 0
	}
	if cmd.ProcessState == nil {
		panic("harness: " + err.Error())
	}
	return string(b), cmd.ProcessState.ExitCode()
}

var emptyHomeOnce sync.Once
var emptyHomeDir string

// emptyHome is a home directory without a configuration.
func emptyHome() string {
	emptyHomeOnce.Do(func() { emptyHomeDir = newDir("nohome") })
	return emptyHomeDir
}

// Proc is a running horcrux process.
type Proc struct {
	cmd  *exec.Cmd
	Log  string
	done chan struct{}
	code int
}

func startHx(log string, args ...string) *Proc {
	f, err := os.OpenFile(log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	defer f.Close()
	p := &Proc{cmd: exec.Command(hx(), args...), Log: log, done: make(chan struct{})}
	p.cmd.Env = append(os.Environ(), "HOME="+emptyHome(), "GOTRACEBACK=all")
	p.cmd.Stdout, p.cmd.Stderr = f, f
	must(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

func (p *Proc) running() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *Proc) signal(s syscall.Signal) { p.cmd.Process.Signal(s) }

// kill ends the process at once.
func (p *Proc) kill() {
	p.signal(syscall.SIGCONT)
	p.signal(syscall.SIGKILL)
	<-p.done
}

// crash tells from the log whether the process ended by itself in a panic or fatal error.
func (p *Proc) crash() string {
	b, _ := os.ReadFile(p.Log)
	s := string(b)
	for _, mark := range []string{"panic: ", "fatal error: ", "SIGSEGV"} {
		if i := strings.LastIndex(s, mark); i >= 0 {
			s = s[i:]
			if len(s) > 3000 {
				s = s[:3000]
			}
			return s
		}
	}
	return ""
}

// usedPorts keeps ports of this run apart.
var usedPorts struct {
	sync.Mutex
	m map[int]bool
}

// freePort finds a port outside the range used for outgoing connections.
func freePort() int {
	usedPorts.Lock()
	defer usedPorts.Unlock()
	if usedPorts.m == nil {
		usedPorts.m = map[int]bool{}
	}
	for {
		p := 12000 + rand.New(rand.NewSource(time.Now().UnixNano())).Intn(18000)
		if usedPorts.m[p] {
			continue
		}
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		ln.Close()
		usedPorts.m[p] = true
		return p
	}
}

// Home is the home directory of one cosigner, and its process.
type Home struct {
	hc       *Homes
	ID       int
	Dir      string
	Addr     string // host:port
	Sentries []*Sentry
	Proc     *Proc
	Starts   int
	Paused   bool
}

// Homes is a cluster of real cosigner processes.
type Homes struct {
	Cl    *Cluster
	Nodes []*Home
}

// newHomes writes the homes of a t of n cluster, with chain nodes of their own.
func newHomes(t, n, sentries int) *Homes {
	cl := newCluster(t, n)
	hc := &Homes{Cl: cl}
	for i := 1; i <= n; i++ {
		h := &Home{hc: hc, ID: i, Dir: newDir(fmt.Sprintf("home%d", i)), Addr: fmt.Sprintf("127.0.0.1:%d", freePort())}
		for k := 0; k < sentries; k++ {
			h.Sentries = append(h.Sentries, newSentry())
		}
		hc.Nodes = append(hc.Nodes, h)
	}
	for i, h := range hc.Nodes {
		b, err := json.Marshal(&cl.Parties[i].Key)
		must(err)
		must(os.WriteFile(filepath.Join(h.Dir, "share.json"), b, 0o600))
		must(os.MkdirAll(filepath.Join(h.Dir, "state"), 0o755))
		newState(h.pvPath())
		newState(h.sharePath())
		h.writeConfig()
	}
	return hc
}

func (h *Home) pvPath() string {
	return filepath.Join(h.Dir, "state", chain+"_priv_validator_state.json")
}
func (h *Home) sharePath() string {
	return filepath.Join(h.Dir, "state", chain+"_share_sign_state.json")
}

func (h *Home) writeConfig() {
	var b strings.Builder
	fmt.Fprintf(&b, "home-dir: %s\nchain-id: %s\ncosigner:\n  threshold: %d\n  shares: %d\n  p2p-listen: tcp://%s\n  peers:\n",
		h.Dir, chain, h.hc.Cl.T, h.hc.Cl.N, h.Addr)
	for _, o := range h.hc.Nodes {
		if o != h {
			fmt.Fprintf(&b, "  - share-id: %d\n    p2p-addr: tcp://%s\n", o.ID, o.Addr)
		}
	}
	fmt.Fprintf(&b, "  rpc-timeout: 1500ms\n")
	if len(h.Sentries) > 0 {
		b.WriteString("chain-nodes:\n")
		for _, s := range h.Sentries {
			fmt.Fprintf(&b, "- priv-val-addr: %s\n", s.Addr)
		}
	}
	must(os.WriteFile(filepath.Join(h.Dir, "config.yaml"), []byte(b.String()), 0o644))
}

func (h *Home) start() {
	h.Starts++
	h.Proc = startHx(filepath.Join(h.Dir, fmt.Sprintf("log%d", h.Starts)), "cosigner", "start", "--home", h.Dir)
}

func (hc *Homes) startAll() {
	for _, h := range hc.Nodes {
		h.start()
	}
}

func (hc *Homes) stopAll() {
	for _, h := range hc.Nodes {
		if h.Proc != nil && h.Proc.running() {
			h.Proc.kill()
		}
		for _, s := range h.Sentries {
			s.Close()
		}
	}
}

// dialCosigner connects to a cosigner's network interface.
func dialCosigner(addr string) (proto.CosignerGRPCClient, *grpc.ClientConn) {
	cc, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	must(err)
	return proto.NewCosignerGRPCClient(cc), cc
}

var _ = signer.HRSKey{}

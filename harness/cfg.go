package main

import (
	"crypto/sha256"
	"fmt"
	mrand "math/rand"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v2"
)

// cfgModel is what a configuration file says.
type cfgModel struct {
	HomeDir  string       `yaml:"home-dir"`
	KeyFile  string       `yaml:"key-file,omitempty"`
	ChainID  string       `yaml:"chain-id"`
	Cosigner *cfgCosigner `yaml:"cosigner,omitempty"`
	Nodes    []cfgNode    `yaml:"chain-nodes,omitempty"`
}

type cfgCosigner struct {
	Threshold int       `yaml:"threshold"`
	Shares    int       `yaml:"shares"`
	Listen    string    `yaml:"p2p-listen"`
	Peers     []cfgPeer `yaml:"peers"`
	Timeout   string    `yaml:"rpc-timeout"`
}

type cfgPeer struct {
	ID   int    `yaml:"share-id"`
	Addr string `yaml:"p2p-addr"`
}

type cfgNode struct {
	Addr string `yaml:"priv-val-addr"`
}

func (m cfgModel) clone() cfgModel {
	if m.Cosigner != nil {
		k := *m.Cosigner
		k.Peers = append([]cfgPeer(nil), k.Peers...)
		m.Cosigner = &k
	}
	m.Nodes = append([]cfgNode(nil), m.Nodes...)
	return m
}

func (m cfgModel) equal(o cfgModel) bool {
	norm := func(x cfgModel) cfgModel {
		x = x.clone()
		if len(x.Nodes) == 0 {
			x.Nodes = nil
		}
		if x.Cosigner != nil && len(x.Cosigner.Peers) == 0 {
			x.Cosigner.Peers = nil
		}
		return x
	}
	return reflect.DeepEqual(norm(m), norm(o))
}

func (m cfgModel) text() string {
	b, err := yaml.Marshal(m)
	must(err)
	return string(b)
}

func (m cfgModel) write(dir string) {
	must(os.WriteFile(filepath.Join(dir, "config.yaml"), []byte(m.text()), 0o644))
}

// readCfg reads a configuration file; every key must be one of the model.
func readCfg(dir string) (m cfgModel, err error) {
	b, err := os.ReadFile(filepath.Join(dir, "config.yaml"))
	if err != nil {
		return m, err
	}
	return m, yaml.UnmarshalStrict(b, &m)
}

func (m cfgModel) nodeArg() string {
	var s []string
	for _, n := range m.Nodes {
		s = append(s, n.Addr)
	}
	return strings.Join(s, ",")
}

func peerArg(ps []cfgPeer) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprintf("%s|%d", p.Addr, p.ID))
	}
	return strings.Join(s, ",")
}

// peerRules are the rules for peers among that many shares.
func peerRules(ps []cfgPeer, shares int) string {
	seen := map[int]bool{}
	for _, p := range ps {
		if seen[p.ID] {
			return fmt.Sprintf("share %d twice", p.ID)
		}
		seen[p.ID] = true
		if p.ID < 1 || p.ID > shares {
			return fmt.Sprintf("share %d of %d", p.ID, shares)
		}
	}
	if len(ps) >= shares {
		return fmt.Sprintf("%d peers of %d shares", len(ps), shares)
	}
	return ""
}

func badURL(s string) bool { _, err := url.Parse(s); return err != nil }

// treeImage describes every file below a directory.
func treeImage(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		rel = strings.ReplaceAll(rel, "\n", "\\n")
		line := fmt.Sprintf("%s %s", info.Mode(), rel)
		if info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			line += fmt.Sprintf(" %d %x", len(b), sha256.Sum256(b))
		} else if info.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			line += " -> " + l
		}
		out = append(out, line)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

var oddChains = []string{"cosmoshub-4", "verif-chain-1", "123", "1e3", "0x10", "yes", "null", "~", "true", "a: b", "# c", "- x", "'q'", `"d"`, "tab\tx", " lead", "trail ", "été", "{x}",
	"[y]", "%z", "@a", "`b`", "a,b", "2001-01-01", "1_000", "!!str x", "&a", "*a", "|", ">", "?", "0", "1.", ".5", "=", "<<", "line\nbreak", strings.Repeat("long", 40)}

func oddAddr(r *mrand.Rand) string {
	hosts := []string{"10.0.0.1", "node-1", "[::1]", "sentry.example.org", "127.0.0.1", "xn--bcher-kva.example", "a_b"}
	switch r.Intn(12) {
	case 0:
		return fmt.Sprintf("unix:///tmp/sock%d", r.Intn(9))
	case 1:
		return fmt.Sprintf("tcp://%s:%d#f: 'x'", hosts[r.Intn(len(hosts))], r.Intn(65536))
	}
	return fmt.Sprintf("tcp://%s:%d", hosts[r.Intn(len(hosts))], 1+r.Intn(65535))
}

var badAddrs = []string{"://10.168.0.1:1234", "tcp://a b:1", "tcp://%zz:1", "tcp://a:b", "tcp://[::1:1", ":1", "tcp://a\x7f:1", "tcp://a:1/%x", "1tcp://a:1", "tcp://a:1:2x"}

func init() {
	for _, a := range badAddrs {
		if !badURL(a) {
			panic("harness: not a bad address: " + a)
		}
	}
}

// randomCfg is a configuration for a cosigner that keeps all rules.
func randomCfg(r *mrand.Rand, dir string) cfgModel {
	n := 2 + r.Intn(6)
	if r.Intn(4) == 0 {
		n = 10 + r.Intn(16) // IDs of two digits
	}
	t := n/2 + 1 + r.Intn(n-n/2)
	own := 1 + r.Intn(n)
	m := cfgModel{HomeDir: dir, ChainID: oddChains[r.Intn(len(oddChains))], Cosigner: &cfgCosigner{Threshold: t, Shares: n,
		Listen: fmt.Sprintf("tcp://10.1.1.%d:2222", own), Timeout: []string{"1500ms", "1s", "1.5m", "1h2m3s", "900000us"}[r.Intn(5)]}}
	if r.Intn(3) == 0 {
		m.KeyFile = filepath.Join(dir, "my key.json")
	}
	for _, i := range r.Perm(n) {
		if i+1 != own {
			m.Cosigner.Peers = append(m.Cosigner.Peers, cfgPeer{i + 1, fmt.Sprintf("%s", oddAddr(r))})
		}
	}
	m.Nodes = distinctNodes(r, 1+r.Intn(5))
	return m
}

// similarAddr makes another address that looks like a given one.
func similarAddr(r *mrand.Rand, a string) string {
	switch r.Intn(6) {
	case 0:
		return strings.Replace(a, "tcp", "TCP", 1)
	case 1:
		return strings.Replace(a, "tcp://", "tcp4://", 1)
	case 2:
		return strings.TrimRight(a, "0123456789") + strconv.Itoa(1+r.Intn(9))
	case 3:
		if strings.ContainsAny(a, "#?") || !strings.HasPrefix(a, "tcp://") {
			return a
		}
		return a + "/"
	case 4:
		return strings.Replace(a, "//", "//x", 1)
	}
	return strings.Replace(a, "tcp://", "tcp://user@", 1)
}

func distinctNodes(r *mrand.Rand, n int) (out []cfgNode) {
	seen := map[string]bool{}
	for len(out) < n {
		a := oddAddr(r)
		if len(out) > 0 && r.Intn(4) == 0 {
			if a = similarAddr(r, out[r.Intn(len(out))].Addr); badURL(a) {
				continue
			}
		}
		if !seen[a] && !strings.Contains(a, ",") {
			seen[a] = true
			out = append(out, cfgNode{a})
		}
	}
	return
}

// initArgs are the arguments of config init for a model.
func (m cfgModel) initArgs(dir string, r *mrand.Rand) []string {
	args := []string{"config", "init", "--home", dir}
	if m.KeyFile != "" {
		args = append(args, "-k", m.KeyFile)
	}
	if m.Cosigner != nil {
		args = append(args, "-c", "-p", peerArg(m.Cosigner.Peers), "-t", strconv.Itoa(m.Cosigner.Threshold), "-l", m.Cosigner.Listen)
		if m.Cosigner.Timeout != "1500ms" || r.Intn(2) == 0 {
			args = append(args, "--timeout", m.Cosigner.Timeout)
		}
	}
	args = append(args, "--", m.ChainID)
	if len(m.Nodes) > 0 {
		args = append(args, m.nodeArg())
	}
	return args
}

func badDuration(s string) bool { _, err := time.ParseDuration(s); return err != nil }

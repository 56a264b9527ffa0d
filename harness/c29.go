package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	tmjson "github.com/tendermint/tendermint/libs/json"
)

func init() { checks["C29"] = checkC29 }

func checkC29(c *Check) {
	c.Rule("a case is one piece of output: a write of a real process to any descriptor (seen with strace), an answer to a chain node or to a "+
		"call on the cosigner port, the output of a command, or a file below a home; each is searched for every secret that must not be there, "+
		"raw and in hex, base64, decimal, list and escaped form, by windows of 12 bytes; non-trivial if it is not empty; distinct by digest",
		"secrets hidden by an encoding not named here, or cut to less than 12 bytes, are not seen")
	c.Need("secrets searched for", "bytes searched", "writes of processes", "command outputs", "share files", "blocks signed", "files searched",
		"dealt secrets", "calls on the cosigner port", "modes looked at", "keys compared", "requests refused")
	if straceMissing {
		c.Inconclusive("strace is not available")
		return
	}
	var jobs []func(r *mrand.Rand)
	shapes := [][2]int{{2, 3}, {2, 2}, {3, 5}}
	if c.Tier == "thorough" {
		shapes = [][2]int{{2, 3}, {2, 2}, {3, 5}, {4, 7}, {3, 5}, {3, 4}, {2, 3}}
	}
	for i := range shapes {
		i := i
		jobs = append(jobs, func(r *mrand.Rand) { c29Cluster(c, r, shapes[i][0], shapes[i][1]) })
	}
	for k := 0; k < c.size(1, 4); k++ {
		jobs = append(jobs, func(r *mrand.Rand) { c29Single(c, r) })
	}
	for k := 0; k < c.size(2, 8); k++ {
		k := k
		jobs = append(jobs, func(r *mrand.Rand) { c29Shares(c, r, k) })
	}
	seeds := make([]int64, len(jobs))
	r := c.Rng("c29")
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	parallel(len(jobs), 5, func(i int) { jobs[i](mrand.New(mrand.NewSource(seeds[i]))) })
	c29Self(c)
}

const window = 12

// vault is a set of secrets that can be looked for.
type vault struct {
	mu   sync.Mutex
	m    map[[window]byte]string
	seen map[[32]byte]bool
	n    int64
}

func newVault() *vault { return &vault{m: map[[window]byte]string{}, seen: map[[32]byte]bool{}} }

func (v *vault) add(name string, b []byte) {
	v.mu.Lock()
	defer v.mu.Unlock()
	rev := make([]byte, len(b))
	for i := range b {
		rev[len(b)-1-i] = b[i]
	}
	for _, x := range [][]byte{b, rev} {
		for i := 0; i+window <= len(x); i++ {
			var w [window]byte
			copy(w[:], x[i:])
			if !plainWindow(w) {
				v.m[w] = name
			}
		}
	}
	v.n++
}

// plainWindow: such bytes turn up by themselves.
func plainWindow(w [window]byte) bool {
	var set [256]bool
	n := 0
	for _, b := range w {
		if !set[b] {
			set[b] = true
			n++
		}
	}
	return n < 7
}

// addScalar adds a number modulo the group order in all its forms of 32 bytes.
func (v *vault) addScalar(name string, x *big.Int) {
	y := new(big.Int).Mod(x, orderL)
	top := new(big.Int).Lsh(big.NewInt(1), 256)
	for y.Cmp(top) < 0 {
		b := y.Bytes()
		le := make([]byte, 32)
		for i := range b {
			le[len(b)-1-i] = b[i]
		}
		v.add(name, le)
		y = new(big.Int).Add(y, orderL)
	}
	v.mu.Lock()
	v.n -= 15
	v.mu.Unlock()
}

func (v *vault) addRSA(name string, k *rsa.PrivateKey) {
	for _, x := range append([]*big.Int{k.D, k.Precomputed.Dp, k.Precomputed.Dq, k.Precomputed.Qinv}, k.Primes...) {
		if x != nil {
			v.add(name, x.Bytes())
		}
	}
}

func (v *vault) addValidatorKey(seed []byte) {
	v.add("the validator's private key", seed)
	h := sha512.Sum512(seed)
	v.add("the expanded private key", h[:32])
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	v.addScalar("the validator's private scalar", leToInt(h[:32]))
	v.add("the validator's private scalar", h[:32])
}

var (
	hexRun  = regexp.MustCompile(`[0-9a-fA-F]{24,}`)
	hexSep  = regexp.MustCompile(`(?:[0-9a-fA-F]{2}[ :-]){11,}[0-9a-fA-F]{2}`)
	hex0x   = regexp.MustCompile(`(?:0x[0-9a-fA-F]{1,2}[, ]+){11,}0x[0-9a-fA-F]{1,2}`)
	b64Run  = regexp.MustCompile(`[0-9A-Za-z+/_-]{16,}`)
	decRun  = regexp.MustCompile(`[0-9]{26,}`)
	listRun = regexp.MustCompile(`(?:[0-9]{1,3}[, ]\s*){11,}[0-9]{1,3}`)
	escapes = regexp.MustCompile(`\\(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|[0-7]{3}|[abfnrtv\\"'/])`)
	number  = regexp.MustCompile(`[0-9]+`)
	hexByte = regexp.MustCompile(`0x[0-9a-fA-F]{1,2}`)
)

// find looks for a secret in data, through the encodings.
func (v *vault) find(data []byte) (name, how string) { return v.look(data, "raw", 0) }

func (v *vault) look(data []byte, how string, depth int) (string, string) {
	v.mu.Lock()
	for i := 0; i+window <= len(data); i++ {
		var w [window]byte
		copy(w[:], data[i:])
		if n, ok := v.m[w]; ok {
			v.mu.Unlock()
			return n, how
		}
	}
	v.mu.Unlock()
	if depth >= 3 {
		return "", ""
	}
	try := func(b []byte, as string) (string, string) {
		if len(b) < window {
			return "", ""
		}
		return v.look(b, how+"/"+as, depth+1)
	}
	for _, run := range hexRun.FindAll(data, -1) {
		for off := 0; off < 2; off++ {
			r := run[off:]
			b := make([]byte, len(r)/2)
			hex.Decode(b, r[:len(r)/2*2])
			if n, h := try(b, "hex"); n != "" {
				return n, h
			}
		}
	}
	for _, run := range hexSep.FindAll(data, -1) {
		var r []byte
		for _, b := range run {
			if b != ' ' && b != ':' && b != '-' {
				r = append(r, b)
			}
		}
		b := make([]byte, len(r)/2)
		hex.Decode(b, r[:len(r)/2*2])
		if n, h := try(b, "hex"); n != "" {
			return n, h
		}
	}
	for _, run := range hex0x.FindAll(data, -1) {
		var b []byte
		for _, x := range hexByte.FindAll(run, -1) {
			k, _ := strconv.ParseUint(string(x[2:]), 16, 8)
			b = append(b, byte(k))
		}
		if n, h := try(b, "list"); n != "" {
			return n, h
		}
	}
	for _, run := range b64Run.FindAll(data, -1) {
		std := bytes.ReplaceAll(bytes.ReplaceAll(run, []byte("-"), []byte("+")), []byte("_"), []byte("/"))
		for off := 0; off < 4 && off < len(std); off++ {
			r := std[off:]
			r = r[:len(r)/4*4]
			b := make([]byte, base64.RawStdEncoding.DecodedLen(len(r)))
			if k, err := base64.RawStdEncoding.Decode(b, r); err == nil {
				if n, h := try(b[:k], "base64"); n != "" {
					return n, h
				}
			}
			if off > 0 {
				continue
			}
			if rest := len(std) % 4; rest > 1 {
				b := make([]byte, base64.RawStdEncoding.DecodedLen(len(std)))
				if k, err := base64.RawStdEncoding.Decode(b, std); err == nil {
					if n, h := try(b[:k], "base64"); n != "" {
						return n, h
					}
				}
			}
		}
	}
	for _, run := range decRun.FindAll(data, -1) {
		if x, ok := new(big.Int).SetString(string(run), 10); ok {
			if n, h := try(x.Bytes(), "decimal"); n != "" {
				return n, h
			}
		}
	}
	for _, run := range listRun.FindAll(data, -1) {
		var b []byte
		for _, x := range number.FindAll(run, -1) {
			k, _ := strconv.Atoi(string(x))
			b = append(b, byte(k))
		}
		if n, h := try(b, "list"); n != "" {
			return n, h
		}
	}
	if depth == 0 && bytes.IndexByte(data, '\\') >= 0 {
		b := escapes.ReplaceAllFunc(data, func(m []byte) []byte {
			switch m[1] {
			case 'x':
				k, _ := strconv.ParseUint(string(m[2:]), 16, 8)
				return []byte{byte(k)}
			case 'u':
				k, _ := strconv.ParseUint(string(m[2:]), 16, 16)
				if k < 256 {
					return []byte{byte(k)}
				}
				return []byte(string(rune(k)))
			case '0', '1', '2', '3', '4', '5', '6', '7':
				k, _ := strconv.ParseUint(string(m[1:]), 8, 16)
				return []byte{byte(k)}
			}
			s, err := strconv.Unquote(`"` + string(m) + `"`)
			if err != nil {
				return m[1:]
			}
			return []byte(s)
		})
		if n, h := try(b, "escaped"); n != "" {
			return n, h
		}
	}
	return "", ""
}

// c29 watches what comes out of one set of secrets.
type c29 struct {
	c    *Check
	what string
	v    *vault

	mu      sync.Mutex
	sampled map[string]int
}

// out searches a piece of output. It reports whether nothing was found.
func (x *c29) out(where string, data []byte) bool {
	if len(data) == 0 {
		return true
	}
	d := sha256.Sum256(data)
	x.v.mu.Lock()
	dup := x.v.seen[d]
	x.v.seen[d] = true
	x.v.mu.Unlock()
	if dup {
		return true
	}
	x.c.Eval(hex.EncodeToString(d[:8]))
	x.mu.Lock()
	if x.sampled == nil {
		x.sampled = map[string]int{}
	}
	kind := strings.Join(strings.Fields(where)[:3], " ")
	if x.sampled[kind]++; x.sampled[kind] == 1 {
		x.c.Sample(map[string]interface{}{"of": x.what, "output": where, "bytes": len(data), "secrets searched for": x.v.n})
	}
	x.mu.Unlock()
	x.c.Count("bytes searched", int64(len(data)))
	if name, how := x.v.find(data); name != "" {
		x.c.Violation("secret-out", "%s: %s shows %s (%s): %.400q", x.what, where, name, how, data)
		return false
	}
	return true
}

// evalAt evaluates the polynomial through the given points.
func evalAt(at int, points map[int]*big.Int) *big.Int {
	sum := new(big.Int)
	for i, s := range points {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range points {
			if j != i {
				num.Mul(num, big.NewInt(int64(at-j)))
				den.Mul(den, big.NewInt(int64(i-j)))
			}
		}
		den.Mod(den, orderL)
		den.ModInverse(den, orderL)
		t := new(big.Int).Mul(s, num)
		t.Mul(t, den)
		sum.Add(sum, t)
	}
	return sum.Mod(sum, orderL)
}

var straceWrite = regexp.MustCompile(`(?:write|pwrite64|sendto|writev|pwritev|sendmsg|sendmmsg)\((\d+)`)
var straceData = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)

// writes are the bytes of all writes in a strace log.
func writes(path string, f func(fd string, b []byte)) error {
	file, err := os.Open(path)
	if err != nil {
		return err
	}
	defer file.Close()
	rd := bufio.NewReaderSize(file, 1<<20)
	for {
		l, err := rd.ReadString('\n')
		if m := straceWrite.FindStringSubmatch(l); m != nil {
			var b []byte
			for _, d := range straceData.FindAllStringSubmatch(l, -1) {
				h, err := hex.DecodeString(strings.ReplaceAll(d[1], `\x`, ""))
				if err == nil {
					b = append(b, h...)
				}
			}
			f(m[1], b)
		}
		if err != nil {
			return nil
		}
	}
}

// startTraced starts a horcrux process whose writes are recorded.
func startTraced(log, trace string, args ...string) *Proc {
	f, err := os.OpenFile(log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	must(err)
	defer f.Close()
	all := append([]string{"-f", "-qq", "-o", trace, "-xx", "-s", "200000", "-e", "signal=none",
		"-e", "trace=write,pwrite64,sendto,writev,pwritev,sendmsg,sendmmsg", hx()}, args...)
	p := &Proc{cmd: exec.Command("strace", all...), Log: log, done: make(chan struct{})}
	p.cmd.Env = append(os.Environ(), "HOME="+emptyHome(), "GOTRACEBACK=all")
	p.cmd.Stdout, p.cmd.Stderr = f, f
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

// endTraced stops a traced process and the tracer.
func endTraced(p *Proc) {
	g := -p.cmd.Process.Pid
	syscall.Kill(g, syscall.SIGTERM)
	select {
	case <-p.done:
	case <-time.After(10 * time.Second):
		syscall.Kill(g, syscall.SIGKILL)
		<-p.done
	}
	syscall.Kill(g, syscall.SIGKILL)
}

// dealt asks all nodes for their parts of a slot, opens them, and adds what is behind them.
func (x *c29) dealt(hc *Homes, m Msg) bool {
	t, n := hc.Cl.T, hc.Cl.N
	k := m.HRST()
	polys := map[int]map[int]*big.Int{}
	for _, h := range hc.Nodes {
		cl, cc := dialCosigner(h.Addr)
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		res, err := cl.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
			Hrst: &proto.HRST{Height: k.Height, Round: k.Round, Step: int32(k.Step), Timestamp: k.Timestamp}})
		cancel()
		cc.Close()
		if err != nil {
			return false
		}
		x.c.Count("calls on the cosigner port", 1)
		points := map[int]*big.Int{}
		for _, p := range res.GetEncryptedSecrets() {
			dst := int(p.GetDestinationID())
			if dst < 1 || dst > n {
				continue
			}
			plain, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &hc.Cl.Parties[dst-1].Key.RSAKey, p.GetEncryptedSharePart(), nil)
			if err != nil {
				continue
			}
			points[dst] = leToInt(plain)
		}
		if len(points) < n-1 {
			return false
		}
		if n-1 >= t {
			points[h.ID] = evalAt(h.ID, points)
			x.v.addScalar(fmt.Sprintf("the ephemeral secret of cosigner %d for %s", h.ID, m), evalAt(0, points))
		}
		for dst, p := range points {
			x.v.addScalar(fmt.Sprintf("the part of cosigner %d for cosigner %d for %s", h.ID, dst, m), p)
		}
		polys[h.ID] = points
		x.c.Count("dealt secrets", int64(len(points)))
	}
	// what the members of each set of t cosigners make of them
	for set := 0; set < 1<<n; set++ {
		var ids []int
		for i := 1; i <= n; i++ {
			if set>>(i-1)&1 == 1 {
				ids = append(ids, i)
			}
		}
		if len(ids) != t {
			continue
		}
		for _, j := range append(ids, 0) {
			sum, ok := new(big.Int), n-1 >= t || j != 0
			for _, i := range ids {
				y := polys[i][j]
				if j == 0 && n-1 >= t {
					y = evalAt(0, polys[i])
				}
				if y == nil {
					ok = false
					break
				}
				sum.Add(sum, y)
			}
			if ok {
				x.v.addScalar(fmt.Sprintf("the nonce (share %d of %v) for %s", j, ids, m), sum)
			}
		}
	}
	return true
}

func c29Cluster(c *Check, r *mrand.Rand, t, n int) {
	hc := newHomes(t, n, 1)
	x := &c29{c: c, what: fmt.Sprintf("cluster %d of %d", t, n), v: newVault()}
	for _, p := range hc.Cl.Parties {
		x.v.add(fmt.Sprintf("the key share of cosigner %d", p.ID), p.Key.ShareKey)
		x.v.addScalar(fmt.Sprintf("the key share of cosigner %d", p.ID), leToInt(p.Key.ShareKey))
		x.v.addRSA(fmt.Sprintf("the RSA key of cosigner %d", p.ID), &p.Key.RSAKey)
	}
	x.v.addValidatorKey(hc.Cl.Priv.Bytes()[:32])
	shareOf := map[string]bool{}
	var traces []string
	procs := map[*Home]*Proc{}
	start := func(h *Home) {
		h.Starts++
		tr := filepath.Join(scratchDir(), fmt.Sprintf("trace-%d-%d-%d-%d", t, n, h.ID, h.Starts)+filepath.Base(h.Dir))
		traces = append(traces, tr)
		procs[h] = startTraced(filepath.Join(h.Dir, fmt.Sprintf("log%d", h.Starts)), tr, "cosigner", "start", "--home", h.Dir)
		h.Proc = procs[h]
	}
	defer func() {
		for _, h := range hc.Nodes {
			if p := procs[h]; p != nil && p.running() {
				endTraced(p)
			}
			for _, s := range h.Sentries {
				s.Close()
			}
		}
	}()
	for _, h := range hc.Nodes {
		shareOf[filepath.Join(h.Dir, "share.json")] = true
		start(h)
	}
	at := HRS{}
	sign := func(h *Home, m Msg, wait time.Duration) Outcome {
		o := h.Sentries[0].Sign(m, wait)
		if o.Err == nil {
			c.Count("blocks signed", 1)
			x.out("the answer to a chain node", append(o.Got.Signature(), o.Got.SignBytes()...))
		} else {
			c.Count("requests refused", 1)
			x.out("the refusal sent to a chain node", []byte(o.Err.Error()))
		}
		return o
	}
	up := func() bool {
		for _, h := range hc.Nodes {
			ok := false
			end := time.Now().Add(90 * time.Second)
			for !ok && time.Now().Before(end) {
				at.H++
				at = HRS{at.H, 0, randStep(r)}
				m := newMsg(chain, at, 1, fixedTime)
				x.dealt(hc, m)
				ok = sign(h, m, 20*time.Second).Err == nil
			}
			if !ok {
				c.Inconclusive("%s: node %d does not sign", x.what, h.ID)
				return false
			}
		}
		return true
	}
	if !up() {
		return
	}
	for k := 0; k < c.size(24, 100) && !c.Violated(); k++ {
		h := hc.Nodes[r.Intn(n)]
		at = HRS{at.H + 1, int64(r.Intn(3)), randStep(r)}
		m := newMsg(chain, at, 1+r.Intn(2), fixedTime.Add(time.Duration(r.Intn(1000))*time.Second))
		if r.Intn(8) > 0 {
			x.dealt(hc, m)
		}
		sign(h, m, 20*time.Second)
		switch r.Intn(6) {
		case 0: // again, conflicting, below
			sign(h, m, 20*time.Second)
			sign(hc.Nodes[r.Intn(n)], newMsg(chain, at, 3, fixedTime), 20*time.Second)
			sign(h, newMsg(chain, HRS{at.H - 1, 0, 2}, 3, fixedTime), 20*time.Second)
		case 1: // direct calls, some of which are refused
			x.direct(r, hc, m)
		case 2:
			at.H++
			m := newMsg(chain, HRS{at.H, 0, 2}, 1, fixedTime)
			x.dealt(hc, m)
			x.direct(r, hc, m)
		case 3:
			x.command("elect", runIn("", "elect", "--home", h.Dir))
		case 4:
			x.command("state show", runIn("", "state", "show", "--home", h.Dir))
		}
		if k%12 == 5 {
			endTraced(procs[h])
			start(h)
			if !up() {
				return
			}
		}
	}
	h := hc.Nodes[0]
	for _, args := range [][]string{{"cosigner", "address"}, {"cosigner", "address", "cosmos"}, {"state", "show"}, {"version"}, {"elect", "99"},
		{"config", "nodes", "add", "tcp://127.0.0.1:9"}, {"config", "peers", "remove", "x"}, {"config", "init"}, {"help"}, {"cosigner"}, {"state", "set", "x"}} {
		x.command(strings.Join(args, " "), runIn("", append(args, "--home", h.Dir)...))
	}
	for _, h := range hc.Nodes {
		endTraced(procs[h])
		delete(procs, h)
	}
	// commands over damaged share files
	good, err := os.ReadFile(filepath.Join(h.Dir, "share.json"))
	must(err)
	for k := 0; k < c.size(8, 30); k++ {
		bad := append([]byte(nil), good...)
		switch k % 4 {
		case 0:
			bad = bad[:r.Intn(len(bad))]
		case 1:
			bad[r.Intn(len(bad))] = '}'
		case 2: // another type
			var fields map[string]interface{}
			must(json.Unmarshal(bad, &fields))
			var names []string
			for n := range fields {
				names = append(names, n)
			}
			sort.Strings(names)
			name := names[r.Intn(len(names))]
			if s, ok := fields[name].(string); ok {
				fields[name] = "*" + s
			} else {
				fields[name] = fmt.Sprint(fields[name])
			}
			bad, err = json.Marshal(fields)
			must(err)
		case 3:
			bad = append(bad, bad...)
		}
		must(os.WriteFile(filepath.Join(h.Dir, "share.json"), bad, 0o600))
		x.command("cosigner address with a damaged share", runIn("", "cosigner", "address", "--home", h.Dir))
		x.command("cosigner start with a damaged share", runIn("2", "cosigner", "start", "--home", h.Dir))
	}
	must(os.WriteFile(filepath.Join(h.Dir, "share.json"), good, 0o600))
	for _, tr := range traces {
		writes(tr, func(fd string, b []byte) {
			c.Count("writes of processes", 1)
			x.out("a write of a process to descriptor "+fd, b)
		})
		os.Remove(tr)
	}
	for _, h := range hc.Nodes {
		x.files(h.Dir, shareOf)
	}
	c.Count("secrets searched for", x.v.n)
}

// runIn runs a command, with a time limit in seconds if given.
func runIn(limit string, args ...string) []byte {
	cmd := exec.Command(hx(), args...)
	if limit != "" {
		cmd = exec.Command("timeout", append([]string{"-s", "KILL", limit, hx()}, args...)...)
	}
	cmd.Env = append(os.Environ(), "HOME="+emptyHome())
	out, _ := cmd.CombinedOutput()
	return out
}

func (x *c29) command(what string, out []byte) {
	x.c.Count("command outputs", 1)
	x.out("the output of "+what, out)
}

// files searches all files below a directory, and looks at the modes of those with secrets.
func (x *c29) files(dir string, secret map[string]bool) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || !info.Mode().IsRegular() || secret[p] {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			x.c.Count("files searched", 1)
			x.out("the file "+p, b)
		}
		return nil
	})
}

// direct calls the cosigner port, with good and bad requests.
func (x *c29) direct(r *mrand.Rand, hc *Homes, m Msg) {
	h := hc.Nodes[r.Intn(len(hc.Nodes))]
	k := m.HRST()
	hrst := &proto.HRST{Height: k.Height, Round: k.Round, Step: int32(k.Step), Timestamp: k.Timestamp}
	var parts []*proto.EphemeralSecretPart
	for _, o := range hc.Nodes {
		if o == h && r.Intn(4) > 0 {
			continue
		}
		cl, cc := dialCosigner(o.Addr)
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		res, err := cl.GetEphemeralSecretParts(ctx, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: hrst})
		cancel()
		cc.Close()
		if err != nil {
			continue
		}
		for _, p := range res.GetEncryptedSecrets() {
			if int(p.GetDestinationID()) == h.ID || r.Intn(6) == 0 {
				parts = append(parts, p)
			}
		}
	}
	bz := m.SignBytes()
	switch r.Intn(6) {
	case 0:
		if len(parts) > 0 {
			parts[r.Intn(len(parts))].EncryptedSharePart = exactly(r, 128)
		}
	case 1:
		bz = rbytes(r, 100)
	case 2:
		if len(parts) > 0 {
			p := parts[r.Intn(len(parts))]
			q := secPart{SourceID: int(p.SourceID), DestinationID: int(p.DestinationID), SourceEphemeralSecretPublicKey: p.SourceEphemeralSecretPublicKey,
				EncryptedSharePart: encryptTo(&hc.Cl.Parties[h.ID-1].Key.RSAKey.PublicKey, exactly(r, 31))}
			if q.SourceID >= 1 && q.SourceID <= len(hc.Nodes) {
				resign(&q, &hc.Cl.Parties[q.SourceID-1].Key.RSAKey)
				p.EncryptedSharePart, p.SourceSig = q.EncryptedSharePart, q.SourceSig
			}
		}
	case 3:
		hrst = nil
	}
	cl, cc := dialCosigner(h.Addr)
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	res, err := cl.SetEphemeralSecretPartsAndSign(ctx, &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{EncryptedSecrets: parts, Hrst: hrst, SignBytes: bz})
	x.c.Count("calls on the cosigner port", 1)
	if err != nil {
		x.out("the refusal of a call on the cosigner port", []byte(err.Error()))
		return
	}
	x.out("the answer to a call on the cosigner port", bytes.Join([][]byte{res.GetEphemeralPublic(), res.GetSignature()}, []byte{0}))
}

// c29Single: a single signer.
func c29Single(c *Check, r *mrand.Rand) {
	s := newSingle(c, "single signer", 1)
	x := &c29{c: c, what: s.what, v: newVault()}
	x.v.addValidatorKey(s.priv.Bytes()[:32])
	trace := filepath.Join(scratchDir(), "trace-single"+filepath.Base(s.dir))
	s.proc = startTraced(filepath.Join(s.dir, "log"), trace, "signer", "start", "--home", s.dir)
	at := HRS{}
	end := time.Now().Add(60 * time.Second)
	for k := 0; k < c.size(20, 100) && time.Now().Before(end); k++ {
		at = HRS{at.H + 1, int64(r.Intn(2)), randStep(r)}
		m := newMsg(s.chain, at, 1, fixedTime)
		for j := 0; j < 2; j++ {
			o := s.sentries[0].Sign(m, 20*time.Second)
			if o.Err == nil {
				c.Count("blocks signed", 1)
				x.out("the answer to a chain node", append(o.Got.Signature(), o.Got.SignBytes()...))
			} else {
				c.Count("requests refused", 1)
				x.out("the refusal sent to a chain node", []byte(o.Err.Error()))
			}
			m = newMsg(s.chain, at, 2, fixedTime)
		}
	}
	x.command("state show", runIn("", "state", "show", "--home", s.dir))
	endTraced(s.proc)
	keyFile := filepath.Join(s.dir, "priv_validator_key.json")
	good, err := os.ReadFile(keyFile)
	must(err)
	for k := 0; k < c.size(6, 30); k++ {
		bad := append([]byte(nil), good...)
		switch k % 3 {
		case 0:
			bad = bad[:len(bad)-1-r.Intn(len(bad)-1)]
		case 1:
			bad[r.Intn(len(bad))] = '}'
		case 2:
			bad = bytes.Replace(bad, []byte("tendermint/PrivKeyEd25519"), []byte("tendermint/PrivKeyOther"), 1)
		}
		must(os.WriteFile(keyFile, bad, 0o600))
		x.command("signer start with a damaged key", runIn("2", "signer", "start", "--home", s.dir))
		x.command("create-shares with a damaged key", runInDir(newDir("damaged"), "create-shares", keyFile, "2", "3"))
	}
	must(os.WriteFile(keyFile, good, 0o600))
	writes(trace, func(fd string, b []byte) {
		c.Count("writes of processes", 1)
		x.out("a write of a process to descriptor "+fd, b)
	})
	os.Remove(trace)
	x.files(s.dir, map[string]bool{keyFile: true})
	c.Count("secrets searched for", x.v.n)
	for _, q := range s.sentries {
		q.Close()
	}
}

func runInDir(dir string, args ...string) []byte {
	out, err := runUmask(dir, "077", args...)
	_ = err
	return out
}

// runUmask runs a command in a directory, with an umask.
func runUmask(dir, umask string, args ...string) ([]byte, error) {
	cmd := exec.Command("/bin/sh", append([]string{"-c", "umask " + umask + `; exec "$0" "$@"`, hx()}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+emptyHome())
	return cmd.CombinedOutput()
}

// c29Shares: what create-shares writes and prints.
func c29Shares(c *Check, r *mrand.Rand, k int) {
	priv := genKey()
	dir := newDir("shares")
	keyFile := filepath.Join(dir, "key.json")
	b, err := tmjson.MarshalIndent(filePVKey(priv), "", " ")
	must(err)
	must(os.WriteFile(keyFile, b, 0o600))
	t, n := 2, 3
	if k%2 == 1 {
		t, n = 3, 4
	}
	type made struct {
		dir  string
		keys []signer.CosignerKey
	}
	var runs []made
	x := &c29{c: c, what: fmt.Sprintf("create-shares %d of %d", t, n), v: newVault()}
	x.v.addValidatorKey(priv.Bytes()[:32])
	var outs [][]byte
	for run := 0; run < 2; run++ {
		m := made{dir: newDir("out")}
		if run == 1 { // files of an earlier run are there, readable by all
			for i := 1; i <= n; i++ {
				f := filepath.Join(m.dir, fmt.Sprintf("private_share_%d.json", i))
				must(os.WriteFile(f, []byte("{}"), 0o644))
				must(os.Chmod(f, 0o644))
			}
		}
		out, err := runUmask(m.dir, "000", "create-shares", keyFile, fmt.Sprint(t), fmt.Sprint(n))
		if err != nil {
			c.Violation("shares-refused", "%s: %v: %s", x.what, err, out)
			return
		}
		outs = append(outs, out)
		for i := 1; i <= n; i++ {
			f := filepath.Join(m.dir, fmt.Sprintf("private_share_%d.json", i))
			key, err := signer.LoadCosignerKey(f)
			if err != nil {
				c.Violation("shares-refused", "%s: %v", x.what, err)
				return
			}
			c.Count("share files", 1)
			m.keys = append(m.keys, key)
		}
		runs = append(runs, m)
	}
	// one vault for each holder: everything it must not hold
	for run, m := range runs {
		entries, err := os.ReadDir(m.dir)
		must(err)
		for _, e := range entries {
			p := filepath.Join(m.dir, e.Name())
			info, err := os.Stat(p)
			must(err)
			holder := 0
			fmt.Sscanf(e.Name(), "private_share_%d.json", &holder)
			y := &c29{c: c, what: x.what, v: newVault()}
			y.v.addValidatorKey(priv.Bytes()[:32])
			for run2, m2 := range runs {
				for i := range m2.keys {
					key := &m2.keys[i]
					x.v.add(fmt.Sprintf("key share %d", key.ID), key.ShareKey)
					x.v.addRSA(fmt.Sprintf("RSA key %d", key.ID), &key.RSAKey)
					if run2 == run && key.ID == holder {
						continue
					}
					y.v.add(fmt.Sprintf("key share %d", key.ID), key.ShareKey)
					y.v.addRSA(fmt.Sprintf("RSA key %d", key.ID), &key.RSAKey)
				}
			}
			content, err := os.ReadFile(p)
			must(err)
			y.out("the file "+e.Name(), content)
			c.Count("files searched", 1)
			c.Count("modes looked at", 1)
			if holder > 0 && info.Mode().Perm()&0o077 != 0 {
				c.Violation("open-mode", "%s with umask 0: %s has mode %s", x.what, e.Name(), info.Mode())
			}
			c.Count("secrets searched for", y.v.n)
		}
	}
	for _, out := range outs {
		x.command("create-shares", out)
	}
	// nothing secret is the same twice
	seen := map[string]string{}
	for run, m := range runs {
		for _, key := range m.keys {
			for what, b := range map[string][]byte{"share": key.ShareKey, "first prime": key.RSAKey.Primes[0].Bytes(), "second prime": key.RSAKey.Primes[1].Bytes()} {
				name := fmt.Sprintf("%s of key %d of run %d", what, key.ID, run)
				if was, ok := seen[string(b)]; ok {
					c.Violation("not-fresh", "%s: the %s is the %s", x.what, name, was)
				}
				seen[string(b)] = name
				c.Count("keys compared", 1)
			}
			if l := key.RSAKey.N.BitLen(); l < 2048 {
				c.Violation("short-key", "%s: the RSA key %d has %d bits", x.what, key.ID, l)
			}
		}
	}
	c29SharesFailing(c, r, priv.Bytes()[:32], keyFile, t, n)
}

// c29SharesFailing: the last files can not be written. What was to be in them follows from the validator's key and the first files.
func c29SharesFailing(c *Check, r *mrand.Rand, seed []byte, keyFile string, t, n int) {
	h := sha512.Sum512(seed)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	for at := t; at <= n; at++ {
		dir := newDir("out")
		must(os.MkdirAll(filepath.Join(dir, fmt.Sprintf("private_share_%d.json", at), "x"), 0o700))
		out, err := runUmask(dir, "022", "create-shares", keyFile, fmt.Sprint(t), fmt.Sprint(n))
		x := &c29{c: c, what: fmt.Sprintf("create-shares %d of %d, where file %d can not be written", t, n, at), v: newVault()}
		if err == nil {
			continue // written elsewhere, or over the directory
		}
		x.v.addValidatorKey(seed)
		points := map[int]*big.Int{0: new(big.Int).Mod(leToInt(h[:32]), orderL)}
		for i := 1; i <= n; i++ {
			if key, err := signer.LoadCosignerKey(filepath.Join(dir, fmt.Sprintf("private_share_%d.json", i))); err == nil {
				x.v.addScalar(fmt.Sprintf("key share %d", i), leToInt(key.ShareKey))
				x.v.addRSA(fmt.Sprintf("RSA key %d", i), &key.RSAKey)
				if len(points) < t {
					points[i] = leToInt(key.ShareKey)
				}
			}
		}
		if len(points) == t {
			for i := 1; i <= n; i++ {
				x.v.addScalar(fmt.Sprintf("key share %d", i), evalAt(i, points))
			}
			c.Count("shares never written", int64(n-t+1))
		}
		x.command("create-shares", out)
		c.Count("secrets searched for", x.v.n)
	}
}

// c29Self: the search finds what it is for.
func c29Self(c *Check) {
	v := newVault()
	s := sha256.Sum256([]byte("secret"))
	v.add("it", s[:])
	n := leToInt(s[:])
	js, _ := json.Marshal(map[string][]byte{"x": s[:]})
	b64 := base64.StdEncoding.EncodeToString(append([]byte("x"), s[:]...))
	for name, data := range map[string]string{
		"raw": "abc" + string(s[:]) + "d", "hex": fmt.Sprintf("k=%x;", s), "HEX": fmt.Sprintf("%X", s), "spaced": fmt.Sprintf("% x", s[:]),
		"list": fmt.Sprint(s[:]), "decimal": n.String(), "json": string(js), "base64": b64, "base64 of base64": base64.StdEncoding.EncodeToString([]byte(b64)),
		"quoted": strconv.Quote(string(s[:])), "go": fmt.Sprintf("%#v", s[:]), "url": base64.URLEncoding.EncodeToString(s[:]), "cut": fmt.Sprintf("%.20x", s[5:25]),
	} {
		if got, _ := v.find([]byte(data)); got == "" {
			c.Inconclusive("the search does not find the form %s", name)
		}
	}
	if got, how := v.find([]byte(strings.Repeat("0", 4000) + "nothing to see here, 123456789012345678901234567890")); got != "" {
		c.Inconclusive("the search finds what is not there (%s)", how)
	}
}

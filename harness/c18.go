package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
)

func init() {
	checks["C18"] = checkC18
	helpers["loadstate"] = helperLoadState
}

// rawState is what a sign state file holds, read without the code under test.
type rawState struct {
	H, R            int64
	S               int8
	Eph, Sig, Bytes []byte
}

func (s rawState) hrs() HRS { return HRS{s.H, s.R, s.S} }

func (s rawState) equal(o rawState) bool {
	return s.hrs() == o.hrs() && bytes.Equal(s.Eph, o.Eph) && bytes.Equal(s.Sig, o.Sig) && bytes.Equal(s.Bytes, o.Bytes)
}

func (s rawState) String() string {
	return fmt.Sprintf("%s eph=%x sig=%x bytes=%x", s.hrs(), s.Eph, s.Sig, s.Bytes)
}

func rawOf(s signer.SignState) rawState {
	return rawState{s.Height, s.Round, s.Step, s.EphemeralPublic, s.Signature, s.SignBytes}
}

// parseRawState reads the format of the sign state: integers of 64 bits as strings, byte strings as base64, sign bytes as hex.
func parseRawState(b []byte) (s rawState, err error) {
	var f struct {
		Height    string  `json:"height"`
		Round     string  `json:"round"`
		Step      *int8   `json:"step"`
		Eph       *string `json:"ephemeral_public"`
		Sig       *string `json:"signature"`
		SignBytes *string `json:"signbytes"`
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if err = d.Decode(&f); err != nil {
		return
	}
	if d.More() || !json.Valid(b) {
		return s, fmt.Errorf("more data")
	}
	if s.H, err = strconv.ParseInt(f.Height, 10, 64); err != nil {
		return
	}
	if s.R, err = strconv.ParseInt(f.Round, 10, 64); err != nil {
		return
	}
	if f.Step == nil {
		return s, fmt.Errorf("no step")
	}
	s.S = *f.Step
	if f.Eph != nil {
		if s.Eph, err = base64.StdEncoding.DecodeString(*f.Eph); err != nil {
			return
		}
	}
	if f.Sig != nil {
		if s.Sig, err = base64.StdEncoding.DecodeString(*f.Sig); err != nil {
			return
		}
	}
	if f.SignBytes != nil {
		if s.Bytes, err = hex.DecodeString(*f.SignBytes); err != nil {
			return
		}
	}
	return
}

func readRaw(c *Check, path string) (rawState, bool) {
	b, err := os.ReadFile(path)
	if err == nil {
		var s rawState
		if s, err = parseRawState(b); err == nil {
			return s, true
		}
	}
	c.Violation("file-unreadable", "sign state file %s: %v: %q", filepath.Base(path), err, b)
	return rawState{}, false
}

func checkC18(c *Check) {
	c.Rule("a case is one save (compared with the file as read by an own parser, and with a fresh load), or one load, initialisation or start "+
		"over a present, damaged, unreadable, missing or empty file, with the file compared before and after; distinct by (values saved) or "+
		"(content, way of loading)",
		"a file is understood if its JSON has the fields of the format; which unusual but well-formed JSON is accepted is not judged, only that "+
			"what is accepted has the height in the file and that the file is untouched")
	c.Need("saves", "saves refused", "reloads", "damaged files refused", "files that were accepted as they are", "fresh states", "processes refused to start",
		"inits over a state", "unreadable files", "share answers", "restarts of a cosigner", "announcements", "starts over a state")
	r := c.Rng("saves")
	for i := 0; i < c.size(400, 4000); i++ {
		c18Saves(c, mrand.New(mrand.NewSource(r.Int63())))
		if c.Violated() {
			return
		}
	}
	parallel(c.size(48, 400), 8, func(i int) { c18Pair(c, c.Rng(fmt.Sprint("pair", i))) })
	c18Damaged(c)
	c18Unreadable(c)
	c18Processes(c)
}

func c18Random(r *mrand.Rand, prev HRS) signer.SignStateConsensus {
	ints := []int64{0, 1, 2, 3, 255, 256, 1 << 31, 1<<31 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64}
	h := prev
	switch r.Intn(6) {
	case 0:
		h.S = int8(r.Intn(4))
	case 1:
		h.R, h.S = h.R+int64(r.Intn(3))-1, int8(r.Intn(4))
	case 2:
		h = HRS{h.H + int64(r.Intn(5)) - 2, int64(r.Intn(3)), randStep(r)}
	case 3:
		h = HRS{ints[r.Intn(len(ints))], ints[r.Intn(len(ints))], randStep(r)}
	case 4:
		h = HRS{r.Int63(), r.Int63(), randStep(r)}
	case 5: // the same again
	}
	ssc := signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S}
	if r.Intn(6) != 0 {
		ssc.Signature = make([]byte, []int{64, 64, 64, 1, 200}[r.Intn(5)])
		r.Read(ssc.Signature)
		switch r.Intn(3) {
		case 0:
			ssc.SignBytes = newMsg(chain, HRS{h.H, h.R, 1 + (h.S+2)%3}, r.Intn(3), fixedTime).SignBytes()
		case 1:
			ssc.SignBytes = make([]byte, r.Intn(300))
			r.Read(ssc.SignBytes)
		case 2:
			ssc.SignBytes = bytes.Repeat([]byte{byte(r.Intn(256))}, 1+r.Intn(20))
		}
	}
	return ssc
}

// c18Saves saves in any order, and compares file and fresh loads with what was saved last.
func c18Saves(c *Check, r *mrand.Rand) {
	path := filepath.Join(newDir("state"), "s.json")
	if r.Intn(3) == 0 { // an empty file is a fresh state
		must(os.WriteFile(path, nil, 0o600))
	}
	st, err := signer.LoadOrCreateSignState(path)
	if err != nil {
		c.Violation("fresh-refused", "no state can be made at an unused path: %v", err)
		return
	}
	c.Count("fresh states", 1)
	want := rawState{}
	var lock sync.Mutex
	for k := 0; k < 12; k++ {
		got, ok := readRaw(c, path)
		if !ok {
			return
		}
		if !got.equal(want) {
			c.Violation("file-differs", "saved %s, the file holds %s", want, got)
			return
		}
		ssc := c18Random(r, want.hrs())
		eph := st.EphemeralPublic
		if r.Intn(2) == 0 {
			st.EphemeralPublic = make([]byte, []int{0, 32}[r.Intn(2)])
			r.Read(st.EphemeralPublic)
		}
		before, _ := os.ReadFile(path)
		l := &lock
		if r.Intn(2) == 0 {
			l = nil
		}
		h := HRS{ssc.Height, ssc.Round, ssc.Step}
		if err := st.Save(ssc, l); err == nil {
			if !want.hrs().Less(h) {
				c.Violation("save-lowers", "state is at %s, save of %s succeeded", want.hrs(), h)
				return
			}
			want = rawState{h.H, h.R, h.S, st.EphemeralPublic, ssc.Signature, ssc.SignBytes}
			c.Count("saves", 1)
		} else {
			if want.hrs().Less(h) {
				c.Violation("save-refused", "state is at %s, save of %s: %v", want.hrs(), h, err)
				return
			}
			st.EphemeralPublic = eph
			if after, _ := os.ReadFile(path); !bytes.Equal(before, after) {
				c.Violation("refused-save-writes", "state is at %s, save of %s: %v; file changed from %s to %s", want.hrs(), h, err, before, after)
				return
			}
			c.Count("saves refused", 1)
		}
		c.Eval(fmt.Sprint(want))
		if r.Intn(3) == 0 {
			if !c18Load(c, path, want) {
				return
			}
			if r.Intn(2) == 0 { // go on with the loaded one
				st, err = signer.LoadOrCreateSignState(path)
				if err != nil {
					c.Violation("saved-refused", "saved state does not load: %v", err)
					return
				}
			}
		}
	}
}

// c18Load loads both ways and compares.
func c18Load(c *Check, path string, want rawState) bool {
	before, err := os.ReadFile(path)
	must(err)
	for i, load := range []func(string) (signer.SignState, error){signer.LoadSignState, signer.LoadOrCreateSignState} {
		st, err := load(path)
		if err != nil {
			c.Violation("saved-refused", "saved state %s does not load: %v", want, err)
			return false
		}
		if !rawOf(st).equal(want) {
			c.Violation("load-differs", "saved %s, loaded (%d) %s", want, i, rawOf(st))
			return false
		}
		// what the loaded state is used for
		if len(want.Sig) > 0 {
			at := signer.HRSKey{Height: want.H, Round: want.R, Step: want.S}
			latest, ssc := st.GetFromCache(at, nil)
			if latest != at || ssc == nil || !bytes.Equal(ssc.Signature, want.Sig) || !bytes.Equal(ssc.SignBytes, want.Bytes) {
				c.Violation("cache-differs", "saved %s, the loaded state remembers %v at %v", want, ssc, latest)
				return false
			}
		}
		for _, h := range []HRS{{want.H - 1, want.R, want.S}, {want.H, want.R - 1, want.S}, {want.H, want.R, want.S - 1}, {want.H, want.R, want.S}} {
			if h.Less(want.hrs()) || h == want.hrs() {
				if st.GetErrorIfLessOrEqual(h.H, h.R, h.S, nil) == nil {
					c.Violation("loaded-forgets", "loaded state at %s accepts %s", want.hrs(), h)
					return false
				}
			}
		}
		c.Count("reloads", 1)
	}
	if after, _ := os.ReadFile(path); !bytes.Equal(before, after) {
		c.Violation("load-writes", "loading changed the file from %s to %s", before, after)
		return false
	}
	return true
}

// c18Pair drives a cosigner; its file must always hold an answer it gave, with the ephemeral key of that answer, or an announcement.
func c18Pair(c *Check, r *mrand.Rand) {
	cl := newCluster(2, 3)
	p := cl.Parties[0]
	var log []string
	var pairs = map[string]bool{} // sig|eph
	want, ok := readRaw(c, p.StatePath)
	if !ok {
		return
	}
	at := HRS{3, 0, 1}
	m := newMsg(chain, at, 1, fixedTime)
	for k := 0; k < 40; k++ {
		before, _ := os.ReadFile(p.StatePath)
		switch r.Intn(8) {
		case 0: // announce it, or something near
			x := m
			if r.Intn(2) == 0 {
				x = newMsg(chain, HRS{at.H + int64(r.Intn(3)-1), 0, randStep(r)}, 1, fixedTime)
			}
			sig := make([]byte, 64)
			r.Read(sig)
			err := p.Local().SaveLastSignedState(consensus(x, sig))
			log = append(log, fmt.Sprintf("announce %s: %v", x, err))
			if h := x.HRS(); err == nil {
				want = rawState{h.H, h.R, h.S, nil, sig, x.SignBytes()}
				c.Count("announcements", 1)
			}
		case 1:
			must2(c, p.Restart())
			log = append(log, "restart")
			c.Count("restarts of a cosigner", 1)
		case 2, 3: // onwards
			at = HRS{at.H + int64(r.Intn(2)), int64(r.Intn(2)), randStep(r)}
			m = newMsg(chain, at, r.Intn(2), fixedTime.Add(time.Duration(r.Intn(3))))
		case 4: // another time
			m = m.WithTime(fixedTime.Add(time.Duration(r.Intn(3))))
		}
		var res *signer.CosignerSignResponse
		var err error
		hrst, bz := m.HRST(), m.SignBytes()
		if r.Intn(5) == 0 && want.Bytes != nil { // repeated without new ephemeral parts, as a late request would be
			res, err = p.SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{HRST: hrst, SignBytes: bz})
		} else {
			res, err = shareSign(m, p, cl.Parties[1+r.Intn(2)])
		}
		log = append(log, fmt.Sprintf("sign %s: %v", m, err))
		after, ok := readRaw(c, p.StatePath)
		if !ok {
			return
		}
		if err == nil {
			c.Count("share answers", 1)
			pairs[string(res.Signature)+"|"+string(res.EphemeralPublic)] = true
			h := m.HRS()
			if want.hrs().Less(h) {
				want = rawState{h.H, h.R, h.S, res.EphemeralPublic, res.Signature, bz}
			}
		}
		c.Eval(fmt.Sprintf("pair %s", want))
		same := after.equal(want) ||
			// signing the message again with another time may replace the saved answer
			err == nil && after.hrs() == want.hrs() && len(after.Eph) > 0 && pairs[string(after.Sig)+"|"+string(after.Eph)]
		if !same {
			c.Violation("file-differs", "file should hold %s but holds %s (was %s)\n%s", want, after, before, strings.Join(log, "\n"))
			return
		}
		want = after
		if len(after.Eph) > 0 && !pairs[string(after.Sig)+"|"+string(after.Eph)] {
			c.Violation("pair-mixed", "file holds signature and ephemeral key that were not in one answer: %s\n%s", after, strings.Join(log, "\n"))
			return
		}
		if !c18Load(c, p.StatePath, after) {
			return
		}
	}
}

// damages of a good file, by name.
func c18Contents(r *mrand.Rand, all bool) map[string][]byte {
	good := func(h HRS) []byte {
		st, err := signer.LoadOrCreateSignState(filepath.Join(newDir("good"), "s.json"))
		must(err)
		m := newMsg(chain, h, 1, fixedTime)
		sig := make([]byte, 64)
		r.Read(sig)
		st.EphemeralPublic = make([]byte, 32)
		r.Read(st.EphemeralPublic)
		must(st.Save(signer.SignStateConsensus{Height: h.H, Round: h.R, Step: h.S, Signature: sig, SignBytes: m.SignBytes()}, nil))
		dir := filepath.Join(newDir("good"), "t.json")
		must(writeRaw(dir, rawOf(st)))
		b, err := os.ReadFile(dir)
		must(err)
		return b
	}
	a, b := good(HRS{1234567, 2, 3}), good(HRS{98, 0, 2})
	out := map[string][]byte{"good": a, "space": []byte(" "), "newline": []byte("\n"), "nul": {0}, "zeros": make([]byte, len(a)), "text": []byte("height 12"),
		"array": []byte("[]"), "string": []byte(`"x"`), "number": []byte("12"), "true": []byte("true"), "brace": []byte("{"), "doubled": append(append([]byte{}, a...), b...),
		"trailing brace": append(append([]byte{}, a...), '}'), "bom": append([]byte("\xef\xbb\xbf"), a...), "torn in front": a[len(a)/3:],
		"long zeros": append(append([]byte{}, a...), make([]byte, 4096)...)}
	for i := 0; i < len(a); i++ {
		if all || i%7 == 1 || i > len(a)-4 {
			out[fmt.Sprintf("cut at %d", i)] = a[:i]
		}
	}
	n := 300
	if all {
		n = 1500
	}
	for i := 0; i < n; i++ {
		x := append([]byte{}, a...)
		k := r.Intn(len(x))
		switch r.Intn(4) {
		case 0:
			x[k] ^= 1 << uint(r.Intn(8))
		case 1:
			x[k] = byte(r.Intn(256))
		case 2:
			x = append(x[:k], x[k+1:]...)
		case 3: // a piece from another file
			e := min(k+1+r.Intn(20), min(len(x), len(b)))
			if k < e {
				copy(x[k:e], b[k:e])
			}
		}
		out[fmt.Sprintf("damage %d", i)] = x
	}
	for _, f := range []string{`"height": "1234567"`, `"round": "2"`, `"step": 3`} {
		name := strings.SplitN(f, ":", 2)[0]
		for _, v := range []string{`"99999999999999999999"`, `"x"`, `""`, `1e400`, `-`, `{}`, `[1]`, `"12 "`, `"0x10"`, `3.5`, `300`, `null`, `true`, `"1234567`} {
			out[name+v] = bytes.Replace(a, []byte(f), []byte(name+": "+v), 1)
		}
	}
	return out
}

func writeRaw(path string, s rawState) error {
	return os.WriteFile(path, []byte(fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d,\n  \"ephemeral_public\": \"%s\",\n  \"signature\": \"%s\",\n  \"signbytes\": \"%X\"\n}",
		s.H, s.R, s.S, base64.StdEncoding.EncodeToString(s.Eph), base64.StdEncoding.EncodeToString(s.Sig), s.Bytes)), 0o600)
}

func c18Damaged(c *Check) {
	cs := c18Contents(c.Rng("damage"), c.Tier == "thorough")
	for name, b := range cs {
		path := filepath.Join(newDir("damaged"), "s.json")
		must(os.WriteFile(path, b, 0o600))
		for way, load := range map[string]func(string) (signer.SignState, error){"load": signer.LoadSignState, "load or create": signer.LoadOrCreateSignState} {
			if len(b) == 0 && way == "load or create" {
				continue
			}
			st, err := c18NoPanic(c, load, path, name, b)
			if c.Violated() {
				return
			}
			after, rerr := os.ReadFile(path)
			if rerr != nil || !bytes.Equal(after, b) {
				c.Violation("damaged-replaced", "%s of a file (%s) %q leaves %q (%v)", way, name, b, after, rerr)
				return
			}
			want, perr := parseRawState(b)
			switch {
			case perr == nil:
				if err != nil || !rawOf(st).equal(want) {
					c.Violation("load-differs", "%s of a file (%s) %q gives %s, %v", way, name, b, rawOf(st), err)
					return
				}
				c.Count("files that were accepted as they are", 1)
			case !json.Valid(b):
				if err == nil {
					c.Violation("damaged-accepted", "%s of a file (%s) which is no JSON, %q, gives %s", way, name, b, rawOf(st))
					return
				}
				c.Count("damaged files refused", 1)
			case err == nil:
				var f struct {
					Height *string `json:"height"`
				}
				if json.Unmarshal(b, &f) == nil && f.Height != nil {
					if h, err := strconv.ParseInt(strings.TrimSpace(*f.Height), 10, 64); err != nil || h != st.Height {
						c.Violation("load-differs", "%s of a file (%s) %q gives %s", way, name, b, rawOf(st))
						return
					}
				}
				c.Count("files of unusual form accepted", 1)
			default:
				c.Count("files of unusual form refused", 1)
			}
			c.Eval(fmt.Sprintf("%s %q", way, b))
		}
	}
}

func c18NoPanic(c *Check, load func(string) (signer.SignState, error), path, name string, b []byte) (st signer.SignState, err error) {
	defer func() {
		if p := recover(); p != nil {
			c.Violation("load-panics", "loading a file (%s) %q panics: %v", name, b, p)
		}
	}()
	return load(path)
}

// helperLoadState loads or creates, as whoever runs it, and says what came out.
func helperLoadState(args []string) {
	st, err := signer.LoadOrCreateSignState(args[0])
	fmt.Printf("%v %s\n", err != nil, rawOf(st).hrs())
}

// c18Unreadable: files that cannot be read, also for a user who is no root.
func c18Unreadable(c *Check) {
	dir := newDir("unreadable")
	for d := dir; strings.HasPrefix(d, scratchDir()); d = filepath.Dir(d) {
		must(os.Chmod(d, 0o777))
	}
	exe := filepath.Join(dir, "vc")
	self, err := os.Executable()
	must(err)
	must(copyFile(self, exe))
	must(os.Chmod(exe, 0o755))
	good := rawState{H: 77, R: 1, S: 2, Sig: []byte("sig"), Bytes: []byte("bytes")}
	cases := map[string]func(p string){
		"no permission":       func(p string) { must(writeRaw(p, good)); must(os.Chmod(p, 0)) },
		"write only":          func(p string) { must(writeRaw(p, good)); must(os.Chmod(p, 0o222)) },
		"directory without x": func(p string) { must(writeRaw(p, good)); must(os.Chmod(filepath.Dir(p), 0o600)) },
		"directory in place":  func(p string) { must(os.Mkdir(p, 0o777)) },
		"full directory":      func(p string) { must(os.Mkdir(p, 0o777)); must(os.WriteFile(filepath.Join(p, "x"), nil, 0o666)) },
		"link to itself":      func(p string) { must(os.Symlink(p, p)) },
		"link to an unreadable": func(p string) {
			q := p + ".real"
			must(writeRaw(q, good))
			must(os.Chmod(q, 0))
			must(os.Symlink(q, p))
		},
	}
	for name, make := range cases {
		p := filepath.Join(newDir("unreadable"), "d", "s.json")
		must(os.Mkdir(filepath.Dir(p), 0o777))
		must(os.Chmod(filepath.Dir(p), 0o777))
		must(os.Chmod(filepath.Dir(filepath.Dir(p)), 0o777))
		make(p)
		look := func() string {
			out, _ := exec.Command("bash", "-c", `cd "$1"; for f in $(ls -A); do stat -c "%F %n %a %s %i" "$f"; [ -f "$f" ] && cat "$f"; done`, "x", filepath.Dir(p)).CombinedOutput()
			return string(out)
		}
		before := look()
		cmd := exec.Command(exe, "helper", "loadstate", p)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "HOME="+dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		out, err := cmd.CombinedOutput()
		if err != nil && len(out) == 0 {
			must(err)
		}
		if after := look(); after != before {
			c.Violation("unreadable-replaced", "%s: loading gives %s and changes\n%s into\n%s", name, out, before, after)
			return
		}
		if !strings.HasPrefix(string(out), "true ") {
			c.Violation("unreadable-accepted", "%s: loading is no error: %s", name, out)
			return
		}
		c.Count("unreadable files", 1)
		c.Eval("unreadable " + name)
		must(os.Chmod(filepath.Dir(p), 0o777))
	}
}

// c18Processes: the commands over good, damaged and empty files.
func c18Processes(c *Check) {
	contents := c18Contents(c.Rng("processes"), false)
	pick := []string{"good", "space", "zeros", "text", "array", "doubled", "cut at 1", "cut at 8", "cut at 50", "torn in front", "long zeros", `"height""x"`, `"height""99999999999999999999"`}
	type job struct{ name, way string }
	var jobs []job
	for _, n := range pick {
		if _, ok := contents[n]; !ok {
			panic("harness: no content " + n)
		}
		for _, w := range []string{"cosigner pv", "cosigner share", "signer", "init", "init cosigner", "state set", "state show"} {
			jobs = append(jobs, job{n, w})
		}
	}
	parallel(len(jobs), 8, func(i int) {
		if c.Violated() {
			return
		}
		name, way, b := jobs[i].name, jobs[i].way, contents[jobs[i].name]
		good := name == "good"
		var dir, pv, share string
		if way == "signer" {
			s := newSingle(c, "", 1)
			defer s.close()
			dir, pv = s.dir, s.statePath()
		} else {
			hc := newHomes(2, 2, 1)
			defer hc.stopAll()
			dir, pv, share = hc.Nodes[0].Dir, hc.Nodes[0].pvPath(), hc.Nodes[0].sharePath()
		}
		victim := pv
		if way == "cosigner share" || share != "" && way != "cosigner pv" && i%2 == 0 {
			victim = share
		}
		must(os.WriteFile(victim, b, 0o600))
		others := map[string][]byte{}
		for _, f := range []string{pv, share} {
			if f != "" {
				others[f], _ = os.ReadFile(f)
			}
		}
		var out string
		code := 0
		switch way {
		case "cosigner pv", "cosigner share", "signer":
			what := "cosigner"
			if way == "signer" {
				what = "signer"
			}
			log := filepath.Join(dir, "log")
			p := startHx(log, what, "start", "--home", dir)
			wait := 60 * time.Second
			if good {
				wait = 1500 * time.Millisecond
			}
			select {
			case <-p.done:
				code = p.code
			case <-time.After(wait):
				code = 0
				p.kill()
			}
			lb, _ := os.ReadFile(log)
			out = string(lb)
			if good {
				c.Count("starts over a state", 1)
			}
		case "init":
			out, code = runHx("config", "init", chain, "tcp://a:1", "--home", dir, "-o")
			c.Count("inits over a state", 1)
			if victim == share { // a single signer has no share state
				code = -1
			}
		case "init cosigner":
			out, code = runHx("config", "init", chain, "tcp://a:1", "-c", "-p", "tcp://b:1|2", "-t", "2", "-l", "tcp://127.0.0.1:2222", "--home", dir, "-o")
			c.Count("inits over a state", 1)
		case "state set":
			out, code = runHx("state", "set", "99999999", "--home", dir)
			if good { // this one is meant to change the file
				return
			}
		case "state show":
			out, code = runHx("state", "show", "--home", dir)
		}
		for f, was := range others {
			if now, err := os.ReadFile(f); err != nil || !bytes.Equal(was, now) {
				c.Violation("command-changes-state", "%s over a file %s (%s) %q: status %d, %s is now %q (%v)\n%s", way, filepath.Base(victim), name, b, code,
					filepath.Base(f), now, err, tailString(out, 600))
			}
		}
		if good && code > 0 {
			c.Violation("good-refused", "%s over a good state: status %d: %s", way, code, tailString(out, 600))
		}
		if !good && code == 0 {
			c.Violation("damaged-accepted", "%s over a file %s (%s) %q succeeds: %s", way, filepath.Base(victim), name, b, tailString(out, 600))
		}
		if !good && code != 0 {
			c.Count("processes refused to start", 1)
		}
		c.Eval(fmt.Sprintf("%s over %s %v", way, name, victim == pv))
	})
}

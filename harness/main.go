package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

var checks = map[string]func(c *Check){}

// helpers are re-executions of this binary as a separate process of a workload.
var helpers = map[string]func(args []string){}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vc run|child|helper NAME [args]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		supervise(os.Args[2])
	case "child":
		c := newCheck(os.Args[2])
		f := checks[os.Args[2]]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no such check")
			os.Exit(2)
		}
		f(c)
		c.Finish()
	case "helper":
		helpers[os.Args[2]](os.Args[3:])
	}
	os.Exit(2)
}

const (
	repoPkg = "github.com/strangelove-ventures/horcrux/"
)

// supervise runs a check in a child process, so that a crash or a deadlock of the code
// under test becomes a verdict instead of an error of the check.
func supervise(id string) {
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	must(err)
	code := superviseIn(id, scratch)
	os.RemoveAll(scratch)
	os.Exit(code)
}

func superviseIn(id, scratch string) int {
	self, err := os.Executable()
	must(err)
	errFile, err := os.Create(filepath.Join(scratch, "stderr"))
	must(err)
	cmd := exec.Command(self, "child", id)
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch, "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(scratch, "race"))
	cmd.Stdout = os.Stdout
	cmd.Stderr = errFile
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	// no evidence of an earlier run may survive
	os.Remove(filepath.Join(verifDir(), "evidence", id+".json"))
	must(cmd.Start())
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 600 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 4 * 3600 * time.Second
	}
	hung := false
	select {
	case <-done:
	case <-sig:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return 2
	case <-time.After(limit):
		hung = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
		}
	}
	// nothing of this run may stay behind
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	code := cmd.ProcessState.ExitCode()
	if !hung && (code == 0 || code == 1) {
		if code == 1 || os.Getenv("VERIF_VERBOSE") != "" {
			tail(errFile.Name())
		}
		return code
	}
	b, _ := os.ReadFile(errFile.Name())
	key, why := classifyCrash(string(b), hung)
	if kept := keptViolations(scratch); key == "" && len(kept) > 0 {
		// the run ended early, after it had seen these
		c := newCheck(id)
		c.rule = "the run was cut short after the violations it had seen"
		c.viols = kept
		c.FinishNoExit()
		return 1
	}
	if key == "" {
		tail(errFile.Name())
		fmt.Printf("%s: no verdict (exit %d, hung %v)\n", id, code, hung)
		return 2
	}
	// the code under test crashed or deadlocked under this workload
	c := newCheck(id)
	c.rule = "the run was cut short by a crash or deadlock of the code under test"
	c.counters["evaluations"] = 1
	c.counters["crashes"] = 1
	c.Violation(key, "%s\n%s", why, string(b))
	c.FinishNoExit()
	return 1
}

func (c *Check) FinishNoExit() {
	// Finish exits; run it in a helper process is not worth it, so mimic its output
	evDir := filepath.Join(verifDir(), "evidence")
	must(os.MkdirAll(evDir, 0o755))
	replay := filepath.Join(evDir, c.ID+"-violation.txt")
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "property %s tier %s seed %d\nreplay: VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s\n\n",
		c.ID, c.Tier, c.Seed, c.Seed, c.Tier, c.ID)
	for _, v := range c.viols {
		fmt.Fprintf(&buf, "[%s] %s\n", v.Key, v.Detail)
	}
	must(os.WriteFile(replay, buf.Bytes(), 0o644))
	ev := fmt.Sprintf(`{"property":%q,"tier":%q,"seed":%d,"level":%q,"coverage":{"evaluations":1,"distinct_nontrivial":1,`+
		`"rule":%q,"samples":[%q]},"wall_s":%f,"violations":1}`+"\n",
		c.ID, c.Tier, c.Seed, c.Level, c.rule, c.viols[0].Key, time.Since(c.start).Seconds())
	must(os.WriteFile(filepath.Join(evDir, c.ID+".json"), []byte(ev), 0o644))
	fmt.Printf("  violated [%s] %s\n", c.viols[0].Key, firstLine(c.viols[0].Detail))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
}

func tail(f string) {
	b, _ := os.ReadFile(f)
	for _, mark := range []string{"panic: ", "fatal error: ", "SIGQUIT"} {
		if i := bytes.Index(b, []byte(mark)); i >= 0 {
			b = b[i:]
			break
		}
	}
	if len(b) > 4000 {
		b = b[:4000]
	}
	os.Stderr.Write(b)
}

var (
	goroutineRe = regexp.MustCompile(`(?m)^goroutine \d+ .*\[([^\]]*)\]:$`)
	frameRe     = regexp.MustCompile(`^([\w./\-*()\[\]{}·%~]+)\(`)
)

// firstOwner tells whose code the topmost attributable frame of a goroutine's stack is.
func firstOwner(stack []string) string {
	for _, l := range stack {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		l = strings.TrimPrefix(l, "created by ")
		if strings.HasPrefix(l, repoPkg) {
			return "repo"
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/harness") {
			return "harness"
		}
	}
	return ""
}

// classifyCrash decides from a Go crash dump whether the code under test is what failed.
func classifyCrash(dump string, hung bool) (key, why string) {
	if hung {
		// only a goroutine which waited for a mutex for minutes in the code under test is evidence
		for _, g := range strings.Split(dump, "\n\n") {
			lines := strings.Split(g, "\n")
			m := goroutineRe.FindStringSubmatch(lines[0])
			if m == nil {
				continue
			}
			if (strings.Contains(m[1], "Mutex.Lock") || strings.HasPrefix(m[1], "semacquire")) &&
				strings.Contains(m[1], "minutes") && firstOwner(lines[1:]) == "repo" &&
				!strings.Contains(g, "WaitGroup") {
				return "deadlock", "deadlock in the code under test: " + lines[0]
			}
		}
		return "", ""
	}
	i := strings.Index(dump, "panic: ")
	for _, s := range []string{"fatal error: ", "SIGSEGV"} {
		if j := strings.Index(dump, s); i < 0 || j >= 0 && j < i {
			i = j
		}
	}
	if i < 0 {
		return "", ""
	}
	dump = dump[i:]
	if strings.HasPrefix(dump, "panic: harness: ") {
		return "", ""
	}
	for _, g := range strings.Split(dump, "\n\n") {
		lines := strings.Split(g, "\n")
		if !strings.HasPrefix(lines[0], "goroutine ") {
			continue
		}
		if firstOwner(lines[1:]) == "repo" {
			return "crash", "crash in the code under test: " + firstLine(dump)
		}
		return "", "" // the crashing goroutine is dumped first
	}
	return "", ""
}

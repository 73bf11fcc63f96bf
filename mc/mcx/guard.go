package mcx

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

const envGuard = "MC_GUARDED"

// Tee passes on what is written and keeps the part from the first crash on.
type Tee struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *Tee) Write(b []byte) (int, error) {
	t.mu.Lock()
	if t.buf.Len() < 1<<18 {
		t.buf.Write(b)
	}
	t.mu.Unlock()
	return os.Stderr.Write(b)
}

// Crash describes the crash of a process by code under test: what the runtime
// said and where.  Empty if the process ended otherwise (killed, out of
// memory, or by a fault of the harness).
func (t *Tee) Crash() string {
	t.mu.Lock()
	s := t.buf.String()
	t.mu.Unlock()
	at := -1
	for _, w := range []string{"fatal error: ", "panic: "} {
		if i := strings.Index("\n"+s, "\n"+w); i >= 0 && (at < 0 || i < at) {
			at = i
		}
	}
	if at < 0 {
		return ""
	}
	s = s[at:]
	head := strings.SplitN(s, "\n", 2)[0]
	if strings.Contains(head, "out of memory") || strings.Contains(head, "cannot allocate") {
		return ""
	}
	// the goroutine that crashed is the first one
	parts := strings.SplitN(s, "\ngoroutine ", 3)
	if len(parts) < 2 {
		return ""
	}
	for _, l := range strings.Split(parts[1], "\n") {
		if strings.HasPrefix(l, "created by ") {
			break
		}
		if i := strings.Index(l, "go-iden3-core/"); i >= 0 && !strings.HasPrefix(l, "\t") {
			return head + " (in " + l[i+len("go-iden3-core/"):] + ")"
		}
	}
	return ""
}

// guard runs the check in a child process, so that code under test that takes
// the process down (a fatal error of the runtime, a panic in a goroutine of
// its own) is a violation instead of a check without an answer.
func (c *Ctx) guard() {
	runtime.LockOSThread() // the child dies with this thread
	self, err := os.Executable()
	if err != nil {
		return
	}
	crash := ""
	for try := 0; try < 2; try++ {
		t := &Tee{}
		cmd := exec.Command(self, os.Args[1:]...)
		cmd.Env = append(os.Environ(), envGuard+"=1")
		cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, Out, t
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.WaitDelay = 5 * time.Second
		err := cmd.Run()
		if err == nil {
			os.Exit(0)
		}
		code := 2
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() > 0 {
			code = cmd.ProcessState.ExitCode()
		}
		if crash = t.Crash(); code != 2 || crash == "" {
			os.Exit(code)
		}
	}
	c.Rule("(the run ended with a crash of the code under test)")
	_ = os.MkdirAll(filepath.Join(c.Root, "evidence"), 0755)
	c.report(Replay{Harness: "process", Error: "the process crashed twice: " + crash, Sig: "crash"})
	c.NotExhaustive("crash")
	c.finish()
}

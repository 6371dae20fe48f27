// Package prog runs the program itself, in a directory of its own.
package prog

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/env"
	"verifharness/mon"
)

// Prog is a running program.
type Prog struct {
	Cmd  *exec.Cmd
	Args []string
	out  string
	err  string
	done chan struct{}
	once sync.Once
	code int
}

// Start starts the program in the directory cwd.
func Start(t *mon.T, cwd string, args ...string) *Prog {
	p := &Prog{Args: args, done: make(chan struct{})}
	base, err := os.MkdirTemp(t.Dir(), "prog")
	if err != nil {
		panic(err)
	}
	p.out, p.err = filepath.Join(base, "out"), filepath.Join(base, "err")
	o, err := os.Create(p.out)
	if err != nil {
		panic(err)
	}
	e, err := os.Create(p.err)
	if err != nil {
		panic(err)
	}
	p.Cmd = exec.Command(os.Getenv("VMON_GOTOR"), args...)
	p.Cmd.Dir = cwd
	p.Cmd.Stdout, p.Cmd.Stderr = o, e
	p.Cmd.Env = append(os.Environ(), "GORACE=history_size=3 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all", "GOMAXPROCS=4")
	// (a fresh group of its own; ended with the thread that starts it, which lives as long as the worker)
	p.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error)
	go func() {
		lockThread()
		err := p.Cmd.Start()
		o.Close()
		e.Close()
		started <- err
		if err != nil {
			return
		}
		p.Cmd.Wait()
		p.code = p.Cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	if err := <-started; err != nil {
		panic(err)
	}
	t.Cleanup(p.Kill)
	return p
}

// Kill ends the program.
func (p *Prog) Kill() {
	p.once.Do(func() { p.Cmd.Process.Kill() })
	<-p.done
}

// Wait waits until the program has ended by itself, and returns its exit code.
func (p *Prog) Wait(d time.Duration) (code int, ok bool) {
	select {
	case <-p.done:
		return p.code, true
	case <-time.After(d):
		return 0, false
	}
}

// Running says whether the program runs.
func (p *Prog) Running() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func read(path string) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	if fi, err := f.Stat(); err == nil && fi.Size() > 32<<20 { // the end is what matters
		f.Seek(-32<<20, io.SeekEnd)
	}
	b, _ := io.ReadAll(f)
	return string(b)
}

// Stdout is what the program has written.
func (p *Prog) Stdout() string { return read(p.out) }

// Stderr is what the program has written.
func (p *Prog) Stderr() string { return read(p.err) }

// Tail is the end of the program's messages, or the beginning of its panic.
func (p *Prog) Tail() string {
	s := p.Stderr()
	for _, k := range []string{"panic:", "fatal error:", "SIGQUIT"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			if len(s) > 3000 {
				s = s[:3000]
			}
			return s
		}
	}
	if len(s) > 1500 {
		s = "..." + s[len(s)-1500:]
	}
	return s
}

// FreePort finds a port that nobody listens on.
func FreePort(r *rand.Rand) int {
	for {
		p := 10000 + r.IntN(20000)
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			ln.Close()
			return p
		}
	}
}

// Ready waits until the program accepts connections on the port. The program
// may have ended instead.
func (p *Prog) Ready(port int, d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end) && p.Running(); time.Sleep(10 * time.Millisecond) {
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second); err == nil {
			c.Close()
			return p.Running()
		}
	}
	return false
}

// PortTaken says that the program ended since somebody else took its port.
func (p *Prog) PortTaken() bool {
	return !p.Running() && strings.Contains(p.Stderr(), "address already in use")
}

// Dial connects to the program as a peer does, and sends the handshake.
func Dial(port int, infohash string, n int) (*env.Remote, error) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 10*time.Second)
	if err != nil {
		return nil, err
	}
	if _, err := c.Write(env.Handshake(infohash, env.PeerID(n))); err != nil {
		c.Close()
		return nil, err
	}
	return env.NewRemote(c, true), nil
}

// C24: read loops hand over every byte once, in order.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	gio "gotor/io"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C24",
		Rule: "Read loops with buffers from one byte to 64 KiB on connections whose peer sends random bytes in chunks of random sizes with pauses, and whose consumer takes its time before it looks at a chunk, and before it is " +
			"done with it. The stream ends by a close, an injected error, a silence longer than the timeout, or the loop is finished: before it runs, while it reads, while a chunk waits, while the consumer is busy, by the " +
			"consumer or another goroutine, many times. Monitors: every chunk is the next bytes of the stream, and still is when the consumer is done; the error is the one that ended the stream, at its time; no byte is lost before it; " +
			"after Finish the loop has returned, and no goroutine is left. In fake time under the race detector. Distinct by stream, cuts, delays and ending.",
		Assumptions: []string{"the consumer calls Ready once per chunk, as documented"},
		Scenarios: []mon.Scenario{
			{Name: "streams", Quick: 20000, Thorough: 300000, Shards: 8, Sync: true, Run: streams},
		},
		Require: map[string]int{"chunks": 100000, "closed": 1000, "failed": 1000, "timed out": 1000, "finished": 2000, "finished while reading": 200, "finished with a chunk waiting": 200, "finished before it ran": 100, "end to end streams": 2000},
	})
}

// shaky is a connection that fails after a number of bytes.
type shaky struct {
	net.Conn
	mu    sync.Mutex
	left  int // bytes until reads fail (<0: never)
	short int // reads return at most that many bytes (0: any)
	err   error
	calls int // of SetReadDeadline until it fails (<0: never)

	together bool // the error comes with the last bytes

	lag [2]time.Duration // before a deadline is set, and after reading was cancelled
}

func (c *shaky) SetReadDeadline(at time.Time) error {
	c.mu.Lock()
	calls := c.calls
	if c.calls > 0 {
		c.calls--
	}
	c.mu.Unlock()
	if calls == 0 {
		return c.err
	}
	// it takes its time: what others do meanwhile comes first
	past := at.Before(time.Now())
	if !past {
		time.Sleep(c.lag[0])
	}
	err := c.Conn.SetReadDeadline(at)
	if past {
		time.Sleep(c.lag[1])
	}
	if err == io.ErrClosedPipe {
		err = nil // the peer has closed: the next read says so, as on a socket
	}
	return err
}

func (c *shaky) Read(b []byte) (int, error) {
	c.mu.Lock()
	left := c.left
	c.mu.Unlock()
	if left == 0 {
		return 0, c.err
	}
	if c.short > 0 && len(b) > c.short {
		b = b[:c.short]
	}
	if left > 0 && len(b) > left {
		b = b[:left]
	}
	n, err := c.Conn.Read(b)
	c.mu.Lock()
	if c.left > 0 {
		c.left -= n
	}
	if c.left == 0 && c.together && err == nil {
		err = c.err // with the last bytes, as io.Reader allows
	}
	c.mu.Unlock()
	return n, err
}

func streams(t *mon.T, i int) {
	r := t.Rng
	bufSize := []int64{1, 2, 7, 1 + r.Int64N(100), 16384, 65536}[r.IntN(6)]
	data := make([]byte, r.IntN(3000))
	ref.Fill(r, data)
	timeout := []time.Duration{time.Millisecond, time.Second, 2 * time.Minute}[r.IntN(3)]
	delay := func(n int64) time.Duration {
		if r.IntN(3) > 0 {
			return 0
		}
		return time.Duration(r.Int64N(n))
	}
	type piece struct {
		wait time.Duration
		data []byte
	}
	var plan []piece
	for rest := data; len(rest) > 0; {
		n := min(len(rest), 1+r.IntN([]int{1, 50, 400, 3000}[r.IntN(4)]))
		plan = append(plan, piece{delay(int64(timeout) * 9 / 10), rest[:n]})
		rest = rest[n:]
	}
	ending := []string{"close", "error", "silence", "finish", "finish", "deadline"}[r.IntN(6)]
	errInjected := errors.New("injected")
	failAt := -1
	if ending == "error" {
		failAt = r.IntN(len(data) + 1)
	}
	together := failAt > 0 && r.IntN(3) == 0
	calls := -1
	if ending == "deadline" {
		calls = r.IntN(len(plan) + 1)
	}
	short := 0
	if r.IntN(3) == 0 {
		short = 1 + r.IntN(20)
	}
	finishAt := time.Duration(0) // after that time
	finishAfter := -1            // after that many chunks
	finishHow := ""
	if ending == "finish" {
		switch r.IntN(4) {
		case 0:
			finishHow = "before"
		case 1:
			finishHow = "time"
			finishAt = time.Duration(r.Int64N(int64(timeout) * int64(len(plan)+1)))
		case 2:
			finishHow = "consumer"
			finishAfter = 1 + r.IntN(len(plan)+1)
		case 3: // by the consumer, who leaves the chunk where it is
			finishHow = "waiting"
			finishAfter = r.IntN(len(plan) + 1)
		}
	}
	var look, done []time.Duration
	for k := 0; k < 8; k++ {
		look = append(look, delay(int64(timeout)*2))
		done = append(done, delay(int64(timeout)*2))
	}
	times := 1 + r.IntN(3)
	var lag [2]time.Duration
	if finishHow == "time" && r.IntN(2) == 0 {
		lag = [2]time.Duration{time.Duration(r.Int64N(int64(timeout) / 2)), time.Duration(r.Int64N(int64(timeout) / 2))}
	}
	desc := fmt.Sprintf("buffer %d, timeout %v, %d bytes in %d chunks, consumer %v %v, reads of at most %d, %s %s (at %v, after %d chunks, error after %d bytes, together %v, lags %v)", bufSize, timeout, len(data), len(plan), look[:2], done[:2], short, ending, finishHow, finishAt, finishAfter, failAt, together, lag)
	t.Key(desc, data)
	t.Sample("%s", desc)
	fail := func(fp, f string, a ...any) { t.Failf(fp, "%s\n%s", fmt.Sprintf(f, a...), desc) }

	synctest.Test(t.TT, func(_ *testing.T) {
		end, peer := env.Pipe(1234)
		conn := &shaky{Conn: end, left: failAt, short: short, err: errInjected, calls: calls, together: together, lag: lag}
		rl := gio.NewReadLoop(bufSize, conn, timeout)
		finish := func() {
			var wg sync.WaitGroup
			for k := 1; k < times; k++ {
				wg.Add(1)
				go func() { rl.Finish(); wg.Done() }()
			}
			rl.Finish()
			wg.Wait()
		}
		if finishHow == "before" {
			finish()
			t.Event("finished before it ran", 1)
		}
		ran := make(chan struct{})
		go func() { rl.Run(); close(ran) }()
		returned := func() bool {
			select {
			case <-ran:
				return true
			default:
				return false
			}
		}
		sent := make(chan struct{})
		go func() {
			defer close(sent)
			for _, p := range plan {
				time.Sleep(p.wait)
				if _, err := peer.Write(p.data); err != nil {
					return
				}
			}
			if ending == "close" {
				peer.Close()
			}
		}()
		over := func(why string) {
			time.Sleep(lag[0])
			synctest.Wait()
			if !returned() {
				fail("not-finished", "%s, and the loop still runs", why)
			}
			t.Event("finished", 1)
			finish() // again
		}
		got := 0
		var reads time.Time // when the loop began to wait for the next bytes
		reads = time.Now()
		consume := make(chan struct{})
		stop := make(chan struct{})
		go func() {
			defer close(consume)
			if finishHow == "before" {
				return
			}
			for k := 0; ; k++ {
				if finishHow == "waiting" && k == finishAfter {
					synctest.Wait()
					time.Sleep(look[0] / 2)
					select {
					case <-stop:
						return
					default:
					}
					finish()
					t.Event("finished with a chunk waiting", 1)
					return
				}
				select {
				case b := <-rl.ReadData():
					t.Event("chunks", 1)
					time.Sleep(look[k%8])
					check := func(when string) bool {
						if len(b) == 0 || len(b) > len(data)-got || !bytes.Equal(b, data[got:got+len(b)]) {
							fail("wrong-bytes", "chunk %d (%s): %.200x, the next bytes of the stream are %.200x", k, when, b, data[got:min(len(data), got+len(b)+8)])
							return false
						}
						return true
					}
					if !check("when it came") {
						return
					}
					time.Sleep(done[k%8])
					if !check("when the consumer was done") {
						return
					}
					got += len(b)
					if finishHow == "consumer" && k+1 == finishAfter {
						finish()
						rl.Ready() // must not block
						return
					}
					reads = time.Now()
					rl.Ready()
				case err := <-rl.ReadError():
					now := time.Now()
					if finishHow != "" {
						select {
						case <-stop:
							return // (an error is as good)
						default:
						}
						if err == nil || !(env.IsTimeout(err) || errors.Is(err, os.ErrDeadlineExceeded)) {
							fail("wrong-error", "nothing ended the stream, and the error is %v", err)
						}
						return
					}
					switch ending {
					case "close":
						t.Event("closed", 1)
						if err != io.EOF || got != len(data) {
							fail("wrong-error", "the peer closed, the error is %v after %d of %d bytes", err, got, len(data))
						}
					case "error":
						t.Event("failed", 1)
						if err != errInjected || got != failAt {
							fail("wrong-error", "the connection failed after %d bytes, the error is %v after %d bytes", failAt, err, got)
						}
					case "deadline":
						t.Event("failed", 1)
						if err == nil {
							fail("wrong-error", "the connection failed, the error is %v after %d bytes", err, got)
						}
					case "silence":
						t.Event("timed out", 1)
						if !env.IsTimeout(err) || got != len(data) {
							fail("wrong-error", "the peer is silent, the error is %v after %d of %d bytes", err, got, len(data))
						} else if d := now.Sub(reads); d < timeout || d > timeout+timeout/20 {
							fail("wrong-time", "the peer is silent, and the loop waited %v", d)
						}
					}
					t.Event("end to end streams", 1)
					return
				case <-stop:
					return
				}
			}
		}()
		if finishHow == "time" {
			time.Sleep(finishAt)
			close(stop)
			synctest.Wait()
			if !returned() {
				t.Event("finished while reading", 1)
			}
			finish()
		}
		<-consume
		if finishHow == "before" {
			synctest.Wait()
		}
		over(ending + " " + finishHow)
		end.Close()
		peer.Close()
		<-sent
		synctest.Wait()
		if s := left(); s != "" {
			fail("goroutines", "at the end:\n%s", s)
		}
	})
}

func left() string {
	var s string
	for try := 0; try < 3; try++ {
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		s = ""
		for _, g := range strings.Split(string(b), "\n\n") {
			if strings.Contains(g, "gotor/io.") && !strings.Contains(g, "runtime.Stack") {
				s += g + "\n\n"
			}
		}
		if s == "" {
			return ""
		}
		synctest.Wait()
	}
	return s
}

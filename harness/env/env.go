// Package env builds the surroundings of the code under test: a tracker on the
// loopback interface, clients (swarms), and the peers' end of connections.
package env

import (
	"encoding/binary"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"gotor/swarm"
	"gotor/utils"
	"verifharness/mon"
	"verifharness/ref"
)

// ---------------------------------------------------------------------------
// Tracker

// Req is a request that the tracker received.
type Req struct {
	Method string
	Path   string
	Raw    string // the query, as sent
	Host   string
	Proto  string
	URI    string
	Auth   string
}

// Tracker answers all announces with Body.
type Tracker struct {
	URL string

	mu     sync.Mutex
	reqs   []Req
	answer func(w http.ResponseWriter, r *http.Request)
	srv    *http.Server
	ln     net.Listener
}

// NewTracker starts a tracker.
func NewTracker() *Tracker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	tr := &Tracker{ln: ln, URL: "http://" + ln.Addr().String()}
	tr.SetBody(OKBody(nil))
	tr.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		tr.mu.Lock()
		tr.reqs = append(tr.reqs, Req{r.Method, r.URL.Path, r.URL.RawQuery, r.Host, r.Proto, r.RequestURI, r.Header.Get("Authorization")})
		f := tr.answer
		tr.mu.Unlock()
		f(w, r)
	})}
	go tr.srv.Serve(ln)
	return tr
}

// OKBody is a response with the peers given in compact form.
func OKBody(peers []byte) []byte {
	return ref.Enc(ref.Pairs{{K: "complete", V: int64(1)}, {K: "incomplete", V: int64(1)}, {K: "interval", V: int64(1800)}, {K: "peers", V: string(peers)}})
}

// SetBody sets the body of the responses.
func (tr *Tracker) SetBody(b []byte) {
	tr.SetAnswer(func(w http.ResponseWriter, r *http.Request) { w.Write(b) })
}

// SetAnswer sets what answers the requests.
func (tr *Tracker) SetAnswer(f func(w http.ResponseWriter, r *http.Request)) {
	tr.mu.Lock()
	tr.answer = f
	tr.mu.Unlock()
}

// Take returns the requests received since the last call.
func (tr *Tracker) Take() []Req {
	tr.mu.Lock()
	defer tr.mu.Unlock()
	l := tr.reqs
	tr.reqs = nil
	return l
}

// Close stops the tracker.
func (tr *Tracker) Close() { tr.srv.Close() }

var (
	sharedMu sync.Mutex
	shared   *Tracker
)

// Shared returns a tracker that lives as long as the process.
func Shared() *Tracker {
	sharedMu.Lock()
	defer sharedMu.Unlock()
	if shared == nil {
		shared = NewTracker()
	}
	return shared
}

// ---------------------------------------------------------------------------
// Clients

// Options returns the options of the client, set as if given on its command line.
func Options(input, dir, port, up, dn string) (*utils.Opts, error) {
	args := os.Args
	os.Args = []string{args[0], "-i", "none", "-w", "none"}
	o := utils.GetOpts()
	os.Args = args
	for k, v := range map[string]string{"i": input, "w": dir, "p": port, "u": up, "d": dn} {
		if err := flag.CommandLine.Set(k, v); err != nil {
			return nil, err
		}
	}
	return o, o.Validate()
}

// Client is a swarm with what it was made from.
type Client struct {
	*swarm.Swarm
	Dir string
	Tor *ref.Tor
}

// NewClient starts a client for the torrent, with the files in dir as they are.
// The torrent must announce to a tracker that answers.
func NewClient(tor *ref.Tor, torrentFile, dir string) (*Client, error) {
	tor.Save(torrentFile)
	o, err := Options(torrentFile, dir, "1", "-1B", "-1B")
	if err != nil {
		return nil, err
	}
	s, err := swarm.NewSwarm(o)
	if err != nil {
		return nil, err
	}
	return &Client{s, dir, tor}, nil
}

// Seed makes a client that owns the given pieces (nil: all).
func Seed(t *mon.T, tor *ref.Tor, owned []bool) *Client {
	dir := filepath.Join(t.Dir(), "work")
	content := append([]byte{}, tor.Content...)
	for i, o := range owned {
		if !o {
			p := content[int64(i)*tor.PieceLen : min(int64(len(content)), int64(i+1)*tor.PieceLen)]
			for k := range p {
				p[k] ^= 0x5a
			}
		}
	}
	for f := range tor.Files {
		s := tor.Start(f)
		tor.SaveFile(dir, f, content[s:s+tor.Files[f].Len])
	}
	c, err := NewClient(tor, filepath.Join(t.Dir(), "x.torrent"), dir)
	if err != nil {
		t.Failf("no-client", "a client for a well-formed torrent does not start: %v\n%s", err, tor.Describe())
		return nil
	}
	t.Cleanup(func() { c.Fileio.CloseAll() })
	return c
}

// ---------------------------------------------------------------------------
// Connections

type conn struct {
	net.Conn
	remote net.Addr
	mu     sync.Mutex
	closed bool
	broken bool // Write fails
	wsem   chan struct{}
}

// Write takes turns by a channel: in fake time, waiting for the lock of a
// net.Pipe would stop the clock.
func (c *conn) Write(b []byte) (int, error) {
	c.wsem <- struct{}{}
	defer func() { <-c.wsem }()
	c.mu.Lock()
	broken := c.broken
	c.mu.Unlock()
	if broken {
		return 0, errors.New("injected: cannot write")
	}
	return c.Conn.Write(b)
}

func (c *conn) RemoteAddr() net.Addr { return c.remote }
func (c *conn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	return c.Conn.Close()
}

// End is the client's end of a connection in memory.
type End struct{ *conn }

// Closed says whether the client has closed its end.
func (e End) Closed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.closed
}

// FailWrites makes writing to the peer fail from now on.
func (e End) FailWrites() {
	e.mu.Lock()
	e.broken = true
	e.mu.Unlock()
}

// Pipe is a connection in memory. The client sees a TCP peer at the given port,
// at one of its own addresses, at one it shares with others, or at an IPv6 one.
func Pipe(port int) (client End, peer net.Conn) {
	a, b := net.Pipe()
	ip := net.IPv4(10, 0, byte(port>>8), byte(port))
	switch port % 6 {
	case 1:
		ip = net.ParseIP(fmt.Sprintf("fd00::%x", port))
	case 3:
		ip = net.IP{10, 9, 9, 9}
	case 4:
		ip = net.ParseIP("::1")
	}
	return End{&conn{Conn: a, wsem: make(chan struct{}, 1), remote: &net.TCPAddr{IP: ip, Port: port}}}, b
}

// ---------------------------------------------------------------------------
// Messages

// Handshake makes a handshake.
func Handshake(infohash, id string) []byte {
	b := []byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00")
	b = append(b, infohash...)
	return append(b, id...)
}

// Msg is a message: its type and payload. Type -1 is a keepalive.
type Msg struct {
	Type    int
	Payload []byte
}

func (m Msg) String() string {
	if len(m.Payload) > 24 {
		return fmt.Sprintf("type %d, %x... (%d bytes)", m.Type, m.Payload[:24], len(m.Payload))
	}
	return fmt.Sprintf("type %d, %x", m.Type, m.Payload)
}

// Bytes is the message on the wire.
func (m Msg) Bytes() []byte {
	if m.Type < 0 {
		return []byte{0, 0, 0, 0}
	}
	b := binary.BigEndian.AppendUint32(nil, uint32(1+len(m.Payload)))
	b = append(b, byte(m.Type))
	return append(b, m.Payload...)
}

// Request is a request message.
func Request(i, begin, n uint32) Msg {
	b := binary.BigEndian.AppendUint32(nil, i)
	b = binary.BigEndian.AppendUint32(b, begin)
	return Msg{6, binary.BigEndian.AppendUint32(b, n)}
}

// Bits is the payload of a bitfield.
func Bits(owned []bool) []byte {
	b := make([]byte, (len(owned)+7)/8)
	for i, o := range owned {
		if o {
			b[i/8] |= 0x80 >> (i % 8)
		}
	}
	return b
}

// Piece splits the payload of a piece message.
func (m Msg) Piece() (i, begin uint32, data []byte, ok bool) {
	if m.Type != 7 || len(m.Payload) < 8 {
		return 0, 0, nil, false
	}
	return binary.BigEndian.Uint32(m.Payload), binary.BigEndian.Uint32(m.Payload[4:]), m.Payload[8:], true
}

// Req splits the payload of a request message.
func (m Msg) Req() (i, begin, n uint32, ok bool) {
	if m.Type != 6 || len(m.Payload) != 12 {
		return 0, 0, 0, false
	}
	return binary.BigEndian.Uint32(m.Payload), binary.BigEndian.Uint32(m.Payload[4:]), binary.BigEndian.Uint32(m.Payload[8:]), true
}

// ReadMsg reads a message.
func ReadMsg(r io.Reader) (Msg, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return Msg{}, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n == 0 {
		return Msg{Type: -1}, nil
	}
	if n > 64<<20 {
		return Msg{}, fmt.Errorf("the client sent a message of %d bytes", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return Msg{}, err
	}
	return Msg{int(b[0]), b[1:]}, nil
}

// Remote is the peer's end of a connection to the client. Everything the client
// sends is read at once and recorded.
type Remote struct {
	C net.Conn

	mu     sync.Mutex
	shake  []byte
	msgs   []Msg
	times  []time.Time
	err    error
	got    chan struct{} // closed and replaced when something happens
	ended  bool
	onmsg  func(Msg)
	noHand bool
	paused bool
}

// NewRemote starts to read. With hand, a handshake comes first.
func NewRemote(c net.Conn, hand bool) *Remote {
	r := &Remote{C: c, got: make(chan struct{}), noHand: !hand}
	go r.read()
	return r
}

func (r *Remote) read() {
	var err error
	if !r.noHand {
		b := make([]byte, 68)
		var n int
		n, err = io.ReadFull(r.C, b)
		r.note(func() { r.shake = b[:n] })
	}
	for err == nil {
		var m Msg
		m, err = ReadMsg(r.C)
		if err == nil {
			r.note(func() { r.msgs = append(r.msgs, m); r.times = append(r.times, time.Now()) })
		}
	}
	r.note(func() { r.err = err; r.ended = !r.paused })
}

// StopReading makes the peer never read again.
func (r *Remote) StopReading() {
	r.note(func() { r.paused = true })
	r.C.SetReadDeadline(time.Unix(1, 0))
}

func (r *Remote) note(f func()) {
	r.mu.Lock()
	f()
	close(r.got)
	r.got = make(chan struct{})
	r.mu.Unlock()
}

// State returns what was received until now.
func (r *Remote) State() (shake []byte, msgs []Msg, times []time.Time, ended bool, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.shake, append([]Msg{}, r.msgs...), append([]time.Time{}, r.times...), r.ended, r.err
}

// Wait waits until cond holds for the messages received, or the connection has
// ended, or the time is up. It returns whether cond holds.
func (r *Remote) Wait(d time.Duration, cond func(shake []byte, msgs []Msg, ended bool) bool) bool {
	dl := time.NewTimer(d)
	defer dl.Stop()
	for {
		r.mu.Lock()
		ok := cond(r.shake, r.msgs, r.ended)
		ended := r.ended
		ch := r.got
		r.mu.Unlock()
		if ok {
			return true
		}
		if ended {
			return false
		}
		select {
		case <-ch:
		case <-dl.C:
			return false
		}
	}
}

// WaitEnd waits until the client has closed the connection.
func (r *Remote) WaitEnd(d time.Duration) bool {
	return r.Wait(d, func(_ []byte, _ []Msg, ended bool) bool { return ended })
}

// Count returns how many of the messages have a type.
func Count(msgs []Msg, typ int) int {
	n := 0
	for _, m := range msgs {
		if m.Type == typ {
			n++
		}
	}
	return n
}

// Send writes everything, in chunks that end at the given cuts.
func Send(c net.Conn, data []byte, cuts ...int) error {
	last := 0
	for _, k := range append(cuts, len(data)) {
		if k <= last || k > len(data) {
			continue
		}
		if _, err := c.Write(data[last:k]); err != nil {
			return err
		}
		last = k
	}
	return nil
}

// IsTimeout says whether an error is a timeout.
func IsTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// Host returns the host and port of a URL of a tracker.
func (tr *Tracker) Host() string { return strings.TrimPrefix(tr.URL, "http://") }

// ---------------------------------------------------------------------------
// Sessions

// Session is a connection between a client and a peer, in memory. The client's
// side does what the client does with a connection that it accepts.
type Session struct {
	*Remote
	End     End
	Done    chan struct{} // closed when the client is done with the peer
	mu      sync.Mutex
	handler *swarm.PeerHandler
	err     error
}

// Connect lets a peer connect to the client.
func Connect(c *Client, port int) *Session {
	end, peer := Pipe(port)
	s := &Session{Remote: NewRemote(peer, true), End: end, Done: make(chan struct{})}
	go func() {
		defer close(s.Done)
		ph, err := swarm.FromIncoming(end, c.Swarm)
		s.mu.Lock()
		s.handler, s.err = ph, err
		s.mu.Unlock()
		if err != nil {
			end.Close()
			return
		}
		ph.Loop()
	}()
	return s
}

// Handler returns what the client made of the connection.
func (s *Session) Handler() (*swarm.PeerHandler, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.handler, s.err
}

// IsDone says whether the client is done with the peer.
func (s *Session) IsDone() bool {
	select {
	case <-s.Done:
		return true
	default:
		return false
	}
}

// Finish ends the connection, and waits until the client is done.
func (s *Session) Finish() {
	s.C.Close()
	<-s.Done
}

// PeerID makes the ID of a peer.
func PeerID(n int) string { return fmt.Sprintf("-XX0001-%012d", n) }

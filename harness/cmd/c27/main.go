// C27: tracker answers are parsed exactly, or refused.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"net/netip"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"gotor/swarm"
	"gotor/torrent"
	"gotor/tracker"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C27",
		Rule: "A tracker on the loopback interface gives generated answers: well-formed ones (compact lists of 0 to thousands of peers; lists of dictionaries with IPv4 and IPv6 addresses in many spellings, host names and IDs of any bytes; counters up to 2^63-1; " +
			"optional and unknown keys; sent whole, in chunks, compressed, without length, byte by byte), whose peers, addresses to dial and counters are compared with what was put in; and defective ones (failure reasons, required fields " +
			"missing, ill-typed or negative, torn peer lists, peers that are no dictionaries, lack a field or have no possible address, ports out of range, cut at every place, other values, random bytes) and failing exchanges (refused, reset or closed at any " +
			"place, garbage instead of HTTP), which must give an error and no answer. Trackers that take many seconds to answer, or pause for seconds within the answer. Connections that the client leaves open are counted at the server. Listeners on many loopback addresses see whom the client dials. Distinct by answer.",
		Assumptions: []string{"not decided: HTTP status codes, peers without an ID, ill-typed optional fields, keys out of order, data after the dictionary, answers of more than some megabytes"},
		Scenarios: []mon.Scenario{
			{Name: "wellformed", Quick: 8000, Thorough: 100000, Shards: 8, Run: wellformed},
			{Name: "defective", Quick: 8000, Thorough: 100000, Shards: 8, Run: defective},
			{Name: "truncated", Quick: 160, Thorough: 2000, Shards: 8, Run: truncated},
			{Name: "exchange", Quick: 1600, Thorough: 20000, Shards: 8, Run: exchange},
			{Name: "leaks", Quick: 24, Thorough: 200, Shards: 4, Run: leaks},
			{Name: "dialled", Quick: 160, Thorough: 2000, Shards: 4, Nobody: true, Run: dialled},
			{Name: "slow", Quick: 16, Thorough: 64, Shards: 16, Run: slow},
			{Name: "clients", Quick: 400, Thorough: 4000, Shards: 4, Nobody: true, Run: clients},
		},
		Require: map[string]int{"answers parsed": 6000, "peers compared": 30000, "answers refused": 20000, "exchanges failed": 1000, "connections counted": 2000, "peers dialled": 200, "clients started": 100, "clients refused": 100, "slow answers": 16},
	})
}

// peer is what the tracker says of a peer.
type peer struct {
	ip   netip.Addr
	port uint16
	id   string
	host string // the name, if there is one in place of the address
}

// hostName makes a DNS name.
func hostName(r *rand.Rand) string {
	const c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	s := []string{}
	for k := 1 + r.IntN(4); k > 0; k-- {
		b := make([]byte, []int{1, 2, 1 + r.IntN(20), 63}[r.IntN(4)])
		for i := range b {
			if b[i] = c[r.IntN(len(c))]; i > 0 && i < len(b)-1 && r.IntN(8) == 0 {
				b[i] = '-'
			}
		}
		s = append(s, string(b))
	}
	s[len(s)-1] = []string{"org", "example", "x", "Invalid", "s" + s[len(s)-1]}[r.IntN(5)]
	return strings.Join(s, ".")
}

// answer is an answer and what it says.
type answer struct {
	body                 []byte
	pairs                ref.Pairs
	peers                []peer
	interval, min        int64
	complete, incomplete int64
	warning              string
	compact              bool
}

func count(r *rand.Rand) int64 {
	return []int64{0, 1, 1800, math.MaxInt64, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt32, r.Int64(), r.Int64() >> r.IntN(63)}[r.IntN(9)]
}

func addr(r *rand.Rand, v6 bool) netip.Addr {
	if !v6 {
		return netip.AddrFrom4([4]byte{byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32())})
	}
	var b [16]byte
	for i := range b {
		if r.IntN(2) == 0 {
			b[i] = byte(r.Uint32())
		}
	}
	b[0] |= 0x20 // not mapped
	return netip.AddrFrom16(b)
}

func spell(r *rand.Rand, a netip.Addr) string {
	if a.Is4() {
		if r.IntN(8) == 0 {
			return "::ffff:" + a.String()
		}
		return a.String()
	}
	switch r.IntN(3) {
	case 0:
		return a.StringExpanded()
	case 1:
		return string(bytes.ToUpper([]byte(a.String())))
	}
	return a.String()
}

func port(r *rand.Rand) uint16 {
	return []uint16{0, 1, 255, 256, 6881, 65535, uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32())}[r.IntN(9)]
}

func peerDict(r *rand.Rand, p peer) ref.Pairs {
	ip := p.host
	if ip == "" {
		ip = spell(r, p.ip)
	}
	d := ref.Pairs{{K: "ip", V: ip}, {K: "peer id", V: p.id}, {K: "port", V: int64(p.port)}}
	switch r.IntN(5) {
	case 0:
		d = append(d, ref.KV{K: "zz", V: ref.Value(r, 2, true)})
	case 1:
		d = append(ref.Pairs{{K: "a", V: int64(1)}}, d...)
	}
	return d
}

func gen(r *rand.Rand, small bool) *answer {
	a := &answer{interval: count(r), complete: count(r), incomplete: count(r), compact: r.IntN(2) == 0}
	n := []int{0, 1, 2, r.IntN(10), r.IntN(60)}[r.IntN(5)]
	if small {
		n = r.IntN(4)
	} else if r.IntN(200) == 0 {
		n = 1000 + r.IntN(6000)
	}
	for i := 0; i < n; i++ {
		p := peer{ip: addr(r, !a.compact && r.IntN(3) == 0), port: port(r)}
		if i > 0 && r.IntN(10) == 0 {
			p.ip = a.peers[r.IntN(i)].ip // (the same address again)
		}
		if !a.compact {
			p.id = ref.Str(r, 20)
			for len(p.id) < 20 {
				p.id += "\x00"
			}
			if r.IntN(10) == 0 {
				p.host = hostName(r)
			}
		}
		a.peers = append(a.peers, p)
	}
	var peers any
	if a.compact {
		b := []byte{}
		for _, p := range a.peers {
			x := p.ip.As4()
			b = append(b, x[:]...)
			b = binary.BigEndian.AppendUint16(b, p.port)
		}
		peers = string(b)
	} else {
		l := []any{}
		for _, p := range a.peers {
			l = append(l, peerDict(r, p))
		}
		peers = l
	}
	d := ref.Pairs{{K: "complete", V: a.complete}, {K: "incomplete", V: a.incomplete}, {K: "interval", V: a.interval}, {K: "peers", V: peers}}
	if r.IntN(3) == 0 {
		a.min = count(r)
		d = append(d, ref.KV{K: "min interval", V: a.min})
	}
	if r.IntN(3) == 0 {
		a.warning = ref.Str(r, 1+r.IntN(30))
		d = append(d, ref.KV{K: "warning message", V: a.warning})
	}
	if r.IntN(3) == 0 {
		d = append(d, ref.KV{K: "downloaded", V: int64(7)}, ref.KV{K: "tracker id", V: ref.Str(r, r.IntN(9))})
	}
	if r.IntN(3) == 0 {
		d = append(d, ref.KV{K: "peers6", V: ref.Str(r, 18)}, ref.KV{K: "external ip", V: "\x01\x02\x03\x04"})
	}
	if r.IntN(3) == 0 {
		d = append(d, ref.KV{K: "zz", V: ref.Value(r, 3, true)})
	}
	sorted(d)
	a.pairs = d
	a.body = ref.Enc(d)
	return a
}

func sorted(d ref.Pairs) {
	for i := 1; i < len(d); i++ {
		for j := i; j > 0 && d[j].K < d[j-1].K; j-- {
			d[j], d[j-1] = d[j-1], d[j]
		}
	}
}

// tor makes a torrent that announces to a URL.
func tor(t *mon.T, url string) *torrent.Torrent {
	x := ref.GenTor(t.Rng, ref.TorOpts{Announce: url, MaxPiece: 40, MaxFiles: 2})
	file := filepath.Join(t.Dir(), "x.torrent")
	x.Save(file)
	y, err := torrent.FromTorrentFile(file, t.Dir())
	if err != nil {
		t.Failf("refused", "a well-formed torrent is refused: %v\n%s", err, x.Describe())
		return nil
	}
	return y
}

const self = "-GT0000-abcdefghijkl"

func get(x *torrent.Torrent) (*tracker.Response, error) {
	return tracker.Get(x, tracker.NewStats(1, 2, 3), 4, self)
}

func clip(b []byte) string {
	if len(b) > 1500 {
		return fmt.Sprintf("%q... (%d bytes)", b[:1500], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// compare compares a response with the answer.
func compare(t *mon.T, a *answer, resp *tracker.Response, err error) {
	if err != nil || resp == nil || resp.State == nil {
		t.Failf("refused-answer", "a well-formed answer is refused: %v\n%s", err, clip(a.body))
		return
	}
	s := resp.State
	if s.Interval() != uint64(a.interval) || s.MinInterval() != uint64(a.min) || s.Seeders() != uint64(a.complete) || s.Leechers() != uint64(a.incomplete) || s.Warning() != a.warning {
		t.Failf("state", "interval %d, min %d, seeders %d, leechers %d, warning %q, expected %d, %d, %d, %d, %q\n%s", s.Interval(), s.MinInterval(), s.Seeders(), s.Leechers(), s.Warning(),
			a.interval, a.min, a.complete, a.incomplete, a.warning, clip(a.body))
		return
	}
	if len(resp.Peers) != len(a.peers) {
		t.Failf("number-of-peers", "%d peers, expected %d\n%s", len(resp.Peers), len(a.peers), clip(a.body))
		return
	}
	for i := range resp.Peers {
		p, w := &resp.Peers[i], a.peers[i]
		want := netip.AddrPortFrom(w.ip, w.port).String()
		if w.host != "" {
			want = fmt.Sprintf("%s:%d", w.host, w.port)
			t.Event("peers with a name", 1)
		}
		if (w.host == "" && !p.Ip().Equal(net.IP(w.ip.AsSlice()))) || p.Port() != w.port || p.Id() != w.id || p.Addr() != want {
			t.Failf("peer", "peer %d is %v port %d ID %q at %s, expected %s ID %q\n%s", i, p.Ip(), p.Port(), p.Id(), p.Addr(), want, w.id, clip(a.body))
			return
		}
	}
	_, _ = resp.String(), resp.Peers.String()
	t.Event("peers compared", len(a.peers))
	t.Event("answers parsed", 1)
}

func wellformed(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	x := tor(t, tr.URL+"/announce")
	if x == nil {
		return
	}
	for k := 0; k < 2 && !t.Failed(); k++ {
		a := gen(r, false)
		t.Key(a.body)
		if k == 0 {
			t.Sample("%s", clip(a.body))
		}
		how := r.IntN(6)
		cut := r.IntN(len(a.body) + 1)
		tr.SetAnswer(func(w http.ResponseWriter, q *http.Request) {
			switch how {
			case 0: // in chunks
				w.Write(a.body[:cut])
				w.(http.Flusher).Flush()
				w.Write(a.body[cut:])
			case 1:
				w.Header().Set("Connection", "close")
				w.Header().Set("Content-Type", "text/plain; charset=utf-16")
				w.Write(a.body)
			case 2:
				if q.Header.Get("Accept-Encoding") == "gzip" {
					w.Header().Set("Content-Encoding", "gzip")
					z := gzip.NewWriter(w)
					z.Write(a.body)
					z.Close()
				} else {
					w.Write(a.body)
				}
			case 3:
				w.Header().Set("Content-Length", fmt.Sprint(len(a.body)))
				w.Write(a.body)
			case 4:
				if len(a.body) < 300 { // in many pieces
					for _, c := range a.body {
						w.Write([]byte{c})
						w.(http.Flusher).Flush()
					}
				} else {
					w.Write(a.body)
				}
			default:
				w.Header().Set("Content-Type", "application/octet-stream")
				w.Write(a.body)
			}
		})
		resp, err := get(x)
		compare(t, a, resp, err)
	}
	tr.Take()
}

// slow has a tracker that takes its time.
func slow(t *mon.T, i int) {
	r := t.Rng
	tr := env.NewTracker()
	defer tr.Close()
	x := tor(t, tr.URL+"/announce")
	if x == nil {
		return
	}
	most := 12 * time.Second
	if t.Thorough {
		most = time.Minute
	}
	d := most/4 + time.Duration(r.Int64N(int64(most*3/4)))
	a := gen(r, false)
	cut := r.IntN(len(a.body) + 1)
	how := i % 3
	t.Key(a.body, d, how)
	t.Sample("%v, %d: %s", d, how, clip(a.body))
	tr.SetAnswer(func(w http.ResponseWriter, q *http.Request) {
		switch how {
		case 0: // before anything comes
			time.Sleep(d)
			w.Write(a.body)
		case 1: // after the headers
			w.(http.Flusher).Flush()
			time.Sleep(d)
			w.Write(a.body)
		case 2: // in the middle
			time.Sleep(d / 2)
			w.Write(a.body[:cut])
			w.(http.Flusher).Flush()
			time.Sleep(d / 2)
			w.Write(a.body[cut:])
		}
	})
	resp, err := get(x)
	if err != nil {
		t.Failf("slow", "a tracker that takes %v to answer: %v", d, err)
		return
	}
	compare(t, a, resp, err)
	t.Event("slow answers", 1)
}

// refuse judges that an announce failed.
func refuse(t *mon.T, x *torrent.Torrent, what string) bool {
	resp, err := get(x)
	if err == nil || resp != nil {
		t.Failf("accepted", "%s\ngave no error, but %+v, %v", what, resp, err)
		return false
	}
	_ = err.Error()
	return true
}

// spoil makes an answer that must be refused.
func spoil(r *rand.Rand) (body []byte, what string) {
	a := gen(r, true)
	d := append(ref.Pairs{}, a.pairs...)
	at := func(k string) int {
		for i := range d {
			if d[i].K == k {
				return i
			}
		}
		panic(k)
	}
	wrong := func() any { // not a string, list or integer that may be a counter
		return []any{int64(-1), int64(math.MinInt64), -1 - r.Int64(), "", "12", []any{}, []any{int64(5)}, ref.Pairs{}, ref.Pairs{{K: "a", V: int64(1)}}}[r.IntN(9)]
	}
	switch r.IntN(12) {
	case 0, 1:
		k := []string{"complete", "incomplete", "interval", "peers"}[r.IntN(4)]
		i := at(k)
		d = append(d[:i], d[i+1:]...)
		what = k + " missing"
	case 2, 3:
		k := []string{"complete", "incomplete", "interval"}[r.IntN(3)]
		d[at(k)].V = wrong()
		what = k + " wrong"
	case 4:
		d[at("peers")].V = []any{int64(6), int64(0), ref.Pairs{}, peerDict(r, peer{ip: addr(r, false), id: self})}[r.IntN(4)]
		what = "peers wrong"
	case 5:
		n := r.IntN(200)
		if n%6 == 0 {
			n++
		}
		d[at("peers")].V = ref.Str(r, 0) + string(make([]byte, n))
		what = "torn compact list"
	case 6, 7, 8:
		l := []any{}
		n := 1 + r.IntN(4)
		bad := r.IntN(n)
		for i := 0; i < n; i++ {
			p := peerDict(r, peer{ip: addr(r, r.IntN(2) == 0), port: port(r), id: self})
			if i != bad {
				l = append(l, p)
				continue
			}
			pat := func(k string) int {
				for i := range p {
					if p[i].K == k {
						return i
					}
				}
				panic(k)
			}
			switch r.IntN(6) {
			case 5:
				p[pat("ip")].V = []string{"", " ", "a b", "127.0.0.1:6881", "[::1]", "[::1", "::1:", ":::", "1.2.3.4/24", "http://x.y/", "\x01\x02\x03\x04", "x\x00", "127.0.0.1 ", "a:b", "1::2::3", "user@x"}[r.IntN(16)]
				l = append(l, p)
				what = "a peer with an impossible address"
			case 0:
				l = append(l, []any{int64(1), "\x01\x02\x03\x04\x1a\xe1", []any{}, "", []any{"127.0.0.1", int64(1)}}[r.IntN(5)])
				what = "a peer that is no dictionary"
			case 1:
				k := []string{"ip", "port"}[r.IntN(2)]
				i := pat(k)
				p = append(p[:i], p[i+1:]...)
				l = append(l, p)
				what = "a peer without " + k
			case 2:
				p[pat("port")].V = []int64{65536, 65537, 131071, 1 << 20, 1<<32 - 1, 1 << 32, 1<<32 + 6881, math.MaxInt64, -1, -65535, math.MinInt64}[r.IntN(11)]
				l = append(l, p)
				what = "a peer with an impossible port"
			case 3:
				p[pat("port")].V = []any{"6881", "", []any{int64(1)}, ref.Pairs{}}[r.IntN(4)]
				l = append(l, p)
				what = "a peer with an ill-typed port"
			case 4:
				p[pat("ip")].V = []any{int64(2130706433), []any{"127.0.0.1"}, ref.Pairs{}}[r.IntN(3)]
				l = append(l, p)
				what = "a peer with an ill-typed address"
			}
		}
		d[at("peers")].V = l
	case 9:
		why := ref.KV{K: "failure reason", V: []string{"go away", "", "x", "\x00\xff", "i1e", "d8:intervali1ee"}[r.IntN(6)]}
		if r.IntN(2) == 0 {
			d = append(d, why)
		} else {
			d = ref.Pairs{why}
		}
		what = "failure reason"
	case 10:
		v := []any{int64(1), "", string(a.body), []any{}, []any{ref.Raw(a.body)}, ref.Pairs{}, ref.Pairs{{K: "zz", V: ref.Raw(a.body)}}}[r.IntN(7)]
		return ref.Enc(v), "another value"
	default:
		b := make([]byte, r.IntN(100))
		ref.Fill(r, b)
		switch r.IntN(5) {
		case 0:
			b = []byte("<html><body>502 Bad Gateway</body></html>")
		case 1:
			b = []byte{}
		case 2:
			b = bytes.Repeat([]byte([]string{"l", "d1:a", "9", "d", "i1", "4294967296:", "d5:peersl"}[r.IntN(7)]), 1+r.IntN(3000))
		case 3:
			b = append([]byte("\r\n"), a.body...)
		}
		if v, cl, _, _ := ref.Dec(b); cl != ref.Invalid {
			if _, ok := v.(map[string]any); ok {
				b = []byte("?")
			}
		}
		return b, "garbage"
	}
	sorted(d)
	return ref.Enc(d), what
}

func defective(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	x := tor(t, tr.URL+"/announce")
	if x == nil {
		return
	}
	for k := 0; k < 3 && !t.Failed(); k++ {
		body, what := spoil(r)
		tr.SetBody(body)
		t.Key(body)
		if k == 0 {
			t.Sample("%s: %s", what, clip(body))
		}
		if refuse(t, x, what+": "+clip(body)) {
			t.Event("answers refused", 1)
			t.Event("refused: "+what, 1)
		}
	}
	tr.Take()
}

func truncated(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	x := tor(t, tr.URL+"/announce")
	if x == nil {
		return
	}
	a := gen(r, true)
	t.Key(a.body)
	for n := 0; n < len(a.body); n++ {
		tr.SetBody(a.body[:n])
		if !refuse(t, x, fmt.Sprintf("an answer cut after %d of %d bytes: %s", n, len(a.body), clip(a.body))) {
			return
		}
		t.Event("answers refused", 1)
	}
	tr.Take()
}

// raw is a server that answers each connection as it is told, without regard
// to HTTP, and counts the connections that the client keeps.
type raw struct {
	ln    net.Listener
	mu    sync.Mutex
	do    func(c net.Conn, rd *bufio.Reader)
	open  atomic.Int64
	total atomic.Int64
}

func newRaw() *raw {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &raw{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.open.Add(1)
			s.total.Add(1)
			go func() {
				defer s.open.Add(-1)
				defer c.Close()
				s.mu.Lock()
				do := s.do
				s.mu.Unlock()
				rd := bufio.NewReader(c)
				if do == nil {
					return // nobody we know
				}
				do(c, rd)
				io.Copy(io.Discard, rd) // until the client closes
			}()
		}
	}()
	return s
}

func (s *raw) set(f func(c net.Conn, rd *bufio.Reader)) {
	s.mu.Lock()
	s.do = f
	s.mu.Unlock()
}

// deaf is an address that is taken, so that nobody else listens there, and
// where connections are refused.
func deaf() (addr string, done func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	var sa syscall.Sockaddr
	if err == nil {
		sa, err = syscall.Getsockname(fd)
	}
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

func reset(c net.Conn) {
	c.(*net.TCPConn).SetLinger(0)
	c.Close()
}

// exchange lets the HTTP exchange fail.
func exchange(t *mon.T, i int) {
	r := t.Rng
	s := newRaw()
	defer s.ln.Close()
	kind := r.IntN(8)
	at := s.ln.Addr().String()
	if kind == 7 {
		free, done := deaf()
		defer done()
		at = free
	}
	x := tor(t, "http://"+at+"/announce")
	if x == nil {
		return
	}
	a := gen(r, true)
	head := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(a.body))
	full := append([]byte(head), a.body...)
	cut := r.IntN(len(full))
	rst := r.IntN(2) == 0
	var f func(c net.Conn, rd *bufio.Reader)
	what := ""
	end := func(c net.Conn) {
		if rst {
			reset(c)
		} else {
			c.Close()
		}
	}
	ask := func(rd *bufio.Reader) { http.ReadRequest(rd) }
	switch kind {
	case 0:
		what = "closed at once"
		f = func(c net.Conn, rd *bufio.Reader) { end(c) }
	case 1:
		what = "closed after the request"
		f = func(c net.Conn, rd *bufio.Reader) { ask(rd); end(c) }
	case 2, 3:
		what = fmt.Sprintf("cut after %d of %d bytes", cut, len(full))
		f = func(c net.Conn, rd *bufio.Reader) { ask(rd); c.Write(full[:cut]); end(c) }
	case 4:
		what = "garbage"
		g := make([]byte, 1+r.IntN(200))
		ref.Fill(r, g)
		if r.IntN(2) == 0 {
			g = a.body
		}
		f = func(c net.Conn, rd *bufio.Reader) { ask(rd); c.Write(g); c.Close() }
	case 5:
		what = "chunks cut"
		n := r.IntN(len(a.body))
		f = func(c net.Conn, rd *bufio.Reader) {
			ask(rd)
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n", len(a.body))
			c.Write(a.body[:n])
			end(c)
		}
	case 6:
		what = "chunks without end"
		f = func(c net.Conn, rd *bufio.Reader) {
			ask(rd)
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n", len(a.body))
			c.Write(a.body)
			c.Write([]byte("\r\n"))
			end(c)
		}
	case 7:
		what = "refused"
		f = func(c net.Conn, rd *bufio.Reader) {}
	}
	t.Key(what, full)
	s.set(f)
	if refuse(t, x, "an exchange that fails ("+what+"), of "+clip(full)) {
		t.Event("exchanges failed", 1)
	}
	for k := 0; k < 200 && s.open.Load() > 0; k++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := s.open.Load(); n > 0 {
		t.Failf("connection-leak", "%d connections are open 2 s after the exchange failed (%s)", n, what)
	}
}

// leaks counts the connections that are left after many announces.
func leaks(t *mon.T, i int) {
	r := t.Rng
	s := newRaw()
	defer s.ln.Close()
	x := tor(t, "http://"+s.ln.Addr().String()+"/announce")
	if x == nil {
		return
	}
	kind := i % 4
	gets := 150
	for k := 0; k < gets; k++ {
		var body []byte
		a := gen(r, true)
		good := kind == 0 || kind == 2 && k%2 == 0
		if body = a.body; !good {
			body, _ = spoil(r)
		}
		status := "200 OK"
		if kind == 3 {
			status = []string{"200 OK", "404 Not Found", "500 Oops", "403 Forbidden"}[r.IntN(4)]
			// A body that the client may not read to its end
			body = append(bytes.Repeat([]byte("<p>"), 1000+r.IntN(30000)), body...)
		}
		s.set(func(c net.Conn, rd *bufio.Reader) {
			for { // as long as the client uses the connection
				if _, err := http.ReadRequest(rd); err != nil {
					return
				}
				fmt.Fprintf(c, "HTTP/1.1 %s\r\nContent-Length: %d\r\n\r\n", status, len(body))
				if _, err := c.Write(body); err != nil {
					return
				}
			}
		})
		// (a connection that is used again has the answer of before, of the same kind)
		resp, err := get(x)
		if kind == 0 && (err != nil || resp == nil) {
			t.Failf("refused-answer", "a well-formed answer is refused: %v", err)
			return
		}
		if (kind == 1 || kind == 3) && (err == nil || resp != nil) {
			t.Failf("accepted", "%s was accepted", clip(body))
			return
		}
	}
	t.Event("connections counted", gets)
	t.Key(kind, i)
	for k := 0; k < 300 && s.open.Load() > 5; k++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := s.open.Load(); n > 5 {
		t.Failf("connection-leak", "after %d announces, one after the other, %d of %d connections to the tracker are still open (kind %d)", gets, n, s.total.Load(), kind)
	}
}

// dialled sees whom the client dials.
func dialled(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	x := ref.GenTor(r, ref.TorOpts{Announce: tr.URL, MaxPiece: 60, MaxFiles: 2, Plain: true})
	type lis struct {
		ln  net.Listener
		got atomic.Int64
	}
	var ls []*lis
	defer func() {
		for _, l := range ls {
			l.ln.Close()
		}
	}()
	hosts, _ := net.LookupHost("localhost")
	named := slices.Contains(hosts, "127.0.0.1")
	a := &answer{compact: r.IntN(2) == 0, interval: 1, complete: 1, incomplete: 1}
	var peers any
	var comp []byte
	list := []any{}
	for k := 1 + r.IntN(4); k > 0; k-- {
		name := ""
		ip := fmt.Sprintf("127.%d.%d.%d", r.IntN(256), r.IntN(256), 1+r.IntN(254))
		if !a.compact && r.IntN(3) == 0 {
			ip = "::1"
		} else if !a.compact && named && r.IntN(3) == 0 {
			ip, name = "127.0.0.1", "localhost"
			t.Event("names dialled", 1)
		}
		ln, err := net.Listen("tcp", net.JoinHostPort(ip, "0"))
		if err != nil {
			continue
		}
		l := &lis{ln: ln}
		ls = append(ls, l)
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					defer c.Close()
					b := make([]byte, 68)
					if _, err := io.ReadFull(c, b); err == nil && string(b[28:48]) == x.Infohash {
						l.got.Add(1)
						c.Write(env.Handshake(x.Infohash, env.PeerID(1)))
						io.Copy(io.Discard, c)
					}
				}()
			}
		}()
		p := peer{host: name, ip: netip.MustParseAddr(ip), port: uint16(ln.Addr().(*net.TCPAddr).Port)}
		if a.compact {
			b := p.ip.As4()
			comp = append(comp, b[:]...)
			comp = binary.BigEndian.AppendUint16(comp, p.port)
		} else {
			p.id = env.PeerID(k)
			list = append(list, peerDict(r, p))
		}
		a.peers = append(a.peers, p)
	}
	if a.compact {
		peers = string(comp)
	} else {
		peers = list
	}
	a.body = ref.Enc(ref.Pairs{{K: "complete", V: int64(1)}, {K: "incomplete", V: int64(1)}, {K: "interval", V: int64(1)}, {K: "peers", V: peers}})
	t.Key(a.body)
	tr.SetBody(a.body)
	defer tr.SetBody(env.OKBody(nil))
	dir := filepath.Join(t.Dir(), "work")
	x.SaveFiles(dir)
	c, err := env.NewClient(x, filepath.Join(t.Dir(), "y.torrent"), dir)
	if err != nil {
		t.Failf("no-client", "the client does not start: %v\n%s", err, clip(a.body))
		return
	}
	defer c.Fileio.CloseAll()
	if len(c.Peers) != len(a.peers) {
		t.Failf("number-of-peers", "%d peers, expected %d\n%s", len(c.Peers), len(a.peers), clip(a.body))
		return
	}
	for k, p := range c.Peers {
		before := ls[k].got.Load()
		ph, err := swarm.FromBootstrap(p, c.Swarm)
		if err != nil || ph == nil {
			t.Failf("not-dialled", "the peer at %v is not reached: %v\n%s", ls[k].ln.Addr(), err, clip(a.body))
			return
		}
		for w := 0; w < 200 && ls[k].got.Load() == before; w++ {
			time.Sleep(5 * time.Millisecond)
		}
		if ls[k].got.Load() != before+1 {
			t.Failf("not-dialled", "the peer at %v did not get the client's handshake\n%s", ls[k].ln.Addr(), clip(a.body))
			return
		}
		t.Event("peers dialled", 1)
	}
}

// clients start with the answer, or report why not.
func clients(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	x := ref.GenTor(r, ref.TorOpts{Announce: tr.URL, MaxPiece: 60, MaxFiles: 2, Plain: true})
	dir := filepath.Join(t.Dir(), "work")
	x.SaveFiles(dir)
	a := gen(r, true)
	body, what := a.body, ""
	bad := r.IntN(2) == 0
	if bad {
		body, what = spoil(r)
	}
	t.Key(body)
	tr.SetBody(body)
	defer tr.SetBody(env.OKBody(nil))
	c, err := env.NewClient(x, filepath.Join(t.Dir(), "y.torrent"), dir)
	if c != nil {
		defer c.Fileio.CloseAll()
	}
	if bad {
		if err == nil {
			t.Failf("accepted", "a client starts although the answer of the tracker is defective (%s): %s", what, clip(body))
			return
		}
		t.Event("clients refused", 1)
		return
	}
	if err != nil {
		t.Failf("no-client", "the client does not start: %v\n%s", err, clip(body))
		return
	}
	compare(t, a, &tracker.Response{State: c.State, Peers: c.Peers}, nil)
	_ = c.String()
	t.Event("clients started", 1)
}

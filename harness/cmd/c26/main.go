// C26: announces tell the tracker the truth, correctly escaped.
package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"

	"gotor/swarm"
	"gotor/torrent"
	"gotor/tracker"
	"gotor/utils"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C26",
		Rule: "Random torrents (so that the infohash has any bytes) with announce URLs with and without a path, escapes, a query, an empty query or a port, and URLs that are none; IDs with any bytes, ports and counters at their extremes, after " +
			"histories of updates. A tracker on the loopback interface records the requests, which are taken apart here and compared with the values. Also clients that are started: the port of the command line, the client's " +
			"ID and the bytes of the missing pieces; and the IDs that clients make. Distinct by URL, torrent and values.",
		Assumptions: []string{"'+' in a query is a space, as in net/url", "counters do not exceed 64 bits"},
		Scenarios: []mon.Scenario{
			{Name: "announces", Quick: 8000, Thorough: 100000, Shards: 8, Run: announces},
			{Name: "clients", Quick: 1200, Thorough: 15000, Shards: 8, Nobody: true, Run: clients},
			{Name: "invalid", Quick: 400, Thorough: 4000, Shards: 2, Run: invalid},
			{Name: "ids", Quick: 200, Thorough: 2000, Shards: 4, Run: ids},
			{Name: "counters", Quick: 4000, Thorough: 40000, Shards: 2, Run: counters},
		},
		Require: map[string]int{"announces": 6000, "clients": 800, "with a query": 1000, "refused": 200, "IDs": 10000, "counter updates": 20000},
	})
}

// query takes a query apart.
func query(raw string) (map[string][]string, error) {
	m := map[string][]string{}
	for _, kv := range strings.Split(raw, "&") {
		if kv == "" {
			continue
		}
		k, v, _ := strings.Cut(kv, "=")
		k, err := unescape(k)
		if err != nil {
			return nil, err
		}
		if v, err = unescape(v); err != nil {
			return nil, err
		}
		m[k] = append(m[k], v)
	}
	return m, nil
}

func unescape(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '%':
			var v int
			if i+2 >= len(s) {
				return "", fmt.Errorf("bad escape in %q", s)
			}
			if _, err := fmt.Sscanf(s[i+1:i+3], "%02x", &v); err != nil {
				return "", fmt.Errorf("bad escape in %q", s)
			}
			b.WriteByte(byte(v))
			i += 2
		case c == '+':
			b.WriteByte(' ')
		case c <= ' ' || c >= 0x7f || strings.IndexByte("\"<>#?", c) >= 0 && c != '?':
			return "", fmt.Errorf("byte %q is not escaped in %q", c, s)
		default:
			b.WriteByte(c)
		}
	}
	return b.String(), nil
}

// announceURL makes a URL on the tracker, with its path and query.
func announceURL(r *rand.Rand, tr *env.Tracker) (url, path string, extra map[string][]string) {
	url = tr.URL
	switch r.IntN(8) {
	case 0:
		url = strings.Replace(url, "://", "://user:pa%20ss@", 1)
	case 1:
		url = strings.Replace(url, "://", "://k%2Fey@", 1)
	}
	path = "/"
	first := true
	if r.IntN(5) > 0 {
		for k := r.IntN(3); k >= 0; k-- {
			e := []string{"announce", "a", "x%20y", "%2B", "announce.php", "0123456789abcdef", "~u", "é", "", ".", "..", "a%2Fb", "...", "announce;x", "%3F", "%25", "a:b@c", "A"}[r.IntN(18)]
			url += "/" + e
			u, _ := unescape(strings.ReplaceAll(e, "é", "%C3%A9"))
			if first {
				path = ""
			}
			first = false
			path += "/" + u
		}
		if r.IntN(8) == 0 {
			url += "/"
			path += "/"
		}
	}
	extra = map[string][]string{}
	switch r.IntN(4) {
	case 0:
		url += "?"
		for k := r.IntN(3); k >= 0; k-- {
			name := []string{"passkey", "key", "x y", "a&b", "Port", "trackerid"}[r.IntN(6)]
			val := []string{"", "1", "a b", "%", "&=", "\xff\x00", "é", "abcdef"}[r.IntN(8)]
			if !strings.HasSuffix(url, "?") {
				url += "&"
			}
			url += escape(name) + "=" + escape(val)
			extra[name] = append(extra[name], val)
		}
	case 1:
		if r.IntN(4) == 0 {
			url += "?"
		}
	}
	return
}

func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func extreme(r *rand.Rand) uint64 {
	return []uint64{0, 1, math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, 1 << 32, 1<<32 - 1, r.Uint64(), r.Uint64() >> r.IntN(64)}[r.IntN(9)]
}

// judge compares a request with what it must be.
func judge(t *mon.T, tr *env.Tracker, url, path string, extra map[string][]string, want map[string]string, desc string) {
	reqs := tr.Take()
	if len(reqs) != 1 {
		t.Failf("requests", "the tracker received %d requests\n%s", len(reqs), desc)
		return
	}
	q := reqs[0]
	if q.Method != "GET" || q.Path != path || q.Host != tr.Host() {
		t.Failf("request", "the request is %s %q at host %s, expected GET %q at %s\n%s", q.Method, q.Path, q.Host, path, tr.Host(), desc)
		return
	}
	auth := ""
	if strings.Contains(url, "user:") {
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte("user:pa ss"))
	} else if strings.Contains(url, "k%2Fey@") {
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte("k/ey:"))
	}
	if q.Auth != auth {
		t.Failf("request", "the request has the credentials %q, expected %q\n%s", q.Auth, auth, desc)
		return
	}
	wantPath, _, _ := strings.Cut(url, "?")
	gotPath, _, _ := strings.Cut(q.URI, "?")
	if n := strings.Count(wantPath, "a%2Fb"); !strings.Contains(wantPath, "é") && strings.Count(strings.ToUpper(gotPath), "A%2FB") != n {
		t.Failf("request", "the request is for %q\n%s", q.URI, desc)
		return
	}
	m, err := query(q.Raw)
	if err != nil {
		t.Failf("query", "%v\nquery %s\n%s", err, q.Raw, desc)
		return
	}
	for k, v := range want {
		if len(m[k]) != 1 || m[k][0] != v {
			t.Failf("value", "%s is %q, expected %q\nquery %s\n%s", k, m[k], v, q.Raw, desc)
			return
		}
		delete(m, k)
	}
	for k, l := range extra {
		if fmt.Sprint(m[k]) != fmt.Sprint(l) || len(m[k]) != len(l) {
			t.Failf("parameter-lost", "parameter %q of the announce URL is %q, expected %q\nquery %s\n%s", k, m[k], l, q.Raw, desc)
			return
		}
	}
	if len(extra) > 0 {
		t.Event("with a query", 1)
	}
}

func anyBytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
		if r.IntN(3) == 0 {
			const odd = " +%&=#?/:;\x00\x7f\xff~-_.a0"
			b[i] = odd[r.IntN(len(odd))]
		}
	}
	return string(b)
}

func announces(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	url, path, extra := announceURL(r, tr)
	tor := ref.GenTor(r, ref.TorOpts{Announce: url, MaxPiece: 40, MaxFiles: 2})
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	x, err := torrent.FromTorrentFile(file, t.Dir())
	if err != nil {
		t.Failf("refused", "a well-formed torrent is refused: %v\n%s", err, tor.Describe())
		return
	}
	id := anyBytes(r, 20)
	port := []uint16{0, 1, 65535, uint16(r.Uint32())}[r.IntN(4)]
	dn, up, left := extreme(r), extreme(r), extreme(r)
	stats := tracker.NewStats(dn, up, left)
	for k := r.IntN(4); k > 0; k-- {
		n := extreme(r)
		switch r.IntN(3) {
		case 0:
			if up+n >= up {
				stats.IncUploaded(n)
				up += n
			}
		case 1:
			if dn+n >= dn {
				stats.IncDnloaded(n)
				dn += n
			}
		case 2:
			stats.DecLeft(n)
			left -= min(n, left)
		}
	}
	desc := fmt.Sprintf("announce %q, infohash %x, ID %q, port %d, uploaded %d, downloaded %d, left %d", url, tor.Infohash, id, port, up, dn, left)
	t.Key(desc)
	t.Sample("%s", desc)
	tr.Take()
	resp, err := tracker.Get(x, stats, port, id)
	if err != nil || resp == nil {
		t.Failf("failed", "the announce failed: %v\n%s", err, desc)
		return
	}
	judge(t, tr, url, path, extra, map[string]string{"info_hash": tor.Infohash, "peer_id": id, "port": fmt.Sprint(port),
		"uploaded": fmt.Sprint(up), "downloaded": fmt.Sprint(dn), "left": fmt.Sprint(left), "compact": "1"}, desc)
	t.Event("announces", 1)
}

// clients that start announce themselves.
func clients(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	url, path, extra := announceURL(r, tr)
	tor := ref.GenTor(r, ref.TorOpts{Announce: url, MaxPiece: 60, MaxFiles: 3})
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	dir := filepath.Join(t.Dir(), "work")
	content := append([]byte{}, tor.Content...)
	left := int64(0)
	for p := int64(0); p < tor.NumPieces(); p++ {
		if r.IntN(3) == 0 {
			content[p*tor.PieceLen] ^= 1
			left += int64(len(tor.Piece(p)))
		}
	}
	if r.IntN(4) > 0 {
		for f := range tor.Files {
			s := tor.Start(f)
			tor.SaveFile(dir, f, content[s:s+tor.Files[f].Len])
		}
	} else {
		os.MkdirAll(dir, 0755)
		left = 0
		for p := int64(0); p < tor.NumPieces(); p++ { // (pieces of zeros are there)
			if strings.Trim(string(tor.Piece(p)), "\x00") != "" {
				left += int64(len(tor.Piece(p)))
			}
		}
	}
	port := []int{1, 2, 65535, 1 + r.IntN(65535)}[r.IntN(4)]
	o, err := env.Options(file, dir, fmt.Sprint(port), "-1B", "-1B")
	if err != nil {
		t.Failf("options", "port %d: %v", port, err)
		return
	}
	tr.Take()
	s, err := swarm.NewSwarm(o)
	desc := fmt.Sprintf("announce %q, port %d, %s", url, port, tor.Describe())
	if err != nil {
		t.Failf("failed", "the client does not start: %v\n%s", err, desc)
		return
	}
	defer s.Fileio.CloseAll()
	t.Key(desc, tor.Raw)
	if !validID(s.Id) {
		t.Failf("id", "the client's ID is %q", s.Id)
	}
	judge(t, tr, url, path, extra, map[string]string{"info_hash": tor.Infohash, "peer_id": s.Id, "port": fmt.Sprint(port),
		"uploaded": "0", "downloaded": "0", "left": fmt.Sprint(left), "compact": "1"}, desc)
	t.Event("clients", 1)
}

func validID(id string) bool {
	if len(id) != 20 || !strings.HasPrefix(id, "-GT0000-") {
		return false
	}
	for _, c := range []byte(id) {
		if c <= ' ' || c >= 0x7f {
			return false
		}
	}
	return true
}

func ids(t *mon.T, i int) {
	seen := map[string]bool{}
	for k := 0; k < 100; k++ {
		id := utils.NewPeerId()
		if !validID(id) {
			t.Failf("id", "a new ID is %q", id)
			return
		}
		if seen[id] {
			t.Failf("id-twice", "the ID %q came twice", id)
			return
		}
		seen[id] = true
		t.Event("IDs", 1)
		time.Sleep(20 * time.Microsecond)
	}
	t.Key(i, len(seen))
}

// invalid announce URLs are errors.
func invalid(t *mon.T, i int) {
	r := t.Rng
	urls := []string{"", "http://", "://x", "nothing", "http://[::1", "http://127.0.0.1:99999/a", "http://127.0.0.1:x/", "udp://127.0.0.1:1/announce", "\x00", "http://127.0.0.1:1/announce", "ftp://127.0.0.1/", "http://%zz/", "/announce", "http://127.0.0.1:-1/", "wss://127.0.0.1:1/"}
	url := urls[r.IntN(len(urls))]
	if r.IntN(3) == 0 {
		url = anyBytes(r, r.IntN(20))
	}
	tor := ref.GenTor(r, ref.TorOpts{Announce: url, MaxPiece: 40, MaxFiles: 2})
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	t.Key(url)
	x, err := torrent.FromTorrentFile(file, t.Dir())
	if err == nil {
		var resp *tracker.Response
		resp, err = tracker.Get(x, tracker.NewStats(0, 0, 0), 1, anyBytes(r, 20))
		if err == nil || resp != nil {
			t.Failf("accepted", "the announce URL %q leads to no tracker, and the result is %v, %v", url, resp, err)
			return
		}
	}
	t.Event("refused", 1)
}

func counters(t *mon.T, i int) {
	r := t.Rng
	dn, up, left := extreme(r), extreme(r), extreme(r)
	s := tracker.NewStats(dn, up, left)
	for k := 0; k < 20; k++ {
		n := extreme(r)
		switch r.IntN(3) {
		case 0:
			if up+n >= up {
				s.IncUploaded(n)
				up += n
			}
		case 1:
			if dn+n >= dn {
				s.IncDnloaded(n)
				dn += n
			}
		default:
			s.DecLeft(n)
			left -= min(n, left)
		}
		if s.Uploaded() != up || s.Dnloaded() != dn || s.Left() != left {
			t.Failf("counters", "counters are up %d, down %d, left %d, expected %d, %d, %d", s.Uploaded(), s.Dnloaded(), s.Left(), up, dn, left)
			return
		}
		t.Event("counter updates", 1)
	}
	t.Key(dn, up, left)
}

// C03: the infohash is the SHA-1 of the info bytes in the file.
package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"os"
	"path/filepath"
	"strings"

	"gotor/bencode"
	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C03",
		Rule: "Random well-formed torrent files with further keys inside and outside of the info dictionary (empty strings, private 0/1, nested " +
			"dictionaries that repeat the key names, strings that contain the text of an info dictionary), partly with keys out of order; half of them replace one that was read before, some of which differ in one byte; and the " +
			"torrent files of the repository; for torrents made in memory, the hash of an independent encoding. Each torrent file is distinct by its bytes.",
		Assumptions: []string{"a torrent file whose keys are out of order may be refused, but if it is opened the infohash is over its bytes"},
		Scenarios: []mon.Scenario{
			{Name: "files", Quick: 12000, Thorough: 120000, Shards: 8, Nobody: true, Run: files},
			{Name: "made", Quick: 3200, Thorough: 32000, Shards: 8, Nobody: true, Run: made},
			{Name: "repo", Quick: 1, Thorough: 1, Run: repo},
		},
		Require: map[string]int{"infohashes compared": 1500, "with further keys": 500},
	})
}

func files(t *mon.T, i int) {
	o := ref.TorOpts{Announce: "http://tracker.example/announce?x=4:info", Extra: t.Rng.IntN(4) > 0, Unsorted: t.Rng.IntN(4) == 0, MaxFiles: 1 + t.Rng.IntN(12), Deep: 12, MaxPiece: 1 << t.Rng.IntN(14), MaxLen: 4000}
	if t.Rng.IntN(20) == 0 {
		o.MaxFiles, o.Long = 1<<t.Rng.IntN(10), t.Rng.IntN(2000)
	}
	tor := ref.GenTor(t.Rng, o)
	_, cl, _, _ := ref.Dec(tor.Raw)
	path := tor.Save(filepath.Join(t.Dir(), "x.torrent"))
	if t.Rng.IntN(2) == 0 { // the same name as that of many others, which it replaces
		path = tor.Save(t.Shared("x.torrent"))
		t.Event("replaced another", 1)
	}
	t.Key(tor.Raw)
	t.Sample("%s", tor.Describe())
	if t.Rng.IntN(16) == 0 { // only a byte of it differs from the one before
		for k, tries := t.Rng.IntN(len(tor.InfoRaw)), 0; k < len(tor.InfoRaw) && tries < 60; k, tries = k+1, tries+1 {
			other := *tor
			other.InfoRaw = append([]byte(nil), tor.InfoRaw...)
			other.InfoRaw[k] ^= 1
			other.Raw = bytes.Replace(tor.Raw, tor.InfoRaw, other.InfoRaw, 1)
			if _, cl, _, _ := ref.Dec(other.InfoRaw); cl != ref.Valid {
				continue // the value may have another end
			}
			other.Save(path)
			if x, err := torrent.FromTorrentFile(path, t.Dir()); err == nil {
				if sum := sha1.Sum(other.InfoRaw); bytes.Count(tor.Raw, tor.InfoRaw) == 1 && x.Infohash() != string(sum[:]) {
					t.Failf("infohash", "infohash %x, want %x\n%.800q", x.Infohash(), sum, other.Raw)
				}
				t.Event("one byte differs", 1)
				break
			}
		}
		tor.Save(path)
	}
	got, err := torrent.FromTorrentFile(path, t.Dir())
	if err != nil {
		if cl == ref.Valid {
			t.Failf("refused", "a well-formed torrent is refused: %v\n%.600q", err, tor.Raw)
		} else {
			t.Event("refused (keys out of order)", 1)
		}
		return
	}
	t.Event("infohashes compared", 1)
	if o.Extra {
		t.Event("with further keys", 1)
	}
	if got.Infohash() != tor.Infohash {
		t.Failf("infohash", "infohash %x, want %x\n%.800q", got.Infohash(), tor.Infohash, tor.Raw)
	}
	if !strings.Contains(got.String(), hex.EncodeToString([]byte(tor.Infohash))) {
		t.Failf("printed", "the printed infohash is not %x:\n%s", tor.Infohash, got.String())
	}
	again, err := torrent.FromTorrentFile(path, "")
	if err != nil || again.Infohash() != got.Infohash() {
		t.Failf("unstable", "the infohash depends on something else than the file")
	}
}

func made(t *mon.T, i int) {
	o := ref.TorOpts{MaxFiles: 6, Deep: 12}
	if r := t.Rng; r.IntN(8) == 0 { // with many pieces or files, and long names
		o = ref.TorOpts{MaxFiles: 1 << r.IntN(10), Deep: 1 << r.IntN(6), MaxPiece: 4, MaxLen: 1 << r.IntN(14), Long: r.IntN(2000)}
	}
	tor := ref.GenTor(t.Rng, o)
	var base []filesd.EntryBase
	for _, f := range tor.Files {
		base = append(base, filesd.MakeFileEntry(strings.Join(f.Path, "/"), f.Len))
	}
	ti, err := info.NewTorInfo(tor.Name, tor.PieceLen, tor.Hashes, base)
	if err != nil {
		t.Failf("refused", "NewTorInfo: %v for %s", err, tor.Describe())
		return
	}
	nt, err := torrent.NewTorrent(ti, "http://a/b")
	if err != nil {
		t.Failf("refused", "NewTorrent: %v for %s", err, tor.Describe())
		return
	}
	enc, err := bencode.Encode(ti.Bencode())
	if err != nil {
		t.Failf("refused", "Encode: %v", err)
		return
	}
	t.Key(enc)
	t.Sample("%s", tor.Describe())
	sum := sha1.Sum(enc)
	t.Event("infohashes compared", 1)
	if nt.Infohash() != string(sum[:]) {
		t.Failf("infohash", "infohash %x, want %x", nt.Infohash(), sum)
	}
	// Written to a file and opened again, it is the same torrent
	raw := ref.Enc(ref.Pairs{{"announce", "http://a/b"}, {"info", ref.Raw(enc)}})
	path := filepath.Join(t.Dir(), "x.torrent")
	os.WriteFile(path, raw, 0666)
	back, err := torrent.FromTorrentFile(path, t.Dir())
	if err != nil {
		t.Failf("refused", "reading back: %v\n%.500q", err, raw)
		return
	}
	if back.Infohash() != nt.Infohash() {
		t.Failf("infohash", "read back as %x, was %x", back.Infohash(), nt.Infohash())
	}
	bi := back.Info()
	if bi.Name() != tor.Name || bi.Hashes() != tor.Hashes || bi.PieceLen() != tor.PieceLen || bi.Length() != tor.Total() {
		t.Failf("read-back", "another torrent was read back: %s", tor.Describe())
	}
	// The info dictionary describes the torrent. Whether it has the optional
	// key for private torrents is up to the code under test.
	want := map[string]any{"name": tor.Name, "piece length": tor.PieceLen, "pieces": tor.Hashes}
	if len(tor.Files) == 1 {
		want["length"] = tor.Files[0].Len
	} else {
		want["files"] = fileList(tor)
	}
	have, _ := fromBen(ti.Bencode()).(map[string]any)
	delete(have, "private")
	if w, h := ref.Enc(want), ref.Enc(have); !bytes.Equal(w, h) {
		t.Failf("info", "the info dictionary is %.600q, want %.600q", h, w)
	}
	if bf := bi.Files(); len(bf) != len(tor.Files) {
		t.Failf("read-back", "%d files were read back: %s", len(bf), tor.Describe())
	} else if len(bf) > 1 {
		for k := range bf {
			if bf[k].Length() != tor.Files[k].Len || bf[k].TorPath() != base[k].TorPath() || filepath.Clean(bf[k].LocalPath()) != tor.LocalPath(t.Dir(), k) {
				t.Failf("read-back", "file %d was read back as %q (%q) of %d bytes: %s", k, bf[k].TorPath(), bf[k].LocalPath(), bf[k].Length(), tor.Describe())
			}
		}
	}
	if !bytes.Equal(enc, ref.Enc(fromBen(ti.Bencode()))) {
		t.Failf("not-canonical", "the info dictionary is not canonical: %.500q", enc)
	}
}

func fileList(tor *ref.Tor) []any {
	l := []any{}
	for _, f := range tor.Files {
		p := []any{}
		for _, e := range f.Path {
			p = append(p, e)
		}
		l = append(l, map[string]any{"length": f.Len, "path": p})
	}
	return l
}

func fromBen(v any) any {
	switch v := v.(type) {
	case bencode.Dict:
		m := map[string]any{}
		for k, e := range v {
			m[k] = fromBen(e)
		}
		return m
	case bencode.List:
		l := []any{}
		for _, e := range v {
			l = append(l, fromBen(e))
		}
		return l
	}
	return v
}

func repo(t *mon.T, i int) {
	for name, want := range map[string]string{
		"multifile": "a976fdd2ccce699eab604115408ead8560c2d095",
		"medfile":   "a554b7cc4616ae2fce43fabe9a7fe931aff5d85c",
		"bigfile":   "658a9fbffae3c07e2320b7c4b144da978296dcc7",
	} {
		got, err := torrent.FromTorrentFile("/repo/test/"+name+".torrent", "")
		if err != nil || hex.EncodeToString([]byte(got.Infohash())) != want {
			t.Failf("infohash", "%s: %v, want %s", name, err, want)
		}
		t.Event("infohashes compared", 1)
	}
}

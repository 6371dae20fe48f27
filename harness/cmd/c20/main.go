// C20: the tracker of pieces under concurrent peers.
package main

import (
	"fmt"
	"net"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C20",
		Rule: "Goroutines, one per peer, that announce pieces, ask for pieces and leave at the same time, under the race detector. Short histories with the times of all calls and returns are checked for linearizability " +
			"against the sequential rules (porcupine), some of them with thousands of pieces, which bitfields and leaving peers change all at once. Long runs are watched by a monitor that holds a claim on every piece that is handed out: no piece is claimed twice. In the end the tracker must hand out exactly " +
			"what the model of the remaining peers has. Distinct by the history of calls, results and overlaps.",
		Assumptions: []string{"peers differ in ID, address or port", "each peer's own calls come one after another, except that it may leave while it announces"},
		Scenarios: []mon.Scenario{
			{Name: "linearizable", Quick: 6000, Thorough: 100000, Shards: 6, Nobody: true, Run: linear},
			{Name: "bulk", Quick: 600, Thorough: 12000, Shards: 4, Nobody: true, Run: bulk},
			{Name: "stress", Quick: 120, Thorough: 2000, Shards: 2, Nobody: true, Run: stress},
		},
		Require: map[string]int{"operations in checked histories": 10000, "overlapping operations": 200, "overlaps with bulk operations": 300, "claims": 4000},
	})
}

var (
	client *env.Client
	once   sync.Once
)

func handlers(t *mon.T, n int) (l []*swarm.PeerHandler) {
	once.Do(func() {
		tor := ref.GenTor(mon.RngFor(1, "c20"), ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 16})
		client = env.Seed(t, tor, nil)
	})
	for k := 0; k < n; k++ {
		l = append(l, swarm.NewPeerHandler(peer.MakePeer(env.PeerID(k), net.IPv4(10, 0, 0, 1), uint16(1000+k)), client.Swarm, nil))
	}
	return
}

type op struct {
	kind string // has, bits, leave, next
	who  int
	what []int
}

type out struct {
	piece int
	ok    bool
}

// state of the model: for each piece, who has it, and from whom it is asked.
type state struct {
	has []uint16
	by  []int8
}

func model(pieces int, owned []bool) porcupine.Model {
	return porcupine.Model{
		Init: func() any {
			s := state{make([]uint16, pieces), make([]int8, pieces)}
			for i := range s.by {
				s.by[i] = -1
			}
			return s
		},
		Step: func(st, in, res any) (bool, any) {
			s := st.(state)
			o := in.(op)
			s.has, s.by = slices.Clone(s.has), slices.Clone(s.by)
			bit := uint16(1) << o.who
			switch o.kind {
			case "has", "bits":
				for _, p := range o.what {
					s.has[p] |= bit
				}
				return true, s
			case "leave":
				for p := range s.has {
					s.has[p] &^= bit
					if s.by[p] == int8(o.who) {
						s.by[p] = -1
					}
				}
				return true, s
			default:
				best := 100
				for p := 0; p < pieces; p++ {
					if !owned[p] && s.by[p] < 0 && s.has[p]&bit != 0 {
						best = min(best, ones(s.has[p]))
					}
				}
				r := res.(out)
				if !r.ok {
					return best == 100, s
				}
				p := r.piece
				if p >= pieces || owned[p] || s.by[p] >= 0 || s.has[p]&bit == 0 || ones(s.has[p]) != best {
					return false, s
				}
				s.by[p] = int8(o.who)
				return true, s
			}
		},
		Equal: func(a, b any) bool {
			return slices.Equal(a.(state).has, b.(state).has) && slices.Equal(a.(state).by, b.(state).by)
		},
		DescribeOperation: func(in, res any) string {
			return fmt.Sprintf("%v -> %v", in, res)
		},
	}
}

func ones(x uint16) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}

func bits(pieces int, what []int) *bf.Bitfield {
	b := bf.NewBitfield(int64(pieces))
	for _, p := range what {
		b.Set(int64(p), true)
	}
	return b
}

func linear(t *mon.T, i int) {
	r := t.Rng
	peers, pieces := 2+r.IntN(4), 1+r.IntN(6)
	hs := handlers(t, peers)
	owned := make([]bool, pieces)
	own := bf.NewBitfield(int64(pieces))
	for p := 0; p < pieces; p++ {
		if r.IntN(8) == 0 {
			owned[p] = true
			own.Set(int64(p), true)
		}
	}
	ppt := swarm.NewPeerPieceTracker(uint32(pieces), own)
	prog := make([][]op, peers)
	for w := range prog {
		for k := 3 + r.IntN(5); k > 0; k-- {
			o := op{who: w, kind: []string{"has", "bits", "bits", "leave", "next", "next", "next", "next"}[r.IntN(8)]}
			if len(prog[w]) == 0 {
				o.kind = "bits"
			}
			if o.kind == "has" || o.kind == "bits" {
				for p := 0; p < pieces; p++ {
					if r.IntN(10) < 7 {
						o.what = append(o.what, p)
					}
				}
			}
			prog[w] = append(prog[w], o)
		}
	}
	var clock atomic.Int64
	hist := make([][]porcupine.Operation, peers)
	var wg sync.WaitGroup
	var ready atomic.Int32
	spin := make([]int, peers)
	for w := range spin {
		spin[w] = r.IntN(300)
	}
	for w := range prog {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(peers) {
				runtime.Gosched()
			}
			for k := 0; k < spin[w]; k++ {
				ready.Load()
			}
			for _, o := range prog[w] {
				var b *bf.Bitfield
				var idx []uint32
				switch o.kind {
				case "bits":
					b = bits(pieces, o.what)
				case "has":
					for _, p := range o.what {
						idx = append(idx, uint32(p))
					}
				}
				res := out{}
				call := clock.Add(1)
				switch o.kind {
				case "has":
					ppt.Register(hs[w], idx...)
				case "bits":
					ppt.RegisterBF(hs[w], b)
				case "leave":
					ppt.Unregister(hs[w])
				default:
					p, ok := ppt.NextPiece(hs[w])
					res = out{int(p), ok}
				}
				ret := clock.Add(1)
				hist[w] = append(hist[w], porcupine.Operation{ClientId: w, Input: o, Call: call, Output: res, Return: ret})
			}
		}()
	}
	wg.Wait()
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	sort.Slice(all, func(a, b int) bool { return all[a].Call < all[b].Call })
	overlaps := 0
	for k := 1; k < len(all); k++ {
		if all[k].Call < all[k-1].Return {
			overlaps++
		}
	}
	var sb strings.Builder
	for _, o := range all {
		fmt.Fprintf(&sb, "[%d,%d] %v -> %v; ", o.Call, o.Return, o.Input, o.Output)
	}
	t.Key(sb.String())
	t.Sample("%s", sb.String())
	t.Event("operations in checked histories", len(all))
	t.Event("overlapping operations", overlaps)
	switch porcupine.CheckOperationsTimeout(model(pieces, owned), all, 60*time.Second) {
	case porcupine.Illegal:
		t.Failf("not-linearizable", "%d pieces, owned %v: %s", pieces, owned, sb.String())
	case porcupine.Unknown:
		t.Event("undecided", 1)
	}
}

// bulk: thousands of pieces. Each change of many pieces must look as if it
// happened at once.
func bulk(t *mon.T, i int) {
	r := t.Rng
	peers := 3 + r.IntN(3)
	pieces := []int{9, 64, 300, 1000, 3000, 6000}[r.IntN(6)]
	hs := handlers(t, peers)
	own := bf.NewBitfield(int64(pieces))
	owned := make([]bool, pieces)
	ppt := swarm.NewPeerPieceTracker(uint32(pieces), own)
	var clock atomic.Int64
	hist := make([][]porcupine.Operation, peers+1)
	do := func(w int, o op) {
		b := bits(pieces, o.what)
		var idx []uint32
		for _, p := range o.what {
			idx = append(idx, uint32(p))
		}
		res := out{}
		call := clock.Add(1)
		switch o.kind {
		case "has":
			ppt.Register(hs[o.who], idx...)
		case "bits":
			ppt.RegisterBF(hs[o.who], b)
		case "leave":
			ppt.Unregister(hs[o.who])
		default:
			p, ok := ppt.NextPiece(hs[o.who])
			res = out{int(p), ok}
		}
		hist[w] = append(hist[w], porcupine.Operation{ClientId: w, Input: o, Call: call, Output: res, Return: clock.Add(1)})
	}
	set := func() (l []int) {
		a, z := 0, pieces
		switch r.IntN(4) {
		case 0:
			z = pieces - 1 - r.IntN(min(pieces-1, 4))
		case 1:
			a = 1 + r.IntN(min(pieces-1, 4))
		case 2:
			a = r.IntN(pieces)
			z = a + r.IntN(pieces-a+1)
		}
		for p := a; p < z; p++ {
			l = append(l, p)
		}
		return
	}
	for w := range hs {
		if r.IntN(4) > 0 {
			do(peers, op{who: w, kind: "bits", what: set()})
		}
	}
	prog := make([][]op, peers)
	spin := make([][]int, peers)
	for w := range prog {
		kinds := []string{"next", "next", "next", "next"}
		if w < 1+r.IntN(2) {
			kinds = []string{"bits", "has", "leave", "leave"}
		}
		for k := 1 + r.IntN(3); k > 0; k-- {
			o := op{who: w, kind: kinds[r.IntN(4)]}
			if o.kind != "next" && o.kind != "leave" {
				o.what = set()
			}
			prog[w] = append(prog[w], o)
			spin[w] = append(spin[w], r.IntN(1+r.IntN(20000)))
		}
	}
	var wg sync.WaitGroup
	var ready atomic.Int32
	for w := range prog {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(peers) {
				runtime.Gosched()
			}
			for k, o := range prog[w] {
				if o.kind == "next" {
					for j := 0; j < spin[w][k]; j++ {
						ready.Load()
					}
				}
				do(w, o)
			}
		}()
	}
	wg.Wait()
	var all []porcupine.Operation
	var sb strings.Builder
	overlaps := 0
	for _, h := range hist {
		all = append(all, h...)
	}
	for _, o := range all {
		in := o.Input.(op)
		fmt.Fprintf(&sb, "[%d,%d] peer %d %s", o.Call, o.Return, in.who, in.kind)
		if len(in.what) > 0 {
			fmt.Fprintf(&sb, " %d-%d", in.what[0], in.what[len(in.what)-1])
		}
		if in.kind == "next" {
			fmt.Fprintf(&sb, " -> %v", o.Output)
			for _, x := range all {
				if x.Input.(op).kind != "next" && x.Call < o.Return && o.Call < x.Return {
					overlaps++
				}
			}
		}
		sb.WriteString("; ")
	}
	t.Key(pieces, sb.String())
	t.Sample("%d pieces: %s", pieces, sb.String())
	t.Event("operations in checked histories", len(all))
	t.Event("overlaps with bulk operations", overlaps)
	switch porcupine.CheckOperationsTimeout(model(pieces, owned), all, 60*time.Second) {
	case porcupine.Illegal:
		t.Failf("not-linearizable", "%d pieces: %s", pieces, sb.String())
	case porcupine.Unknown:
		t.Event("undecided", 1)
	}
}

func stress(t *mon.T, i int) {
	r := t.Rng
	peers, pieces := 4+r.IntN(90), 1+r.IntN(40)
	hs := handlers(t, peers)
	own := bf.NewBitfield(int64(pieces))
	ppt := swarm.NewPeerPieceTracker(uint32(pieces), own)
	claim := make([]atomic.Int32, pieces) // 1 + who
	have := make([]map[int]bool, peers)
	mine := make([]map[int]bool, peers)
	var wg sync.WaitGroup
	var claims atomic.Int64
	workers := min(peers, 4+r.IntN(12))
	seeds := make([]uint64, workers)
	for k := range seeds {
		seeds[k] = r.Uint64()
	}
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rg := mon.RngFor(seeds[g], "worker")
			for w := g; w < peers; w += workers {
				have[w], mine[w] = map[int]bool{}, map[int]bool{}
			}
			for step := 0; step < 1500/workers+50; step++ {
				w := g + workers*rg.IntN((peers-g+workers-1)/workers)
				switch rg.IntN(8) {
				case 0, 1:
					var what []int
					for p := 0; p < pieces; p++ {
						if rg.IntN(3) > 0 {
							what = append(what, p)
							have[w][p] = true
						}
					}
					ppt.RegisterBF(hs[w], bits(pieces, what))
				case 2:
					p := rg.IntN(pieces)
					have[w][p] = true
					ppt.Register(hs[w], uint32(p))
				case 3:
					// The claims end before the pieces are free again
					for p := range mine[w] {
						claim[p].Store(0)
					}
					ppt.Unregister(hs[w])
					have[w], mine[w] = map[int]bool{}, map[int]bool{}
				default:
					p, ok := ppt.NextPiece(hs[w])
					if !ok {
						continue
					}
					if int(p) >= pieces || !have[w][int(p)] {
						t.Failf("not-there", "piece %d is handed out to peer %d, which does not have it", p, w)
						return
					}
					if !claim[p].CompareAndSwap(0, int32(1+w)) {
						t.Failf("twice", "piece %d is handed out to peer %d, while it is asked from peer %d", p, w, claim[p].Load()-1)
						return
					}
					mine[w][int(p)] = true
					claims.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	t.Event("claims", int(claims.Load()))
	t.Key(peers, pieces, claims.Load(), seeds)
	t.Sample("%d peers, %d pieces, %d goroutines, %d claims", peers, pieces, workers, claims.Load())
	if t.Failed() {
		return
	}
	// What is left must be handed out, rarest first, and nothing else
	left := map[int]bool{}
	count := make([]int, pieces)
	for w := range have {
		for p := range have[w] {
			count[p]++
		}
	}
	for p := range claim {
		if claim[p].Load() == 0 && count[p] > 0 {
			left[p] = true
		}
	}
	for w := range hs {
		last := 0
		for {
			p, ok := ppt.NextPiece(hs[w])
			if !ok {
				break
			}
			c := min(63, count[p])
			if !left[int(p)] || !have[w][int(p)] || c < last {
				t.Failf("end-state", "after the run, piece %d (with %d peers, after one with %d) is handed out to peer %d; it is free: %v, the peer has it: %v", p, count[p], last, w, left[int(p)], have[w][int(p)])
				return
			}
			last = c
			delete(left, int(p))
		}
		for p := range left {
			if have[w][p] {
				t.Failf("end-state", "after the run, peer %d has piece %d, which is free, and it is not handed out", w, p)
				return
			}
		}
	}
}

// C31: collections behave like their mathematical models.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"

	"gotor/utils"
	"gotor/utils/ds"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C31",
		Rule: "Random histories of additions, removals, clearing and moves of nodes between several linked lists, after each step of which every list is walked from its head to its end and back, and compared with a slice; histories on sets whose " +
			"members share keys, compared with a map after each step; removals by swap, compared with counts; and collections of thousands of members; and cutting of data of any length into segments of any size. Distinct by history or sizes.",
		Assumptions: []string{"a node is in at most one list, and only nodes that are in a list are removed from it", "the segment size is positive"},
		Scenarios: []mon.Scenario{
			{Name: "lists", Quick: 4000, Thorough: 100000, Shards: 4, Run: lists},
			{Name: "sets", Quick: 3000, Thorough: 60000, Shards: 2, Run: sets},
			{Name: "swaps", Quick: 3000, Thorough: 60000, Shards: 2, Run: swaps},
			{Name: "segments", Quick: 6000, Thorough: 100000, Shards: 2, Run: segments},
		},
		Require: map[string]int{"list operations": 100000, "lists walked": 100000, "set operations": 100000, "swaps": 20000, "segments": 20000, "nodes moved": 5000, "last nodes removed": 5000, "large collections": 60},
	})
}

type node = ds.Node[int]

func lists(t *mon.T, i int) {
	r := t.Rng
	n := 1 + r.IntN(3)
	ls := make([]ds.LinkedList[int], n)
	model := make([][]*node, n)
	data := map[*node]int{}
	for k := range ls {
		ls[k] = ds.Make[int]()
	}
	var spare []*node // in no list
	var log []string
	fail := func(fp, f string, a ...any) {
		t.Failf(fp, "%s\nafter %s", fmt.Sprintf(f, a...), strings.Join(log, " "))
	}
	grow := r.IntN(3) // how much the lists grow
	steps := 60
	large := i%100 == 0
	if large {
		steps, grow = 12000, 3
		t.Event("large collections", 1)
	}
	for step := 0; step < steps && !t.Failed(); step++ {
		k := r.IntN(n)
		l := &ls[k]
		t.Event("list operations", 1)
		switch x := r.IntN(10); {
		case x < 2+grow:
			v := r.IntN(50)
			nd := l.AddDataFront(v)
			log = append(log, fmt.Sprintf("%d.add(%d)", k, v))
			if nd == nil || nd.Data != v {
				fail("added-node", "the node added is %v", nd)
				return
			}
			data[nd] = v
			model[k] = append([]*node{nd}, model[k]...)
		case x < 4+grow && len(spare) > 0:
			j := r.IntN(len(spare))
			nd := spare[j]
			spare = append(spare[:j:j], spare[j+1:]...)
			l.AddNodeFront(nd)
			model[k] = append([]*node{nd}, model[k]...)
			log = append(log, fmt.Sprintf("%d.addnode(%d)", k, data[nd]))
			t.Event("nodes moved", 1)
		case x == 9 && r.IntN(4) == 0:
			l.Clear()
			spare = append(spare, model[k]...)
			model[k] = nil
			log = append(log, fmt.Sprintf("%d.clear", k))
		default:
			m := model[k]
			if len(m) == 0 {
				continue
			}
			j := []int{0, len(m) - 1, r.IntN(len(m))}[r.IntN(3)]
			nd := m[j]
			if len(m) > 1 && j == len(m)-1 {
				t.Event("last nodes removed", 1)
			}
			l.Remove(nd)
			model[k] = append(append([]*node{}, m[:j]...), m[j+1:]...)
			log = append(log, fmt.Sprintf("%d.remove(%d, at %d of %d)", k, data[nd], j, len(m)))
			if r.IntN(2) == 0 { // at once into another list, as the piece tracker does
				k2 := r.IntN(n)
				ls[k2].AddNodeFront(nd)
				model[k2] = append([]*node{nd}, model[k2]...)
				log = append(log, fmt.Sprintf("%d.addnode(%d)", k2, data[nd]))
				t.Event("nodes moved", 1)
			} else {
				spare = append(spare, nd)
			}
		}
		for k := range ls {
			if large && step%500 != 499 {
				break
			}
			walk(t, &ls[k], model[k], data, func(fp, f string, a ...any) { fail(fp, "list %d: %s", k, fmt.Sprintf(f, a...)) })
		}
	}
	t.Key(strings.Join(log, " "))
	t.Sample("%s", strings.Join(log, " "))
}

func walk(t *mon.T, l *ds.LinkedList[int], want []*node, data map[*node]int, fail func(fp, f string, a ...any)) {
	t.Event("lists walked", 1)
	var last *node
	nd := l.Head()
	for j, w := range want {
		if nd == nil {
			fail("too-short", "the list ends after %d of %d nodes", j, len(want))
			return
		}
		if nd != w || nd.Data != data[w] {
			fail("wrong-node", "node %d of %d has %d, expected %d", j, len(want), nd.Data, data[w])
			return
		}
		last, nd = nd, nd.Next()
	}
	if nd != nil {
		fail("too-long", "after %d nodes there is another one, with %d", len(want), nd.Data)
		return
	}
	for j := len(want) - 1; j >= 0; j-- {
		if last != want[j] {
			fail("backwards", "walking backwards, node %d of %d is %v", j, len(want), last)
			return
		}
		last = last.Prev()
	}
	if last != nil {
		fail("backwards", "before the head there is a node with %d", last.Data)
	}
}

// member has a key and an identity.
type member struct {
	key string
	id  int
}

func (m *member) Key() string { return m.key }

func sets(t *mon.T, i int) {
	r := t.Rng
	s := ds.MakeSet[*member]()
	model := map[string]*member{}
	keys := []string{"", "a", "A", "a ", "\x00", "\xff", "é", "1.2.3.4:5", "1.2.3.4:56", "aa"}
	for k := r.IntN(30); k > 0; k-- {
		keys = append(keys, ref.Str(r, r.IntN(20)))
	}
	steps := 80
	large := i%100 == 0
	if large {
		for k := 0; k < 6000; k++ {
			keys = append(keys, fmt.Sprintf("10.0.%d.%d:%d", k%7, k%256, k))
		}
		steps = 20000
		t.Event("large collections", 1)
	}
	var log []string
	var kept, keptAs []*member // items given out before, which belong to the caller
	fail := func(fp, f string, a ...any) {
		t.Failf(fp, "%s\nafter %s", fmt.Sprintf(f, a...), strings.Join(log, " "))
	}
	for step := 0; step < steps && !t.Failed(); step++ {
		m := &member{keys[r.IntN(len(keys))], step}
		old, has := model[m.key]
		t.Event("set operations", 1)
		switch x := r.IntN(8); {
		case x < 4:
			log = append(log, fmt.Sprintf("add(%q)", m.key))
			if got := s.Add(m); got != !has {
				fail("add", "the result is %v", got)
			}
			if !has {
				model[m.key] = m
			}
		case x < 7:
			log = append(log, fmt.Sprintf("remove(%q)", m.key))
			if got := s.Remove(m); got != has {
				fail("remove", "the result is %v", got)
			}
			delete(model, m.key)
		default:
			log = append(log, fmt.Sprintf("has(%q)", m.key))
			if got := s.Has(m); got != has {
				fail("has", "the result is %v, of %v", got, old)
			}
		}
		if s.Size() != len(model) {
			fail("size", "the size is %d, expected %d", s.Size(), len(model))
		}
		if large && step%500 != 499 {
			continue
		}
		items := s.Items()
		if len(items) != len(model) {
			fail("items", "there are %d items, expected %d", len(items), len(model))
			break
		}
		seen := map[string]bool{}
		for _, it := range items {
			if it == nil || model[it.key] != it || seen[it.key] {
				fail("items", "item %+v is not in the set, or there twice", it)
				break
			}
			seen[it.key] = true
		}
		for j, it := range kept {
			if it != keptAs[j] {
				fail("items", "items given out before have changed")
				break
			}
		}
		if r.IntN(3) == 0 {
			kept, keptAs = items, append([]*member{}, items...)
		} else if r.IntN(4) == 0 { // what is returned belongs to the caller
			for j := range items {
				items[j] = nil
			}
		}
	}
	for k := range model {
		if !s.Has(&member{key: k}) {
			fail("lost", "%q is not in the set", k)
		}
	}
	t.Key(strings.Join(log, " "))
	t.Sample("%s", strings.Join(log, " "))
}

func swaps(t *mon.T, i int) {
	r := t.Rng
	n := 1 + r.IntN(40)
	if i%1000 == 0 {
		n = 3000
	}
	s := make([]int, n)
	var model []int
	for k := range s {
		s[k] = r.IntN(20)
		model = append(model, s[k])
	}
	back := append(s[:n:n], 77)[:n] // (with spare capacity)
	if r.IntN(2) == 0 {
		s = back
	}
	desc := fmt.Sprint(s)
	t.Key(desc)
	sort.Ints(model)
	for len(s) > 0 && !t.Failed() {
		k := []int{0, len(s) - 1, r.IntN(len(s))}[r.IntN(3)]
		v := s[k]
		desc += fmt.Sprintf(" -%d", k)
		s = utils.RemoveSwap(s, int64(k))
		j := sort.SearchInts(model, v)
		model = append(model[:j:j], model[j+1:]...)
		got := append([]int{}, s...)
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(model) {
			t.Failf("swap", "the rest is %v, expected %v in any order\nafter %s", s, model, desc)
		}
		t.Event("swaps", 1)
	}
	t.Sample("%s", desc)
}

func segments(t *mon.T, i int) {
	r := t.Rng
	n := []int{0, 1, r.IntN(20), r.IntN(300), r.IntN(5000)}[r.IntN(5)]
	if i%300 == 0 {
		n = 1<<16 + r.IntN(1<<22)
	}
	data := make([]byte, n)
	ref.Fill(r, data)
	size := segSize(r, int64(n))
	t.Key(n, size)
	t.Sample("%d bytes in segments of %d", n, size)
	keep := append([]byte{}, data...)
	segs := utils.SegmentData(data, size)
	fail := func(f string, a ...any) {
		t.Failf("segments", "%d bytes in segments of %d: %s", n, size, fmt.Sprintf(f, a...))
	}
	var all []byte
	for k, s := range segs {
		if int64(len(s)) > size || len(s) == 0 || k < len(segs)-1 && int64(len(s)) != size {
			fail("segment %d of %d has %d bytes", k, len(segs), len(s))
			return
		}
		all = append(all, s...)
	}
	if !bytes.Equal(all, keep) || !bytes.Equal(data, keep) {
		fail("%s", ref.DiffBytes(keep, all))
	}
	want := strings.Builder{}
	for _, s := range segs {
		want.WriteString(utils.SHA1(s))
	}
	if utils.HashSlices(segs) != want.String() {
		fail("the hashes are not those of the segments")
	}
	t.Event("segments", len(segs))
}

func segSize(r *rand.Rand, n int64) int64 {
	return []int64{1, 2, max(1, n), n + 1, max(1, n-1), max(1, n/2), max(1, n/3), 1 + r.Int64N(n+2), math.MaxInt64, 1 << 32, 1 + r.Int64N(50)}[r.IntN(11)]
}

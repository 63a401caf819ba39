package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/si-co/vpir-code/lib/merkle"
)

func init() { drivers["c10"] = c10 }

// interner numbers byte strings
type interner map[string]int

func (n interner) id(b []byte) int {
	k := string(b)
	if x, ok := n[k]; ok {
		return x
	}
	n[k] = len(n) + 1
	return n[k]
}

func (n interner) ids(bs [][]byte) []int {
	out := make([]int, len(bs))
	for i, b := range bs {
		out[i] = n.id(b)
	}
	return out
}

func clip32(x uint32) int {
	if x > 1<<30 {
		return 1 << 30
	}
	return int(x)
}

type mtree struct {
	items  [][]byte
	tree   *merkle.MerkleTree
	proofs []*merkle.Proof // by position
	num    int             // number in the trace
}

type merkleRun struct {
	in    interner
	count int
	sink  func(M)
}

func clone2(b [][]byte) [][]byte {
	out := make([][]byte, len(b))
	for i := range b {
		out[i] = append([]byte{}, b[i]...)
	}
	return out
}

// tree builds a tree, makes the proof for every item by content and by
// position, encodes, decodes and verifies it
func (m *merkleRun) tree(items [][]byte) *mtree {
	all := make([]int, len(items))
	for i := range all {
		all[i] = i
	}
	return m.treeAt(items, all)
}

// treeAt makes the proofs for some positions only, in this order
func (m *merkleRun) treeAt(items [][]byte, positions []int) *mtree {
	orig := clone2(items)
	t := &mtree{items: orig}
	ev := M{"ev": "tree", "items": m.in.ids(orig), "proofs": []M{}, "root": 0, "prooflen": 0}
	out, _ := guard(func() error {
		var err error
		t.tree, err = merkle.New(items)
		return err
	})
	ev["out"] = out
	if out != "ok" {
		m.sink(ev)
		return nil
	}
	root := append([]byte{}, t.tree.Root()...)
	ev["root"] = m.in.id(root)
	ev["prooflen"] = t.tree.EncodedProofLength()
	var ps []M
	for _, pos := range positions {
		for _, by := range []string{"data", "position"} {
			p := M{"pos": pos, "by": by, "verified": false, "index": 0, "enclen": 0, "decindex": 0, "decpath": []int{}, "path": []int{}, "unchanged": false}
			o, _ := guard(func() error {
				var pr *merkle.Proof
				var err error
				if by == "data" {
					pr, err = t.tree.GenerateProof(items[pos])
				} else {
					pr, err = t.tree.GenerateProofAt(uint32(pos))
				}
				if err != nil {
					return err
				}
				enc := merkle.EncodeProof(pr)
				p["index"], p["path"], p["enclen"] = clip32(pr.Index), m.in.ids(pr.Hashes), len(enc)
				dec := merkle.DecodeProof(append([]byte{}, enc...))
				if dec == nil {
					return fmt.Errorf("not decoded")
				}
				p["decindex"], p["decpath"] = clip32(dec.Index), m.in.ids(dec.Hashes)
				ok, err := merkle.VerifyProof(items[pos], dec, root)
				if err != nil {
					return err
				}
				ok2, err := merkle.VerifyProof(items[pos], pr, root)
				if err != nil {
					return err
				}
				p["verified"] = ok && ok2
				p["unchanged"] = bytes.Equal(items[pos], orig[pos]) && bytes.Equal(root, t.tree.Root())
				if by == "position" {
					t.proofs = append(t.proofs, dec)
				}
				return nil
			})
			p["out"] = o
			ps = append(ps, p)
		}
	}
	ev["proofs"] = ps
	m.count++
	t.num = m.count
	m.sink(ev)
	if len(t.proofs) != len(positions) {
		return nil
	}
	return t
}

// big: trees of very many items, of which a few are looked at
func (m *merkleRun) big(r *rand.Rand, n int) {
	items := make([][]byte, n)
	for i := range items {
		items[i] = append(be(i), randBytes(r, r.Intn(3))...)
	}
	var ps []int
	had := map[int]bool{}
	for _, p := range []int{0, n - 1, n / 2, 255, 256, 257, 511, 512, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, r.Intn(n), r.Intn(n)} {
		if p >= 0 && p < n && !had[p] {
			had[p] = true
			ps = append(ps, p)
		}
	}
	var ts []*mtree
	add := func(v [][]byte, ps []int) {
		if t := m.treeAt(v, ps); t != nil {
			ts = append(ts, t)
		}
	}
	add(items, ps)
	v := append([][]byte{}, items...)
	v[n-1] = append(be(n), 9)
	add(v, ps[:3])
	v = append([][]byte{}, items...)
	i := r.Intn(n / 2)
	j := i + n/2
	if n > 65536 {
		i = r.Intn(n - 65536)
		j = i + 65536
	}
	v[i], v[j] = v[j], v[i]
	add(v, []int{i, j})
	add(items[:n-1], ps[:1])
	add(append(append([][]byte{}, items...), []byte{}), []int{n, 0})
	if len(ts) == 0 || ts[0].num != 1 {
		return
	}
	t := ts[0]
	for a, pos := range ps {
		p := t.proofs[a]
		m.claim("genuine", t, items[pos], cloneProof(p))
		for b := uint(0); b < 32; b++ {
			q := cloneProof(p)
			q.Index ^= 1 << b
			m.claim("index-bit", t, items[pos], q)
			if int(q.Index) < n {
				m.claim("index-bit", t, items[q.Index], q)
				m.claim("other-item", t, items[q.Index], cloneProof(p))
			}
		}
		for _, d := range []int{256, 65536, -256, -65536, 1, -1} {
			q := cloneProof(p)
			q.Index = uint32(pos + d)
			m.claim("index", t, items[pos], q)
			if pos+d >= 0 && pos+d < n {
				m.claim("index", t, items[pos+d], q)
				m.claim("other-item", t, items[pos+d], cloneProof(p))
			}
		}
		for j := range p.Hashes {
			q := cloneProof(p)
			q.Hashes[j][r.Intn(len(q.Hashes[j]))] ^= 1 << uint(r.Intn(8))
			m.claim("hash-bit", t, items[pos], q)
			q = cloneProof(p)
			q.Hashes = append(q.Hashes[:j], q.Hashes[j+1:]...)
			m.claim("hash-dropped", t, items[pos], q)
		}
		for b, o := range ps {
			if a != b {
				m.claim("other-item", t, items[o], cloneProof(p))
				q := cloneProof(t.proofs[b])
				q.Index = p.Index
				m.claim("other-path", t, items[pos], q)
			}
		}
		for _, u := range ts[1:] {
			m.claim("other-tree", u, items[pos], cloneProof(p))
		}
	}
}

func (m *merkleRun) claim(what string, t *mtree, item []byte, p *merkle.Proof) {
	m.claimRoot(what, t, item, p, append([]byte{}, t.tree.Root()...))
}

func (m *merkleRun) claimRoot(what string, t *mtree, item []byte, p *merkle.Proof, root []byte) {
	ev := M{"ev": "claim", "what": what, "tree": t.num, "item": m.in.id(item), "index": clip32(p.Index), "path": m.in.ids(p.Hashes), "root": m.in.id(root), "verified": false}
	out, _ := guard(func() error {
		ok, err := merkle.VerifyProof(item, p, root)
		if err != nil {
			return err
		}
		ev["verified"] = ok
		return nil
	})
	ev["out"] = out
	m.sink(ev)
}

func cloneProof(p *merkle.Proof) *merkle.Proof {
	return &merkle.Proof{Hashes: clone2(p.Hashes), Index: p.Index}
}

// mutations presents variations of the proof of one position, and other trees' proofs
func (m *merkleRun) mutations(r *rand.Rand, t *mtree, pos int, others []*mtree) {
	p := t.proofs[pos]
	item := t.items[pos]
	n := len(t.items)
	d := len(p.Hashes)
	m.claim("genuine", t, item, cloneProof(p))
	// index
	for _, ix := range []uint32{p.Index ^ 1, p.Index + 1, p.Index - 1, p.Index + uint32(1<<uint(d)), p.Index ^ (1 << 31), p.Index ^ uint32(1<<uint(d)>>1), p.Index + uint32(2<<uint(d)), 0, ^uint32(0), p.Index ^ (1 << 8), p.Index ^ (1 << 16), p.Index ^ (1 << 24)} {
		q := cloneProof(p)
		q.Index = ix
		m.claim("index", t, item, q)
	}
	for b := uint(0); b < 32; b += 3 {
		q := cloneProof(p)
		q.Index ^= 1 << b
		m.claim("index-bit", t, item, q)
	}
	// path
	for j := range p.Hashes {
		q := cloneProof(p)
		q.Hashes[j][r.Intn(len(q.Hashes[j]))] ^= 1 << uint(r.Intn(8))
		m.claim("hash-bit", t, item, q)
		q = cloneProof(p)
		q.Hashes[j] = append(q.Hashes[j], 0)
		m.claim("hash-longer", t, item, q)
		q = cloneProof(p)
		q.Hashes[j] = q.Hashes[j][:len(q.Hashes[j])-1]
		m.claim("hash-shorter", t, item, q)
		q = cloneProof(p)
		q.Hashes = append(q.Hashes[:j], q.Hashes[j+1:]...)
		m.claim("hash-dropped", t, item, q)
		q = cloneProof(p)
		q.Index >>= 1
		q.Hashes = append(q.Hashes[:j], q.Hashes[j+1:]...)
		m.claim("hash-dropped-index", t, item, q)
		if j > 0 {
			q = cloneProof(p)
			q.Hashes[j-1], q.Hashes[j] = q.Hashes[j], q.Hashes[j-1]
			m.claim("swapped", t, item, q)
		}
	}
	q := cloneProof(p)
	for i, j := 0, d-1; i < j; i, j = i+1, j-1 {
		q.Hashes[i], q.Hashes[j] = q.Hashes[j], q.Hashes[i]
	}
	m.claim("reversed", t, item, q)
	q = cloneProof(p)
	q.Hashes = nil
	m.claim("no-path", t, item, q)
	q = cloneProof(p)
	q.Hashes = append(q.Hashes, make([]byte, 32))
	m.claim("extended", t, item, q)
	q = cloneProof(p)
	q.Hashes = append([][]byte{make([]byte, 32)}, q.Hashes...)
	q.Index *= 2
	m.claim("extended-front", t, item, q)
	// an inner node presented as an item, with every possible depth
	for j := range p.Hashes {
		// the two children of the node at level j+1 on the path are computed
		// from the proofs of the positions below them
		sib := p.Hashes[j]
		other := pos ^ (1 << uint(j))
		if other >= n {
			continue
		}
		own := t.proofs[other].Hashes[j]
		a, b := own, sib
		if pos>>uint(j)&1 == 1 {
			a, b = sib, own
		}
		pre := append(append([]byte{}, a...), b...)
		tail := pre[60:]
		ix := uint32(tail[0]) | uint32(tail[1])<<8 | uint32(tail[2])<<16 | uint32(tail[3])<<24
		m.claim("node-as-item", t, pre[:60], &merkle.Proof{Hashes: clone2(p.Hashes[j+1:]), Index: ix})
		m.claim("node-as-item", t, pre[:60], &merkle.Proof{Hashes: clone2(p.Hashes[j+1:]), Index: p.Index >> uint(j+1)})
		m.claim("node-as-item", t, pre, &merkle.Proof{Hashes: clone2(p.Hashes[j+1:]), Index: p.Index >> uint(j+1)})
		for _, c := range madeItems(a, b) {
			m.claim("node-as-item", t, c, &merkle.Proof{Hashes: clone2(p.Hashes[j+1:]), Index: ix})
			m.claim("node-as-item", t, c, &merkle.Proof{Hashes: clone2(p.Hashes[j+1:]), Index: p.Index >> uint(j+1)})
		}
	}
	// data
	for _, it := range [][]byte{{}, append(append([]byte{}, item...), 0), append([]byte{0}, item...), append(append([]byte{}, item...), 0, 0, 0, 0), flip(r, item), t.items[(pos+1)%n], t.items[n-1], t.items[0]} {
		m.claim("item", t, it, cloneProof(p))
	}
	if len(item) > 0 {
		m.claim("item", t, item[:len(item)-1], cloneProof(p))
		m.claim("item", t, item[1:], cloneProof(p))
	}
	// the root
	root := t.tree.Root()
	for _, rt := range [][]byte{nil, {}, root[:1], root[:len(root)-1], root[1:], root[:len(root)/2], append(append([]byte{}, root...), 0), append(append([]byte{}, root...), root...),
		append([]byte{0}, root...), flip(r, root), make([]byte, len(root)), bytes.ToUpper(root), item} {
		if bytes.Equal(rt, root) {
			continue
		}
		m.claimRoot("root", t, item, cloneProof(p), rt)
	}
	for _, x := range []int{0, len(root) - 1, r.Intn(len(root))} {
		rt := append([]byte{}, root...)
		rt[x] ^= 1 << uint(r.Intn(8))
		m.claimRoot("root", t, item, cloneProof(p), rt)
	}
	if d > 0 {
		m.claimRoot("root", t, item, cloneProof(p), p.Hashes[d-1])
		q = cloneProof(p)
		q.Hashes = nil
		m.claimRoot("root", t, item, q, nil)
	}
	// cross products
	for k := 0; k < 6; k++ {
		o := r.Intn(n)
		m.claim("other-item", t, t.items[o], cloneProof(p))
		m.claim("other-proof", t, item, cloneProof(t.proofs[o]))
		q := cloneProof(t.proofs[o])
		q.Index = p.Index
		m.claim("other-path", t, item, q)
	}
	for _, u := range others {
		if u == nil || u == t {
			continue
		}
		m.claim("other-tree", u, item, cloneProof(p))
		if pos < len(u.items) {
			m.claim("other-tree-proof", t, item, cloneProof(u.proofs[pos]))
			m.claim("other-tree-item", t, u.items[pos], cloneProof(u.proofs[pos]))
		}
	}
}

// madeItems are items which are hashed like the node over two hashes, when
// leaves and nodes are not (or not both) hashed in a domain of their own
func madeItems(a, b []byte) [][]byte {
	pre := append(append([]byte{}, a...), b...)
	out := [][]byte{pre[:60]}
	for _, domain := range []byte{0, 1} {
		out = append(out, append([]byte{domain}, pre[:60]...), append([]byte{domain}, pre...))
	}
	return append(out, pre[1:60])
}

// ground are items whose leaves at position 1 end with the index 0, if leaves
// are hashed without domain, or in the domain 0; they were searched for
var ground = [][]byte{{0x2b, 0x8b, 0x58, 0xac, 0, 0, 0, 0}, {0x4e, 0xf9, 0x8f, 0x3c, 0, 0, 0, 0}}

// made: lists with the ground items, and the lists that they were made for
func (m *merkleRun) made(r *rand.Rand) {
	var ts []*mtree
	var claims []func()
	for _, g := range ground {
		for _, n := range []int{2, 3, 4, 7} {
			var t *mtree
			// also one whose first leaf begins with a zero
			for try := 0; try < 5000; try++ {
				items := [][]byte{randBytes(r, 9), g}
				for len(items) < n {
					items = append(items, randBytes(r, 9))
				}
				if try > 0 {
					tree, err := merkle.New(items)
					if err != nil {
						break
					}
					p, err := tree.GenerateProofAt(1)
					if err != nil || len(p.Hashes) == 0 || p.Hashes[0][0] != 0 {
						continue
					}
				}
				t = m.tree(items)
				if t == nil {
					return
				}
				ts = append(ts, t)
				a, b := t.proofs[1].Hashes[0], t.proofs[0].Hashes[0]
				for _, it := range madeItems(a, b) {
					if u := m.tree([][]byte{it}); u != nil {
						ts = append(ts, u)
					}
					t, it := t, it
					claims = append(claims, func() {
						m.claim("made", t, it, &merkle.Proof{Hashes: clone2(t.proofs[0].Hashes[1:]), Index: 0})
					})
				}
				if try > 0 {
					break
				}
			}
		}
	}
	for _, c := range claims {
		c()
	}
	for _, t := range ts[:4] {
		m.mutations(r, t, 0, ts)
	}
}

func flip(r *rand.Rand, b []byte) []byte {
	c := append([]byte{}, b...)
	if len(c) == 0 {
		return []byte{1}
	}
	c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
	return c
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func c10() {
	r := rng(10)
	lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200}
	if thorough() {
		for n := 1; n <= 72; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 255, 256, 257, 300, 511, 512, 513, 700, 1000)
	}
	// the trees of the different traces are made, and the claims verified, at
	// the same time: they must not depend on each other
	var jobs []func(func(M))
	for round, n := range lens {
		round, n := round, n
		r := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			sink(M{"ev": "begin", "name": fmt.Sprintf("tree-%d-%d", n, round)})
			m := &merkleRun{in: interner{}, sink: sink}
			mk := func(kind int) [][]byte {
				items := make([][]byte, n)
				for i := range items {
					switch kind {
					case 0: // equal lengths
						items[i] = randBytes(r, 16)
					case 1: // lengths from 0, some equal
						items[i] = randBytes(r, r.Intn(90))
						if r.Intn(4) == 0 {
							items[i] = []byte{}
						}
						if i > 0 && r.Intn(3) == 0 {
							items[i] = append([]byte{}, items[r.Intn(i)]...)
						}
					case 2: // all the same
						items[i] = []byte("same")
					case 3: // all empty
						items[i] = []byte{}
					case 4: // lengths of hashes and nodes
						items[i] = randBytes(r, []int{28, 32, 60, 64, 4, 36}[i%6])
					}
				}
				return items
			}
			var ts []*mtree
			for kind := 0; kind < 5; kind++ {
				if n > 70 && kind > 1 && !thorough() {
					break
				}
				ts = append(ts, m.tree(mk(kind)))
			}
			// small variations of the first list
			if base := ts[0]; base != nil {
				v := clone2(base.items)
				v[n-1] = flip(r, v[n-1])
				ts = append(ts, m.tree(v))
				v = clone2(base.items)
				if n > 1 {
					v[0], v[n-1] = v[n-1], v[0]
					ts = append(ts, m.tree(v))
					ts = append(ts, m.tree(clone2(base.items)[:n-1]))
				}
				v = append(clone2(base.items), []byte{})
				ts = append(ts, m.tree(v))
				v = append(clone2(base.items), append([]byte{}, base.items[n-1]...))
				ts = append(ts, m.tree(v))
				v = append(clone2(base.items), make([]byte, 32))
				ts = append(ts, m.tree(v))
				ts = append(ts, m.tree(clone2(base.items)))
				// a byte moved from one item to the next
				if n > 1 && len(base.items[0]) > 0 {
					v = clone2(base.items)
					v[1] = append([]byte{v[0][len(v[0])-1]}, v[1]...)
					v[0] = v[0][:len(v[0])-1]
					ts = append(ts, m.tree(v))
				}
			}
			for ti, t := range ts {
				if t == nil {
					continue
				}
				var ps []int
				if ti < 5 {
					ps = []int{0, n - 1, n / 2, r.Intn(n), r.Intn(n)}
				} else {
					ps = []int{r.Intn(len(t.items))}
				}
				if n <= 9 && ti < 5 {
					ps = ps[:0]
					for i := 0; i < n; i++ {
						ps = append(ps, i)
					}
				}
				if n > 60 && !thorough() {
					ps = ps[:1]
				}
				seen := map[int]bool{}
				for _, p := range ps {
					if !seen[p] {
						seen[p] = true
						m.mutations(r, t, p, ts)
					}
				}
				if ti == 0 {
					out, _ := guard(func() error { _, err := t.tree.GenerateProof([]byte("not in the tree")); return err })
					m.sink(M{"ev": "absent", "out": out})
					out, _ = guard(func() error { _, err := t.tree.GenerateProofAt(uint32(n)); return err })
					m.sink(M{"ev": "absent", "out": out})
				}
			}
		})
	}
	for _, n := range []int{256, 257, 300, 1000, 1025, 4097, 65537 + r.Intn(100)} {
		n := n
		r := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			sink(M{"ev": "begin", "name": fmt.Sprintf("big-%d", n)})
			(&merkleRun{in: interner{}, sink: sink}).big(r, n)
		})
	}
	// long items, which agree in long parts
	for _, size := range []int{200, 1000, 1025, 4097, 70000} {
		size := size
		r := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			sink(M{"ev": "begin", "name": fmt.Sprintf("long-%d", size)})
			m := &merkleRun{in: interner{}, sink: sink}
			base := randBytes(r, size)
			at := func(p int) []byte {
				c := append([]byte{}, base...)
				c[p] ^= 1 << uint(r.Intn(8))
				return c
			}
			var ts []*mtree
			// one byte differs, at the end, at the front, in the middle, anywhere
			ts = append(ts, m.tree([][]byte{base, at(size - 1)}))
			ts = append(ts, m.tree([][]byte{at(0), base, at(size / 2), at(size - 1), at(size - 2)}))
			ts = append(ts, m.tree([][]byte{base, base[:size-1], base[1:], base[:size/2], append(append([]byte{}, base...), 0), append(append([]byte{}, base...), base...), base[:64], base[:65], base[:128]}))
			items := [][]byte{}
			for i := 0; i < pick(14, 60); i++ {
				items = append(items, at(r.Intn(size)))
			}
			ts = append(ts, m.tree(items))
			for _, t := range ts {
				if t == nil {
					continue
				}
				m.mutations(r, t, r.Intn(len(t.items)), ts)
				for _, p := range []int{0, size / 2, size - 1, r.Intn(size)} {
					i := r.Intn(len(t.items))
					if p < len(t.items[i]) {
						c := append([]byte{}, t.items[i]...)
						c[p] ^= 1
						m.claim("item", t, c, cloneProof(t.proofs[i]))
					}
				}
			}
		})
	}
	for round := 0; round < pick(1, 4); round++ {
		r := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			sink(M{"ev": "begin", "name": "made"})
			m := &merkleRun{in: interner{}, sink: sink}
			m.made(r)
		})
	}
	parallel(jobs)
	Begin("empty", nil)
	for _, l := range [][][]byte{nil, {}} {
		out, _ := guard(func() error { _, err := merkle.New(l); return err })
		T.Emit(M{"ev": "empty", "out": out})
	}
}

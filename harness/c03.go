package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/server"
	"lukechampine.com/blake3"
)

func init() { drivers["c03"] = c03 }

// forgery is a block of the specification AuthPIR
type forgery struct {
	Data []struct {
		Kind string `json:"kind"`
		J    int    `json:"j"`
	} `json:"data"`
	Count int     `json:"count"`
	Path  [][]int `json:"path"`
	Index int     `json:"index"`
	Pad   string  `json:"pad"`
}

func scenarios(file string, f func(line []byte)) {
	fd, err := os.Open(filepath.Join(work, file))
	must(err)
	defer fd.Close()
	s := bufio.NewScanner(fd)
	s.Buffer(make([]byte, 1<<20), 1<<26)
	for s.Scan() {
		if len(s.Bytes()) > 1 {
			f(s.Bytes())
		}
	}
	must(s.Err())
}

// blockOf returns the block with all the padding
func (p *pdb) blockOf(i int) []byte {
	pos := 0
	for j := 0; j < i; j++ {
		pos += p.db.BlockLengths[j]
	}
	b := make([]byte, p.db.BlockSize)
	copy(b, p.db.Entries[pos:pos+p.db.BlockLengths[i]])
	return b
}

// nodes returns the hashes of the tree over the records as [level][number];
// it tries the ways of hashing that lead to the root which is described
func (p *pdb) nodes() [][][]byte {
	out := p.hashes([]byte{0}, []byte{1})
	if bytes.Equal(out[len(out)-1][0], p.db.Root) {
		return out
	}
	return p.hashes(nil, nil)
}

func (p *pdb) hashes(leaf, branch []byte) [][][]byte {
	var level [][]byte
	n := 1
	for n < len(p.records) {
		n *= 2
	}
	for i := 0; i < n; i++ {
		if i < len(p.records) {
			b := make([]byte, 4)
			binary.LittleEndian.PutUint32(b, uint32(i))
			h := blake3.Sum256(append(append(append([]byte{}, leaf...), p.records[i]...), b...))
			level = append(level, h[:])
		} else {
			level = append(level, make([]byte, 32))
		}
	}
	out := [][][]byte{level}
	for len(level) > 1 {
		var up [][]byte
		for i := 0; i < len(level); i += 2 {
			h := blake3.Sum256(append(append(append([]byte{}, branch...), level[i]...), level[i+1]...))
			up = append(up, h[:])
		}
		out = append(out, up)
		level = up
	}
	return out
}

func (f *forgery) bytes(p *pdb, nodes [][][]byte, r *rand.Rand) []byte {
	var b []byte
	idx := uint32(f.Index)
	for _, d := range f.Data {
		switch d.Kind {
		case "record":
			b = append(b, p.records[d.J]...)
		case "cut":
			if x := p.records[d.J]; len(x) > 0 {
				b = append(b, x[:len(x)-1]...)
			}
		case "ext":
			b = append(b, append(append([]byte{}, p.records[d.J]...), byte(r.Intn(256)))...)
		case "node":
			if len(nodes[0]) > 2*d.J+1 {
				pre := append(append([]byte{}, nodes[0][2*d.J]...), nodes[0][2*d.J+1]...)
				b = append(b, pre[:60]...)
				if f.Index == 1000000 {
					idx = binary.LittleEndian.Uint32(pre[60:])
				}
			}
		}
	}
	c := make([]byte, 4)
	binary.LittleEndian.PutUint32(c, uint32(f.Count))
	b = append(b, c...)
	for _, x := range f.Path {
		if x[0] < 0 || x[0] >= len(nodes) || x[1] >= len(nodes[x[0]]) {
			b = append(b, randBytes(r, 32)...)
		} else {
			b = append(b, nodes[x[0]][x[1]]...)
		}
	}
	binary.LittleEndian.PutUint32(c, idx)
	b = append(b, c...)
	switch f.Pad {
	case "80":
		b = append(b, 0x80)
	case "8080":
		b = append(b, 0x80, 0x80)
	case "0080":
		b = append(b, 0, 0x80)
	case "808000":
		b = append(b, 0x80, 0x80, 0)
	}
	return b
}

type attack struct {
	p       *pdb
	k       int
	servers []*server.PIR
	c       *pclient
	r       *rand.Rand
	q       int
	queries [][]byte
	honest  [][]byte
}

func newAttack(r *rand.Rand, p *pdb, k int) *attack {
	a := &attack{p: p, k: k, r: r}
	for i := 0; i < k; i++ {
		a.servers = append(a.servers, pointServer(p.db, k))
	}
	a.c = &pclient{"c", client.NewPIR(prg(r), copyInfo(a.servers[0].DBInfo())), nil}
	return a
}

func (a *attack) ask(q int) bool {
	a.q = q
	a.queries, a.honest = a.c.ask(a.p, a.servers, q)
	return a.honest != nil
}

// turn makes the reconstructed block become target: a server (any) adds the difference
func (a *attack) turn(what string, target []byte) {
	bs := a.p.db.BlockSize
	block := a.p.blockOf(a.q)
	ans := clone2(a.honest)
	s := a.r.Intn(a.k)
	row := ans[s][a.q/a.p.db.NumColumns*bs:][:bs]
	for i := range row {
		t := byte(0)
		if i < len(target) {
			t = target[i]
		}
		row[i] ^= block[i] ^ t
	}
	a.present(what, ans)
}

func (a *attack) present(what string, ans [][]byte) {
	a.c.reconstruct("tampered", M{"what": what, "q": a.q}, ans)
}

func c03() {
	r := rng(3)
	mk := []func(rows, cols int) *pdb{
		func(rows, cols int) *pdb { return authDB("auth-lengths", rows, cols, records(r, rows*cols, 90)) },
		func(rows, cols int) *pdb { return randomAuthDB(r, rows, cols, 60) },
		func(rows, cols int) *pdb {
			// as in the key directory: the records carry a padding of their own
			recs := make([][]byte, rows*cols)
			for i := range recs {
				recs[i] = append(randBytes(r, 60*r.Intn(3)), 0x80)
			}
			return authDB("buckets", rows, cols, recs)
		},
		func(rows, cols int) *pdb {
			recs := records(r, rows*cols, 70)
			recs[0] = randBytes(r, 200) // room for longer forgeries in the other blocks
			return authDB("one-large", rows, cols, recs)
		},
	}
	// the forgeries of the specification
	spec := func(file string, n int, dbs int) {
		var fs []*forgery
		scenarios(file, func(line []byte) {
			f := &forgery{}
			must(json.Unmarshal(line, f))
			fs = append(fs, f)
		})
		for d := 0; d < dbs; d++ {
			p := mk[d%len(mk)](1, n)
			if d%2 == 1 {
				p = mk[d%len(mk)](n, 1)
			}
			nodes := p.nodes()
			k := 2 + d%3
			for q := 0; q < n; q++ {
				Begin(fmt.Sprintf("forgeries-%s-%d-%s-q%d-k%d", file, d, p.name, q, k), nil)
				p.emit()
				a := newAttack(r, p, k)
				for i, f := range fs {
					if i%512 == 0 {
						if !a.ask(q) {
							break
						}
						a.c.reconstruct("result", nil, a.honest)
						// every genuine block
						for j := 0; j < n; j++ {
							a.turn("record", p.blockOf(j))
						}
					}
					a.turn("forgery", f.bytes(p, nodes, r))
				}
			}
		}
	}
	spec("forgeries1.ndjson", 1, 4)
	spec("forgeries3.ndjson", 3, pick(4, 12))
	if thorough() {
		spec("forgeries5.ndjson", 5, 4)
	}
	// very many servers
	for x, k := range []int{6, 8, 9, 10, 16, 17, 33, 64, 65, 256, 257} {
		kind := x % len(mk)
		p, other := mk[kind](1+x%3, 4), mk[kind](1+x%3, 4)
		n := p.db.NumRows * p.db.NumColumns
		Begin(fmt.Sprintf("servers-%s-k%d", p.name, k), nil)
		p.emit()
		a := newAttack(r, p, k)
		for _, q := range []int{n - 1, r.Intn(n)} {
			if a.ask(q) {
				a.c.reconstruct("result", nil, a.honest)
				a.bytes(other)
			}
		}
	}
	// very many records
	for x, s := range [][2]int{{1, 66000}, {300, 1}, {2, 600}, {17, 250}} {
		for k := 2; k <= 3; k++ {
			n := s[0] * s[1]
			recs := make([][]byte, n)
			for i := range recs {
				recs[i] = append(randBytes(r, r.Intn(3)), be(i)...)
			}
			p := authDB("many", s[0], s[1], recs)
			p.long = interner{}
			Begin(fmt.Sprintf("many-%dx%d-k%d", s[0], s[1], k), nil)
			p.emit()
			a := newAttack(r, p, k)
			a.c.p = p
			for _, q := range []int{0, n - 1, 255, 256, 65536, r.Intn(n)} {
				if q >= n || x == 0 && q == 255 || !a.ask(q) {
					continue
				}
				a.c.reconstruct("result", nil, a.honest)
				a.far()
			}
		}
	}
	// tampering on the level of bytes, larger trees, more rows
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 2}, {1, 5}, {3, 3}, {2, 8}, {4, 9}}
	if thorough() {
		shapes = append(shapes, [2]int{1, 3}, [2]int{5, 1}, [2]int{7, 7}, [2]int{1, 129}, [2]int{16, 16}, [2]int{2, 3}, [2]int{8, 8})
	}
	for x, s := range shapes {
		for kind := range mk {
			k := 2 + (x+kind)%4
			p := mk[kind](s[0], s[1])
			other := mk[kind](s[0], s[1])
			n := s[0] * s[1]
			Begin(fmt.Sprintf("bytes-%s-%dx%d-k%d", p.name, s[0], s[1], k), nil)
			p.emit()
			a := newAttack(r, p, k)
			qs := []int{0, n - 1, r.Intn(n)}
			if thorough() {
				qs = append(qs, r.Intn(n), r.Intn(n), r.Intn(n))
			}
			for _, q := range qs {
				if !a.ask(q) {
					continue
				}
				a.c.reconstruct("result", nil, a.honest)
				a.bytes(other)
				// and the client still works
				a.c.reconstruct("result", nil, a.honest)
			}
		}
	}
}

// far presents the records whose positions differ from the one asked for in a
// bit, or by a power of two, and parts of them
func (a *attack) far() {
	p := a.p
	n := p.db.NumRows * p.db.NumColumns
	block := p.blockOf(a.q)
	used := p.db.BlockLengths[a.q]
	for b := 0; 1<<uint(b) < n; b++ {
		for _, j := range []int{a.q ^ 1<<uint(b), a.q + 1<<uint(b), a.q - 1<<uint(b)} {
			if j < 0 || j >= n {
				continue
			}
			t := p.blockOf(j)
			a.turn("record", t)
			l := p.db.BlockLengths[j]
			c := append([]byte{}, t...)
			copy(c[l-5:l-1], block[used-5:used-1])
			a.turn("reindexed", c)
			c = append([]byte{}, block...)
			copy(c[used-5:used-1], t[l-5:l-1])
			a.turn("reindexed", c)
			a.turn("mixed", append(append([]byte{}, p.records[j]...), block[used-p.db.ProofLen-1:used]...))
		}
	}
}

// bytes tampers with the answers without regard to their meaning
func (a *attack) bytes(other *pdb) {
	r, p, bs := a.r, a.p, a.p.db.BlockSize
	n := p.db.NumRows * p.db.NumColumns
	block := p.blockOf(a.q)
	used := p.db.BlockLengths[a.q]
	// all the bits of the proof fields at the ends, some bits elsewhere
	bits := map[int]bool{}
	for i := 0; i < 8*bs; i++ {
		pos := i / 8
		d := used - p.db.ProofLen - 1
		if pos >= d && pos < d+4 || pos >= used-5 && pos < used || pos == 0 || pos == d-1 || pos == used || r.Intn(8*bs) < pick(80, 400) {
			bits[i] = true
		}
	}
	for i := 0; i < 8*bs; i++ {
		if bits[i] {
			t := append([]byte{}, block...)
			t[i/8] ^= 1 << uint(i%8)
			a.turn("bit", t)
		}
	}
	for _, m := range []byte{0xff, 0x80, 0x01} {
		for i := 0; i < 20; i++ {
			t := append([]byte{}, block...)
			t[r.Intn(used)] ^= m
			a.turn("byte", t)
		}
	}
	// other records, whole and in parts
	for j := 0; j < n && j < 40; j++ {
		b := p.blockOf(j)
		a.turn("record", b)
		cut := r.Intn(bs)
		a.turn("spliced", append(append([]byte{}, block[:cut]...), b[cut:]...))
		a.turn("spliced", append(append([]byte{}, b[:cut]...), block[cut:]...))
		// the record of j with its proof, but claiming to be q
		l := p.db.BlockLengths[j]
		c := append([]byte{}, b...)
		binary.LittleEndian.PutUint32(c[l-5:], uint32(a.q))
		a.turn("reindexed", c)
		// the data of j with the proof of q
		prf := block[used-p.db.ProofLen-1 : used]
		a.turn("mixed", append(append([]byte{}, p.records[j]...), prf...))
	}
	for j := 0; j < len(other.records) && j < 10; j++ {
		a.turn("other-database", other.blockOf(j))
	}
	// shifted, shortened, lengthened
	for _, s := range []int{1, 2, 31, 32, 33, 64} {
		if s < used {
			a.turn("shifted", append(make([]byte, s), block[:bs-s]...))
			a.turn("cut-front", block[s:])
			a.turn("cut-end", block[:used-s])
			a.turn("cut-end", append(append([]byte{}, block[:used-s]...), 0x80))
		}
	}
	a.turn("zero", nil)
	a.turn("only-padding", []byte{0x80})
	for i := 0; i < 12; i++ {
		a.turn("random", randBytes(r, 1+r.Intn(bs)))
		t := append([]byte{}, block...)
		copy(t[r.Intn(bs):], randBytes(r, 1+r.Intn(40)))
		a.turn("random-part", t)
	}
	// proofs with other depths and hashes, the data unchanged
	proof := merkle.DecodeProof(append([]byte{}, block[used-1-p.db.ProofLen:used-1]...))
	data := p.records[a.q]
	if proof != nil {
		enc := func(pr *merkle.Proof) []byte {
			return append(append(append([]byte{}, data...), merkle.EncodeProof(pr)...), 0x80)
		}
		a.turn("no-path", enc(&merkle.Proof{Index: proof.Index}))
		a.turn("longer-path", enc(&merkle.Proof{Index: proof.Index, Hashes: append(clone2(proof.Hashes), make([]byte, 32))}))
		a.turn("longer-path", enc(&merkle.Proof{Index: proof.Index, Hashes: append(clone2(proof.Hashes), p.db.Root)}))
		for i := range proof.Hashes {
			hs := clone2(proof.Hashes)
			hs[i] = p.db.Root
			a.turn("root-in-path", enc(&merkle.Proof{Index: proof.Index, Hashes: hs}))
		}
		for _, c := range []uint32{0, uint32(len(proof.Hashes)) - 1, uint32(len(proof.Hashes)) + 1, 1 << 27, 1 << 31, ^uint32(0), uint32(len(proof.Hashes)) + 1<<27} {
			t := append([]byte{}, block...)
			binary.LittleEndian.PutUint32(t[used-1-p.db.ProofLen:], c)
			a.turn("count", t)
		}
	}
	// the answers themselves: lengths, number, order, replays, another database
	for s := 0; s < a.k; s++ {
		for _, l := range []int{0, 1, bs - 1, len(a.honest[s]) - 1, len(a.honest[s]) - bs} {
			if l >= 0 && l < len(a.honest[s]) {
				ans := clone2(a.honest)
				ans[s] = ans[s][:l]
				a.present("short", ans)
			}
		}
		ans := clone2(a.honest)
		ans[s] = append(ans[s], randBytes(r, 1+r.Intn(bs))...)
		a.present("long", ans)
		ans = clone2(a.honest)
		ans[s] = nil
		a.present("nil", ans)
		ans = clone2(a.honest)
		a.present("missing", append(ans[:s:s], ans[s+1:]...))
		ans = clone2(a.honest)
		ans[s] = make([]byte, len(ans[s]))
		a.present("zeros", ans)
		ans = clone2(a.honest)
		ans[s] = randBytes(r, len(ans[s]))
		a.present("random-answer", ans)
		ans = clone2(a.honest)
		ans[s] = append([]byte{}, ans[(s+1)%a.k]...)
		a.present("copied", ans)
		// over another database of the same shape
		if o, err := pointServer(other.db, a.k).AnswerBytes(a.queries[s]); err == nil {
			ans = clone2(a.honest)
			ans[s] = o
			a.present("other-database-answer", ans)
		}
	}
	a.present("too-many", append(clone2(a.honest), make([]byte, len(a.honest[0]))))
	a.present("none", [][]byte{})
	a.present("nothing", nil)
	a.present("order", append(clone2(a.honest[1:]), append([]byte{}, a.honest[0]...)))
	// all servers answer the query of another index (a replay)
	o := (a.q + 1) % n
	c2 := client.NewPIR(prg(r), copyInfo(a.servers[0].DBInfo()))
	if q, err := c2.QueryBytes(be(o), a.k); err == nil {
		if x, err := a.servers[0].AnswerBytes(q[0]); err == nil {
			ans := clone2(a.honest)
			ans[0] = x
			a.present("replayed", ans)
		}
	}
}

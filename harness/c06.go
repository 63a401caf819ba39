package main

import (
	"bytes"
	"crypto"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
)

func init() { drivers["c06"] = c06 }

// fixedReader gives the bytes and then zeros
type fixedReader struct{ b []byte }

func (f *fixedReader) Read(p []byte) (int, error) {
	n := copy(p, f.b)
	f.b = f.b[n:]
	for i := n; i < len(p); i++ {
		p[i] = 0
	}
	return len(p), nil
}

// dhHand makes a database of any shape, with the functions of the package
func dhHand(g group.Group, rows, cols int, bits []byte) *database.Elliptic {
	sz, err := g.Generator().MarshalBinaryCompress()
	must2(err)
	var digs []byte
	for i := 0; i < rows; i++ {
		d := g.Identity()
		for j := 0; j < cols; j++ {
			if bits[i*cols+j] == 1 {
				d.Add(d, database.HashIndexToGroup(uint64(j), g))
			}
		}
		b, err := database.MarshalGroupElements([]group.Element{d}, len(sz))
		must2(err)
		digs = append(digs, b...)
	}
	h := crypto.BLAKE2b_256.New()
	h.Write(digs)
	return &database.Elliptic{Entries: append([]byte{}, bits...), Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1,
		Auth: &database.Auth{Digest: h.Sum(nil), SubDigests: digs, Group: g, Hash: crypto.BLAKE2b_256, ElementSize: len(sz)}}}
}

type dhRun struct {
	g    group.Group
	db   *database.Elliptic
	srv  *server.DH
	c    *client.DH
	bits []byte
	sink func(M)

	lastIndex int
}

func (d *dhRun) emit(m M) { d.sink(m) }

func dhCopyInfo(i *database.Info) *database.Info {
	c := *i
	a := *i.Auth
	a.Digest = append([]byte{}, a.Digest...)
	a.SubDigests = append([]byte{}, a.SubDigests...)
	c.Auth = &a
	return &c
}

// newDH begins a trace; mk makes the database from the bits
func newDH(r *rand.Rand, name string, g group.Group, bits []byte, mk func() *database.Elliptic, sink func(M)) *dhRun {
	d := &dhRun{g: g, bits: bits, sink: sink}
	sink(M{"ev": "begin", "name": name})
	out, msg := guard(func() error {
		d.db = mk()
		if !bytes.Equal(d.db.Entries, bits) {
			return fmt.Errorf("content")
		}
		return nil
	})
	m := M{"ev": "db", "out": out, "msg": msg, "rows": 0, "cols": 0, "bits": ints(bits)}
	if d.db != nil {
		m["rows"], m["cols"] = d.db.NumRows, d.db.NumColumns
	}
	sink(m)
	if out != "ok" {
		return nil
	}
	d.srv = server.NewDH(d.db)
	out, msg = guard(func() error { d.c = client.NewDH(prg(r), dhCopyInfo(&d.db.Info)); return nil })
	sink(M{"ev": "client", "match": true, "out": out, "msg": msg})
	if out != "ok" {
		return nil
	}
	return d
}

func (d *dhRun) ask(i int) (q []byte) {
	d.lastIndex = i
	out, msg := guard(func() error {
		var err error
		q, err = d.c.QueryBytes(i)
		return err
	})
	d.emit(M{"ev": "query", "index": i, "out": out, "msg": msg})
	if out != "ok" {
		return nil
	}
	return q
}

func (d *dhRun) serve(q []byte) (a []byte) {
	out, msg := guard(func() error {
		var err error
		a, err = d.srv.AnswerBytes(q)
		return err
	})
	d.emit(M{"ev": "serve", "out": out, "msg": msg})
	if out != "ok" {
		return nil
	}
	return a
}

func (d *dhRun) present(ev, what string, a []byte) {
	val := -1
	out, msg := guard(func() error {
		v, err := d.c.ReconstructBytes(a)
		if err != nil {
			return err
		}
		b, ok := v.(byte)
		if !ok {
			return fmt.Errorf("type %T", v)
		}
		val = int(b)
		return nil
	})
	d.emit(M{"ev": ev, "what": what, "out": out, "val": val, "msg": msg})
}

func (d *dhRun) honest(i int) []byte {
	q := d.ask(i)
	if q == nil {
		return nil
	}
	a := d.serve(q)
	if a == nil {
		return nil
	}
	d.present("result", "honest", append([]byte{}, a...))
	return a
}

func (d *dhRun) marshal(es []group.Element) []byte {
	b, err := database.MarshalGroupElements(es, d.db.ElementSize)
	must2(err)
	return b
}

func (d *dhRun) elements(b []byte) []group.Element {
	es, err := database.UnmarshalGroupElements(b, d.g, d.db.ElementSize)
	must2(err)
	return es
}

// combination of the elements of the query, as in DHPir
type dhScenario struct {
	Bad int   `json:"bad"`
	C   []int `json:"c"`
	E   int   `json:"e"`
}

func addInt(g group.Group, to group.Element, e group.Element, c int) {
	x := e
	if c < 0 {
		x = g.NewElement().Neg(e)
		c = -c
	}
	for ; c > 0; c-- {
		to.Add(to, x)
	}
}

func (d *dhRun) combine(s *dhScenario, q []group.Element, extra group.Element) group.Element {
	e := d.g.Identity()
	for j, c := range s.C {
		addInt(d.g, e, q[j], c)
	}
	addInt(d.g, e, extra, s.E)
	return e
}

func bitsOf(x, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x >> uint(i) & 1)
	}
	return b
}

func randEntries(r *rand.Rand, n, mode int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Intn(2))
		case 1:
			b[i] = 0
		case 2:
			b[i] = 1
		}
	}
	return b
}

func (d *dhRun) tampering(r *rand.Rand, old [][]byte) {
	n := d.db.NumRows * d.db.NumColumns
	for rep := 0; rep < 3; rep++ {
		i := []int{0, n - 1, r.Intn(n)}[rep]
		q := d.ask(i)
		if q == nil {
			return
		}
		a := d.serve(q)
		if a == nil {
			return
		}
		d.present("result", "honest", append([]byte{}, a...))
		sz := d.db.ElementSize
		rows := d.db.NumRows
		qs := d.elements(q)
		replace := func(row int, e group.Element) []byte {
			b := append([]byte{}, a...)
			copy(b[row*sz:], d.marshal([]group.Element{e}))
			return b
		}
		for row := 0; row < rows && row < 5; row++ {
			as := d.elements(a)
			e := as[row]
			cand := map[string]group.Element{
				"identity": d.g.Identity(), "generator": d.g.Generator(), "random": d.g.RandomElement(prg(r)),
				"negated": d.g.NewElement().Neg(e), "doubled": d.g.NewElement().Dbl(e),
			}
			for j := 0; j < len(qs) && j < 6; j++ {
				cand[fmt.Sprintf("plus %d", j)] = d.g.NewElement().Add(e, qs[j])
				cand[fmt.Sprintf("minus %d", j)] = d.g.NewElement().Add(e, d.g.NewElement().Neg(qs[j]))
				cand[fmt.Sprintf("element %d", j)] = qs[j]
				cand[fmt.Sprintf("plus base %d", j)] = d.g.NewElement().Add(e, database.HashIndexToGroup(uint64(j), d.g))
			}
			cand["plus all"] = func() group.Element {
				s := d.g.NewElement().Add(d.g.Identity(), e)
				for _, x := range qs {
					s.Add(s, x)
				}
				return s
			}()
			for what, c := range cand {
				if bytes.Equal(replace(row, c), a) {
					continue
				}
				d.present("tampered", fmt.Sprintf("%s in row %d", what, row), replace(row, c))
			}
			// bytes
			for x := 0; x < 4; x++ {
				b := append([]byte{}, a...)
				b[row*sz+r.Intn(sz)] ^= 1 << uint(r.Intn(8))
				d.present("tampered", "bit", b)
			}
			b := append([]byte{}, a...)
			for x := 0; x < sz; x++ {
				b[row*sz+x] = 0xff
			}
			d.present("tampered", "ff", b)
		}
		if rows > 1 {
			b := append([]byte{}, a...)
			copy(b, a[sz:])
			copy(b[len(b)-sz:], a[:sz])
			d.present("tampered", "rotated", b)
			b = bytes.Repeat(a[:sz], rows)
			d.present("tampered", "first row everywhere", b)
		}
		// all the rows together
		same := func(f func(e group.Element) group.Element) []byte {
			as := d.elements(a)
			for x := range as {
				as[x] = f(as[x])
			}
			return d.marshal(as)
		}
		g := d.g
		d.present("tampered", "all negated", same(func(e group.Element) group.Element { return g.NewElement().Neg(e) }))
		d.present("tampered", "all doubled", same(func(e group.Element) group.Element { return g.NewElement().Dbl(e) }))
		d.present("tampered", "all identity", same(func(e group.Element) group.Element { return g.Identity() }))
		for j := 0; j < len(qs) && j < 4; j++ {
			d.present("tampered", "all plus", same(func(e group.Element) group.Element { return g.NewElement().Add(e, qs[j]) }))
			d.present("tampered", "all query", same(func(e group.Element) group.Element { return qs[j] }))
		}
		for _, o := range old {
			d.present("tampered", "replay", append([]byte{}, o...))
		}
		// a different database
		for x := 0; x < 3; x++ {
			bits := append([]byte{}, d.bits...)
			switch x {
			case 0:
				bits[i] ^= 1
			case 1:
				bits[r.Intn(n)] ^= 1
			case 2:
				for y := range bits {
					bits[y] ^= 1
				}
			}
			srv := server.NewDH(dhHand(g, rows, d.db.NumColumns, bits))
			var b []byte
			if out, _ := guard(func() error { var err error; b, err = srv.AnswerBytes(q); return err }); out == "ok" {
				d.present("tampered", "another database", b)
			}
		}
		// malformed
		for _, b := range [][]byte{nil, {}, a[:len(a)-1], a[:len(a)-sz], append(append([]byte{}, a...), 0), append(append([]byte{}, a...), a[:sz]...),
			append(append([]byte{}, a...), make([]byte, sz)...), a[1:], make([]byte, 1), append([]byte{0}, a...)} {
			d.present("malformed", fmt.Sprintf("%d of %d bytes", len(b), len(a)), append([]byte{}, b...))
		}
		d.present("result", "honest again", append([]byte{}, a...))
		if len(old) < 3 {
			old = append(old, a)
		}
	}
	// bad queries
	c := d.db.NumColumns
	sz := d.db.ElementSize
	q := d.ask(0)
	for _, b := range [][]byte{nil, {}, q[:len(q)-1], q[:len(q)-sz], append(append([]byte{}, q...), q[:sz]...), append(append([]byte{}, q...), 1),
		bytes.Repeat([]byte{0xff}, c*sz), bytes.Repeat([]byte{2}, c*sz+1), bytes.Repeat([]byte{5}, c*sz)} {
		out, msg := guard(func() error { _, err := d.srv.AnswerBytes(b); return err })
		d.emit(M{"ev": "malformed", "what": "query", "out": out, "msg": msg})
	}
	for _, i := range []int{-1, n, n + 5} {
		d.ask(i)
	}
	d.honest(0)
	d.emit(M{"ev": "untouched", "same": bytes.Equal(d.db.Entries, d.bits)})
}

func (d *dhRun) mismatches(r *rand.Rand) {
	try := func(what string, f func(i *database.Info)) {
		info := dhCopyInfo(&d.db.Info)
		f(info)
		out, msg := guard(func() error { client.NewDH(prg(r), info); return nil })
		d.emit(M{"ev": "client", "match": false, "what": what, "out": out, "msg": msg})
	}
	try("digest", func(i *database.Info) { i.Digest[r.Intn(len(i.Digest))] ^= 1 << uint(r.Intn(8)) })
	try("last byte of the digest", func(i *database.Info) { i.Digest[len(i.Digest)-1] ^= 1 })
	try("no digest", func(i *database.Info) { i.Digest = nil })
	try("short digest", func(i *database.Info) { i.Digest = i.Digest[:len(i.Digest)-1] })
	try("row digest", func(i *database.Info) { i.SubDigests[r.Intn(len(i.SubDigests))] ^= 1 << uint(r.Intn(8)) })
	try("last byte of the row digests", func(i *database.Info) { i.SubDigests[len(i.SubDigests)-1] ^= 1 })
	try("first byte of the row digests", func(i *database.Info) { i.SubDigests[0] ^= 1 })
	try("fewer row digests", func(i *database.Info) { i.SubDigests = i.SubDigests[:len(i.SubDigests)-i.ElementSize] })
	try("more row digests", func(i *database.Info) { i.SubDigests = append(i.SubDigests, i.SubDigests[:i.ElementSize]...) })
	if d.db.NumRows > 1 {
		e := d.db.ElementSize
		if !bytes.Equal(d.db.SubDigests[:e], d.db.SubDigests[e:2*e]) {
			try("swapped row digests", func(i *database.Info) {
				x := append([]byte{}, i.SubDigests[:e]...)
				copy(i.SubDigests[:e], i.SubDigests[e:2*e])
				copy(i.SubDigests[e:2*e], x)
			})
		}
	}
}

func dhSession(r *rand.Rand, name string, g group.Group, bits []byte, mk func() *database.Elliptic, all bool, sink func(M)) {
	d := newDH(r, name, g, bits, mk, sink)
	if d == nil {
		return
	}
	n := len(bits)
	var old [][]byte
	for i := 0; i < n; i++ {
		if n > 40 && !all && i%(n/20) != 0 && i != n-1 && i != d.db.NumColumns && i != d.db.NumColumns-1 {
			continue
		}
		if a := d.honest(i); a != nil && len(old) < 2 {
			old = append(old, a)
		}
	}
	d.honest(0)
	d.mismatches(r)
	d.tampering(r, old)
}

// parallel runs the jobs, each with its own trace, and writes the traces in their order
func parallel(jobs []func(sink func(M))) {
	res := make([][]M, len(jobs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			jobs[i](func(m M) { res[i] = append(res[i], m) })
		}(i)
	}
	wg.Wait()
	for _, ms := range res {
		for _, m := range ms {
			T.Emit(m)
		}
	}
}

func c06() {
	r := rng(6)
	gs := []struct {
		name string
		g    group.Group
	}{{"P256", group.P256}, {"ristretto255", group.Ristretto255}, {"P384", group.P384}}
	var jobs []func(func(M))
	add := func(name string, g group.Group, bits []byte, mk func() *database.Elliptic) {
		rr := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) { dhSession(rr, name, g, bits, mk, thorough(), sink) })
	}
	for gi, g := range gs {
		g := g
		// made by the database package
		for _, n := range []int{1, 2, 3, 4, 7, 9, 10, 16, 25, 26, 36, 81, 100, 130} {
			for mode := 0; mode < 3; mode++ {
				for _, rebalanced := range []bool{false, true} {
					if !thorough() && ((n > 16 && mode > 0) || gi == 2 && n != 9 && n != 2 || n > 30 && gi > 0) {
						continue
					}
					rebalanced := rebalanced
					var rows, cols int
					guard(func() error { rows, cols = database.CalculateNumRowsAndColumns(n, rebalanced); return nil })
					bits := randEntries(r, rows*cols, mode)
					n := n
					raw := append([]byte{}, bits...)
					for i := range raw { // the other bits of the bytes are not used
						raw[i] |= byte(r.Intn(128)) << 1
					}
					add(fmt.Sprintf("%s-created-%d-%v-%d", g.name, n, rebalanced, mode), g.g, bits, func() *database.Elliptic {
						return database.CreateRandomEllipticWithDigest(&fixedReader{raw}, n, g.g, rebalanced)
					})
				}
			}
		}
		// any shape
		for _, s := range [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 5}, {5, 3}, {7, 1}, {12, 4}, {9, 7}} {
			if gi == 2 && s[0]*s[1] > 6 && !thorough() {
				continue
			}
			s := s
			bits := randEntries(r, s[0]*s[1], 0)
			if r.Intn(2) == 0 { // a row of zeros, a row of ones
				copy(bits, make([]byte, s[1]))
				copy(bits[len(bits)-s[1]:], bytes.Repeat([]byte{1}, s[1]))
			}
			add(fmt.Sprintf("%s-shape-%dx%d", g.name, s[0], s[1]), g.g, bits, func() *database.Elliptic { return dhHand(g.g, s[0], s[1], bits) })
		}
	}
	// many columns: the contributions of the columns must differ, and entries
	// far apart must not be exchangeable
	for gi, cols := range []int{300, 270, pick(600, 70000)} {
		g := gs[gi%2]
		cols := cols
		bits := randEntries(r, cols, 0)
		rr := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			d := newDH(rr, fmt.Sprintf("%s-columns-%d", g.name, cols), g.g, bits, func() *database.Elliptic { return dhHand(g.g, 1, cols, bits) }, sink)
			if d == nil {
				return
			}
			for _, i := range []int{0, cols - 1, 255, 256, rr.Intn(cols)} {
				d.honest(i)
			}
			for _, dist := range []int{256, 128, 65536, 1, 255, 257, 512, 100} {
				q := d.ask(rr.Intn(cols))
				if dist >= cols || q == nil {
					continue
				}
				i := d.lastIndex
				j := i + dist
				if j >= cols {
					j = i - dist
				}
				if j < 0 {
					continue
				}
				if bits[i] == bits[j] { // exchange others
					for x := 0; x+dist < cols; x++ {
						if bits[x] != bits[x+dist] {
							i, j = x, x+dist
							break
						}
					}
				}
				other := append([]byte{}, bits...)
				other[i], other[j] = other[j], other[i]
				srv := server.NewDH(dhHand(g.g, 1, cols, other))
				var b []byte
				if out, _ := guard(func() error { var err error; b, err = srv.AnswerBytes(q); return err }); out == "ok" {
					d.present("tampered", fmt.Sprintf("exchanged %d and %d", i, j), b)
				}
				if q := d.ask(i); q != nil {
					if out, _ := guard(func() error { var err error; b, err = srv.AnswerBytes(q); return err }); out == "ok" {
						d.present("tampered", fmt.Sprintf("exchanged %d and %d", i, j), b)
					}
				}
			}
		})
	}
	// the bases of the columns, as numbers of their encodings
	Begin("bases", nil)
	for _, g := range gs {
		in := interner{}
		var cs, ids []int
		for j := 0; j < pick(1200, 5000); j++ {
			cs = append(cs, j)
		}
		for b := uint(11); b < 30; b++ {
			cs = append(cs, 1<<b, 1<<b+1, 1<<b-1, 1<<b+255)
		}
		cs = append(cs, 5, 300, 1<<20)
		for _, j := range cs {
			b, err := database.HashIndexToGroup(uint64(j), g.g).MarshalBinaryCompress()
			must2(err)
			ids = append(ids, in.id(b))
		}
		T.Emit(M{"ev": "bases", "cols": cs, "ids": ids})
	}
	// all the databases with 2x2 bits, all the positions, the answers of the specification
	var scs []*dhScenario
	scenarios("dh.ndjson", func(line []byte) {
		s := &dhScenario{}
		must(json.Unmarshal(line, s))
		scs = append(scs, s)
	})
	if len(scs) == 0 {
		fail("no scenarios")
	}
	for x := 0; x < 16; x++ {
		bits := bitsOf(x, 4)
		rr := rand.New(rand.NewSource(r.Int63()))
		g := gs[x%2]
		x := x
		jobs = append(jobs, func(sink func(M)) {
			d := newDH(rr, fmt.Sprintf("answers-%d", x), g.g, bits, func() *database.Elliptic { return dhHand(g.g, 2, 2, bits) }, sink)
			if d == nil {
				return
			}
			for i := 0; i < 4; i++ {
				q := d.ask(i)
				if q == nil {
					return
				}
				a := d.serve(q)
				if a == nil {
					return
				}
				d.present("result", "honest", append([]byte{}, a...))
				qs := d.elements(q)
				for y, s := range scs {
					ans := d.elements(a)
					ans[s.Bad-1] = d.combine(s, qs, d.g.Generator())
					if y%5 == 4 { // two rows
						o := scs[rr.Intn(len(scs))]
						ans[o.Bad-1] = d.combine(o, qs, database.HashIndexToGroup(0, d.g))
					}
					d.present("tampered", fmt.Sprint(*s), d.marshal(ans))
				}
			}
		})
	}
	parallel(jobs)
}

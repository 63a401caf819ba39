package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() { drivers["c02"] = c02 }

// meter counts what is read from a tape; behind its end there are zeros
type meter struct {
	b   []byte
	n   int
	max int // of a read, if positive
}

func (t *meter) Read(p []byte) (int, error) {
	if t.max > 0 && len(p) > t.max {
		p = p[:t.max]
	}
	for i := range p {
		p[i] = 0
		if t.n+i < len(t.b) {
			p[i] = t.b[t.n+i]
		}
	}
	t.n += len(p)
	return len(p), nil
}

func pointInfo(rows, cols int) *database.Info {
	l := make([]int, rows*cols)
	for i := range l {
		l[i] = 4
	}
	return &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 4, BlockLengths: l, Merkle: &database.Merkle{}}
}

// ---- statistics over the bits of views

type bitStat struct {
	n     int
	ones  []int
	shape map[int]bool
}

func (b *bitStat) add(v []byte) {
	if b.shape == nil {
		b.shape = map[int]bool{}
	}
	b.shape[len(v)] = true
	for len(b.ones) < 8*len(v) {
		b.ones = append(b.ones, 0)
	}
	b.n++
	for i, x := range v {
		if x == 0 {
			continue
		}
		for j := 0; j < 8; j++ {
			if x>>uint(j)&1 == 1 {
				b.ones[8*i+j]++
			}
		}
	}
}

// compare the frequencies of every bit
func (b *bitStat) compare(c *bitStat) (zmax float64, tests int) {
	if len(b.ones) != len(c.ones) {
		return 1e6, 1
	}
	for i := range b.ones {
		tests++
		p := float64(b.ones[i]+c.ones[i]) / float64(b.n+c.n)
		if p == 0 || p == 1 {
			continue
		}
		// exact for rare values: few occurrences are no evidence
		d := math.Abs(float64(b.ones[i])/float64(b.n) - float64(c.ones[i])/float64(c.n))
		sd := math.Sqrt(p * (1 - p) * (1/float64(b.n) + 1/float64(c.n)))
		rare := math.Min(p, 1-p) * float64(b.n+c.n)
		if rare < 60 {
			continue
		}
		if z := d / sd; z > zmax {
			zmax = z
		}
	}
	return
}

// statistics of the views of several inputs, which must not be told apart
func emitStat(what string, n int, inputs []string, view func(input int) ([]byte, error)) {
	stats := make([]bitStat, len(inputs))
	out, msg := guard(func() error {
		for x := 0; x < n; x++ {
			for i := range inputs {
				v, err := view(i)
				if err != nil {
					return err
				}
				stats[i].add(v)
			}
		}
		return nil
	})
	zmax, tests := 0.0, 0
	shapes := map[int]bool{}
	for i := range stats {
		for s := range stats[i].shape {
			shapes[s] = true
		}
		if i > 0 && out == "ok" {
			z, t := stats[0].compare(&stats[i])
			tests += t
			zmax = math.Max(zmax, z)
		}
	}
	T.Emit(M{"ev": "stat", "what": what, "n": n, "inputs": inputs, "tests": tests, "zmax": int(math.Min(zmax, 1e6) * 100), "shapes": len(shapes), "out": out, "msg": msg})
}

func emitFresh(what string, bits int, vals [][]byte, out string) {
	d := map[string]bool{}
	for _, v := range vals {
		d[string(v)] = true
	}
	T.Emit(M{"ev": "fresh", "what": what, "n": len(vals), "distinct": len(d), "bits": bits, "out": out})
}

// ---- point queries

func coalitions(k int) [][]int {
	var out [][]int
	if k > 8 { // the largest and the smallest ones, and some
		for x := 0; x < k; x++ {
			var all []int
			for s := 0; s < k; s++ {
				if s != x {
					all = append(all, s)
				}
			}
			out = append(out, []int{x}, []int{x, (x + k/2) % k}, all)
		}
		return out
	}
	for m := 1; m < 1<<uint(k)-1; m++ {
		var c []int
		for s := 0; s < k; s++ {
			if m>>uint(s)&1 == 1 {
				c = append(c, s)
			}
		}
		out = append(out, c)
	}
	return out
}

func see(q [][]byte, c []int) []byte {
	var v []byte
	for _, s := range c {
		v = append(v, q[s]...)
	}
	return v
}

func digest(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:12]) }

// pointQuery is a new client's query, with its randomness on the tape
func pointQuery(rnd io.Reader, rows, cols, k, index int) ([][]byte, error) {
	q, err := client.NewPIR(rnd, pointInfo(rows, cols)).QueryBytes(be(index), k)
	if err == nil && len(q) != k {
		err = fmt.Errorf("%d queries", len(q))
	}
	return q, err
}

// pointTapes decides the privacy of the shares from their dependence on the tape
func pointTapes(r *rand.Rand, rows, cols, k int) {
	Begin(fmt.Sprintf("tapes-%dx%d-k%d", rows, cols, k), nil)
	var indices []int
	if rows*cols <= 16 {
		for i := 0; i < rows*cols; i++ {
			indices = append(indices, i)
		}
	} else {
		seen := map[int]bool{}
		for _, i := range []int{0, cols - 1, cols, rows*cols - 1, 7, 8, 63, 64, 127, 128, r.Intn(rows * cols), r.Intn(rows * cols)} {
			if i < rows*cols && !seen[i] {
				seen[i] = true
				indices = append(indices, i)
			}
		}
	}
	// how much randomness, and is it all there is
	determined, size := true, 0
	out, msg := guard(func() error {
		for _, i := range indices {
			b := randBytes(r, 4*k*(cols/8+8))
			m1, m2 := &meter{b: b}, &meter{b: b}
			q1, err := pointQuery(m1, rows, cols, k, i)
			if err != nil {
				return err
			}
			q2, err := pointQuery(m2, rows, cols, k, i)
			if err != nil {
				return err
			}
			if m1.n > size {
				size = m1.n
			}
			if fmt.Sprint(q1) != fmt.Sprint(q2) || m1.n != m2.n || m1.n > len(b) || (size > 0 && m1.n != size) {
				determined = false
			}
		}
		return nil
	})
	if out != "ok" {
		T.Emit(M{"ev": "dist", "group": "tapes", "view": "all", "index": 0, "dist": "", "out": out, "msg": msg})
		return
	}
	if determined && size <= 2 {
		pointEnumerate(rows, cols, k, size, indices)
		return
	}
	if determined && pointAffine(r, rows, cols, k, size, indices) {
		return
	}
	// statistics
	for _, c := range coalitions(k) {
		c := c
		if len(c) != k-1 {
			continue
		}
		pr := prg(r)
		var names []string
		for _, i := range indices {
			names = append(names, fmt.Sprint(i))
		}
		emitStat(fmt.Sprintf("shares-%v", c), 3000, names, func(x int) ([]byte, error) {
			q, err := pointQuery(pr, rows, cols, k, indices[x])
			if err != nil {
				return nil, err
			}
			v := see(q, c)
			for a := range c { // what the servers know together
				for b := a + 1; b < len(c); b++ {
					v = append(v, xorb(q[c[a]], q[c[b]])...)
				}
			}
			all := q[c[0]]
			for _, s := range c[1:] {
				all = xorb(all, q[s])
			}
			return append(v, all...), nil
		})
	}
}

func xorb(a, b []byte) []byte {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	o := make([]byte, n)
	for i := range o {
		o[i] = a[i] ^ b[i]
	}
	return o
}

// pointEnumerate runs through all the tapes
func pointEnumerate(rows, cols, k, size int, indices []int) {
	cs := coalitions(k)
	for _, i := range indices {
		hist := make([]map[string]int, len(cs))
		for c := range cs {
			hist[c] = map[string]int{}
		}
		out, msg := guard(func() error {
			for x := 0; x < 1<<uint(8*size); x++ {
				t := make([]byte, 2)
				binary.LittleEndian.PutUint16(t, uint16(x))
				q, err := pointQuery(&meter{b: t[:size]}, rows, cols, k, i)
				if err != nil {
					return err
				}
				for c := range cs {
					hist[c][string(see(q, cs[c]))]++
				}
			}
			return nil
		})
		for c := range cs {
			var lines []string
			for v, n := range hist[c] {
				lines = append(lines, fmt.Sprintf("%x:%d", v, n))
			}
			sort.Strings(lines)
			T.Emit(M{"ev": "dist", "group": "tapes", "view": fmt.Sprint(cs[c]), "index": i, "views": len(lines),
				"dist": digest([]byte(fmt.Sprint(lines))), "out": out, "msg": msg})
		}
	}
}

// pointAffine: the views are affine functions of the bits of the tape, their
// distribution is uniform over an affine space, which is brought to a normal form
func pointAffine(r *rand.Rand, rows, cols, k, size int, indices []int) bool {
	for _, i := range indices {
		q := func(t []byte) [][]byte {
			q, err := pointQuery(&meter{b: t}, rows, cols, k, i)
			if err != nil {
				return nil
			}
			return q
		}
		var base [][]byte
		units := make([][][]byte, 8*size)
		affine := true
		out, _ := guard(func() error {
			base = q(make([]byte, size))
			for b := range units {
				t := make([]byte, size)
				t[b/8] = 1 << uint(b%8)
				units[b] = q(t)
			}
			for x := 0; x < 6; x++ {
				t := randBytes(r, size)
				got := q(t)
				for s := 0; s < k; s++ {
					want := append([]byte{}, base[s]...)
					for b := range units {
						if t[b/8]>>uint(b%8)&1 == 1 {
							want = xorb(want, xorb(units[b][s], base[s]))
						}
					}
					if !bytes.Equal(got[s], want) {
						affine = false
					}
				}
			}
			return nil
		})
		if out != "ok" || !affine {
			return false
		}
		for _, c := range coalitions(k) {
			if len(c) != k-1 {
				continue // smaller coalitions see less
			}
			off := see(base, c)
			var basis [][]byte
			for b := range units {
				basis = append(basis, xorb(see(units[b], c), off))
			}
			basis = rref(basis)
			off = reduce(off, basis)
			T.Emit(M{"ev": "dist", "group": "affine", "view": fmt.Sprint(c), "index": i, "views": len(basis),
				"dist": digest(append(bytes.Join(basis, nil), off...)), "out": out})
		}
	}
	return true
}

func lead(v []byte) int {
	for i, x := range v {
		if x != 0 {
			for j := 0; j < 8; j++ {
				if x>>uint(j)&1 == 1 {
					return 8*i + j
				}
			}
		}
	}
	return -1
}

func rref(rows [][]byte) [][]byte {
	by := map[int][]byte{}
	var leads []int
	for _, v := range rows {
		v = append([]byte{}, v...)
		for l := lead(v); l >= 0; l = lead(v) {
			b, ok := by[l]
			if !ok {
				by[l] = v
				leads = append(leads, l)
				break
			}
			v = xorb(v, b)
		}
	}
	sort.Ints(leads)
	for x := len(leads) - 1; x >= 0; x-- {
		v := by[leads[x]]
		for _, l := range leads[x+1:] {
			if v[l/8]>>uint(l%8)&1 == 1 {
				v = xorb(v, by[l])
			}
		}
		by[leads[x]] = v
	}
	var out [][]byte
	for _, l := range leads {
		out = append(out, by[l])
	}
	return out
}

func reduce(v []byte, basis [][]byte) []byte {
	for _, b := range basis {
		if l := lead(b); v[l/8]>>uint(l%8)&1 == 1 {
			v = xorb(v, b)
		}
	}
	return v
}

// pointFresh: successive queries of one client
func pointFresh(r *rand.Rand, rows, cols, k int, mode string) {
	Begin(fmt.Sprintf("successive-%dx%d-k%d-%s", rows, cols, k, mode), nil)
	info := pointInfo(rows, cols)
	c := client.NewPIR(prg(r), info)
	n := 96
	var shares [][]byte
	per := make([][][]byte, k)
	var diffs [][]byte
	out, _ := guard(func() error {
		for x := 0; x < n; x++ {
			i := 5
			if mode == "varying" {
				i = r.Intn(rows * cols)
			}
			q, err := c.QueryBytes(be(i), k)
			if err != nil {
				return err
			}
			for s := range q {
				if x > 0 {
					diffs = append(diffs, xorb(q[s], per[s][x-1]))
				}
				per[s] = append(per[s], append([]byte{}, q[s]...))
				shares = append(shares, append([]byte{}, q[s]...))
			}
		}
		return nil
	})
	emitFresh("shares", 200, shares, out)
	emitFresh("share differences", 200, diffs, out)
	if k == 2 || out != "ok" {
		return
	}
	for s := range per {
		min := n
		for b := range per[s][0] {
			d := map[byte]bool{}
			for x := range per[s] {
				d[per[s][x][b]] = true
			}
			if len(d) < min {
				min = len(d)
			}
		}
		T.Emit(M{"ev": "spread", "what": fmt.Sprintf("bytes of the shares of server %d", s), "n": n, "mindistinct": min, "out": out})
	}
}

// pointKeys: two servers
func pointKeys(r *rand.Rand, rows, cols int) {
	n := pick(2500, 12000)
	indices := map[int]bool{0: true, rows*cols - 1: true, r.Intn(rows * cols): true, cols / 2: true, cols - 1: true}
	var idx []int
	var names []string
	for i := range indices {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		names = append(names, fmt.Sprint(i))
	}
	Begin(fmt.Sprintf("keys-%dx%d", rows, cols), nil)
	c := client.NewPIR(prg(r), pointInfo(rows, cols))
	for s := 0; s < 2; s++ {
		prev := make([][]byte, len(idx))
		emitStat(fmt.Sprintf("key of server %d", s), n, names, func(x int) ([]byte, error) {
			q, err := c.QueryBytes(be(idx[x]), 2)
			if err != nil {
				return nil, err
			}
			v := append([]byte{}, q[s]...)
			if prev[x] != nil {
				v = append(v, xorb(q[s], prev[x])...)
			} else {
				v = append(v, xorb(q[s], randBytes(r, len(q[s])))...)
			}
			prev[x] = q[s]
			return v, nil
		})
	}
}

// ---- predicate queries

// flat collects all the leaves of a value, also the ones added later
func flat(v reflect.Value, out *[]byte) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			*out = append(*out, 0xee)
			return
		}
		flat(v.Elem(), out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			flat(v.Field(i), out)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, v.Bytes()...)
			return
		}
		for i := 0; i < v.Len(); i++ {
			flat(v.Index(i), out)
		}
	case reflect.Bool:
		x := byte(0)
		if v.Bool() {
			x = 1
		}
		*out = append(*out, x)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(v.Int()))
		*out = append(*out, b[:]...)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], v.Uint())
		*out = append(*out, b[:]...)
	case reflect.String:
		*out = append(*out, v.String()...)
	case reflect.Map:
		*out = append(*out, fmt.Sprint(v.Interface())...)
	}
}

// tapeFSS is a client with given secrets
func tapeFSS(auth bool, rnd io.Reader) fssClient {
	info := database.Info{NumColumns: 3, Merkle: &database.Merkle{Root: []byte{0}}}
	if auth {
		return client.NewPredicateAPIR(rnd, &info)
	}
	return client.NewPredicatePIR(rnd, &info)
}

type ask struct {
	name string
	in   *query.ClientFSS
	tape []byte
}

func (a *ask) queries(auth bool) ([]*query.FSS, [][]byte, error) {
	in, err := a.in.Encode()
	if err != nil {
		return nil, nil, err
	}
	qs, err := tapeFSS(auth, &meter{b: a.tape}).QueryBytes(in, 2)
	if err != nil {
		return nil, nil, err
	}
	var out []*query.FSS
	for _, q := range qs {
		d, err := decodeFSS(q)
		if err != nil {
			return nil, nil, err
		}
		out = append(out, d)
	}
	return out, qs, nil
}

// fssAsks compares what the servers get for inputs of one kind and length
func fssAsks(r *rand.Rand, name string, auth bool, asks []*ask, n int) {
	Begin(name, nil)
	var names []string
	public := make([]string, 2)
	same, roundtrip := true, true
	for _, a := range asks {
		names = append(names, a.name)
	}
	out, _ := guard(func() error {
		for _, a := range asks {
			for rep := 0; rep < 3; rep++ {
				qs, raw, err := a.queries(auth)
				if err != nil {
					return err
				}
				for s, q := range qs {
					if !bytes.Equal(encodeFSS(q), raw[s]) {
						roundtrip = false
					}
					// everything but the key
					p := *q
					p.FssKey = fss.FssKeyEq2P{}
					e := string(encodeFSS(&p))
					if public[s] == "" {
						public[s] = e
					}
					same = same && public[s] == e
				}
			}
		}
		return nil
	})
	T.Emit(M{"ev": "same", "what": "the query without the key", "same": same, "out": out})
	T.Emit(M{"ev": "same", "what": "the encoding has nothing but the query", "same": roundtrip, "out": out})
	for s := 0; s < 2; s++ {
		s := s
		f := fss.ServerInitialize(5)
		points := [][]bool{asks[0].in.Input, randBits(r, len(asks[0].in.Input))}
		// several tables of frequencies at once
		emitStat(fmt.Sprintf("key of server %d", s), n, names, func(x int) ([]byte, error) {
			qs, raw, err := asks[x].queries(auth)
			if err != nil {
				return nil, err
			}
			k := qs[s].FssKey
			var v []byte
			flat(reflect.ValueOf(k), &v)
			words := append([]uint32{}, k.FinalCW...)
			// the values the server can compute from its own key
			for _, x := range points {
				o := make([]uint32, len(k.FinalCW))
				f.EvaluatePF(byte(s), k, x, o)
				for i := range o {
					if i < len(k.FinalCW) {
						words = append(words, o[i]%p31, addp(o[i]%p31, k.FinalCW[i]%p31), addp(o[i]%p31, p31-k.FinalCW[i]%p31))
					}
				}
			}
			w := len(words)
			for i := 0; i < w && i < 5; i++ {
				for j := i + 1; j < w && j < 5; j++ {
					words = append(words, addp(words[i]%p31, p31-words[j]%p31), addp(words[i]%p31, words[j]%p31))
				}
			}
			// small values (an unmasked 1, say) and zero
			for _, y := range words {
				b := byte(0)
				if y%p31 < 1000 || p31-y%p31 < 1000 {
					b = 1
				}
				v = append(v, b)
			}
			v = append(v, putWords(words)...)
			return append(v, be(len(raw[s])/64)...), nil
		})
	}
}

func fssFresh(r *rand.Rand, auth bool) {
	Begin(fmt.Sprintf("fss-fresh-auth-%v", auth), nil)
	c := tapeFSS(auth, prg(r))
	var seeds, cw, finals, al [][]byte
	info := &query.Info{Target: query.UserId}
	out, _ := guard(func() error {
		for i := 0; i < 60; i++ {
			q := info.ToEmailClientFSS("alice@example.org")
			in, err := q.Encode()
			if err != nil {
				return err
			}
			x := &exchange{c: c}
			if x.queries, err = c.QueryBytes(in, 2); err != nil {
				return err
			}
			for s := 0; s < 2; s++ {
				d, err := decodeFSS(x.queries[s])
				if err != nil {
					return err
				}
				seeds = append(seeds, d.FssKey.SInit)
				if s == 0 {
					cw = append(cw, d.FssKey.CW...)
					for _, w := range d.FssKey.FinalCW {
						finals = append(finals, putWords([]uint32{w}))
					}
				}
			}
			if auth {
				for _, a := range secret(x, q.Input)[1:] {
					al = append(al, putWords([]uint32{a}))
				}
			}
		}
		return nil
	})
	emitFresh("initial seeds", 128, seeds, out)
	emitFresh("correction words", 128, cw, out)
	emitFresh("final correction words", 31, finals, out)
	if auth {
		emitFresh("verification keys", 31, al, out)
	}
}

func fssPrivacy(r *rand.Rand) {
	tapeA, tapeB := randBytes(r, 4000), randBytes(r, 4000)
	zero := make([]byte, 4000)
	tapeC := bytes.Repeat([]byte{0xff, 0xff, 0xff, 0xfe}, 1000)
	mail := func(s, e int, t string) *query.ClientFSS {
		i := &query.Info{Target: query.UserId, FromStart: s, FromEnd: e}
		return i.ToEmailClientFSS(t)
	}
	year := func(y string) *query.ClientFSS {
		i := &query.Info{Target: query.CreationTime}
		return i.ToCreationTimeClientFSS(y)
	}
	algo := func(a string) *query.ClientFSS {
		i := &query.Info{Target: query.PubKeyAlgo}
		return i.ToPKAClientFSS(a)
	}
	avg := func(t string) *query.ClientFSS {
		i := &query.Info{Target: query.UserId, And: true, Avg: true, FromEnd: len(t)}
		return i.ToAvgClientFSS(t)
	}
	n := pick(1000, 6000)
	fssAsks(r, "fss-email", true, []*ask{{"alice", mail(0, 0, "alice@epfl.ch"), tapeA}, {"bobby", mail(0, 0, "bobby@ethz.ch"), tapeA}, {"alice, other secrets", mail(0, 0, "alice@epfl.ch"), tapeB}}, pick(1000, 3000))
	fssAsks(r, "fss-start", true, []*ask{{"al", mail(2, 0, "al"), tapeA}, {"\x00\x00", mail(2, 0, "\x00\x00"), tapeA}, {"\xff\xff", mail(2, 0, "\xff\xff"), tapeB}, {"zero secrets", mail(2, 0, "al"), zero}, {"large secrets", mail(2, 0, "al"), tapeC}}, 2*n)
	fssAsks(r, "fss-end", false, []*ask{{".ch", mail(0, 3, ".ch"), tapeA}, {"com", mail(0, 3, "com"), tapeB}}, 2*n)
	fssAsks(r, "fss-algo", true, []*ask{{"RSA", algo("RSA"), tapeA}, {"ECDSA", algo("ECDSA"), tapeA}, {"DSA, other secrets", algo("DSA"), tapeC}}, 3*n)
	fssAsks(r, "fss-algo-plain", false, []*ask{{"RSA", algo("RSA"), tapeA}, {"ElGamal", algo("ElGamal"), tapeA}}, 3*n)
	fssAsks(r, "fss-year", true, []*ask{{"2019", year("2019"), tapeA}, {"2001", year("2001"), tapeA}, {"2001, other secrets", year("2001"), zero}}, n)
	fssAsks(r, "fss-avg", true, []*ask{{"epfl.ch", avg("epfl.ch"), tapeA}, {"ethz.ch", avg("ethz.ch"), tapeA}, {"other secrets", avg("ethz.ch"), tapeC}}, n)
	fssFresh(r, true)
	fssFresh(r, false)
}

// ---- the discrete-logarithm scheme

func dhInfo(g group.Group, rows, cols int) *database.Info {
	db := database.CreateRandomEllipticWithDigest(utils.RandomPRG(), rows*cols, g, false)
	info := db.Info
	info.NumRows, info.NumColumns = rows, cols
	return &info
}

func dhPrivacy(r *rand.Rand, name string, g group.Group, rows, cols int) {
	Begin(fmt.Sprintf("dh-%s-%dx%d", name, rows, cols), nil)
	info := dhInfo(g, rows, cols)
	ask := func(rnd io.Reader, i int) []group.Element {
		b, err := client.NewDH(rnd, info).QueryBytes(i)
		must2(err)
		q, err := database.UnmarshalGroupElements(b, g, info.ElementSize)
		must2(err)
		if len(q) != cols {
			panic(codeError{errors.New("number of elements")})
		}
		return q
	}
	enc := func(e group.Element) []byte {
		b, err := e.MarshalBinary()
		must2(err)
		return b
	}
	// the same randomness for every index
	tp := randBytes(r, 4000)
	hidden, rowsSame, determined := true, true, true
	var ts [][]byte
	out, msg := guard(func() error {
		qs := make([][]group.Element, rows*cols)
		for i := range qs {
			qs[i] = ask(&meter{b: tp}, i)
		}
		again := ask(&meter{b: tp}, 0)
		for j := range again {
			determined = determined && again[j].IsEqual(qs[0][j])
		}
		if !determined {
			return nil
		}
		for j := 0; j < cols; j++ {
			// the element of column j for the queries of other columns
			var base group.Element
			for i := range qs {
				if i%cols == j {
					rowsSame = rowsSame && qs[i][j].IsEqual(qs[j][j])
					continue
				}
				if base == nil {
					base = qs[i][j]
				}
				hidden = hidden && base.IsEqual(qs[i][j])
			}
			if base == nil {
				continue
			}
			d := g.NewElement().Neg(base)
			d.Add(d, qs[j][j])
			hidden = hidden && !d.IsIdentity() && !d.IsEqual(base) && !base.IsIdentity()
			ts = append(ts, enc(d), enc(base))
		}
		return nil
	})
	T.Emit(M{"ev": "same", "what": "the element of a column depends only on whether it is the one queried", "same": hidden, "out": out, "msg": msg})
	T.Emit(M{"ev": "same", "what": "the query does not depend on the row", "same": rowsSame, "out": out})
	if determined {
		emitFresh("blinded elements and blindings", 250, ts, out)
	}
	// no short seed determines a query
	start := randBytes(r, 12)
	var short [][]byte
	out, _ = guard(func() error {
		for x := 0; x < 6; x++ {
			for j, e := range ask(&meter{b: append(append([]byte{}, start...), randBytes(r, 4000)...)}, 0) {
				if j < 2 {
					short = append(short, enc(e))
				}
			}
		}
		return nil
	})
	emitFresh("elements, with randomness that begins with the same 12 bytes", 250, short, out)
	// successive queries
	var els [][]byte
	var dif [][]byte
	out, _ = guard(func() error {
		c := client.NewDH(prg(r), info)
		var prev []group.Element
		for x := 0; x < 12; x++ {
			i := x % (rows * cols)
			if x >= 6 {
				i = 0
			}
			b, err := c.QueryBytes(i)
			if err != nil {
				return err
			}
			q, err := database.UnmarshalGroupElements(b, g, info.ElementSize)
			if err != nil {
				return err
			}
			for j, e := range q {
				els = append(els, enc(e))
				if prev != nil {
					d := g.NewElement().Neg(prev[j])
					dif = append(dif, enc(d.Add(d, e)))
				}
			}
			prev = q
		}
		// another client, and one with other randomness
		for x := 0; x < 2; x++ {
			for _, e := range ask(prg(r), 0) {
				els = append(els, enc(e))
			}
		}
		return nil
	})
	emitFresh("elements of successive queries", 250, els, out)
	emitFresh("differences of successive queries", 250, dif, out)
}

// dhBases: no relation between the elements of the columns may be known
func dhBases(name string, g group.Group) {
	Begin("dh-bases-"+name, nil)
	d := map[string]bool{}
	related := false
	n := 40
	out, _ := guard(func() error {
		mult := map[string]bool{}
		small := func(e group.Element) map[string]bool {
			m := map[string]bool{}
			s := g.Identity()
			for c := 0; c < 64; c++ {
				b, err := s.MarshalBinaryCompress()
				must2(err)
				m[string(b)] = true
				b, err = g.NewElement().Neg(s).MarshalBinaryCompress()
				must2(err)
				m[string(b)] = true
				s.Add(s, e)
			}
			return m
		}
		mult = small(g.Generator())
		first := small(database.HashIndexToGroup(1, g))
		for j := 0; j < n; j++ {
			b, err := database.HashIndexToGroup(uint64(j), g).MarshalBinaryCompress()
			must2(err)
			d[string(b)] = true
			if mult[string(b)] || (j != 1 && first[string(b)]) {
				related = true
			}
		}
		return nil
	})
	T.Emit(M{"ev": "bases", "n": n, "distinct": len(d), "related": related, "out": out})
}

// ---- the lattice schemes

// lweQ is a query of any of the lattice schemes: rows of words
type lweScheme struct {
	name  string
	words int // 32-bit words of an element
	need  int // bytes of secrets
	ask   func(rnd io.Reader, rows, cols, i, n int) ([][]uint32, error)
}

func low(b []byte, header, size, cols int) ([]uint32, error) {
	if len(b) != header+size*cols {
		return nil, fmt.Errorf("query of %d bytes", len(b))
	}
	var out []uint32
	for i := 0; i < cols; i++ {
		out = append(out, binary.LittleEndian.Uint32(b[header+size*i:]))
	}
	return out, nil
}

func lweInfo(rows, cols int) *database.Info {
	return &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1, Auth: &database.Auth{}}
}

func lweSchemes() []lweScheme {
	n32, n128 := utils.ParamsDefault().N, utils.ParamsDefault128().N
	return []lweScheme{
		{"lwe", 1, 4*n32 + 4, func(rnd io.Reader, rows, cols, i, n int) ([][]uint32, error) {
			c := client.NewLWE(rnd, lweInfo(rows, cols), utils.ParamsWithDatabaseSize(rows, cols))
			var out [][]uint32
			for x := 0; x < n; x++ {
				b, err := c.QueryBytes(i)
				if err != nil {
					return nil, err
				}
				m := matrix.BytesToMatrix(b)
				var v []uint32
				for j := 0; j < rows; j++ {
					v = append(v, m.Get(0, j))
				}
				if m.Rows() != 1 || m.Cols() != rows {
					return nil, fmt.Errorf("shape")
				}
				out = append(out, v)
			}
			return out, nil
		}},
		{"lwe128", 4, 16*n128 + 16, func(rnd io.Reader, rows, cols, i, n int) ([][]uint32, error) {
			c := client.NewLWE128(rnd, lweInfo(rows, cols), utils.ParamsWithDatabaseSize128(rows, cols))
			var out [][]uint32
			for x := 0; x < n; x++ {
				b, err := c.QueryBytes(i)
				if err != nil {
					return nil, err
				}
				m := matrix.BytesToMatrix128(b)
				if m.Rows() != 1 || m.Cols() != rows {
					return nil, fmt.Errorf("shape")
				}
				var v []uint32
				for j := 0; j < rows; j++ {
					e := m.Get(0, j)
					v = append(v, uint32(e.Lo), uint32(e.Lo>>32), uint32(e.Hi), uint32(e.Hi>>32))
				}
				out = append(out, v)
			}
			return out, nil
		}},
		{"amplify", 1, 5 * (4*n32 + 4), func(rnd io.Reader, rows, cols, i, n int) ([][]uint32, error) {
			c := client.NewAmplify(rnd, lweInfo(rows, cols), utils.ParamsWithDatabaseSize(rows, cols), 2)
			var out [][]uint32
			for x := 0; x < n; x++ {
				b, err := c.QueryBytes(i)
				if err != nil {
					return nil, err
				}
				ms := matrix.BytesToMatrices(b)
				var v []uint32
				for _, m := range ms {
					if m.Rows() != 1 || m.Cols() != rows {
						return nil, fmt.Errorf("shape")
					}
					for j := 0; j < rows; j++ {
						v = append(v, m.Get(0, j))
					}
				}
				if len(ms) != 5 {
					return nil, fmt.Errorf("%d repetitions", len(ms))
				}
				out = append(out, v)
			}
			return out, nil
		}},
	}
}

// lweDiff is the difference of two elements if it is small
func lweDiff(a, b []uint32, words, j int) (int64, bool) {
	if words == 1 {
		d := int64(int32(a[j] - b[j]))
		return d, d > -100000 && d < 100000
	}
	lo := uint64(a[4*j]) | uint64(a[4*j+1])<<32
	lo2 := uint64(b[4*j]) | uint64(b[4*j+1])<<32
	hi := uint64(a[4*j+2]) | uint64(a[4*j+3])<<32
	hi2 := uint64(b[4*j+2]) | uint64(b[4*j+3])<<32
	d := lo - lo2
	h := hi - hi2
	if lo < lo2 {
		h--
	}
	v := int64(d)
	small := v > -100000 && v < 100000 && ((h == 0 && v >= 0) || (h == ^uint64(0) && v < 0))
	return v, small
}

func lwePrivacy(r *rand.Rand, s lweScheme, rows, cols int, noiseOnly bool) {
	Begin(fmt.Sprintf("%s-%dx%d", s.name, rows, cols), nil)
	elements := func(v []uint32) int { return len(v) / s.words }
	size := s.need + 4096
	tp := randBytes(r, 2*size)
	// the same secrets twice: what differs is the noise
	reps := pick(300, 3000)
	if s.words == 4 || noiseOnly {
		reps = pick(200, 1000)
	}
	determined := true
	std, max, worst, corr := 0.0, int64(0), math.Inf(1), 0.0
	out, msg := guardT(400*time.Second, func() error {
		// two successive queries of a client: all their elements have noise of their own
		pair := func() ([][]uint32, error) {
			q, err := s.ask(&meter{b: tp}, rows, cols, 0, 2)
			if err != nil {
				return nil, err
			}
			return [][]uint32{append(append([]uint32{}, q[0]...), q[1]...)}, nil
		}
		one, err := pair()
		if err != nil {
			return err
		}
		two, err := pair()
		if err != nil {
			return err
		}
		for j := 0; j < elements(one[0]); j++ {
			if _, small := lweDiff(one[0], two[0], s.words, j); !small {
				determined = false
			}
		}
		if !determined {
			return nil
		}
		n := elements(one[0])
		sq := make([]float64, n)
		cross := make([]float64, n*n)
		row := make([]float64, n)
		prev := one[0]
		for x := 0; x < reps; x++ {
			q, err := pair()
			if err != nil {
				return err
			}
			for j := 0; j < n; j++ {
				d, small := lweDiff(q[0], prev, s.words, j)
				if !small {
					determined = false
					return nil
				}
				sq[j] += float64(d * d)
				row[j] = float64(d)
				for i := 0; i < j; i++ {
					cross[i*n+j] += row[i] * row[j]
				}
				if d < 0 {
					d = -d
				}
				if d > max {
					max = d
				}
			}
			prev = q[0]
		}
		sum := 0.0
		for j := range sq {
			sum += sq[j]
			worst = math.Min(worst, math.Sqrt(sq[j]/float64(reps)))
		}
		std = math.Sqrt(sum / float64(n*reps))
		for j := range sq {
			for i := 0; i < j; i++ {
				corr = math.Max(corr, math.Abs(cross[i*n+j])/math.Sqrt(sq[i]*sq[j]+1))
			}
		}
		return nil
	})
	if math.IsInf(worst, 0) {
		worst = 0
	}
	T.Emit(M{"ev": "noise", "determined": determined, "std": int(std * 100), "worstcol": int(worst * 100), "max": int(max) * 100, "corr": int(corr * 100), "n": reps, "out": out, "msg": msg})
	if noiseOnly {
		return
	}
	// the secrets use all the randomness
	tape, tried, influence := 0, 0, 0
	if determined && out == "ok" {
		out, msg = guard(func() error {
			m := &meter{b: tp}
			base, err := s.ask(m, rows, cols, 0, 1)
			if err != nil {
				return err
			}
			tape = m.n
			for x := 0; x < pick(400, 4000); x++ {
				t2 := append([]byte{}, tp...)
				p := r.Intn(tape)
				// all the bits of the byte, as some of them may vanish in an even column
				hit := false
				for y := 0; y < 3 && !hit; y++ {
					t2[p] = byte(r.Intn(256))
					if t2[p] == tp[p] {
						t2[p] ^= 1
					}
					q, err := s.ask(&meter{b: t2}, rows, cols, 0, 1)
					if err != nil {
						return err
					}
					for j := 0; j < elements(q[0]); j++ {
						if _, small := lweDiff(q[0], base[0], s.words, j); !small {
							hit = true
						}
					}
				}
				tried++
				if hit {
					influence++
				}
			}
			return nil
		})
	}
	T.Emit(M{"ev": "entropy", "determined": determined, "tape": tape, "need": s.need, "tried": tried, "influence": influence, "out": out, "msg": msg})
	// the index changes one row of the query, by a large value
	if determined && out == "ok" {
		hidden := true
		out, msg = guard(func() error {
			base, err := s.ask(&meter{b: tp}, rows, cols, 0, 1)
			if err != nil {
				return err
			}
			for i := 1; i < rows*cols && i < 40; i++ {
				q, err := s.ask(&meter{b: tp}, rows, cols, i, 1)
				if err != nil {
					return err
				}
				for j := 0; j < elements(q[0]); j++ {
					_, small := lweDiff(q[0], base[0], s.words, j)
					inRow := (j%rows == i/cols || j%rows == 0) && i/cols != 0
					if small == inRow {
						hidden = false
					}
				}
			}
			return nil
		})
		T.Emit(M{"ev": "same", "what": "only the queried row is marked", "same": hidden, "out": out, "msg": msg})
	}
	// freshness
	var vals, diffs [][]byte
	out, msg = guard(func() error {
		qs, err := s.ask(prg(r), rows, cols, 1%(rows*cols), pick(20, 60))
		if err != nil {
			return err
		}
		other, err := s.ask(utils.RandomPRG(), rows, cols, 0, 4)
		if err != nil {
			return err
		}
		qs = append(qs, other...)
		for x, q := range qs {
			for j := 0; j < elements(q); j++ {
				v := q[j*s.words : (j+1)*s.words]
				vals = append(vals, putWords(v))
				_, small := lweDiff(q, make([]uint32, len(q)), s.words, j)
				if small && s.words == 4 {
					vals = append(vals, vals[0], vals[0], vals[0]) // an element that is not masked
				}
				if x > 0 {
					d := make([]uint32, s.words)
					for w := range d {
						d[w] = (q[j*s.words+w] - qs[x-1][j*s.words+w]) >> 9 // up to noise
					}
					diffs = append(diffs, putWords(d))
				}
			}
		}
		return nil
	})
	// high bits of the elements, which the noise does not change
	emitFresh("elements of successive queries", 32*s.words, vals, out)
	_ = diffs
	// elements of the successive queries that are equal up to noise
	near := 0
	var hi [][]byte
	for _, v := range vals {
		w := getWords(v)
		hi = append(hi, putWords(append([]uint32{w[0] >> 10}, w[1:]...)))
	}
	d := map[string]int{}
	for _, h := range hi {
		d[string(h)]++
		if d[string(h)] > 1 {
			near++
		}
	}
	// 22 bits: n(n-1)/2 * 2^-22 coincidences are expected
	exp := float64(len(hi)*len(hi)) / 2 / float64(1<<22)
	if s.words == 4 {
		exp = 0
	}
	T.Emit(M{"ev": "same", "what": "no two elements are equal up to noise", "same": float64(near) <= 12+3*exp && (s.words == 1 || near == 0), "near": near, "out": out})
}

// ---- refusals

func refuse(r *rand.Rand) {
	Begin("refuse", nil)
	for k := 0; k <= 5; k++ {
		for _, kind := range []string{"", "merkle"} {
			var q [][]byte
			out, _ := guard(func() error {
				info := pointInfo(3, 9)
				info.PIRType = kind
				var err error
				q, err = client.NewPIR(prg(r), info).QueryBytes(be(4), k)
				return err
			})
			T.Emit(M{"ev": "refuse", "scheme": "point", "k": k, "sent": len(q), "out": out})
		}
		for _, auth := range []bool{true, false} {
			var q [][]byte
			out, _ := guard(func() error {
				in, err := (&query.Info{}).ToEmailClientFSS("a@b.ch").Encode()
				if err != nil {
					return err
				}
				q, err = tapeFSS(auth, prg(r)).QueryBytes(in, k)
				return err
			})
			T.Emit(M{"ev": "refuse", "scheme": "predicate", "k": k, "sent": len(q), "out": out})
		}
	}
}

type source struct {
	what string
	bits int
	slow bool
	get  func() ([]byte, error)
}

// sources are the places where clients get secrets from, as the programs use them
func sources() []source {
	in, err := (&query.Info{}).ToEmailClientFSS("a@b.ch").Encode()
	must2(err)
	ss := []source{
		{"key", 128, false, func() ([]byte, error) { k := utils.RandomPRGKey(); return k[:], nil }},
		{"reader", 256, false, func() ([]byte, error) { b := make([]byte, 32); _, err := utils.RandomPRG().Read(b); return b, err }},
		{"short reader", 64, false, func() ([]byte, error) { b := make([]byte, 8); _, err := utils.RandomPRG().Read(b); return b, err }},
		{"element", 31, false, func() ([]byte, error) { return putWords([]uint32{field.RandElement()}), nil }},
		{"vector", 31 * 8, false, func() ([]byte, error) { return putWords(field.RandVector(8)), nil }},
		{"number", 128, false, func() ([]byte, error) { return utils.RandInt(new(big.Int).Lsh(big.NewInt(1), 128)).Bytes(), nil }},
		{"math", 64, false, func() ([]byte, error) {
			return putWords([]uint32{utils.MathRand().Uint32(), utils.MathRand().Uint32()}), nil
		}},
		{"noise", 64, false, func() ([]byte, error) { return matrix.MatrixToBytes(matrix.NewGauss(1, 64)), nil }},
		{"noise of 128 bits", 64, false, func() ([]byte, error) { return matrix.Matrix128ToBytes(matrix.NewGauss128(1, 64)), nil }},
	}
	for k := 2; k <= 4; k++ {
		k := k
		for s := 0; s < k; s++ {
			s := s
			ss = append(ss, source{fmt.Sprintf("server %d of %d", s, k), 100, false, func() ([]byte, error) {
				q, err := client.NewPIR(utils.RandomPRG(), pointInfo(3, 300)).QueryBytes(be(7), k)
				if err != nil {
					return nil, err
				}
				return q[s], nil
			}})
		}
	}
	for _, auth := range []bool{true, false} {
		auth := auth
		ss = append(ss, source{"predicate", 128, false, func() ([]byte, error) {
			q, err := tapeFSS(auth, utils.RandomPRG()).QueryBytes(in, 2)
			if err != nil {
				return nil, err
			}
			return q[1], nil
		}})
	}
	di := dhInfo(group.P256, 2, 3)
	ss = append(ss, source{"dh", 256, false, func() ([]byte, error) { return client.NewDH(utils.RandomPRG(), di).QueryBytes(4) }})
	for _, s := range lweSchemes() {
		s := s
		ss = append(ss, source{s.name, 32 * 6, true, func() ([]byte, error) {
			q, err := s.ask(utils.RandomPRG(), 3, 2, 2, 1)
			if err != nil {
				return nil, err
			}
			var b []byte
			for _, row := range q {
				for j, w := range row {
					if s.words == 1 {
						w >>= 10 // up to noise
					} else if j%s.words == 0 {
						w = 0
					}
					b = append(b, putWords([]uint32{w})...)
				}
			}
			return b, nil
		}})
	}
	return ss
}

func init() {
	// the same in a process of its own
	drivers["c02process"] = func() {
		for i, s := range sources() {
			for n := 0; n < 2; n++ {
				v, err := s.get()
				must2(err)
				fmt.Printf("SECRET %d %s\n", i, hex.EncodeToString(v))
			}
		}
	}
}

// process: clients of one process draw secrets of their own, and so do those of
// different processes
func process(r *rand.Rand) {
	Begin("process", nil)
	ss := sources()
	for _, s := range ss {
		n := pick(40, 200)
		if s.slow {
			n = pick(6, 20)
		}
		vals := make([][]byte, n)
		out, _ := guard(func() error {
			errs := make([]error, n)
			parallelFor(n, func(i int) { vals[i], errs[i] = s.get() })
			return errors.Join(errs...)
		})
		emitFresh("clients of a process: "+s.what, s.bits, vals, out)
	}
	me, err := os.Executable()
	must(err)
	k := pick(4, 12)
	vals, out := make([][][]byte, len(ss)), "ok"
	var mu sync.Mutex
	parallelFor(k, func(int) {
		b, err := exec.Command(me, "c02process", "-work", work).CombinedOutput()
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			out = "err"
			fmt.Fprintf(os.Stderr, "%s\n", b)
		}
		for _, l := range strings.Split(string(b), "\n") {
			var i int
			var v []byte
			if n, _ := fmt.Sscanf(l, "SECRET %d %x", &i, &v); n == 2 {
				vals[i] = append(vals[i], v)
			}
		}
	})
	for i, s := range ss {
		emitFresh("processes: "+s.what, s.bits, vals[i], out)
	}
}

// delivery: the query is the same function of the randomness, in how many
// pieces ever the reader delivers it
func delivery(r *rand.Rand) {
	Begin("delivery", nil)
	tp := randBytes(r, 400000)
	// equal tells whether two queries come from the same randomness
	check := func(what string, ask func(rnd io.Reader) (interface{}, error), equal func(a, b interface{}) bool) {
		determined, same := true, true
		out, msg := guard(func() error {
			one, err := ask(&meter{b: tp})
			if err != nil {
				return err
			}
			two, err := ask(&meter{b: tp})
			if err != nil {
				return err
			}
			if determined = equal(one, two); !determined {
				return nil
			}
			for _, max := range []int{1, 3, 16, 17, 100, 4096} {
				q, err := ask(&meter{b: tp, max: max})
				if err != nil {
					return err
				}
				same = same && equal(one, q)
			}
			return nil
		})
		T.Emit(M{"ev": "stream", "what": what, "determined": determined, "same": same, "out": out, "msg": msg})
	}
	text := func(a, b interface{}) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	for _, k := range []int{3, 4, 6} {
		for _, cols := range []int{5, 200, 1000} {
			k, cols := k, cols
			check(fmt.Sprintf("point-%d-%d", k, cols), func(rnd io.Reader) (interface{}, error) {
				return pointQuery(rnd, 2, cols, k, cols+cols/2)
			}, text)
		}
	}
	info := dhInfo(group.P256, 3, 3)
	check("dh", func(rnd io.Reader) (interface{}, error) { return client.NewDH(rnd, info).QueryBytes(4) }, text)
	check("element", func(rnd io.Reader) (interface{}, error) { return field.RandElementWithPRG(rnd), nil }, text)
	check("vector", func(rnd io.Reader) (interface{}, error) { return field.RandVectorWithPRG(40, rnd), nil }, text)
	for _, s := range lweSchemes() {
		s := s
		check(s.name, func(rnd io.Reader) (interface{}, error) { return s.ask(rnd, 3, 2, 2, 1) }, func(a, b interface{}) bool {
			x, y := a.([][]uint32)[0], b.([][]uint32)[0]
			for j := 0; j < len(x)/s.words; j++ {
				if _, small := lweDiff(x, y, s.words, j); !small {
					return false
				}
			}
			return len(x) == len(y)
		})
	}
}

// starving is a source of randomness that fails after some bytes
type starving struct {
	left int
	err  error
}

func (t *starving) Read(p []byte) (int, error) {
	if t.left == 0 && len(p) > 0 {
		return 0, t.err
	}
	n := len(p)
	if n > t.left {
		n = t.left
	}
	for i := range p[:n] {
		p[i] = byte(37*(t.left-i) + 11)
	}
	t.left -= n
	return n, nil
}

// hungry are the ways to ask, with the number of bytes their masks hold at least
type hungry struct {
	what string
	need int
	ask  func(rnd io.Reader) error
}

func hungries() (hs []hungry) {
	for _, k := range []int{3, 4, 6} {
		for _, cols := range []int{9, 200, 1000} {
			k, cols := k, cols
			hs = append(hs, hungry{fmt.Sprintf("point-%d-%d", k, cols), (k - 1) * cols / 8, func(rnd io.Reader) error {
				_, err := pointQuery(rnd, 2, cols, k, cols+cols/2)
				return err
			}})
		}
	}
	gs := map[string]group.Group{"P256": group.P256, "ristretto255": group.Ristretto255}
	for _, n := range []string{"P256", "ristretto255"} {
		info := dhInfo(gs[n], 3, 3)
		hs = append(hs, hungry{"dh-" + n, 62, func(rnd io.Reader) error {
			_, err := client.NewDH(rnd, info).QueryBytes(4)
			return err
		}})
	}
	hs = append(hs, hungry{"element", 3, func(rnd io.Reader) error { field.RandElementWithPRG(rnd); return nil }},
		hungry{"vector", 40 * 31 / 8, func(rnd io.Reader) error { field.RandVectorWithPRG(40, rnd); return nil }})
	in, err := (&query.Info{}).ToEmailClientFSS("a@b.ch").Encode()
	must2(err)
	hs = append(hs, hungry{"predicate", 4 * 31 / 8, func(rnd io.Reader) error {
		_, err := tapeFSS(true, rnd).QueryBytes(in, 2)
		return err
	}})
	for _, s := range lweSchemes() {
		s := s
		hs = append(hs, hungry{s.name, s.need, func(rnd io.Reader) error {
			_, err := s.ask(rnd, 3, 2, 2, 1)
			return err
		}})
	}
	return hs
}

var starved = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}

func init() {
	// in a process of its own, which may give up
	drivers["c02starve"] = func() {
		var h, given, e int
		_, err := fmt.Sscan(os.Getenv("VERIF_STARVE"), &h, &given, &e)
		must(err)
		hs := hungries()
		fmt.Println("READY")
		if hs[h].ask(&starving{given, starved[e]}) == nil {
			fmt.Println("QUERY SENT")
		}
	}
}

// starve asks with sources of randomness that fail before they have delivered
// as many bytes as the masks of the query hold
func starve(r *rand.Rand) {
	Begin("starved", nil)
	me, err := os.Executable()
	must(err)
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, h := range hungries() {
		// some groups take the randomness of the operating system instead
		m := &meter{b: randBytes(r, 400000)}
		h := h
		guard(func() error { return h.ask(m) })
		drawn := m.n
		done := map[int]bool{}
		for _, given := range []int{0, 1, 16, h.need / 2, h.need - 1} {
			if given >= h.need || done[given] {
				continue
			}
			done[given] = true
			for e := range starved {
				if e != (i+given)%3 && !thorough() {
					continue
				}
				wg.Add(1)
				sem <- true
				go func(i, given, e int, h hungry) {
					defer wg.Done()
					ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
					defer cancel()
					c := exec.CommandContext(ctx, me, "c02starve")
					c.Env = append(os.Environ(), fmt.Sprintf("VERIF_STARVE=%d %d %d", i, given, e))
					b, err := c.CombinedOutput()
					<-sem
					if !strings.Contains(string(b), "READY") {
						fmt.Fprintf(os.Stderr, "VERIF-DRIVER-ERROR c02starve: %v %s\n", err, b)
						os.Exit(3)
					}
					out := "refused"
					if err == nil && strings.Contains(string(b), "QUERY SENT") {
						out = "sent"
					}
					T.Emit(M{"ev": "starved", "what": h.what, "need": h.need, "drawn": drawn, "given": given, "out": out})
				}(i, given, e, h)
			}
		}
	}
	wg.Wait()
}

func c02() {
	r := rng(2)
	refuse(r)
	process(r)
	delivery(r)
	starve(r)
	// three servers and up to 7 columns: all tapes
	for _, c := range []int{1, 2, 3, 5, 7} {
		if !thorough() && (c == 2 || c == 5) {
			continue
		}
		pointTapes(r, 1+r.Intn(2), c, 3)
	}
	for _, s := range [][3]int{{1, 1, 4}, {2, 4, 4}, {1, 7, 4}, {1, 8, 3}, {3, 9, 3}, {1, 15, 5}, {2, 16, 4}, {1, 63, 3}, {2, 64, 3}, {1, 127, 4}, {1, 128, 3}, {1, 200, 3}, {4, 5, 5}, {2, 33, 6}, {1, 7, 7}, {1, 4, 8}, {2, 9, 9}, {1, 3, 10}, {1, 2, 17}, {1, 1, 33}} {
		pointTapes(r, s[0], s[1], s[2])
	}
	if thorough() {
		for c := 1; c < 60; c++ {
			pointTapes(r, 1+r.Intn(3), c, 3+r.Intn(4))
		}
		pointTapes(r, 1, 500, 3)
	}
	for k := 2; k <= 5; k++ {
		pointFresh(r, 2, 199, k, "same")
		pointFresh(r, 2, 199, k, "varying")
	}
	for _, k := range []int{9, 17, 65, 257} {
		pointFresh(r, 1, 130, k, "same")
	}
	for _, s := range [][2]int{{1, 4}, {2, 50}, {3, 200}, {1, 1000}} {
		pointKeys(r, s[0], s[1])
	}
	fssPrivacy(r)
	gs := map[string]group.Group{"P256": group.P256, "ristretto255": group.Ristretto255}
	for _, n := range []string{"P256", "ristretto255"} {
		dhBases(n, gs[n])
		dhPrivacy(r, n, gs[n], 3, 3)
		dhPrivacy(r, n, gs[n], 1, 5)
		dhPrivacy(r, n, gs[n], 4, 2)
	}
	for _, s := range lweSchemes() {
		lwePrivacy(r, s, 3, 3, false)
		lwePrivacy(r, s, 6, 2, false)
		lwePrivacy(r, s, 1, 4, false)
		if s.words == 4 || s.name == "lwe" {
			// the noise of many rows
			lwePrivacy(r, s, 150, 2, true)
			lwePrivacy(r, s, pick(540, 1100), 1, true)
		}
	}
}

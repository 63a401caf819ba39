package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"
)

func init() { drivers["c16"] = c16 }

// codec is a value with its encoder and decoder. What is read of the value and
// of the decoded one is flattened to integers.
type codec struct {
	kind   string
	dims   []int
	in     []int
	encode func() ([]byte, error)
	value  func() []int                                // what the value is now
	decode func(b []byte) ([]int, func() []int, error) // dimensions and reader
}

func halves(v ...uint32) []int {
	var out []int
	for _, x := range v {
		out = append(out, int(x>>16), int(x&0xffff))
	}
	return out
}

// someWord is a word, often an extreme one
func someWord(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return []uint32{0, 1, 0x80, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x01020304, 0xff000000}[r.Intn(16)]
	}
	return r.Uint32()
}

func matrixOf(rows, cols int, v []uint32) *matrix.Matrix {
	m := matrix.New(rows, cols)
	for i := range v {
		m.Set(i/cols, i%cols, v[i])
	}
	return m
}

func readMatrix(m *matrix.Matrix) []int {
	out := []int{}
	if m == nil {
		return out
	}
	for i := 0; i < m.Rows(); i++ {
		for j := 0; j < m.Cols(); j++ {
			out = append(out, halves(m.Get(i, j))...)
		}
	}
	return out
}

func readMatrix128(m *matrix.Matrix128) []int {
	out := []int{}
	if m == nil {
		return out
	}
	for i := 0; i < m.Rows(); i++ {
		for j := 0; j < m.Cols(); j++ {
			x := m.Get(i, j)
			out = append(out, halves(uint32(x.Hi>>32), uint32(x.Hi), uint32(x.Lo>>32), uint32(x.Lo))...)
		}
	}
	return out
}

func someWords(r *rand.Rand, n int) []uint32 {
	out := make([]uint32, n)
	if n >= 3000 { // the same in long stretches
		for i := 0; i < n; {
			w := someWord(r) & 0xffff
			w |= w << 16
			for j := r.Intn(n/20) + 1; j > 0 && i < n; j-- {
				out[i] = w
				i++
			}
		}
		for i := 0; i < 30; i++ {
			out[r.Intn(n)] = someWord(r)
		}
		out[0], out[n-1] = someWord(r), someWord(r)
		return out
	}
	mode := r.Intn(4)
	for i := range out {
		out[i] = someWord(r)
		if mode == 0 {
			out[i] = 0
		} else if mode == 1 {
			out[i] = 0xffffffff
		}
	}
	return out
}

func flatHalves(v []uint32) []int { return append([]int{}, halves(v...)...) }

func matrixCodec(r *rand.Rand, rows, cols int) *codec {
	v := someWords(r, rows*cols)
	m := matrixOf(rows, cols, v)
	return &codec{kind: "matrix", dims: []int{rows, cols}, in: flatHalves(v), value: func() []int { return readMatrix(m) },
		encode: func() ([]byte, error) { return matrix.MatrixToBytes(m), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d := matrix.BytesToMatrix(b)
			if d == nil {
				return nil, nil, fmt.Errorf("nil")
			}
			return []int{d.Rows(), d.Cols()}, func() []int { return readMatrix(d) }, nil
		}}
}

func matrix128Codec(r *rand.Rand, rows, cols int) *codec {
	v := someWords(r, 4*rows*cols)
	m := matrix.New128(rows, cols)
	for i := 0; i < rows*cols; i++ {
		m.Set(i/cols, i%cols, uint128.New(uint64(v[4*i+2])<<32|uint64(v[4*i+3]), uint64(v[4*i])<<32|uint64(v[4*i+1])))
	}
	return &codec{kind: "matrix128", dims: []int{rows, cols}, in: flatHalves(v), value: func() []int { return readMatrix128(m) },
		encode: func() ([]byte, error) { return matrix.Matrix128ToBytes(m), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d := matrix.BytesToMatrix128(b)
			if d == nil {
				return nil, nil, fmt.Errorf("nil")
			}
			return []int{d.Rows(), d.Cols()}, func() []int { return readMatrix128(d) }, nil
		}}
}

func batchCodec(r *rand.Rand, n, rows, cols int) *codec {
	var ms []*matrix.Matrix
	in := []int{}
	for i := 0; i < n; i++ {
		v := someWords(r, rows*cols)
		in = append(in, halves(v...)...)
		ms = append(ms, matrixOf(rows, cols, v))
	}
	read := func(ms []*matrix.Matrix) []int {
		out := []int{}
		for _, m := range ms {
			out = append(out, readMatrix(m)...)
		}
		return out
	}
	return &codec{kind: "batch", dims: []int{n, rows, cols}, in: in, value: func() []int { return read(ms) },
		encode: func() ([]byte, error) { return matrix.MatricesToBytes(ms), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d := matrix.BytesToMatrices(b)
			dims := []int{len(d), rows, cols}
			for _, m := range d {
				if m == nil {
					return nil, nil, fmt.Errorf("nil")
				}
				if m.Rows() != rows || m.Cols() != cols {
					dims[1], dims[2] = m.Rows(), m.Cols()
				}
			}
			return dims, func() []int { return read(d) }, nil
		}}
}

func readProof(p *merkle.Proof) []int {
	out := append([]int{}, halves(p.Index)...)
	for _, h := range p.Hashes {
		out = append(out, ints(h)...)
	}
	return out
}

// proofCodec: announced is the length which the tree announces, or -1
func proofCodec(p *merkle.Proof, announced int) *codec {
	return &codec{kind: "proof", dims: []int{len(p.Hashes), announced}, in: readProof(p), value: func() []int { return readProof(p) },
		encode: func() ([]byte, error) { return merkle.EncodeProof(p), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d := merkle.DecodeProof(b)
			if d == nil {
				return nil, nil, fmt.Errorf("nil")
			}
			return []int{len(d.Hashes), announced}, func() []int { return readProof(d) }, nil
		}}
}

// elementInts identifies an element: the identity is all zeros in the comparison
func elementInts(e group.Element, size int) []int {
	b := make([]byte, size)
	if !e.IsIdentity() {
		x, err := e.MarshalBinaryCompress()
		must2(err)
		if len(x) != size {
			return ints(x)
		}
		copy(b, x)
	}
	return ints(b)
}

func elementsCodec(r *rand.Rand, g group.Group, n int, ids int) *codec {
	sz, err := g.Generator().MarshalBinaryCompress()
	must2(err)
	size := len(sz)
	var es []group.Element
	rnd := prg(r)
	for i := 0; i < n; i++ {
		switch {
		case ids == 2 || ids == 1 && r.Intn(3) == 0:
			es = append(es, g.Identity())
		case r.Intn(5) == 0 && i > 0:
			es = append(es, es[r.Intn(i)].Copy())
		case r.Intn(4) == 0 && i > 0: // the same element, up to the sign
			es = append(es, g.NewElement().Neg(es[r.Intn(i)]))
		case r.Intn(5) == 0:
			es = append(es, g.Generator())
		default:
			es = append(es, g.RandomElement(rnd))
		}
	}
	read := func(es []group.Element) []int {
		out := []int{}
		for _, e := range es {
			out = append(out, elementInts(e, size)...)
		}
		return out
	}
	return &codec{kind: "elements", dims: []int{n, size}, in: read(es), value: func() []int { return read(es) },
		encode: func() ([]byte, error) { return database.MarshalGroupElements(es, size) },
		decode: func(b []byte) ([]int, func() []int, error) {
			d, err := database.UnmarshalGroupElements(b, g, size)
			return []int{len(d), size}, func() []int { return read(d) }, err
		}}
}

func wordsCodec(r *rand.Rand, n int) *codec {
	v := someWords(r, n)
	return &codec{kind: "words", dims: []int{n}, in: flatHalves(v), value: func() []int { return flatHalves(v) },
		encode: func() ([]byte, error) { return utils.Uint32SliceToByteSlice(v), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d := utils.ByteSliceToUint32Slice(b)
			return []int{len(d)}, func() []int { return flatHalves(d) }, nil
		}}
}

func fieldCodec(r *rand.Rand, n int) *codec {
	v := randVec(r, n)
	if n >= 3000 {
		for i, w := range someWords(r, n) {
			v[i] = w % p31
		}
	}
	return &codec{kind: "field", dims: []int{n}, in: flatHalves(v), value: func() []int { return flatHalves(v) },
		encode: func() ([]byte, error) { return utils.Uint32SliceToByteSlice(v), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d := make([]uint32, n)
			field.BytesToElements(d, b)
			return []int{len(d)}, func() []int { return flatHalves(d) }, nil
		}}
}

// vectorCodec: three bytes of data in every element
func vectorCodec(r *rand.Rand, n int) *codec {
	v := someWords(r, n)
	for i := range v {
		v[i] &= 0xffffff
	}
	return &codec{kind: "vector", dims: []int{n}, in: flatHalves(v), value: func() []int { return flatHalves(v) },
		encode: func() ([]byte, error) { return field.VectorToBytes(v), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d := make([]uint32, len(b)/3)
			for i := range d {
				d[i] = uint32(b[3*i])<<16 | uint32(b[3*i+1])<<8 | uint32(b[3*i+2])
			}
			return []int{len(d)}, func() []int { return flatHalves(d) }, nil
		}}
}

func bitsCodec(r *rand.Rand, n int) *codec {
	v := randBytes(r, n)
	var last []bool
	return &codec{kind: "bits", dims: []int{n}, in: ints(v), value: func() []int { return ints(v) },
		encode: func() ([]byte, error) {
			last = utils.ByteToBits(v)
			out := make([]byte, len(last))
			for i := range last {
				if last[i] {
					out[i] = 1
				}
			}
			return out, nil
		},
		decode: func(b []byte) ([]int, func() []int, error) {
			d := make([]int, len(b)/8)
			for i := range b {
				d[i/8] = d[i/8]<<1 | int(b[i])
			}
			return []int{len(d)}, func() []int { return d }, nil
		}}
}

// someBlock often ends like a padding
func someBlock(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	for i := 0; i < r.Intn(5) && i < n; i++ {
		b[n-1-i] = []byte{0, 0x80, 0x80, 0xff, 1}[r.Intn(5)]
	}
	if r.Intn(6) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	if r.Intn(6) == 0 {
		for i := range b {
			b[i] = 0x80
		}
	}
	return b
}

// padCodec pads to a multiple of bl, or, if bl = 0, with the signal byte and, after it, zeros of the block
func padCodec(b []byte, bl, zeros int) *codec {
	kind, dims := "pad", []int{len(b), bl}
	if bl == 0 {
		kind, dims = "signal", []int{len(b)}
	}
	return &codec{kind: kind, dims: dims, in: ints(b), value: func() []int { return ints(b) },
		encode: func() ([]byte, error) {
			if bl == 0 {
				return database.PadWithSignalByte(append([]byte{}, b...)), nil
			}
			return database.PadBlock(append([]byte{}, b...), bl), nil
		},
		decode: func(x []byte) ([]int, func() []int, error) {
			y := append(append([]byte{}, x...), make([]byte, zeros)...)
			z := append([]byte{}, y...)
			d := database.UnPadBlock(y)
			if !bytes.Equal(y, z) {
				return nil, nil, fmt.Errorf("modified")
			}
			dims := append([]int{}, dims...)
			dims[0] = len(d)
			return dims, func() []int { return ints(d) }, nil
		}}
}

func readInfo(i *query.Info) []int {
	if i == nil {
		return []int{-1}
	}
	out := []int{int(i.Target)}
	out = append(out, int(i.FromStart), int(i.FromEnd), len(i.Targets))
	out = append(out, bools([]bool{i.And, i.Avg, i.Sum})...)
	for _, t := range i.Targets {
		out = append(out, int(t))
	}
	return out
}

func someInfo(r *rand.Rand) *query.Info {
	i := &query.Info{Target: query.Target(r.Intn(4)), FromStart: r.Intn(3) * r.Intn(100), FromEnd: r.Intn(3) * r.Intn(70000),
		And: r.Intn(2) == 0, Avg: r.Intn(2) == 0, Sum: r.Intn(2) == 0}
	for j := 0; j < r.Intn(4); j++ {
		i.Targets = append(i.Targets, query.Target(r.Intn(4)))
	}
	if r.Intn(6) == 0 {
		i = &query.Info{}
	}
	return i
}

func queryCodec(r *rand.Rand, n int) *codec {
	q := &query.ClientFSS{Info: someInfo(r), Input: randBits(r, n)}
	if r.Intn(5) == 0 {
		q.Input = make([]bool, n)
	}
	read := func(q *query.ClientFSS) []int { return append(readInfo(q.Info), bools(q.Input)...) }
	return &codec{kind: "query", dims: []int{n}, in: read(q), value: func() []int { return read(q) },
		encode: func() ([]byte, error) { return q.Encode() },
		decode: func(b []byte) ([]int, func() []int, error) {
			d, err := query.DecodeClientFSS(b)
			if err != nil {
				return nil, nil, err
			}
			return []int{len(d.Input)}, func() []int { return read(d) }, nil
		}}
}

func fssQueryCodec(r *rand.Rand, bits, bl int) *codec {
	k := fss.ClientInitialize(bl).GenerateTreePF(randBits(r, bits), randVec(r, bl))[r.Intn(2)]
	q := &query.FSS{Info: someInfo(r), FssKey: k}
	read := func(q *query.FSS) []int {
		out := append(readInfo(q.Info), ints(q.FssKey.SInit)...)
		out = append(out, int(q.FssKey.TInit), len(q.FssKey.CW))
		for _, c := range q.FssKey.CW {
			out = append(append(out, len(c)), ints(c)...)
		}
		return append(out, halves(q.FssKey.FinalCW...)...)
	}
	return &codec{kind: "fssquery", dims: []int{bits, bl}, in: read(q), value: func() []int { return read(q) },
		encode: func() ([]byte, error) { return encodeFSS(q), nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			d, err := decodeFSS(b)
			if err != nil {
				return nil, nil, err
			}
			return []int{len(d.FssKey.CW), len(d.FssKey.FinalCW)}, func() []int { return read(d) }, nil
		}}
}

var configNo int

// configCodec: the list of servers in the file, in any order
func configCodec(r *rand.Rand, n int) *codec {
	type entry struct {
		ip   string
		port int
	}
	var es []entry
	in := []int{}
	for i := 0; i < n; i++ {
		e := entry{fmt.Sprintf("10.%d.%d.%d", r.Intn(256), r.Intn(256), r.Intn(256)), r.Intn(65536)}
		if r.Intn(3) == 0 {
			e.ip = []string{"localhost", "0.0.0.0", "server.example.com", "127.0.0.1"}[r.Intn(4)]
		}
		es = append(es, e)
		in = append(in, ints([]byte(fmt.Sprintf("%s:%d", e.ip, e.port)))...)
		in = append(in, 0)
	}
	configNo++
	path := filepath.Join(work, fmt.Sprintf("config-%d.toml", configNo))
	var b bytes.Buffer
	b.WriteString("# servers\n[servers]\n")
	for _, i := range r.Perm(n) {
		fmt.Fprintf(&b, "  [servers.%d]\n  ip = %q\n  port = %d\n\n", i, es[i].ip, es[i].port)
	}
	must(os.WriteFile(path, b.Bytes(), 0o644))
	return &codec{kind: "config", dims: []int{n}, in: in, value: func() []int { return in },
		encode: func() ([]byte, error) { return os.ReadFile(path) },
		decode: func([]byte) ([]int, func() []int, error) {
			c, err := utils.LoadConfig(path)
			if err != nil {
				return nil, nil, err
			}
			return []int{len(c.Addresses)}, func() []int {
				out := []int{}
				for _, a := range c.Addresses {
					out = append(append(out, ints([]byte(a))...), 0)
				}
				return out
			}, nil
		}}
}

func badConfig(what, text string) {
	path := filepath.Join(work, "bad.toml")
	must(os.WriteFile(path, []byte(text), 0o644))
	out, msg := guard(func() error { _, err := utils.LoadConfig(path); return err })
	T.Emit(M{"ev": "badconfig", "what": what, "out": out, "msg": msg})
}

// roundTrips encodes all of them before any is decoded
func roundTrips(name string, cs []*codec, concurrent bool) {
	n := len(cs)
	enc, copyOf := make([][]byte, n), make([][]byte, n)
	events := make([]M, n)
	readers, decs := make([]func() []int, n), make([][]int, n)
	each := func(f func(i int)) {
		if !concurrent {
			for i := range cs {
				f(i)
			}
			return
		}
		var wg sync.WaitGroup
		for i := range cs {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); f(i) }()
		}
		wg.Wait()
	}
	each(func(i int) {
		c := cs[i]
		e := M{"ev": "roundtrip", "kind": c.kind, "dims": c.dims, "in": runsOf(c.in), "dec": []int{}, "ddims": []int{}, "head": []int{}, "len": 0,
			"kept": false, "again": false, "stable": false}
		events[i] = e
		out, msg := guardT(60*time.Second, func() error {
			var err error
			enc[i], err = c.encode()
			return err
		})
		e["out"], e["msg"] = out, msg
		if out != "ok" {
			return
		}
		copyOf[i] = append([]byte{}, enc[i]...)
		e["len"] = len(enc[i])
		e["head"] = ints(enc[i][:minInt(12, len(enc[i]))])
	})
	each(func(i int) {
		c, e := cs[i], events[i]
		if e["out"] != "ok" {
			return
		}
		out, msg := guardT(60*time.Second, func() error {
			again, err := c.encode()
			if err != nil {
				return err
			}
			e["again"] = bytes.Equal(again, copyOf[i])
			dims, read, err := c.decode(enc[i])
			if err != nil {
				return err
			}
			decs[i] = read()
			e["dec"], e["ddims"] = runsOf(decs[i]), dims
			readers[i] = read
			return nil
		})
		e["out"], e["msg"] = out, msg
	})
	// afterwards
	for i, c := range cs {
		e := events[i]
		if e["out"] == "ok" {
			e["kept"] = eqInts(c.value(), c.in)
			e["stable"] = bytes.Equal(enc[i], copyOf[i]) && eqInts(readers[i](), decs[i])
		}
	}
	Begin(name, nil)
	for _, e := range events {
		T.Emit(e)
	}
}

// runsOf writes a long sequence as its runs, the number and the value of each
func runsOf(v []int) []int {
	if len(v) < 6000 {
		return v
	}
	out := []int{}
	for i := 0; i < len(v); {
		j := i
		for j < len(v) && v[j] == v[i] {
			j++
		}
		out = append(out, j-i, v[i])
		i = j
	}
	return out
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (p *pdb) emitLayout(out string) {
	m := M{"ev": "layout", "out": out, "kind": p.name, "rows": 0, "cols": 0, "bs": 0, "lengths": []int{}, "datalens": []int{}, "entries": 0, "extra": 0}
	if out == "ok" {
		m["rows"], m["cols"], m["bs"], m["lengths"], m["entries"] = p.db.NumRows, p.db.NumColumns, p.db.BlockSize, p.db.BlockLengths, len(p.db.Entries)
		var l []int
		for _, r := range p.records {
			l = append(l, len(r))
		}
		m["datalens"] = l
		if p.auth {
			m["extra"] = p.db.ProofLen + 1
		}
	}
	T.Emit(m)
}

func c16() {
	r := rng(16)
	dims := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 7}, {7, 1}, {2, 3}, {3, 2}, {4, 4}, {5, 3}, {1, 40}, {40, 1}, {12, 9}, {0, 0}, {0, 3}, {3, 0}, {1, 255}, {1, 256}, {257, 1}, {16, 16}, {300, 2}}
	var ms, m128, bs []*codec
	for _, d := range dims {
		for k := 0; k < pick(2, 6); k++ {
			ms = append(ms, matrixCodec(r, d[0], d[1]))
			if d[0]*d[1] < 300 {
				m128 = append(m128, matrix128Codec(r, d[0], d[1]))
			}
		}
		for _, n := range []int{1, 2, 3, 5, 9} {
			if n*d[0]*d[1] < 600 {
				bs = append(bs, batchCodec(r, n, d[0], d[1]))
			}
		}
	}
	for i := 0; i < pick(30, 400); i++ {
		ms = append(ms, matrixCodec(r, 1+r.Intn(20), 1+r.Intn(20)))
		m128 = append(m128, matrix128Codec(r, 1+r.Intn(10), 1+r.Intn(10)))
		bs = append(bs, batchCodec(r, 1+r.Intn(7), 1+r.Intn(6), 1+r.Intn(9)))
	}
	// more rows or columns than one byte, or two, can tell
	for _, n := range []int{254, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65535, 65536, 65537, 70001} {
		rows, cols := n, 1
		if r.Intn(2) == 0 {
			rows, cols = 1, n
		}
		ms = append(ms, matrixCodec(r, rows, cols), matrixCodec(r, cols, rows))
		m128 = append(m128, matrix128Codec(r, rows, cols), matrix128Codec(r, cols, rows))
		bs = append(bs, batchCodec(r, 1+r.Intn(3), rows, cols), batchCodec(r, 1, cols, rows))
	}
	ms = append(ms, matrixCodec(r, 256, 256), matrixCodec(r, 300, 257), matrixCodec(r, 2, 65536), matrixCodec(r, 65536, 2), matrixCodec(r, 3, 1<<17), matrixCodec(r, 1<<18, 1))
	m128 = append(m128, matrix128Codec(r, 2, 65536), matrix128Codec(r, 65537, 2))
	bs = append(bs, batchCodec(r, 256, 1, 3), batchCodec(r, 300, 2, 2), batchCodec(r, 65536, 1, 1), batchCodec(r, 2, 256, 65))
	roundTrips("matrices", ms, false)
	roundTrips("matrices-128", m128, false)
	roundTrips("batches", bs, false)

	var ps []*codec
	for n := 1; n <= pick(40, 130); n++ {
		if n > 20 && n%9 != 0 && n != 33 && n != 32 {
			continue
		}
		var items [][]byte
		for i := 0; i < n; i++ {
			items = append(items, randBytes(r, r.Intn(6)))
		}
		tree, err := merkle.New(items)
		must2(err)
		for i := 0; i < n; i++ {
			if n > 8 && r.Intn(n/4) != 0 {
				continue
			}
			p, err := tree.GenerateProofAt(uint32(i))
			must2(err)
			ps = append(ps, proofCodec(p, tree.EncodedProofLength()))
		}
	}
	for i := 0; i < 48; i++ {
		p := &merkle.Proof{Index: someWord(r)}
		n := r.Intn(20)
		if i >= 40 {
			n = []int{31, 32, 33, 64, 127, 128, 200, 255}[i-40]
		}
		for j := 0; j < n; j++ {
			p.Hashes = append(p.Hashes, someBlock(r, 32))
		}
		ps = append(ps, proofCodec(p, -1))
	}
	roundTrips("proofs", ps, false)

	var es []*codec
	for _, g := range []group.Group{group.P256, group.Ristretto255, group.P384, group.P521} {
		for _, n := range []int{0, 1, 2, 3, 8, 17} {
			for ids := 0; ids < 3; ids++ {
				es = append(es, elementsCodec(r, g, n, ids))
			}
		}
	}
	for _, g := range []group.Group{group.P256, group.Ristretto255} {
		for i, n := range []int{31, 32, 33, 63, 64, 65, 128, 255, 256, 257, pick(300, 1030)} {
			es = append(es, elementsCodec(r, g, n, i%3))
		}
	}
	roundTrips("group elements", es, false)

	var ws []*codec
	for n := 0; n < pick(40, 300); n++ {
		ws = append(ws, wordsCodec(r, n), fieldCodec(r, n), vectorCodec(r, n), bitsCodec(r, n))
	}
	for _, n := range []int{255, 256, 1000, 4096, 65535, 65536, 65537, 200000} {
		ws = append(ws, wordsCodec(r, n), fieldCodec(r, n), vectorCodec(r, n))
		if n <= 65537 {
			ws = append(ws, bitsCodec(r, n), bitsCodec(r, n+1+r.Intn(6)))
		}
	}
	all := make([]byte, 256) // every byte
	for i := range all {
		all[i] = byte(i)
	}
	roundTrips("lists", ws, false)

	var pads []*codec
	for n := 0; n < pick(40, 200); n++ {
		for k := 0; k < 4; k++ {
			pads = append(pads, padCodec(someBlock(r, n), 1+r.Intn(40), r.Intn(3)*r.Intn(20)), padCodec(someBlock(r, n), 0, r.Intn(3)*r.Intn(20)))
		}
	}
	for x := 0; x < 256; x++ {
		for _, y := range []byte{0, 0x80, 0x7f, 0xff, 0xc2} {
			pads = append(pads, padCodec([]byte{y, byte(x)}, 0, r.Intn(4)))
		}
		pads = append(pads, padCodec([]byte{byte(x)}, 16, 0))
	}
	for bl := 1; bl <= 20; bl++ {
		for n := 0; n <= 2*bl; n++ {
			pads = append(pads, padCodec(someBlock(r, n), bl, 0))
		}
	}
	pads = append(pads, padCodec(someBlock(r, 5000), 0, 9), padCodec(all, 512, 0), padCodec(all, 0, 5))
	for _, n := range []int{255, 256, 257, 4096, 65535, 65536, 65537} {
		pads = append(pads, padCodec(someBlock(r, n), 0, r.Intn(9)), padCodec(someBlock(r, n), 16, 0), padCodec(someBlock(r, n), 255, 0))
	}
	roundTrips("padding", pads, false)

	var qs []*codec
	for i := 0; i < pick(60, 600); i++ {
		qs = append(qs, queryCodec(r, r.Intn(200)))
	}
	for i := 0; i < pick(20, 200); i++ {
		qs = append(qs, fssQueryCodec(r, 1+r.Intn(130), []int{1, 5, 2, 16, 17}[r.Intn(5)]))
	}
	for _, n := range []int{255, 256, 257, 1000, 4096, 20000} {
		qs = append(qs, queryCodec(r, n))
		if n <= 1000 {
			qs = append(qs, fssQueryCodec(r, n, 5), fssQueryCodec(r, 9, n))
		}
	}
	roundTrips("queries", qs, false)

	var cs []*codec
	for n := 0; n < 24; n++ {
		for k := 0; k < pick(2, 10); k++ {
			cs = append(cs, configCodec(r, n))
		}
	}
	for _, n := range []int{99, 100, 101, 255, 256, 257, 300} {
		cs = append(cs, configCodec(r, n))
	}
	roundTrips("configurations", cs, false)
	sec := func(ids ...string) string {
		s := "[servers]\n"
		for i, id := range ids {
			s += fmt.Sprintf("[servers.%s]\nip = \"10.0.0.%d\"\nport = %d\n", id, i, 100+i)
		}
		return s
	}
	for _, ids := range [][]string{{"1"}, {"0", "2"}, {"1", "2"}, {"-1", "0"}, {"0", "a"}, {"0", "1", "3"}, {"00", "0"}, {"1", "01"}, {"0", "1", "1000000"}, {"0", "99999999999999999999"}} {
		badConfig(fmt.Sprint(ids), sec(ids...))
	}
	badConfig("syntax", "[servers\n")
	badConfig("type", "[servers]\n[servers.0]\nip = 5\nport = \"x\"\n")
	badConfig("duplicate", sec("0", "1", "0"))
	T.Emit(M{"ev": "badconfig", "what": "missing file", "out": func() string {
		out, _ := guard(func() error { _, err := utils.LoadConfig(filepath.Join(work, "none.toml")); return err })
		return out
	}()})

	// everything at once
	var mix []*codec
	for _, l := range [][]*codec{ms, m128, bs, ps, es, ws, pads, qs, cs} {
		for i := 0; i < pick(40, 150); i++ {
			mix = append(mix, l[r.Intn(len(l))])
		}
	}
	uniq := map[*codec]bool{}
	var once []*codec
	for _, c := range mix {
		if !uniq[c] {
			uniq[c] = true
			once = append(once, c)
		}
	}
	r.Shuffle(len(once), func(i, j int) { once[i], once[j] = once[j], once[i] })
	roundTrips("concurrent", once, true)

	// databases
	Begin("layouts", nil)
	for _, s := range [][3]int{{1, 1, 1}, {1, 5, 3}, {3, 3, 7}, {4, 2, 16}, {1, 130, 2}, {6, 7, 5}, {16, 16, 1}} {
		var p *pdb
		out, _ := guard(func() error { p = randomDB(r, s[0], s[1], s[2]); return nil })
		p.layoutOr(out)
		p = nil
		out, _ = guard(func() error { p = randomAuthDB(r, s[0], s[1], s[2]); return nil })
		p.layoutOr(out)
	}
	// the digests of a group database
	for _, g := range []group.Group{group.P256, group.Ristretto255} {
		for _, n := range []int{1, 4, 9, 20} {
			n, g := n, g
			var cs []*codec
			out, msg := guard(func() error {
				db := database.CreateRandomEllipticWithDigest(prg(r), n, g, n != 20)
				cs = []*codec{digestsCodec(db)}
				return nil
			})
			if out != "ok" {
				T.Emit(M{"ev": "layout", "out": out, "msg": msg})
				continue
			}
			roundTrips(fmt.Sprintf("digests-%d", n), cs, false)
		}
	}
	_ = binary.BigEndian
}

func (p *pdb) layoutOr(out string) {
	if p == nil {
		p = &pdb{name: "none"}
	}
	p.emitLayout(out)
}

// digestsCodec: the encoded digests which a database announces
func digestsCodec(db *database.Elliptic) *codec {
	want := []int{}
	for i := 0; i < db.NumRows; i++ {
		d := db.Group.Identity()
		for j := 0; j < db.NumColumns; j++ {
			if db.Entries[i*db.NumColumns+j] == 1 {
				d.Add(d, database.HashIndexToGroup(uint64(j), db.Group))
			}
		}
		want = append(want, elementInts(d, db.ElementSize)...)
	}
	return &codec{kind: "elements", dims: []int{db.NumRows, db.ElementSize}, in: want, value: func() []int { return want },
		encode: func() ([]byte, error) { return db.SubDigests, nil },
		decode: func(b []byte) ([]int, func() []int, error) {
			es, err := database.UnmarshalGroupElements(b, db.Group, db.ElementSize)
			return []int{len(es), db.ElementSize}, func() []int {
				out := []int{}
				for _, e := range es {
					out = append(out, elementInts(e, db.ElementSize)...)
				}
				return out
			}, err
		}}
}

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"lukechampine.com/uint128"
)

func init() {
	drivers["c07"] = c07
	drivers["c08"] = c08
	drivers["lwechild"] = lweChild
}

type u128 = uint128.Uint128

// lweDB is a database of one of the lattice schemes with its client and server
type lweDB struct {
	kind       string // lwe, lwe128, amplify
	t          int    // amplify: errors to correct
	rows, cols int
	bits       []byte
	db         *database.LWE
	db128      *database.LWE128
	rnd        *swapReader
	c          lweClient
	s          interface{ AnswerBytes([]byte) ([]byte, error) }
	sink       func(M)
	r          *rand.Rand
	key        int64
	index      int
	seed       *utils.PRGKey // of the matrix A, nil for the default one
	q          []byte
	scalars    []uint32 // the first scalars that the clients draw
}

type lweClient interface {
	QueryBytes(int) ([]byte, error)
	ReconstructBytes([]byte) (uint32, error)
}

// swapReader is a source whose tape can be set anew
type swapReader struct{ r io.Reader }

func (s *swapReader) Read(p []byte) (int, error) { return s.r.Read(p) }

func seededPRG(k int64) io.Reader { return prg(rand.New(rand.NewSource(k))) }

// scalarTape is a random tape whose first single elements have given values
type scalarTape struct {
	scalars []uint32
	r       io.Reader
}

func (s *scalarTape) Read(p []byte) (int, error) {
	if len(p) == 4 && len(s.scalars) > 0 {
		// matrices use the representation of the machine
		binary.NativeEndian.PutUint32(p, s.scalars[0])
		s.scalars = s.scalars[1:]
		return 4, nil
	}
	return s.r.Read(p)
}

func (d *lweDB) tape() io.Reader { return &scalarTape{d.scalars, seededPRG(d.key)} }

func (d *lweDB) info() *database.Info {
	if d.kind == "lwe128" {
		return &d.db128.Info
	}
	return &d.db.Info
}

func (d *lweDB) newClient(rnd io.Reader, info *database.Info) lweClient {
	p := utils.ParamsWithDatabaseSize(d.rows, d.cols)
	p128 := utils.ParamsWithDatabaseSize128(d.rows, d.cols)
	if d.seed != nil {
		p.SeedA, p128.SeedA = d.seed, d.seed
	}
	switch d.kind {
	case "lwe":
		return client.NewLWE(rnd, info, p)
	case "amplify":
		return client.NewAmplify(rnd, info, p, d.t)
	}
	return client.NewLWE128(rnd, info, p128)
}

func (d *lweDB) newServer(bits []byte) interface{ AnswerBytes([]byte) ([]byte, error) } {
	db, db128 := lweHand(d.kind, d.rows, d.cols, bits, false)
	switch d.kind {
	case "lwe":
		return server.NewLWE(db)
	case "amplify":
		return server.NewAmplify(db)
	}
	return server.NewLWE128(db128)
}

func packBits(bits []byte) []byte {
	out := make([]byte, len(bits)/8+1)
	for i, b := range bits {
		out[i/8] |= b << uint(i%8)
	}
	return out
}

// lweHand makes a database from the matrix
func lweHand(kind string, rows, cols int, bits []byte, digest bool) (*database.LWE, *database.LWE128) {
	m := matrix.NewBytes(rows, cols)
	for i, b := range bits {
		m.SetData(i, b)
	}
	info := database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1, Auth: &database.Auth{}}
	if kind == "lwe128" {
		db := &database.LWE128{Matrix: m, Info: info}
		if digest {
			db.Auth.DigestLWE128 = database.Digest128(db, rows)
		}
		return nil, db
	}
	db := &database.LWE{Matrix: m, Info: info}
	if digest {
		db.Auth.DigestLWE = database.Digest(db, rows)
	}
	return db, nil
}

func (d *lweDB) digestBytes() []byte {
	if d.kind == "lwe128" {
		return matrix.Matrix128ToBytes(d.db128.DigestLWE128)
	}
	return matrix.MatrixToBytes(d.db.DigestLWE)
}

func (d *lweDB) matrix() *matrix.MatrixBytes {
	if d.kind == "lwe128" {
		return d.db128.Matrix
	}
	return d.db.Matrix
}

// newLWE begins a trace with the database
func newLWE(r *rand.Rand, kind string, t, rows, cols int, bits []byte, hand bool, sink func(M)) *lweDB {
	return newLWESeed(r, kind, t, rows, cols, bits, hand, nil, sink)
}

// newLWESeed: the digest is of another matrix A
func newLWESeed(r *rand.Rand, kind string, t, rows, cols int, bits []byte, hand bool, seed *utils.PRGKey, sink func(M)) *lweDB {
	d := &lweDB{kind: kind, t: t, rows: rows, cols: cols, bits: bits, sink: sink, r: r, rnd: &swapReader{}, seed: seed}
	sink(M{"ev": "begin", "name": fmt.Sprintf("%s-%dx%d-hand-%v", kind, rows, cols, hand)})
	content := true
	out, msg := guard(func() error {
		if hand {
			d.db, d.db128 = lweHand(kind, rows, cols, bits, seed == nil)
			if seed != nil && kind == "lwe128" {
				d.db128.Auth.DigestLWE128 = matrix.BinaryMul128(matrix.NewRandom128(utils.NewPRG(seed), utils.ParamsDefault128().N, rows), d.db128.Matrix)
			} else if seed != nil {
				d.db.Auth.DigestLWE = matrix.BinaryMul(matrix.NewRandom(utils.NewPRG(seed), utils.ParamsDefault().N, rows), d.db.Matrix)
			}
		} else if kind == "lwe128" {
			d.db128 = database.CreateRandomBinaryLWE128(&fixedReader{packBits(bits)}, rows, cols)
		} else {
			d.db = database.CreateRandomBinaryLWE(&fixedReader{packBits(bits)}, rows, cols)
		}
		m := d.matrix()
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				content = content && m.Get(i, j) == bits[i*cols+j]
			}
		}
		content = content && d.info().NumRows == rows && d.info().NumColumns == cols
		switch kind {
		case "lwe":
			d.s = server.NewLWE(d.db)
		case "amplify":
			d.s = server.NewAmplify(d.db)
		default:
			d.s = server.NewLWE128(d.db128)
		}
		d.c = d.newClient(d.rnd, d.info())
		return nil
	})
	sink(M{"ev": "db", "rows": rows, "cols": cols, "bits": ints(bits), "content": content, "out": out, "msg": msg, "kind": kind})
	if out != "ok" {
		return nil
	}
	return d
}

func (d *lweDB) ask(index int) []byte {
	d.key = d.r.Int63()
	d.rnd.r = d.tape()
	d.index = index
	var q []byte
	out, msg := guard(func() error {
		var err error
		q, err = d.c.QueryBytes(index)
		return err
	})
	d.sink(M{"ev": "query", "index": index, "out": out, "msg": msg})
	if out != "ok" {
		return nil
	}
	d.q = q
	return q
}

func (d *lweDB) serve(q []byte) []byte {
	var a []byte
	out, msg := guard(func() error {
		var err error
		a, err = d.s.AnswerBytes(q)
		return err
	})
	d.sink(M{"ev": "serve", "out": out, "msg": msg})
	if out != "ok" {
		return nil
	}
	return a
}

func (d *lweDB) read(a []byte) (string, int, string) {
	val := -1
	out, msg := guard(func() error {
		v, err := d.c.ReconstructBytes(append([]byte{}, a...))
		if err != nil {
			return err
		}
		val = int(v)
		if v > 1 {
			val = 1000
		}
		return nil
	})
	return out, val, msg
}

// secretT measures t of the last query, up to noise: the same randomness with
// the index in another row. For the amplified scheme it is that of the repetitions.
func (d *lweDB) secretT() []int64 {
	if d.rows < 2 || d.kind == "lwe128" {
		return nil
	}
	i := d.index / d.cols
	other := (i + 1) % d.rows * d.cols
	var ts []int64
	guard(func() error {
		q, err := d.newClient(d.tape(), d.info()).QueryBytes(other)
		if err != nil {
			return err
		}
		a, b := d.elements(d.q), d.elements(q)
		for k := range a {
			ts = append(ts, int64(int32(uint32(a[k][i].Lo-b[k][i].Lo))))
		}
		return nil
	})
	return ts
}

// measureScalars measures what a server has to guess in order to flip a bit: the
// scalars of many queries, up to noise
func (d *lweDB) measureScalars(n int) {
	top := 32
	if d.kind == "lwe128" {
		top = 128
	}
	const noise = 12 // bits
	var us []u128
	for len(us) < n {
		q := d.ask(d.r.Intn(d.rows * d.cols))
		if q == nil {
			return
		}
		i := d.index / d.cols
		out, msg := guard(func() error {
			o, err := d.newClient(d.tape(), d.info()).QueryBytes((i + 1) % d.rows * d.cols)
			if err != nil {
				return err
			}
			a, b := d.elements(q), d.elements(o)
			for k := range a {
				u := a[k][i].SubWrap(b[k][i]).AddWrap(uint128.From64(1 << (noise - 1)))
				if top == 32 {
					u = uint128.From64(uint64(uint32(u.Lo)))
				}
				us = append(us, u.Rsh(noise))
			}
			return nil
		})
		if out != "ok" {
			d.sink(M{"ev": "scalars", "n": 0, "constant": 0, "gap": 0, "same": 0, "msg": msg})
			return
		}
	}
	sort.Slice(us, func(i, j int) bool { return us[i].Cmp(us[j]) < 0 })
	or, and, same, gap := uint128.Zero, uint128.Max, 0, 0.0
	scale := func(u u128) float64 { return math.Ldexp(float64(u.Rsh(uint(top-noise-20)).Lo), -20) }
	for x, u := range us {
		or, and = or.Or(u), and.And(u)
		if x > 0 && us[x-1] == u {
			same++
		}
		g := scale(us[(x+1)%len(us)]) - scale(u)
		if g < 0 || len(us) == 1 {
			g++
		}
		gap = math.Max(gap, g)
	}
	constant := 0
	for b := 0; b < top-noise; b++ {
		if or.Rsh(uint(b)).Lo&1 == 0 || and.Rsh(uint(b)).Lo&1 == 1 {
			constant++
		}
	}
	d.sink(M{"ev": "scalars", "n": len(us), "constant": constant, "gap": int(1000 * gap), "same": same, "msg": ""})
}

// elements of an encoded query or answer, by repetition
func (d *lweDB) elements(b []byte) [][]u128 {
	var out [][]u128
	add := func(m *matrix.Matrix) {
		var v []u128
		for j := 0; j < m.Cols(); j++ {
			v = append(v, uint128.From64(uint64(m.Get(0, j))))
		}
		out = append(out, v)
	}
	switch d.kind {
	case "lwe":
		add(matrix.BytesToMatrix(b))
	case "amplify":
		for _, m := range matrix.BytesToMatrices(b) {
			add(m)
		}
	default:
		m := matrix.BytesToMatrix128(b)
		var v []u128
		for j := 0; j < m.Cols(); j++ {
			v = append(v, m.Get(0, j))
		}
		out = append(out, v)
	}
	return out
}

func (d *lweDB) encode(v [][]u128) []byte {
	if d.kind == "lwe128" {
		m := matrix.New128(1, len(v[0]))
		for j := range v[0] {
			m.Set(0, j, v[0][j])
		}
		return matrix.Matrix128ToBytes(m)
	}
	var ms []*matrix.Matrix
	for k := range v {
		m := matrix.New(1, len(v[k]))
		for j := range v[k] {
			m.Set(0, j, uint32(v[k][j].Lo))
		}
		ms = append(ms, m)
	}
	if d.kind == "amplify" {
		return matrix.MatricesToBytes(ms)
	}
	return matrix.MatrixToBytes(ms[0])
}

const cut = int64(1) << 30

// signed difference, cut
func (d *lweDB) diff(a, b u128) int64 {
	if d.kind != "lwe128" {
		x := int64(int32(uint32(a.Lo - b.Lo)))
		if x > cut {
			x = cut
		}
		if x < -cut {
			x = -cut
		}
		return x
	}
	x := a.SubWrap(b)
	if x.Hi == 0 && x.Lo < uint64(cut) {
		return int64(x.Lo)
	}
	y := b.SubWrap(a)
	if y.Hi == 0 && y.Lo < uint64(cut) {
		return -int64(y.Lo)
	}
	return cut
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (d *lweDB) smallT() bool {
	for _, t := range d.secretT() {
		if abs(t) < 4*84*int64(d.rows) {
			return true
		}
	}
	return false
}

func (d *lweDB) bit() int { return int(d.bits[d.index]) }

// get is an honest retrieval
func (d *lweDB) get(index int) []byte {
	q := d.ask(index)
	if q == nil {
		return nil
	}
	a := d.serve(q)
	if a == nil {
		return nil
	}
	d.result(a)
	return a
}

func (d *lweDB) result(a []byte) {
	out, val, msg := d.read(a)
	d.sink(M{"ev": "result", "out": out, "val": val, "msg": msg})
}

// tamper presents an answer that differs from the honest one
func (d *lweDB) tamper(what string, honest, b []byte) {
	h, x := d.elements(honest), d.elements(b)
	out, val, msg := d.read(b)
	j := d.index % d.cols
	dev, devq, far, farq := int64(0), int64(0), int64(0), int64(0)
	var ts []int64
	if out != "err" {
		ts = d.secretT()
	}
	for k := range h {
		for c := range h[k] {
			e := d.diff(x[k][c], h[k][c])
			f := abs(e)
			if k < len(ts) {
				for _, t := range []int64{ts[k], -ts[k]} {
					// differences modulo 2^32, with the noise of the measurement
					n := abs(int64(int32(uint32(x[k][c].Lo-h[k][c].Lo)-uint32(t)))) - 200
					if n < f {
						f = n
					}
				}
			}
			dev, far = maxi(dev, abs(e)), maxi(far, f)
			if c == j {
				devq, farq = maxi(devq, abs(e)), maxi(farq, f)
			}
		}
	}
	small := out == "ok" && val != d.bit() && d.smallT()
	d.sink(M{"ev": "tampered", "what": what, "dev": dev, "devq": devq, "far": far, "farq": farq, "out": out, "val": val, "smallt": small, "msg": msg})
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// child processes report the digests

type childJob struct {
	Kind       string
	Rows, Cols int
	Bits       []byte
	Index      int
	Key        int64
}

func lweChild() {
	var j childJob
	must(json.Unmarshal([]byte(os.Getenv("VERIF_JOB")), &j))
	d := newLWE(rand.New(rand.NewSource(1)), j.Kind, 1, j.Rows, j.Cols, j.Bits, false, func(M) {})
	if d == nil {
		fail("child")
	}
	fmt.Printf("DIGEST %s\n", hex.EncodeToString(d.digestBytes()))
}

func (d *lweDB) otherProcess() []byte {
	b, err := json.Marshal(childJob{Kind: d.kind, Rows: d.rows, Cols: d.cols, Bits: d.bits})
	must(err)
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, "lwechild", "-out", os.DevNull, "-work", work)
	cmd.Env = append(os.Environ(), "VERIF_JOB="+string(b))
	out, err := cmd.Output()
	if err != nil {
		return nil
	}
	for _, l := range bytes.Split(out, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("DIGEST ")) {
			x, _ := hex.DecodeString(string(l[7:]))
			return x
		}
	}
	return nil
}

func (d *lweDB) digests(process bool) {
	emit := func(what string, f func() bool) {
		same := false
		out, msg := guard(func() error { same = f(); return nil })
		d.sink(M{"ev": "digest", "what": what, "same": same, "out": out, "msg": msg})
	}
	mine := d.digestBytes()
	emit("of the matrix", func() bool {
		x := &lweDB{kind: d.kind}
		x.db, x.db128 = lweHand(d.kind, d.rows, d.cols, d.bits, true)
		return bytes.Equal(mine, x.digestBytes())
	})
	if process {
		emit("in another process", func() bool { return bytes.Equal(mine, d.otherProcess()) })
	}
	// the digests of the single entries add up
	if d.rows*d.cols <= 30 {
		emit("sum", func() bool {
			sz := 4
			if d.kind == "lwe128" {
				sz = 16
			}
			unit := make([][]byte, d.rows) // row r of the matrix A, transposed
			for r := range unit {
				x := &lweDB{kind: d.kind}
				e := make([]byte, d.rows)
				e[r] = 1
				x.db, x.db128 = lweHand(d.kind, d.rows, 1, e, true)
				unit[r] = x.digestBytes()[8:]
			}
			for a := range unit {
				for b := 0; b < a; b++ {
					if bytes.Equal(unit[a], unit[b]) {
						return false
					}
				}
			}
			n := len(unit[0]) / sz
			at := func(b []byte, i int) u128 {
				if sz == 4 {
					return uint128.From64(uint64(b[4*i]) | uint64(b[4*i+1])<<8 | uint64(b[4*i+2])<<16 | uint64(b[4*i+3])<<24)
				}
				return uint128.FromBytes(b[16*i:])
			}
			if len(mine) != 8+sz*n*d.cols {
				return false
			}
			for i := 0; i < n; i++ {
				for c := 0; c < d.cols; c++ {
					sum := uint128.Zero
					for r := 0; r < d.rows; r++ {
						if d.bits[r*d.cols+c] == 1 {
							sum = sum.AddWrap(elementAt(unit[r], i, sz))
						}
					}
					_ = at
					got := elementAt(mine[8:], i*d.cols+c, sz)
					if sz == 4 {
						sum = uint128.From64(uint64(uint32(sum.Lo)))
					}
					if got != sum {
						return false
					}
				}
			}
			return true
		})
	}
}

// elementAt decodes with the decoder of the package, whatever the byte order is
func elementAt(b []byte, i, sz int) u128 {
	e := append([]byte{0, 0, 0, 1, 0, 0, 0, 1}, b[i*sz:(i+1)*sz]...)
	if sz == 4 {
		return uint128.From64(uint64(matrix.BytesToMatrix(e).Get(0, 0)))
	}
	return matrix.BytesToMatrix128(e).Get(0, 0)
}

func c07() {
	r := rng(7)
	var jobs []func(func(M))
	add := func(kind string, t, rows, cols, mode int, hand bool, max int, process bool) {
		bits := randEntries(r, rows*cols, mode)
		rr := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			d := newLWE(rr, kind, t, rows, cols, bits, hand, sink)
			if d == nil {
				return
			}
			d.digests(process)
			n := rows * cols
			var held []byte
			for x := 0; x < n && x < max; x++ {
				i := x
				if n > max {
					i = []int{0, n - 1, cols - 1, n - cols}[minInt(x, 3)]
					if x > 3 {
						i = rr.Intn(n)
					}
				}
				a := d.get(i)
				if x == n/2 && a != nil { // the same answer again, another query in between
					d.result(a)
					held = a
				}
			}
			if held != nil {
				d.get(n - 1)
				d.get(0)
				d.get(0)
			}
			for _, i := range []int{-1, n, n + 3} {
				d.ask(i)
			}
			d.get(n / 2)
			d.digests(false)
		})
	}
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {4, 4}, {1, 9}, {9, 1}, {5, 7}, {7, 5}, {8, 8}, {16, 3}, {3, 16}, {10, 10}, {17, 9}}
	for x, s := range shapes {
		for mode := 0; mode < 3; mode++ {
			if mode > 0 && s[0]*s[1] > 16 && !thorough() {
				continue
			}
			add("lwe", 0, s[0], s[1], mode, x%2 == 1, pick(60, 1000), mode == 0 && x%5 == 0)
			if s[0]*s[1] < 40 || thorough() {
				add("amplify", []int{0, 1, 2, 3}[x%4], s[0], s[1], mode, x%2 == 0, pick(14, 100), false)
			}
			if s[0]*s[1] < 40 || thorough() {
				add("lwe128", 0, s[0], s[1], mode, x%2 == 1, pick(14, 200), mode == 0 && x%6 == 1)
			}
		}
	}
	// matrices A of other seeds, for databases of the same size
	for x := 0; x < 9; x++ {
		kind := []string{"lwe", "amplify", "lwe128"}[x%3]
		rows, cols := []int{3, 2, 4}[x/3], []int{4, 3, 4}[x/3]
		bits := randEntries(r, rows*cols, 0)
		rr := rand.New(rand.NewSource(r.Int63()))
		seed := new(utils.PRGKey)
		r.Read(seed[:])
		jobs = append(jobs, func(sink func(M)) {
			if d := newLWESeed(rr, kind, 1, rows, cols, bits, true, seed, sink); d != nil {
				for i := 0; i < rows*cols && i < pick(8, 16); i++ {
					d.get(i)
				}
			}
		})
	}
	// scalars that could be taken for noise
	for x, s := range [][2]int{{1, 1}, {2, 2}, {5, 3}, {40, 2}} {
		for _, kind := range []string{"lwe", "amplify"} {
			rows, cols, kind := s[0], s[1], kind
			bits := randEntries(r, rows*cols, []int{2, 0, 2, 0}[x])
			rr := rand.New(rand.NewSource(r.Int63()))
			jobs = append(jobs, func(sink func(M)) {
				d := newLWE(rr, kind, 2, rows, cols, bits, x%2 == 0, sink)
				if d == nil {
					return
				}
				b := uint32(84 * rows)
				for _, v := range []uint32{0, 1, b / 3, b - 1, b, b + 1, 3 * b / 2, 2*b - 1, 2 * b, 3 * b} {
					for _, v := range []uint32{v, -v} {
						for n := 1; n < 4; n++ {
							d.scalars = nil
							for y := 0; y < n; y++ {
								d.scalars = append(d.scalars, v)
							}
							d.get(rr.Intn(rows * cols))
						}
					}
				}
			})
		}
	}
	add("lwe", 0, 60, 40, 0, false, 20, false)
	add("lwe", 0, 33, 129, 0, true, 20, false)
	add("lwe", 0, 200, 3, 2, false, 20, false)
	add("lwe", 0, 3, 200, 2, false, 20, false)
	add("lwe128", 0, 40, 20, 2, false, 6, false)
	add("amplify", 5, 20, 30, 0, false, 4, false)
	// tall and flat: the noise of an answer grows with the rows only
	add("lwe", 0, 1500, 1, 0, false, 12, false)
	add("lwe", 0, 1, 1500, 0, true, 8, false)
	add("lwe", 0, 3000, 1, 2, true, 8, false)
	add("lwe", 0, 900, 2, 1, true, 8, false)
	add("amplify", 1, 800, 1, 0, true, 5, false)
	add("amplify", 1, 1, 800, 0, false, 4, false)
	add("lwe128", 0, 1500, 1, 0, true, 8, false)
	add("lwe128", 0, 1, 600, 0, false, 4, false)
	add("lwe128", 0, 700, 2, 1, false, 6, false)
	// wide: the sizes at which rows could be cut in parts
	for x, cols := range []int{1025, 2100, 4097, 8200} {
		add("lwe", 0, 1+x%2, cols, 0, x%2 == 0, 6, false)
	}
	add("amplify", 1, 2, 2100, 0, false, 4, false)
	add("lwe128", 0, 2, 2100, 0, true, 4, false)
	if thorough() {
		for x := 0; x < 60; x++ {
			add([]string{"lwe", "lwe", "lwe128", "amplify"}[x%4], 1+x%3, 1+r.Intn(24), 1+r.Intn(24), 0, x%2 == 0, 60, false)
		}
		add("lwe", 0, 500, 500, 0, false, 30, false)
		add("lwe128", 0, 120, 120, 0, false, 10, false)
	}
	parallel(jobs)
	// databases made for a length
	for _, n := range []int{1, 4, 5, 9, 16, 50, 100} {
		n := n
		Begin(fmt.Sprintf("length-%d", n), nil)
		var db *database.LWE
		out, _ := guard(func() error { db = database.CreateRandomBinaryLWEWithLength(prg(r), n); return nil })
		if out != "ok" {
			T.Emit(M{"ev": "db", "rows": 0, "cols": 0, "bits": []int{}, "content": false, "out": out})
			continue
		}
		var bits []byte
		for i := 0; i < db.NumRows; i++ {
			for j := 0; j < db.NumColumns; j++ {
				bits = append(bits, db.Matrix.Get(i, j))
			}
		}
		T.Emit(M{"ev": "db", "rows": db.NumRows, "cols": db.NumColumns, "bits": ints(bits), "content": true, "out": out})
		d := &lweDB{kind: "lwe", rows: db.NumRows, cols: db.NumColumns, bits: bits, db: db, r: r, rnd: &swapReader{}, s: server.NewLWE(db), sink: T.Emit}
		d.c = d.newClient(d.rnd, d.info())
		for i := 0; i < len(bits); i += 1 + len(bits)/12 {
			d.get(i)
		}
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- deviations

func (d *lweDB) add(a []byte, k, c int, x u128) []byte {
	v := d.elements(a)
	v[k][c] = v[k][c].AddWrap(x)
	if d.kind != "lwe128" {
		v[k][c] = uint128.From64(uint64(uint32(v[k][c].Lo)))
	}
	return d.encode(v)
}

func signed(x int64) u128 {
	if x >= 0 {
		return uint128.From64(uint64(x))
	}
	return uint128.Zero.SubWrap(uint128.From64(uint64(-x)))
}

// window finds the deviations of column c which are accepted
func (d *lweDB) window(a []byte, k, c int) {
	ok := func(x int64) bool {
		out, val, _ := d.read(d.add(a, k, c, signed(x)))
		return out == "ok" && val == d.bit()
	}
	limit := int64(84*d.rows) * 8
	edge := func(sign int64) int64 {
		if !ok(0) {
			return -1
		}
		lo, hi := int64(0), int64(1)
		for ok(sign*hi) && hi < limit {
			lo, hi = hi, hi*2
		}
		for hi-lo > 1 {
			m := (lo + hi) / 2
			if ok(sign * m) {
				lo = m
			} else {
				hi = m
			}
		}
		return lo
	}
	lo, hi := -edge(-1), edge(1)
	inside := true
	for x := 0; x < 6; x++ {
		p := lo + d.r.Int63n(hi-lo+1)
		inside = inside && ok(p)
	}
	for x := int64(1); x < 4; x++ {
		inside = inside && !ok(hi+x*x*x*7) && !ok(lo-x*x*5)
	}
	m := M{"ev": "window", "col": c, "rep": k, "lo": lo, "hi": hi, "inside": inside, "out": "ok"}
	if d.smallT() {
		return // cannot be measured
	}
	d.sink(m)
}

func (d *lweDB) attack(full bool, old [][]byte) []byte {
	r := d.r
	n := d.rows * d.cols
	i := r.Intn(n)
	q := d.ask(i)
	if q == nil {
		return nil
	}
	a := d.serve(q)
	if a == nil {
		return nil
	}
	d.result(a)
	reps := len(d.elements(a))
	b := int64(84 * d.rows)
	for k := 0; k < reps; k++ {
		for c := 0; c < d.cols; c++ {
			if d.cols > 6 && c != i%d.cols && c != 0 && c != d.cols-1 && r.Intn(d.cols) > 2 {
				continue
			}
			if full {
				d.window(a, k, c)
			}
			var ds []u128
			for _, x := range []int64{1, b / 3, b / 2, b - 1, b, b + 1, 2*b - 1, 2 * b, 2*b + 1, 3 * b, 5 * b, 10 * b, 100 * b, 1 << 20, 1 << 24, 1 << 30} {
				ds = append(ds, signed(x), signed(-x))
			}
			bitsN := 32
			if d.kind == "lwe128" {
				bitsN = 128
			}
			for s := 12; s < bitsN; s += 1 + s/20 {
				ds = append(ds, uint128.From64(1).Lsh(uint(s)), uint128.Zero.SubWrap(uint128.From64(1).Lsh(uint(s))))
			}
			ds = append(ds, uint128.From64(1).Lsh(uint(bitsN-1)), uint128.Zero.SubWrap(uint128.From64(1)), uint128.New(r.Uint64(), r.Uint64()), uint128.New(r.Uint64(), r.Uint64()), uint128.New(r.Uint64(), r.Uint64()), uint128.New(r.Uint64(), r.Uint64()))
			for y, x := range ds {
				if k > 0 && y%4 != k%4 {
					continue
				}
				d.tamper("column", a, d.add(a, k, c, x))
			}
		}
		// all the columns
		for x := 0; x < 6; x++ {
			v := d.elements(a)
			y := []int64{2 * b, -2 * b, 3 * b, 1 << 29, -1 << 22, b / 2}[x]
			for c := range v[k] {
				v[k][c] = v[k][c].AddWrap(signed(y))
			}
			d.tamper("all the columns", a, d.encode(v))
		}
		v := d.elements(a)
		for c := range v[k] {
			v[k][c] = uint128.Zero
		}
		d.tamper("zero", a, d.encode(v))
		v = d.elements(a)
		for c := range v[k] {
			v[k][c] = uint128.Zero.SubWrap(v[k][c])
			if d.kind != "lwe128" {
				v[k][c] = uint128.From64(uint64(uint32(v[k][c].Lo)))
			}
		}
		d.tamper("negated", a, d.encode(v))
		v = d.elements(a)
		h := d.elements(a)
		for c := range v[k] {
			v[k][c] = h[k][(c+1)%len(h[k])]
		}
		d.tamper("rotated", a, d.encode(v))
		if reps > 1 {
			v = d.elements(a)
			v[k] = h[(k+1)%reps]
			d.tamper("another repetition", a, d.encode(v))
		}
	}
	// other databases
	for x := 0; x < 6; x++ {
		bits := append([]byte{}, d.bits...)
		switch x {
		case 0:
			bits[i] ^= 1
		case 1:
			bits[r.Intn(n)] ^= 1
		case 2:
			for y := range bits {
				bits[y] ^= 1
			}
		case 3:
			bits = make([]byte, n)
		case 4:
			bits = bytes.Repeat([]byte{1}, n)
		case 5:
			bits = randEntries(r, n, 0)
		}
		s := d.newServer(bits)
		var o []byte
		if out, _ := guard(func() error { var err error; o, err = s.AnswerBytes(q); return err }); out == "ok" {
			d.tamper("another database", a, o)
			if reps > 1 { // only one repetition
				v, w := d.elements(a), d.elements(o)
				k := r.Intn(reps)
				v[k] = w[k]
				d.tamper("another database in one repetition", a, d.encode(v))
			}
		}
	}
	if d.kind == "amplify" && d.rows > 1 {
		d.guessed(a)
	}
	for _, o := range old {
		d.tamper("replay", a, o)
	}
	d.result(a)
	return a
}

// guessed: the server has found out the scalars of some of the repetitions, and
// answers the opposite bit in them
func (d *lweDB) guessed(a []byte) {
	ts := d.secretT()
	reps := len(d.elements(a))
	if len(ts) != reps || d.smallT() {
		return
	}
	for hits := 1; hits <= reps; hits++ {
		for x := 0; x < 4; x++ {
			which := d.r.Perm(reps)[:hits]
			if x < 2 { // all at the beginning, all at the end
				for y := range which {
					which[y] = []int{y, reps - 1 - y}[x]
				}
			}
			v := d.elements(a)
			j := d.index % d.cols
			for _, k := range which {
				t := ts[k]
				if d.bit() == 1 {
					t = -t
				}
				v[k][j] = uint128.From64(uint64(uint32(v[k][j].Lo) + uint32(t)))
			}
			out, val, msg := d.read(d.encode(v))
			d.sink(M{"ev": "guessed", "hits": hits, "reps": reps, "out": out, "val": val, "msg": msg})
		}
	}
}

// wrongDigest: the client knows the digest of another database
func (d *lweDB) wrongDigest() {
	n := d.rows * d.cols
	for x := 0; x < 3; x++ {
		bits := append([]byte{}, d.bits...)
		if x == 0 {
			bits[d.r.Intn(n)] ^= 1
		} else {
			bits[n-1] ^= 1
			bits[0] ^= 1
		}
		// what the client believes in is d, the server has the other bits
		i := []int{0, n - 1, d.r.Intn(n)}[x]
		q := d.ask(i)
		if q == nil {
			return
		}
		var a, o []byte
		s := d.newServer(bits)
		out, _ := guard(func() error {
			var err error
			if a, err = d.s.AnswerBytes(q); err != nil {
				return err
			}
			o, err = s.AnswerBytes(q)
			return err
		})
		if out == "ok" {
			d.tamper("server with another database", a, o)
		}
	}
}

func c08() {
	r := rng(8)
	var jobs []func(func(M))
	add := func(kind string, t, rows, cols, mode, reps int) {
		bits := randEntries(r, rows*cols, mode)
		rr := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			d := newLWE(rr, kind, t, rows, cols, bits, false, sink)
			if d == nil {
				return
			}
			var old [][]byte
			for x := 0; x < reps; x++ {
				if a := d.attack(x < 2, old); a != nil && len(old) < 3 {
					old = append(old, a)
				}
			}
			d.wrongDigest()
			if len(old) > 0 { // of the wrong shape
				a := old[0]
				d.ask(0)
				for _, b := range [][]byte{nil, {}, a[:len(a)-1], append(append([]byte{}, a...), 0), a[:8], a[:4]} {
					out, val, msg := d.read(b)
					d.sink(M{"ev": "malformed", "what": fmt.Sprintf("%d of %d bytes", len(b), len(a)), "out": out, "val": val, "msg": msg})
				}
				v := d.elements(a)
				for k := range v {
					v[k] = v[k][:len(v[k])-1]
				}
				if len(v[0]) > 0 {
					out, val, msg := d.read(d.encode(v))
					d.sink(M{"ev": "malformed", "what": "one column less", "out": out, "val": val, "msg": msg})
				}
				v = d.elements(a)
				for k := range v {
					v[k] = append(v[k], v[k][0])
				}
				out, val, msg := d.read(d.encode(v))
				d.sink(M{"ev": "malformed", "what": "one column more", "out": out, "val": val, "msg": msg})
				if kind == "amplify" {
					v = d.elements(a)
					out, val, msg := d.read(d.encode(append(v, v[0])))
					d.sink(M{"ev": "malformed", "what": "one repetition more", "out": out, "val": val, "msg": msg})
					if len(v) > 1 {
						out, val, msg := d.read(d.encode(v[1:]))
						d.sink(M{"ev": "malformed", "what": "one repetition less", "out": out, "val": val, "msg": msg})
					}
				}
				d.get(0)
			}
		})
	}
	for x, s := range [][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {3, 3}, {2, 6}, {6, 2}, {8, 8}, {12, 5}, {4, 20}} {
		add("lwe", 0, s[0], s[1], x%4%3, pick(5, 30))
		if s[0]*s[1] < 20 || thorough() {
			add("amplify", 1+x%2, s[0], s[1], (x+1)%4%3, pick(2, 8))
			add("lwe128", 0, s[0], s[1], x%4%3, pick(2, 8))
		}
	}
	add("lwe", 0, 300, 1, 0, 1)
	add("lwe", 0, 1, 60, 0, 1)
	add("lwe128", 0, 120, 1, 0, 1)
	add("amplify", 1, 60, 1, 0, 1)
	// many repetitions
	add("amplify", 5, 2, 1, 0, pick(2, 6))
	add("amplify", 12, 3, 2, 0, pick(1, 4))
	// flat ones
	add("lwe128", 0, 1, 14, 0, 1)
	add("lwe128", 0, 2, 23, 0, 1)
	add("amplify", 1, 2, 21, 0, 1)
	// wide ones: a few columns at the places where a row could be cut
	wide := func(kind string, t, rows, cols int) {
		bits := randEntries(r, rows*cols, 0)
		rr := rand.New(rand.NewSource(r.Int63()))
		jobs = append(jobs, func(sink func(M)) {
			d := newLWE(rr, kind, t, rows, cols, bits, true, sink)
			if d == nil {
				return
			}
			for _, i := range []int{0, cols - 1, rr.Intn(rows * cols)} {
				a := d.get(i)
				if a == nil {
					return
				}
				b := int64(84 * rows)
				for _, c := range []int{0, 7, 8, 63, 64, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, cols / 2, cols - 2, cols - 1, i % cols, rr.Intn(cols)} {
					if c >= cols || (c != i%cols && rr.Intn(3) == 0) {
						continue
					}
					for _, x := range []int64{2*b + int64(rr.Intn(1000)), -1 << 30, b / 4} {
						d.tamper("column", a, d.add(a, rr.Intn(2*t+1), c, signed(x)))
					}
				}
			}
		})
	}
	// the scalars cannot be guessed
	for _, kind := range []string{"lwe", "lwe128", "amplify"} {
		for x, s := range [][2]int{{2, 2}, {5, 1}} {
			kind, rows, cols, x := kind, s[0], s[1], x
			bits := randEntries(r, rows*cols, 0)
			rr := rand.New(rand.NewSource(r.Int63()))
			jobs = append(jobs, func(sink func(M)) {
				if d := newLWE(rr, kind, 3*x, rows, cols, bits, true, sink); d != nil {
					d.measureScalars(pick(320, 1000))
				}
			})
		}
	}
	wide("lwe", 0, 2, 4100)
	wide("lwe", 0, 1, 9000)
	wide("lwe128", 0, 1, 1100)
	wide("amplify", 1, 1, 1100)
	if thorough() {
		wide("lwe", 0, 3, 17000)
		wide("lwe", 0, 1, 66000)
		wide("lwe128", 0, 2, 4200)
		wide("amplify", 2, 2, 4200)
	}
	if thorough() {
		add("lwe", 0, 100, 100, 0, 4)
		add("amplify", 4, 10, 10, 0, 4)
		add("lwe128", 0, 20, 20, 0, 3)
	}
	t := time.Now()
	parallel(jobs)
	_ = t
}

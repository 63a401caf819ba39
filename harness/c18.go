package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"

	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() { drivers["c18"] = c18 }

const p31 = 1<<31 - 1

func words(v []uint32) [][2]int {
	out := make([][2]int, len(v))
	for i, x := range v {
		out[i] = [2]int{int(x >> 16), int(x & 0xffff)}
	}
	return out
}

func elems(v []uint32) []int {
	out := make([]int, len(v))
	for i, x := range v {
		out[i] = int(x)
	}
	return out
}

type fssRun struct {
	servers [2]*fss.Fss
	k       int
}

type fssKey struct {
	num  int
	a    []bool
	b    []uint32
	keys []fss.FssKeyEq2P
}

func (f *fssRun) gen(a []bool, b []uint32) *fssKey {
	k := &fssKey{a: a, b: b}
	out, msg := guard(func() error {
		k.keys = fss.ClientInitialize(len(b)).GenerateTreePF(append([]bool{}, a...), append([]uint32{}, b...))
		if len(k.keys) != 2 {
			return fmt.Errorf("%d keys", len(k.keys))
		}
		return nil
	})
	f.k++
	k.num = f.k
	T.Emit(M{"ev": "gen", "k": f.k, "a": bools(a), "b": elems(b), "out": out, "msg": msg})
	if out != "ok" {
		return nil
	}
	return k
}

func (f *fssRun) eval(k *fssKey, x []bool) M {
	n := len(k.b)
	v := [2][]uint32{make([]uint32, n), make([]uint32, n)}
	for i := range v[0] { // the servers use their slices again
		v[0][i], v[1][i] = uint32(i)*77777, p31-uint32(i)
	}
	out, msg := guard(func() error {
		for s := range v {
			f.servers[s].EvaluatePF(byte(s), k.keys[s], x, v[s])
		}
		return nil
	})
	return M{"ev": "eval", "k": k.num, "x": bools(x), "v0": words(v[0]), "v1": words(v[1]), "out": out, "msg": msg}
}

func randBits(r *rand.Rand, n int) []bool {
	b := make([]bool, n)
	for i := range b {
		b[i] = r.Intn(2) == 1
	}
	return b
}

func randVec(r *rand.Rand, n int) []uint32 {
	v := make([]uint32, n)
	for i := range v {
		switch r.Intn(6) {
		case 0:
			v[i] = 0
		case 1:
			v[i] = 1
		case 2:
			v[i] = p31 - 1
		case 3:
			v[i] = uint32(r.Intn(3))
		default:
			v[i] = uint32(r.Int63n(p31))
		}
	}
	return v
}

func newFssRun(name string, bl int) *fssRun {
	Begin(name, nil)
	return &fssRun{servers: [2]*fss.Fss{fss.ServerInitialize(bl), fss.ServerInitialize(bl)}}
}

// alikeKeys are pairs of keys which differ from the given ones in one place
func alikeKeys(r *rand.Rand, ks []fss.FssKeyEq2P) [][]fss.FssKeyEq2P {
	var out [][]fss.FssKeyEq2P
	change := func(f func(k *fss.FssKeyEq2P)) {
		var v []fss.FssKeyEq2P
		for _, k := range ks {
			c := fss.FssKeyEq2P{SInit: append([]byte{}, k.SInit...), TInit: k.TInit, FinalCW: append([]uint32{}, k.FinalCW...)}
			for _, w := range k.CW {
				c.CW = append(c.CW, append([]byte{}, w...))
			}
			f(&c)
			v = append(v, c)
		}
		out = append(out, v)
	}
	for i := range ks[0].SInit {
		change(func(k *fss.FssKeyEq2P) { k.SInit[i] ^= 1 << uint(r.Intn(8)) })
	}
	change(func(k *fss.FssKeyEq2P) { k.TInit ^= 1 })
	n := len(ks[0].CW)
	for _, l := range []int{0, 1, 7, n / 2, n - 2, n - 1, r.Intn(n)} {
		if l < 0 || l >= n {
			continue
		}
		for _, c := range []int{0, 15, 16, 17, r.Intn(18)} {
			change(func(k *fss.FssKeyEq2P) { k.CW[l][c] ^= 1 })
		}
	}
	for i := range ks[0].FinalCW {
		change(func(k *fss.FssKeyEq2P) { k.FinalCW[i] = (k.FinalCW[i] + 1) % p31 })
	}
	return out
}

func c18() {
	r := rng(18)
	// the whole domain
	for n := 1; n <= pick(7, 10); n++ {
		for rep := 0; rep < pick(6, 16); rep++ {
			bl := []int{1, 5, 2, 4, 3, 8, 16, 17, 20, 33}[rep%10]
			f := newFssRun(fmt.Sprintf("domain-%d-%d", n, rep), bl)
			a := randBits(r, n)
			if rep == 0 {
				a = make([]bool, n)
			}
			k := f.gen(a, randVec(r, bl))
			if k == nil {
				continue
			}
			for x := 0; x < 1<<uint(n); x++ {
				xs := make([]bool, n)
				for i := range xs {
					xs[i] = x>>uint(i)&1 == 1
				}
				T.Emit(f.eval(k, xs))
			}
		}
	}
	// near misses in large domains
	for _, n := range []int{8, 16, 32, 63, 64, 65, 120, 127, 128, 129, 160, 200, 248, 255, 256, 264, 320, 512} {
		for rep := 0; rep < pick(3, 12); rep++ {
			bl := []int{1, 5, 1 + r.Intn(40)}[rep%3]
			f := newFssRun(fmt.Sprintf("near-%d-%d", n, rep), bl)
			a := randBits(r, n)
			if rep%3 == 1 {
				for i := range a {
					a[i] = rep%2 == 1
				}
			}
			k := f.gen(a, randVec(r, bl))
			if k == nil {
				continue
			}
			T.Emit(f.eval(k, a))
			for i := 0; i < n; i++ {
				if n > 130 && !thorough() && i%3 != rep && i != 256 && i != 255 {
					continue
				}
				x := append([]bool{}, a...)
				x[i] = !x[i]
				T.Emit(f.eval(k, x))
			}
			for i := 0; i < 12; i++ { // shared prefix, shared suffix, anything
				x := randBits(r, n)
				c := r.Intn(n)
				if i%3 == 0 {
					copy(x[:c], a[:c])
				} else if i%3 == 1 {
					copy(x[c:], a[c:])
				}
				T.Emit(f.eval(k, x))
			}
			T.Emit(f.eval(k, a))
		}
	}
	// keys that resemble one another, evaluated before
	for rep := 0; rep < pick(6, 40); rep++ {
		n := []int{64, 128, 40, 256, 8, 512}[rep%6]
		f := newFssRun(fmt.Sprintf("alike-%d-%d", n, rep), 5)
		a := randBits(r, n)
		k := f.gen(a, randVec(r, 5))
		if k == nil {
			continue
		}
		for _, v := range alikeKeys(r, k.keys) {
			guard(func() error {
				o := make([]uint32, 5)
				for s := range f.servers {
					f.servers[s].EvaluatePF(byte(s), v[s], a, o)
				}
				return nil
			})
			if r.Intn(4) == 0 {
				T.Emit(f.eval(k, a))
				x := append([]bool{}, a...)
				x[r.Intn(n)] = r.Intn(2) == 0
				T.Emit(f.eval(k, x))
			}
		}
		T.Emit(f.eval(k, a))
		x := append([]bool{}, a...)
		x[n-1] = !x[n-1]
		T.Emit(f.eval(k, x))
		// the same point with other keys
		for i := 0; i < 3; i++ {
			if k2 := f.gen(a, randVec(r, 5)); k2 != nil {
				T.Emit(f.eval(k2, a))
				T.Emit(f.eval(k, a))
				T.Emit(f.eval(k, x))
				T.Emit(f.eval(k2, x))
			}
		}
	}
	// many keys at the target and elsewhere: values of every kind
	f := newFssRun("values", 5)
	for i := 0; i < pick(1500, 12000); i++ {
		n := 1 + r.Intn(24)
		k := f.gen(randBits(r, n), randVec(r, 1+r.Intn(9)))
		if k == nil {
			continue
		}
		T.Emit(f.eval(k, k.a))
		x := append([]bool{}, k.a...)
		x[r.Intn(n)] = !x[0]
		T.Emit(f.eval(k, x))
	}
	// the evaluators are used again and concurrently
	for rep := 0; rep < pick(4, 20); rep++ {
		f := newFssRun(fmt.Sprintf("concurrent-%d", rep), 5)
		var ks []*fssKey
		for i := 0; i < 8; i++ {
			if k := f.gen(randBits(r, 40+i), randVec(r, 5)); k != nil {
				ks = append(ks, k)
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var evs []M
		for i, k := range ks {
			wg.Add(1)
			go func(k *fssKey, r *rand.Rand) {
				defer wg.Done()
				var mine []M
				for j := 0; j < pick(120, 400); j++ {
					x := append([]bool{}, k.a...)
					if j%2 == 1 {
						x[r.Intn(len(x))] = r.Intn(2) == 0
					}
					mine = append(mine, f.eval(k, x))
				}
				mu.Lock()
				evs = append(evs, mine...)
				mu.Unlock()
			}(k, rand.New(rand.NewSource(seed+int64(i))))
		}
		wg.Wait()
		for _, e := range evs {
			T.Emit(e)
		}
		// sequentially again, with fresh evaluators and with the used ones
		fresh := &fssRun{servers: [2]*fss.Fss{fss.ServerInitialize(5), fss.ServerInitialize(5)}}
		for _, k := range ks {
			for j := 0; j < 4; j++ {
				x := randBits(r, len(k.a))
				if j == 0 {
					x = k.a
				}
				one, two, three := f.eval(k, x), fresh.eval(k, x), f.eval(k, x)
				T.Emit(M{"ev": "again", "out": one["out"], "same": fmt.Sprint(one) == fmt.Sprint(two) && fmt.Sprint(one) == fmt.Sprint(three)})
			}
		}
	}
	fieldHelpers(r)
}

// tape is a source of given bytes, then of pseudorandom ones
type tape struct {
	b []byte
	r *rand.Rand
}

func (t *tape) Read(p []byte) (int, error) {
	n := copy(p, t.b)
	t.b = t.b[n:]
	if n < len(p) {
		t.r.Read(p[n:])
	}
	return len(p), nil
}

func fieldHelpers(r *rand.Rand) {
	Begin("field", nil)
	special := []uint32{0, 1, 2, p31 - 1, p31, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, 0x7ffffffe, 0xff000000}
	for i := 0; i < 200; i++ {
		in := randVec(r, r.Intn(8))
		if i == 0 {
			in = []uint32{0, 1, p31 - 1, p31 / 2, p31}
		}
		var res []uint32
		arg := append([]uint32{}, in...)
		out, _ := guard(func() error { res = field.NegateVector(arg); return nil })
		T.Emit(M{"ev": "negate", "in": words(in), "res": words(res), "out": out})
	}
	elements := func(n int, f func() []uint32) {
		var a, b []uint32
		out, _ := guard(func() error { a = f(); b = f(); return nil })
		T.Emit(M{"ev": "elements", "n": n, "res": words(a), "same": fmt.Sprint(a) == fmt.Sprint(b), "out": out})
	}
	for i := 0; i < 300; i++ {
		n := 1 + r.Intn(9)
		in := randBytes(r, 4*n)
		for j := 0; j < n; j++ {
			if r.Intn(2) == 0 {
				binary.BigEndian.PutUint32(in[4*j:], special[r.Intn(len(special))])
			}
		}
		elements(n, func() []uint32 {
			o := make([]uint32, n)
			field.BytesToElements(o, append([]byte{}, in...))
			return o
		})
		s := r.Int63()
		mk := func() *tape { return &tape{append([]byte{}, in...), rand.New(rand.NewSource(s))} }
		elements(n, func() []uint32 { return field.RandVectorWithPRG(n, mk()) })
		elements(1, func() []uint32 { return []uint32{field.RandElementWithPRG(mk())} })
	}
	for i := 0; i < 50; i++ {
		var v []uint32
		n := r.Intn(20)
		out, _ := guard(func() error { v = append(field.RandVector(n), field.RandElement()); return nil })
		T.Emit(M{"ev": "elements", "n": n + 1, "res": words(v), "same": true, "out": out})
	}
	var k utils.PRGKey
	r.Read(k[:])
	elements(100, func() []uint32 { return field.RandVectorWithPRG(100, utils.NewPRG(&k)) })
}

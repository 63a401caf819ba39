package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"

	"github.com/si-co/vpir-code/lib/ecc"
)

func init() { drivers["c09"] = c09 }

func u32s(w []uint32) []string {
	out := make([]string, len(w))
	for i, x := range w {
		out[i] = strconv.FormatUint(uint64(x), 10)
	}
	return out
}

func eccDecode(e *ecc.ECC, t int, w []uint32, sent *uint32) {
	before := u32s(w)
	var v uint32
	out, _ := guard(func() error {
		var err error
		v, err = e.Decode(w)
		return err
	})
	m := M{"ev": "decode", "t": t, "word": before, "after": u32s(w), "out": out, "val": fmt.Sprint(v)}
	if sent != nil {
		m["sent"] = fmt.Sprint(*sent)
	}
	T.Emit(m)
}

// runs is a word as runs of equal symbols
func runs(w []uint32) [][2]interface{} {
	out := [][2]interface{}{}
	for i := 0; i < len(w); {
		j := i
		for j < len(w) && w[j] == w[i] {
			j++
		}
		out = append(out, [2]interface{}{fmt.Sprint(w[i]), j - i})
		i = j
	}
	return out
}

// longDecode is a decode event of a long word of few runs
func longDecode(e *ecc.ECC, t int, w []uint32, sent *uint32) {
	before := runs(w)
	n := len(w)
	var v uint32
	out, _ := guard(func() error {
		var err error
		v, err = e.Decode(w)
		return err
	})
	m := M{"ev": "longdecode", "t": t, "len": n, "runs": before, "after": runs(w), "out": out, "val": fmt.Sprint(v)}
	if sent != nil {
		m["sent"] = fmt.Sprint(*sent)
	}
	T.Emit(m)
}

// c09Long: the counts that a decoder keeps do not overflow
func c09Long(r *rand.Rand) {
	// shuffled words of some hundred symbols
	Begin("hundreds", nil)
	for _, t := range []int{63, 64, 127, 128, 129, 150, 191, 255, 256, 257, 300} {
		s := r.Uint32()
		for k := 0; k < pick(2, 8); k++ {
			n := 2*t + 1
			w := make([]uint32, n)
			errs := []int{t, t + 1, r.Intn(t + 1), n - 1}[k%4]
			for i := range w {
				w[i] = s
				if i < errs {
					w[i] = s ^ 1
					if k%3 == 2 {
						w[i] = r.Uint32()
					}
				}
			}
			r.Shuffle(n, func(i, j int) { w[i], w[j] = w[j], w[i] })
			eccDecode(ecc.New(t), t, w, &s)
		}
	}
	Begin("long", nil)
	ts := []int{100, 127, 128, 255, 256, 511, 512, 1000, 32767, 32768, 65535, 65536, 70000}
	if thorough() {
		ts = append(ts, 131071, 131072, 1<<20, 1<<23, 1<<24)
	}
	for _, t := range ts {
		n := 2*t + 1
		e := ecc.New(t)
		s := r.Uint32()
		var w []uint32
		out, _ := guard(func() error { w = e.Encode(s); return nil })
		T.Emit(M{"ev": "longencode", "t": t, "val": fmt.Sprint(s), "runs": runs(w), "len": len(w), "out": out})
		for _, maj := range []int{n, t + 1, t, t + 2, n / 3, n - n/4, 256, 65536, t + 1 + r.Intn(t)} {
			for k := 0; k < 3; k++ {
				if maj > n {
					continue
				}
				c := make([]uint32, n)
				for i := range c {
					p := i
					switch k {
					case 1: // the rest in front
						p = n - 1 - i
					case 2: // in the middle
						p = (i + n/2 + maj/2) % n
					}
					c[p] = s
					if i >= maj {
						c[p] = s + 1
						if i > (n+maj)/2 && maj != t {
							c[p] = s + 2
						}
					}
				}
				longDecode(e, t, c, &s)
			}
		}
	}
	// even lengths: exactly a half is no majority
	for _, n := range []int{200, 256, 510, 512, 514, 1024, 65536, 131072, 131074} {
		for _, maj := range []int{n / 2, n/2 + 1} {
			c := make([]uint32, n)
			for i := maj; i < n; i++ {
				c[i] = 7
			}
			longDecode(ecc.New(n/2), n/2, c, nil)
		}
	}
}

// c09 decodes all the words over small alphabets, and encoded words with all
// (small t) or random (larger t) corruptions
func c09() {
	alphabets := [][]uint32{{0, 1, math.MaxUint32}, {7, 0, 1 << 31}}
	lens := []int{pick(8, 9), pick(6, 9)}
	for a, alpha := range alphabets {
		for n := 0; n <= lens[a]; n++ {
			Begin(fmt.Sprintf("words-%d-%d", a, n), nil)
			e := ecc.New(n / 2)
			total := 1
			for i := 0; i < n; i++ {
				total *= len(alpha)
			}
			for x := 0; x < total; x++ {
				w := make([]uint32, n)
				for i, y := 0, x; i < n; i++ {
					w[i] = alpha[y%len(alpha)]
					y /= len(alpha)
				}
				eccDecode(e, n/2, w, nil)
			}
		}
	}
	r := rng(9)
	c09Long(r)
	// many symbols
	Begin("five-symbols", nil)
	for n := 0; n < pick(2000, 20000); n++ {
		w := make([]uint32, r.Intn(14))
		for i := range w {
			w[i] = uint32(r.Intn(5))
		}
		eccDecode(ecc.New(3), 3, w, nil)
	}
	// two symbols of which one has just (not) the majority
	Begin("borderline", nil)
	for n := 1; n <= pick(41, 121); n++ {
		for _, maj := range []int{n / 2, n/2 + 1, (n+1)/2 - 1} {
			for k := 0; k < 6; k++ {
				a, b := r.Uint32(), r.Uint32()
				if k%2 == 0 {
					a = 0 // the zero symbol is a symbol as any other
				}
				w := make([]uint32, n)
				for i := range w {
					if i < maj {
						w[i] = a
					} else if k%3 == 2 {
						w[i] = r.Uint32() // distinct minority
					} else {
						w[i] = b
					}
				}
				if k < 3 {
					r.Shuffle(n, func(i, j int) { w[i], w[j] = w[j], w[i] })
				} else if k == 4 {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						w[i], w[j] = w[j], w[i]
					}
				}
				eccDecode(ecc.New(n/2), n/2, w, nil)
			}
		}
	}
	for t := 0; t <= pick(24, 60); t++ {
		Begin(fmt.Sprintf("code-%d", t), nil)
		e := ecc.New(t)
		for _, s := range []uint32{0, 1, math.MaxUint32, r.Uint32()} {
			var w []uint32
			out, _ := guard(func() error { w = e.Encode(s); return nil })
			T.Emit(M{"ev": "encode", "t": t, "val": fmt.Sprint(s), "word": u32s(w), "out": out})
			if out != "ok" {
				continue
			}
			for k := 0; k < pick(6, 30); k++ {
				c := corrupted(r, w, s, k, t)
				eccDecode(e, t, c, &s)
			}
		}
	}
}

// corrupted changes at most t positions: at the front, at the back, alternating or anywhere
func corrupted(r *rand.Rand, w []uint32, s uint32, k, t int) []uint32 {
	c := append([]uint32{}, w...)
	n := t
	if k%6 == 5 && t > 0 {
		n = r.Intn(t)
	}
	if n > len(c) {
		n = len(c)
	}
	for j := 0; j < n; j++ {
		p := j
		switch k % 6 {
		case 1:
			p = len(c) - 1 - j
		case 2:
			p = (2*j + 1) % len(c)
		case 3, 5:
			p = r.Intn(len(c))
		}
		if k%2 == 0 {
			c[p] = s + 1
		} else {
			c[p] = r.Uint32()
		}
	}
	return c
}

package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/si-co/vpir-code/lib/fss"
)

func init() { drivers["c05"] = c05 }

func mulp(a, b uint32) uint32 { return uint32(uint64(a) * uint64(b) % p31) }
func addp(a, b uint32) uint32 { return uint32((uint64(a) + uint64(b)) % p31) }

// secret computes 1, alpha_1, .., alpha_4 from both keys, which no server can
func secret(x *exchange, in []bool) []uint32 {
	q0, err := decodeFSS(x.queries[0])
	if err != nil {
		return nil
	}
	q1, err := decodeFSS(x.queries[1])
	if err != nil {
		return nil
	}
	var v []uint32
	guard(func() error {
		a, b := make([]uint32, 5), make([]uint32, 5)
		f := fss.ServerInitialize(5)
		f.EvaluatePF(0, q0.FssKey, in, a)
		f.EvaluatePF(1, q1.FssKey, in, b)
		for i := range a {
			v = append(v, addp(a[i], b[i]))
		}
		return nil
	})
	return v
}

// secrets compares the verification keys of many queries. They have to be
// independent of each other: nothing that relates two of them repeats. The
// randomness of the last queries begins with the same bytes, fewer than the
// keys have.
func secrets(r *rand.Rand, n int) {
	Begin("secrets", nil)
	ks := randKeys(r, 2)
	t := newTable(ks, true, utc, utc)
	t.emit()
	p := pred{kind: "email", part: "end", text: "ch"}
	in := p.query(r).Input
	collect := func(f func(x int) *exchange) (vals [][]uint32) {
		for x := 0; x < n; x++ {
			if e := f(x); e != nil && e.out == "ok" {
				if a := secret(e, in); len(a) == 5 {
					vals = append(vals, a[1:])
				}
			}
		}
		return
	}
	emit := func(what string, vals [][]uint32, bits bool) {
		worst, missing := n, 0
		count := func(f func(a []uint32) uint32) {
			d := map[uint32]bool{}
			for _, a := range vals {
				d[f(a)] = true
			}
			if len(d) < worst {
				worst = len(d)
			}
		}
		for i := 0; i < 4; i++ {
			i := i
			count(func(a []uint32) uint32 { return a[i] })
			for j := 0; j < i; j++ {
				j := j
				inv := func(v uint32) uint32 { // v^(p-2)
					o := uint32(1)
					for e := uint32(p31 - 2); e > 0; e >>= 1 {
						if e&1 == 1 {
							o = mulp(o, v)
						}
						v = mulp(v, v)
					}
					return o
				}
				count(func(a []uint32) uint32 { return addp(a[i], p31-a[j]) })
				count(func(a []uint32) uint32 { return addp(a[i], a[j]) })
				count(func(a []uint32) uint32 { return mulp(a[i], a[j]) })
				count(func(a []uint32) uint32 { return mulp(a[i], inv(a[j])) })
				count(func(a []uint32) uint32 { return addp(a[i], p31-mulp(a[j], a[j])) })
				count(func(a []uint32) uint32 { return addp(a[j], p31-mulp(a[i], a[i])) })
				count(func(a []uint32) uint32 { return a[i] ^ a[j] })
			}
			for b := uint(0); bits && b < 31; b++ {
				var c [2]int
				for _, a := range vals {
					c[a[i]>>b&1]++
				}
				if c[0]*5 < n || c[1]*5 < n {
					missing++
				}
			}
		}
		T.Emit(M{"ev": "secrets", "what": what, "n": n, "got": len(vals), "distinct": worst, "biased": missing})
	}
	one := t.client(r)
	emit("successive queries", collect(func(int) *exchange { return t.exchange(r, one, p) }), true)
	emit("new clients", collect(func(int) *exchange { return t.exchange(r, t.client(r), p) }), true)
	start := randBytes(r, 12)
	var all [][]uint32
	all = collect(func(int) *exchange {
		return t.exchange(r, tapeFSS(true, &meter{b: append(append([]byte{}, start...), randBytes(r, 4000)...)}), p)
	})
	d := map[string]bool{}
	for _, a := range all {
		d[fmt.Sprint(a)] = true
	}
	T.Emit(M{"ev": "secrets", "what": "all the keys, with randomness that begins with the same 12 bytes", "n": n, "got": len(all),
		"distinct": len(d), "biased": 0})
	start = start[:4]
	last := collect(func(int) *exchange {
		return t.exchange(r, tapeFSS(true, &meter{b: append(append([]byte{}, start...), randBytes(r, 4000)...)}), p)
	})
	worst := n
	for i := 0; i < 4; i++ { // all the others differ
		d := map[string]bool{}
		for _, a := range last {
			b := append([]uint32{}, a...)
			d[fmt.Sprint(append(b[:i], b[i+1:]...))] = true
		}
		if len(d) < worst {
			worst = len(d)
		}
	}
	T.Emit(M{"ev": "secrets", "what": "three of the keys, with randomness that begins with the same 4 bytes", "n": n, "got": len(last),
		"distinct": worst, "biased": 0})
}

// tamper presents an answer with a deviation of one server
func (x *exchange) tamper(what string, s int, a []byte) {
	ans := clone2(x.answers)
	ans[s] = a
	x.present(what, ans)
}

func (x *exchange) present(what string, ans [][]byte) {
	out, v := x.reconstruct(ans)
	T.Emit(M{"ev": "tampered", "what": what, "pred": x.p.m(), "out": out, "val": v})
}

func (x *exchange) deviate(what string, s int, d []uint32) {
	w := getWords(x.answers[s])
	for i := range w {
		if i < len(d) {
			w[i] = addp(w[i]%p31, d[i])
		}
	}
	x.tamper(what, s, putWords(w))
}

func c05() {
	r := rng(5)
	for rep := 0; rep < pick(40, 250); rep++ {
		n := []int{1, 2, 5, 12}[rep%4]
		ks := randKeys(r, n)
		t := newTable(ks, true, utc, utc)
		Begin(fmt.Sprintf("tamper-%d", rep), nil)
		t.emit()
		c := t.client(r)
		var prev *exchange
		for i := 0; i < pick(4, 8); i++ {
			p := randPred(r, ks)
			switch (rep + i) % 5 {
			case 0, 1:
				p.kind = "avg"
			case 2: // nothing matches
				p.kind, p.part, p.text = "email", "end", "nobody@nowhere"
				if i%2 == 1 {
					p.kind = "avg"
				}
			}
			var in []bool
			q := p.query(r)
			in = q.Input
			x := t.exchange(r, c, p)
			T.Emit(x.result())
			if x.out != "ok" {
				continue
			}
			for s := 0; s < 2; s++ {
				x.attack(r, t, s, in, prev)
			}
			// the client still accepts the honest answers
			T.Emit(x.result())
			prev = x
		}
	}
	secrets(r, pick(120, 600))
	if time.Now().UTC().Year() != thisYear {
		fail("the year has changed during the run")
	}
}

func (x *exchange) attack(r *rand.Rand, t *table, s int, in []bool, prev *exchange) {
	n := len(x.answers[s]) / 4
	vec := func() []uint32 { return make([]uint32, n) }
	rnd := func() uint32 { return 1 + uint32(r.Int63n(p31-1)) }
	// each coordinate, each pair
	for i := 0; i < n; i++ {
		for _, d := range []uint32{1, p31 - 1, rnd()} {
			v := vec()
			v[i] = d
			x.deviate("coordinate", s, v)
		}
		for j := 0; j < i; j++ {
			v := vec()
			v[i], v[j] = rnd(), rnd()
			x.deviate("pair", s, v)
			v = vec()
			v[i], v[j] = 1, 1
			x.deviate("pair", s, v)
			w := getWords(x.answers[s])
			if w[i] != w[j] {
				w[i], w[j] = w[j], w[i]
				x.tamper("swapped", s, putWords(w))
			}
		}
	}
	for k := 0; k < 6; k++ {
		v := vec()
		for i := range v {
			v[i] = rnd()
		}
		x.deviate("random", s, v)
		x.tamper("random-answer", s, putWords(v))
	}
	all := vec()
	for i := range all {
		all[i] = 1
	}
	x.deviate("all-ones", s, all)
	// scaled, negated
	for _, c := range []uint32{0, 2, 3, p31 - 1, rnd()} {
		w := getWords(x.answers[s])
		for i := range w {
			w[i] = mulp(w[i]%p31, c)
		}
		x.tamper("scaled", s, putWords(w))
		for part := 0; part < n; part += 5 {
			w := getWords(x.answers[s])
			for i := part; i < part+5 && i < n; i++ {
				w[i] = mulp(w[i]%p31, c)
			}
			x.tamper("scaled-part", s, putWords(w))
		}
	}
	// outside of the field
	for i := 0; i < n; i++ {
		w := getWords(x.answers[s])
		w[i] ^= 1 << uint(r.Intn(31))
		x.tamper("bit", s, putWords(w))
		w = getWords(x.answers[s])
		w[i] = ^uint32(0) - uint32(r.Intn(4))
		x.tamper("large", s, putWords(w))
	}
	// with knowledge of all the secrets but one: exactly that tag is wrong
	if a := secret(x, in); len(a) == 5 && n%5 == 0 {
		d := rnd()
		for i := 1; i < 5; i++ {
			if a[i] == 0 {
				continue
			}
			for part := 0; part < n; part += 5 {
				v := vec()
				for j := 0; j < 5; j++ {
					v[part+j] = mulp(d, a[j])
				}
				v[part+i] = 0
				x.deviate("all-but-one-tag", s, v)
				v[part+i] = mulp(d, addp(a[i], 1))
				x.deviate("all-but-one-tag", s, v)
				if n > 5 { // both parts, one tag wrong in one of them
					for j := 0; j < 5; j++ {
						v[j], v[5+j] = mulp(d, a[j]), mulp(d, a[j])
					}
					v[part+i] = 0
					x.deviate("all-but-one-tag-both", s, v)
				}
			}
			// a tag of another secret
			for part := 0; part < n; part += 5 {
				v := vec()
				for j := 0; j < 5; j++ {
					v[part+j] = mulp(d, a[j])
				}
				o := 1 + i%4
				v[part+i] = mulp(d, a[o])
				x.deviate("other-tag", s, v)
			}
		}
		// the value changed, the tags kept; the tags changed, the value kept
		for part := 0; part < n; part += 5 {
			v := vec()
			v[part] = 1
			x.deviate("value-only", s, v)
			v = vec()
			for j := 1; j < 5; j++ {
				v[part+j] = mulp(d, a[j])
			}
			x.deviate("tags-only", s, v)
			if n > 5 { // tags of the other part
				v = vec()
				v[part] = d
				for j := 1; j < 5; j++ {
					v[(part+5)%10+j] = mulp(d, a[j])
				}
				x.deviate("tags-in-other-part", s, v)
			}
		}
	}
	// count and sum exchanged, one used for both
	if n == 10 {
		w := getWords(x.answers[s])
		x.tamper("parts-swapped", s, putWords(append(append([]uint32{}, w[5:]...), w[:5]...)))
		x.tamper("count-twice", s, putWords(append(append([]uint32{}, w[:5]...), w[:5]...)))
		x.tamper("sum-twice", s, putWords(append(append([]uint32{}, w[5:]...), w[5:]...)))
	}
	// lengths, also consistently with the other server's answer
	full := append([]byte{}, x.answers[s]...)
	for _, l := range []int{0, 1, 2, 3, 4, 5, 8, 12, 16, 19, 20, 21, 24, 36, 39, 40, 44, 80} {
		if l == len(full) {
			continue
		}
		b := append(append([]byte{}, full...), full...)
		b = append(b, full...)
		b = append(b, full...)[:l]
		x.tamper("length", s, b)
	}
	x.tamper("nil", s, nil)
	// another kind of answer: a count for an average and the reverse
	p := x.p
	if p.kind == "avg" {
		p.kind = "email"
	} else {
		p.kind, p.part, p.text = "avg", "end", "h"
	}
	if y := t.exchange(r, t.client(r), p); y.out == "ok" {
		x.tamper("other-kind", s, y.answers[s])
	}
	// the answer to the same predicate for another client, and to an earlier query
	if y := t.exchange(r, t.client(r), x.p); y.out == "ok" {
		x.tamper("other-client", s, y.answers[s])
		x.tamper("other-client-other-server", s, y.answers[1-s])
	}
	if prev != nil {
		x.tamper("replayed", s, prev.answers[s])
	}
	// the key of the query evaluated over other metadata
	for k := 0; k < 4; k++ {
		ks := append([]meta{}, t.keys...)
		what := ""
		switch k {
		case 0:
			what, ks = "key-removed", ks[1:]
		case 1:
			what, ks = "key-added", append(ks, ks[r.Intn(len(ks))])
		case 2:
			what = "email-changed"
			ks[r.Intn(len(ks))].email = x.p.text
		case 3:
			what = "time-changed"
			for i := range ks {
				ks[i].t = ks[i].t.AddDate(-1-i, 0, 0)
			}
		}
		srv := fssSrv(keysDB(ks, utc), byte(s), true)
		if a, err := srv.AnswerBytes(x.queries[s]); err == nil {
			x.tamper(what, s, a)
		}
	}
	// as the other server
	if a, err := fssSrv(t.dbs[s], byte(1-s), true).AnswerBytes(x.queries[s]); err == nil {
		x.tamper("as-other-server", s, a)
	}
	x.present("one", x.answers[:1])
	x.present("three", append(clone2(x.answers), full))
	x.present("none", nil)
}

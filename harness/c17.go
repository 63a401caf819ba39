package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
)

func init() { drivers["c17"] = c17 }

// party is a client with its servers of one scheme
type party struct {
	name    string
	scheme  string
	setup   M
	k       int
	servers []func(q []byte) ([]byte, error)
	ask     func(index int, avg bool) ([][]byte, error)
	present func(a [][]byte) (interface{}, error)
	fresh   func() *party // with a client that has not asked anything
	records int
	es      int
	g       group.Group
	r       *rand.Rand
	sink    func(M)
	dead    bool
}

func cap30(x int) int {
	if x > 1<<26 {
		return 1 << 26
	}
	if x < -1<<26 {
		return -1 << 26
	}
	return x
}

// decodable: all the elements of a DH message
func decodable(g group.Group, es int, b []byte) bool {
	if es == 0 || len(b)%es != 0 {
		return false
	}
	for i := 0; i < len(b); i += es {
		c := b[i : i+es]
		if bytes.Equal(c, make([]byte, es)) {
			continue
		}
		if out, _ := guardT(5*time.Second, func() error { return g.NewElement().UnmarshalBinary(c) }); out != "ok" {
			return false
		}
	}
	return true
}

func structure(b []byte) M {
	m := M{"decodable": false, "info": false, "fromStart": 0, "fromEnd": 0, "and": false, "avg": false, "sum": false, "target": 0,
		"sInit": 0, "final": 0, "cw": []int{}}
	var q *query.FSS
	buf := bytes.NewBuffer(append([]byte{}, b...))
	out, _ := guardT(10*time.Second, func() error { return gob.NewDecoder(buf).Decode(&q) })
	if out != "ok" || buf.Len() != 0 || q == nil {
		return m
	}
	m["decodable"] = true
	m["sInit"], m["final"] = len(q.FssKey.SInit), len(q.FssKey.FinalCW)
	cw := []int{}
	for _, c := range q.FssKey.CW {
		cw = append(cw, len(c))
	}
	m["cw"] = cw
	if q.Info != nil {
		m["info"], m["fromStart"], m["fromEnd"] = true, cap30(q.FromStart), cap30(q.FromEnd)
		m["and"], m["avg"], m["sum"], m["target"] = q.And, q.Avg, q.Sum, int(q.Target)
	}
	return m
}

func (p *party) describe(b []byte, isQuery bool) M {
	m := M{"len": len(b)}
	switch p.scheme {
	case "lwe", "lwe128", "amplify":
		m["bytes"] = ints(b)
	case "dh":
		m["decodable"] = decodable(p.g, p.es, b)
	case "predicate":
		if isQuery {
			m["query"] = structure(b)
		}
	}
	return m
}

// within places the messages inside of larger slices
func within(ms [][]byte, fill byte) (in [][]byte, whole [][]byte) {
	for _, m := range ms {
		w := bytes.Repeat([]byte{fill}, 64+len(m)+192)
		copy(w[64:], m)
		whole = append(whole, w)
		in = append(in, w[64:64+len(m)])
	}
	return
}

// react runs f on the messages in two surroundings
func (p *party) react(ms [][]byte, f func(in [][]byte) (interface{}, error)) (out, msg string, same, touched bool) {
	var vals [2]interface{}
	var outs [2]string
	for i, fill := range []byte{0, 0xA7} {
		in, whole := within(ms, fill)
		if ms == nil {
			in = nil
		}
		_, orig := within(ms, fill)
		outs[i], msg = guardT(30*time.Second, func() error {
			v, err := f(in)
			vals[i] = v
			return err
		})
		if outs[i] == "hang" {
			p.dead = true
			return "hang", "", true, false
		}
		for j := range whole {
			if !bytes.Equal(whole[j], orig[j]) {
				touched = true
			}
		}
		if outs[i] != "ok" {
			vals[i] = nil
		}
	}
	return outs[0], msg, outs[0] == outs[1] && reflect.DeepEqual(vals[0], vals[1]), touched
}

func (p *party) serve(what string, s int, q []byte) {
	if p.dead {
		return
	}
	out, msg, same, touched := p.react([][]byte{q}, func(in [][]byte) (interface{}, error) { return p.servers[s](in[0]) })
	p.sink(M{"ev": "serve", "what": what, "server": s, "m": p.describe(q, true), "out": out, "msg": msg, "same": same, "touched": touched})
}

func (p *party) show(what string, avg bool, a [][]byte) {
	if p.dead {
		return
	}
	out, msg, same, touched := p.react(a, func(in [][]byte) (interface{}, error) { return p.present(in) })
	ms := []M{}
	for _, x := range a {
		ms = append(ms, p.describe(x, false))
	}
	p.sink(M{"ev": "present", "what": what, "avg": avg, "ms": ms, "out": out, "msg": msg, "same": same, "touched": touched})
}

func (p *party) query(index int, avg bool) [][]byte {
	var q [][]byte
	out, msg := guard(func() error { var err error; q, err = p.ask(index, avg); return err })
	p.sink(M{"ev": "query", "index": index, "avg": avg, "out": out, "msg": msg})
	if out != "ok" {
		p.dead = true
		return nil
	}
	return q
}

func (p *party) answers(q [][]byte) [][]byte {
	var a [][]byte
	for s := range p.servers {
		s := s
		out, msg := guard(func() error {
			x, err := p.servers[s](q[s])
			a = append(a, x)
			return err
		})
		if out != "ok" {
			p.sink(M{"ev": "honest", "what": "server", "index": 0, "avg": false, "out": out, "msg": msg, "val": []int{}})
			p.dead = true
			return nil
		}
	}
	return a
}

func (p *party) honest(what string, index int, avg bool, a [][]byte) {
	if p.dead {
		return
	}
	val := []int{}
	out, msg := guard(func() error {
		v, err := p.present(clone2(a))
		if err != nil {
			return err
		}
		switch x := v.(type) {
		case []byte:
			val = ints(x)
		case byte:
			val = []int{int(x)}
		case uint32:
			val = []int{cap30(int(x))}
		default:
			return fmt.Errorf("type %T", v)
		}
		return nil
	})
	p.sink(M{"ev": "honest", "what": what, "index": index, "avg": avg, "out": out, "msg": msg, "val": val})
}

// mutants of a message, for all the schemes
func mutants(r *rand.Rand, b []byte, unit int, n int) []M {
	var out []M
	add := func(what string, x []byte) { out = append(out, M{"what": what, "b": x}) }
	add("empty", []byte{})
	cuts := map[int]bool{}
	for i := 0; i < len(b); i++ {
		if i < 14 || len(b)-i < 14 || i%unit == 0 && r.Intn(1+len(b)/unit/8) == 0 || r.Intn(1+len(b)/8) == 0 {
			cuts[i] = true
		}
	}
	for i := range b {
		if cuts[i] {
			add("truncated", b[:i])
		}
	}
	for _, i := range []int{1, 2, 3, 4, 7, 8, unit, unit - 1, unit + 1, 2 * unit, len(b), 100} {
		add("extended", append(append([]byte{}, b...), make([]byte, i)...))
		add("extended", append(append([]byte{}, b...), randBytes(r, i)...))
		if i < len(b) {
			add("without the beginning", b[i:])
		}
		add("shifted", append(make([]byte, i), b...))
	}
	add("twice", append(append([]byte{}, b...), b...))
	for i := 0; i < n; i++ {
		x := append([]byte{}, b...)
		if len(x) == 0 {
			break
		}
		for j := 0; j <= r.Intn(4); j++ {
			x[r.Intn(len(x))] = byte(r.Intn(256))
		}
		add("bytes", x)
		// in the beginning
		x = append([]byte{}, b...)
		x[r.Intn(minInt(len(x), 16))] ^= 1 << uint(r.Intn(8))
		add("bits", x)
		add("random", randBytes(r, len(b)))
		add("random", randBytes(r, r.Intn(2*len(b)+8)))
		add("constant", bytes.Repeat([]byte{byte(r.Intn(256))}, len(b)))
		add("ones", bytes.Repeat([]byte{255}, r.Intn(len(b)+40)))
		k := r.Intn(len(b) + 1)
		add("cut out", append(append([]byte{}, b[:k]...), b[minInt(len(b), k+1+r.Intn(8)):]...))
		add("inserted", append(append(append([]byte{}, b[:k]...), randBytes(r, 1+r.Intn(8))...), b[k:]...))
	}
	return out
}

type headerScenario struct {
	R, C, N, X int
	Ok         bool
}

// headers are messages of the matrix schemes with arbitrary dimensions
func (p *party) headers(r *rand.Rand, want int, scs []headerScenario, all bool) []M {
	w := 4
	if p.scheme == "lwe128" {
		w = 16
	}
	var out []M
	wrap := func(what string, b []byte, n int) {
		if p.scheme != "amplify" {
			out = append(out, M{"what": what, "b": b})
			return
		}
		reps := p.setup["reps"].(int)
		for _, l := range []int{len(b), len(b) + n, len(b) - n, 0, 1, 4, 8, 1 << 31, 1<<32 - 1, len(b) * reps} {
			for _, m := range []int{reps, reps - 1, reps + 1, 1, 2 * reps, 0} {
				if !all && r.Intn(12) > 0 && (l != len(b) || m != reps) {
					continue
				}
				x := be(l)
				for i := 0; i < m; i++ {
					x = append(x, b...)
				}
				out = append(out, M{"what": what, "b": x})
			}
		}
	}
	for _, s := range scs { // of the specification
		if !all && !s.Ok && r.Intn(3) > 0 {
			continue
		}
		// the expected 3 becomes the expected number here
		f := func(x int) int {
			if x >= 3 {
				return x - 3 + want
			}
			return x
		}
		wrap(fmt.Sprint(s), append(append(be(f(s.R)), be(f(s.C))...), randBytes(r, f(s.N)*w+s.X)...), 1)
	}
	for _, d := range [][2]int{{0, 0}, {0, want}, {1, 0}, {want, 1}, {1, want + 1}, {1, want - 1}, {2, want}, {1 << 31, 2}, {1 << 16, 1 << 16}, {1<<32 - 1, want},
		{1, 1<<32 - 1}, {1<<32 - 1, 1<<32 - 1}, {1, 1 << 31}, {1 << 30, 4}, {1 << 31, 1 << 31}, {1 << 28, 16}, {256, want}, {1, want << 8}, {1 << 24, want << 24}} {
		for _, n := range []int{want, 0, 1, want - 1, want + 1, 2 * want} {
			wrap(fmt.Sprint("dimensions ", d, " elements ", n), append(append(be(d[0]), be(d[1])...), randBytes(r, n*w)...), 4)
		}
	}
	return out
}

// fields are predicate queries with other structures
func fields(r *rand.Rand, b []byte) []M {
	var out []M
	mut := func(what string, f func(q *query.FSS)) {
		q, err := decodeFSS(b)
		must2(err)
		f(q)
		var buf bytes.Buffer
		if gob.NewEncoder(&buf).Encode(q) == nil {
			out = append(out, M{"what": what, "b": buf.Bytes()})
		}
	}
	for _, x := range []int{-1, 0, 1, 2, 3, 5, 15, 16, 17, 1000, -1000, 1 << 31, 1 << 40, -1 << 62} {
		x := x
		mut("fromStart", func(q *query.FSS) { q.FromStart = x })
		mut("fromEnd", func(q *query.FSS) { q.FromEnd = x; q.FromStart = 0 })
		mut("both", func(q *query.FSS) { q.FromEnd = x; q.FromStart = -x })
	}
	for x := 0; x < 8; x++ {
		x := x
		mut("flags", func(q *query.FSS) { q.And, q.Avg, q.Sum = x&1 == 1, x&2 == 2, x&4 == 4 })
		mut("target", func(q *query.FSS) { q.Target = query.Target(x); q.And, q.Avg = false, false })
	}
	mut("target", func(q *query.FSS) { q.Target = 255 })
	mut("targets", func(q *query.FSS) { q.Targets = []query.Target{1, 2, 77} })
	for _, n := range []int{0, 1, 15, 17, 32} {
		n := n
		mut("seed", func(q *query.FSS) { q.FssKey.SInit = make([]byte, n) })
	}
	for _, n := range []int{0, 1, 2, 4, 5, 6, 10, 16, 17, 1000} {
		n := n
		mut("final", func(q *query.FSS) { q.FssKey.FinalCW = make([]uint32, n) })
	}
	mut("tInit", func(q *query.FSS) { q.FssKey.TInit = 255 })
	mut("final value", func(q *query.FSS) {
		for i := range q.FssKey.FinalCW {
			q.FssKey.FinalCW[i] = 1<<32 - 1
		}
	})
	mut("no words", func(q *query.FSS) { q.FssKey.CW = nil })
	for _, d := range []int{-8, -1, 1, 7, 8, 16, 120} {
		d := d
		mut("words", func(q *query.FSS) {
			n := len(q.FssKey.CW) + d
			if n < 0 {
				n = 0
			}
			cw := make([][]byte, n)
			for i := range cw {
				cw[i] = make([]byte, 18)
			}
			q.FssKey.CW = cw
		})
	}
	for _, n := range []int{0, 1, 16, 17, 19, 40} {
		n := n
		mut("a word", func(q *query.FSS) {
			if len(q.FssKey.CW) > 0 {
				q.FssKey.CW[r.Intn(len(q.FssKey.CW))] = make([]byte, n)
			}
		})
		mut("the last word", func(q *query.FSS) {
			if len(q.FssKey.CW) > 0 {
				q.FssKey.CW[len(q.FssKey.CW)-1] = make([]byte, n)
			}
		})
	}
	var empty bytes.Buffer
	must(gob.NewEncoder(&empty).Encode(&query.FSS{}))
	out = append(out, M{"what": "no info", "b": empty.Bytes()})
	mut("no info", func(q *query.FSS) { q.Info = nil })
	var other bytes.Buffer
	must(gob.NewEncoder(&other).Encode(map[string]int{"a": 1}))
	out = append(out, M{"what": "another type", "b": other.Bytes()})
	other = bytes.Buffer{}
	must(gob.NewEncoder(&other).Encode("query"))
	out = append(out, M{"what": "another type", "b": other.Bytes()})
	other = bytes.Buffer{}
	must(gob.NewEncoder(&other).Encode(&query.ClientFSS{Info: &query.Info{}, Input: make([]bool, 8)}))
	out = append(out, M{"what": "another type", "b": other.Bytes()})
	return out
}

func (p *party) run(scs []headerScenario) {
	r := p.r
	unit := map[string]int{"point": 8, "lwe": 4, "lwe128": 16, "amplify": 4, "predicate": 4, "dh": p.es}[p.scheme]
	avgs := []bool{false}
	if p.scheme == "predicate" {
		avgs = []bool{false, true}
	}
	p.sink(M{"ev": "begin", "name": p.name})
	p.setup["ev"], p.setup["out"] = "setup", "ok"
	p.sink(p.setup)
	// no query yet
	f := p.fresh()
	for n := 0; n <= p.k+1; n++ {
		var a [][]byte
		for i := 0; i < n; i++ {
			a = append(a, randBytes(r, r.Intn(40)))
		}
		if p.k > 1 || n == 1 {
			f.show("before any query", false, a)
		}
	}
	for _, avg := range avgs {
		index := r.Intn(p.records)
		q := p.query(index, avg)
		if p.dead {
			return
		}
		a := p.answers(q)
		if p.dead {
			return
		}
		// servers
		for s := range p.servers {
			ms := mutants(r, q[s], unit, pick(6, 60))
			switch p.scheme {
			case "lwe", "lwe128", "amplify":
				ms = append(ms, p.headers(r, p.setup["rows"].(int), scs, thorough())...)
			case "predicate":
				ms = append(ms, fields(r, q[s])...)
			case "dh":
				ms = append(ms, p.points(r, q[s])...)
			}
			for i, m := range ms {
				p.serve(m["what"].(string), s, m["b"].([]byte))
				if p.dead {
					return
				}
				if i%40 == 39 {
					p.honest("after malformed queries", index, avg, p.answers(q))
				}
			}
		}
		b := p.answers(q)
		p.honest("after malformed queries", index, avg, b)
		// another query of the client
		index = r.Intn(p.records)
		if q = p.query(index, avg); p.dead {
			return
		}
		if a = p.answers(q); p.dead {
			return
		}
		// clients
		cnt := 0
		show := func(what string, x [][]byte) {
			p.show(what, avg, x)
			if cnt++; cnt%40 == 0 {
				p.honest("after malformed answers", index, avg, a)
			}
		}
		for s := range a {
			ms := mutants(r, a[s], unit, pick(5, 50))
			switch p.scheme {
			case "lwe", "lwe128", "amplify":
				ms = append(ms, p.headers(r, p.setup["cols"].(int), scs, thorough())...)
			case "dh":
				ms = append(ms, p.points(r, a[s])...)
			}
			for _, m := range ms {
				x := append([][]byte{}, a...)
				x[s] = m["b"].([]byte)
				show(m["what"].(string), x)
				if p.dead {
					return
				}
				if p.k > 1 && r.Intn(6) == 0 { // all of them
					for i := range x {
						x[i] = m["b"].([]byte)
					}
					show("all: "+m["what"].(string), x)
				}
			}
		}
		if p.k > 1 {
			for n := 0; n <= 2*p.k+1; n++ {
				var x, y [][]byte
				for i := 0; i < n; i++ {
					x = append(x, a[i%p.k])
					y = append(y, nil)
				}
				show("number", x)
				show("number of empty ones", y)
				if n > 0 && n < p.k {
					show("number", a[:n])
					show("number", a[p.k-n:])
				}
			}
			show("none", nil)
		}
		p.honest("after malformed answers", index, avg, a)
	}
}

// points are DH messages with other elements
func (p *party) points(r *rand.Rand, b []byte) []M {
	var out []M
	add := func(what string, x []byte) { out = append(out, M{"what": what, "b": x}) }
	n := len(b) / p.es
	for i := 0; i < pick(12, 100); i++ {
		k := r.Intn(n)
		for _, e := range [][]byte{make([]byte, p.es), bytes.Repeat([]byte{255}, p.es), append([]byte{5}, randBytes(r, p.es-1)...), append([]byte{2}, randBytes(r, p.es-1)...),
			append([]byte{3}, make([]byte, p.es-1)...), append([]byte{4}, randBytes(r, p.es-1)...), append([]byte{0}, randBytes(r, p.es-1)...), append(make([]byte, p.es-1), 1)} {
			x := append([]byte{}, b...)
			copy(x[k*p.es:], e)
			add("element", x)
		}
	}
	// an element less, an element more
	add("element less", b[p.es:])
	add("element more", append(append([]byte{}, b...), b[:p.es]...))
	add("identities", make([]byte, len(b)))
	add("identities", make([]byte, len(b)+p.es))
	add("one zero", []byte{0})
	add("zeros", make([]byte, n))
	// uncompressed
	if e, err := p.g.Generator().MarshalBinary(); err == nil {
		add("uncompressed", bytes.Repeat(e, n))
		add("uncompressed", append(append([]byte{}, e...), b...))
	}
	return out
}

func parties(r *rand.Rand, sink func(int) func(M)) []*party {
	var ps []*party
	n := 0
	add := func(p *party) {
		p.r = rand.New(rand.NewSource(r.Int63()))
		p.sink = sink(n)
		n++
		ps = append(ps, p)
	}
	// point
	for _, s := range []struct {
		rows, cols, bl, k int
		auth              bool
	}{{1, 1, 3, 3, false}, {2, 9, 4, 2, false}, {3, 8, 5, 3, true}, {2, 5, 2, 2, true}, {1, 200, 2, 2, true}, {1, 130, 3, 4, false}, {4, 4, 1, 3, true}} {
		var db *pdb
		if s.auth {
			db = randomAuthDB(r, s.rows, s.cols, s.bl)
		} else {
			db = randomDB(r, s.rows, s.cols, s.bl)
		}
		k := s.k
		var mk func() *party
		mk = func() *party {
			c := client.NewPIR(prg(r), copyInfo(&db.db.Info))
			p := &party{name: fmt.Sprintf("point-%dx%d-%d-auth=%v", s.rows, s.cols, k, s.auth), scheme: "point", k: k, records: len(db.records), fresh: mk,
				setup: M{"scheme": "point", "rows": db.db.NumRows, "cols": db.db.NumColumns, "bs": db.db.BlockSize, "k": k, "content": intss(db.records)},
				ask:   func(i int, _ bool) ([][]byte, error) { return c.QueryBytes(be(i), k) }, present: c.ReconstructBytes}
			for i := 0; i < k; i++ {
				p.servers = append(p.servers, pointServer(db.db, k).AnswerBytes)
			}
			if len(ps) < n+1 && n > 0 {
				p.r, p.sink = r, sink(n)
			}
			return p
		}
		add(mk())
	}
	// predicate
	for _, auth := range []bool{false, true} {
		var ks []meta
		var content [][]int
		classes := []uint8{1, 17, 18}
		for i := 0; i < 7; i++ {
			age := i % 4
			c := i % 3
			if i == 6 {
				c = 0
			}
			ks = append(ks, meta{email: fmt.Sprintf("k@%d.ch", c), t: time.Date(thisYear-age, 3, 4, 5, 6, 7, 0, time.UTC), algo: classes[c]})
			content = append(content, []int{c, age})
		}
		t := newTable(ks, auth, utc, utc)
		values := 1
		if auth {
			values = 5
		}
		for _, kind := range []string{"algo", "email", "and"} {
			kind := kind
			var mk func() *party
			mk = func() *party {
				c := t.client(rand.New(rand.NewSource(r.Int63())))
				p := &party{name: fmt.Sprintf("predicate-%s-auth=%v", kind, auth), scheme: "predicate", k: 2, records: 3, fresh: mk,
					setup: M{"scheme": "predicate", "values": values, "k": 2, "content": content},
					ask: func(i int, avg bool) ([][]byte, error) {
						pr := pred{kind: "email", part: "end", text: fmt.Sprintf("@%d.ch", i)}
						switch {
						case avg:
							pr.kind = "avg"
						case kind == "algo":
							pr = pred{kind: "algo", algo: classes[i]}
						case kind == "and":
							pr = pred{kind: "email", part: "equal", text: fmt.Sprintf("k@%d.ch", i)}
						}
						in, err := pr.query(r).Encode()
						if err != nil {
							return nil, err
						}
						return c.QueryBytes(in, 2)
					}, present: c.ReconstructBytes}
				p.servers = append(p.servers, t.srv[0].AnswerBytes, t.srv[1].AnswerBytes)
				return p
			}
			add(mk())
		}
	}
	// DH
	for _, g := range []struct {
		g group.Group
		n string
	}{{group.P256, "P256"}, {group.Ristretto255, "ristretto255"}, {group.P384, "P384"}} {
		shapes := [][2]int{{1, 3}, {2, 2}}
		if g.n != "P384" { // long messages
			shapes = append(shapes, [2]int{1, 40}, [2]int{45, 1})
		}
		for _, s := range shapes {
			bits := randEntries(r, s[0]*s[1], 0)
			db := dhHand(g.g, s[0], s[1], bits)
			var content [][]int
			for _, b := range bits {
				content = append(content, []int{int(b)})
			}
			g := g
			s := s
			var mk func() *party
			mk = func() *party {
				c := client.NewDH(prg(r), dhCopyInfo(&db.Info))
				p := &party{name: fmt.Sprintf("dh-%s-%dx%d", g.n, s[0], s[1]), scheme: "dh", k: 1, records: len(bits), es: db.ElementSize, g: g.g, fresh: mk,
					setup: M{"scheme": "dh", "rows": s[0], "cols": s[1], "es": db.ElementSize, "content": content},
					ask:   func(i int, _ bool) ([][]byte, error) { q, err := c.QueryBytes(i); return [][]byte{q}, err },
					present: func(a [][]byte) (interface{}, error) {
						return c.ReconstructBytes(a[0])
					}}
				p.servers = append(p.servers, server.NewDH(db).AnswerBytes)
				return p
			}
			add(mk())
		}
	}
	// lattices
	for _, s := range []struct {
		kind       string
		t          int
		rows, cols int
	}{{"lwe", 0, 4, 6}, {"lwe", 0, 1, 1}, {"lwe128", 0, 5, 3}, {"lwe128", 0, 1, 2}, {"amplify", 1, 3, 4}, {"amplify", 2, 2, 5}, {"amplify", 0, 2, 2}} {
		s := s
		bits := randEntries(r, s.rows*s.cols, 0)
		db, db128 := lweHand(s.kind, s.rows, s.cols, bits, true)
		var content [][]int
		for _, b := range bits {
			content = append(content, []int{int(b)})
		}
		d := &lweDB{kind: s.kind, t: s.t, rows: s.rows, cols: s.cols, bits: bits, db: db, db128: db128}
		var mk func() *party
		mk = func() *party {
			c := d.newClient(prg(r), d.info())
			p := &party{name: fmt.Sprintf("%s-%d-%dx%d", s.kind, s.t, s.rows, s.cols), scheme: s.kind, k: 1, records: len(bits), fresh: mk,
				setup: M{"scheme": s.kind, "rows": s.rows, "cols": s.cols, "reps": 2*s.t + 1, "content": content},
				ask:   func(i int, _ bool) ([][]byte, error) { q, err := c.QueryBytes(i); return [][]byte{q}, err },
				present: func(a [][]byte) (interface{}, error) {
					return c.ReconstructBytes(a[0])
				}}
			p.servers = append(p.servers, d.newServer(bits).AnswerBytes)
			return p
		}
		add(mk())
	}
	return ps
}

func c17() {
	r := rng(17)
	var scs []headerScenario
	scenarios("headers.ndjson", func(line []byte) {
		var s headerScenario
		must(json.Unmarshal(line, &s))
		scs = append(scs, s)
	})
	if len(scs) == 0 {
		fail("no scenarios")
	}
	for round := 0; round < pick(1, 4); round++ {
		ps := parties(r, func(int) func(M) { return nil })
		var jobs []func(func(M))
		for _, p := range ps {
			p := p
			mk := p.fresh
			p.fresh = func() *party { f := mk(); f.sink, f.r = p.sink, p.r; return f }
			jobs = append(jobs, func(sink func(M)) { p.sink = sink; p.run(scs) })
		}
		parallel(jobs)
	}
	_ = binary.BigEndian
	_ = packet.PubKeyAlgoRSA
	_ = database.Info{}
}

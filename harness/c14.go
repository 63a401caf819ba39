package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

func init() { drivers["c14"] = c14 }

// scenarioOf is one combination of behaviours which the specification exports
type scenarioOf struct {
	k       int
	stored  bool
	servers [][2]string
}

func frontScenarios(name string) []scenarioOf {
	var out []scenarioOf
	readJSON(filepath.Join(work, name), func(m M) {
		s := scenarioOf{k: int(m["k"].(float64)), stored: m["request"].(string) == "stored"}
		for _, x := range m["servers"].([]interface{}) {
			p := x.([]interface{})
			s.servers = append(s.servers, [2]string{p[0].(string), p[1].(string)})
		}
		out = append(out, s)
	})
	if len(out) == 0 {
		fail("no scenarios in %s", name)
	}
	return out
}

// conducts makes a scenario concrete; servers with the same wrong description agree
func (s *scenarioOf) conducts(r *rand.Rand) []conduct {
	of := map[string]string{
		"same": "", "shape": []string{"rows", "columns", "block", "type", "rowscolumns"}[r.Intn(5)],
		"root": []string{"root", "rootlen", "noroot"}[r.Intn(3)], "prooflen": []string{"prooflen", "noprooflen"}[r.Intn(2)],
	}
	how := r.Intn(1000)
	cs := make([]conduct, s.k)
	for i, x := range s.servers {
		c := conduct{info: "ok", ans: x[1], how: how}
		if c.ans == "tampered" {
			c.ans = "altered"
		}
		if x[0] == "none" {
			c.info, c.how = "err", r.Intn(1000)
		} else {
			c.field = of[x[0]]
		}
		cs[i] = c
	}
	return cs
}

// front is one front end with its servers
type front struct {
	n    *fnet
	kind string // cli, mgr, web, inter, sim
	dir  string
	cfg  string
	m    *mgr
	w    *website
	i    *inter
	d    *keyset
	sch  string
}

func newFront(r *rand.Rand, kind, scheme string, k int, d *keyset, dir string) *front {
	f := &front{n: newNet(r, d, scheme, k), kind: kind, dir: dir, d: d, sch: scheme}
	var more []string
	if kind == "sim" && r.Intn(2) == 0 { // the configuration has more servers than the experiment
		more = freeAddrs(1 + r.Intn(2))
	}
	f.cfg = f.n.config(filepath.Join(dir, "config.toml"), more...)
	return f
}

// newWeb is a web front end with two sets of servers
func newWeb(r *rand.Rand, scheme, cscheme string, k int, d *keyset, dir string) (*front, *front) {
	p := newFront(r, "web", scheme, k, d, filepath.Join(dir, "p"))
	c := newFront(r, "web", cscheme, 2, d, filepath.Join(dir, "c"))
	p.w = &website{n: p.n, c: c.n, dir: dir, pcfg: p.cfg, ccfg: c.cfg}
	c.w = p.w
	return p, c
}

func (f *front) close() {
	if f.m != nil {
		f.m.close()
	}
	if f.w != nil && f.w.p != nil {
		f.w.p.cmd.Process.Kill()
	}
	if f.i != nil {
		f.i.stop()
	}
	f.n.stop()
}

func (f *front) someEmail(r *rand.Rand, stored bool) string {
	e := f.d.keys[r.Intn(len(f.d.keys))].email
	if stored {
		return e
	}
	switch r.Intn(4) {
	case 0:
		return "x" + e
	case 1:
		return e[:len(e)-1]
	case 2:
		return strings.Split(e, "@")[0] + "1@" + strings.Split(e, "@")[1]
	}
	return fmt.Sprintf("nobody%d@nowhere.org", r.Intn(1000))
}

// ask makes one request through the front end
func (f *front) ask(q *frequest, cs []conduct, args ...string) {
	n := f.n
	q.front = f.kind
	q.valid = q.valid || q.what == ""
	if f.kind == "inter" {
		n.outcome("outcome", f.i.ask(n, q, args, func() { n.announce(q, cs) }))
		return
	}
	n.announce(q, cs)
	var s *seen
	switch f.kind {
	case "cli":
		s = n.program(f.dir, "vclient", f.cfg, q, args...)
	case "sim":
		s = n.program(f.dir, "vsim", f.cfg, q, args...)
		if s.kind == "number" {
			s.kind = "nothing"
		}
	case "mgr":
		if f.m == nil {
			m, msg := newMgr(f.dir, f.cfg)
			if m == nil {
				n.outcome("outcome", &seen{out: "error", kind: "nothing", msg: msg})
				return
			}
			f.m = m
		}
		r := f.m.do(f.command(q))
		s = n.mgrSeen(q, r)
		if s.out == "hang" {
			f.m = nil
		}
	case "web":
		form := url.Values{}
		for i := 1; i+1 < len(args); i += 2 {
			form.Set(args[i], args[i+1])
		}
		s = f.w.post(n, args[0], form)
	}
	n.outcome("outcome", s)
}

// command for the manager; the positions of its queries are known
func (f *front) command(q *frequest) M {
	n := f.n
	n.mu.Lock()
	defer n.mu.Unlock()
	n.position, n.echo = nil, false
	switch q.kind {
	case "key":
		sd := randBytes(n.r, 16)
		if n.k > 2 { // with two servers the queries are made with the system's randomness
			n.position = positionIn(n.twin(q.email, sd))
		}
		return M{"Op": "key", "ID": q.email, "Seed": sd}
	case "run":
		n.echo = true
		var qs [][]byte
		for j := 0; j < n.k; j++ {
			qs = append(qs, append([]byte("query "), byte('0'+j)))
		}
		n.position = func(s int, b []byte) int {
			if len(b) != 7 || string(b[:6]) != "query " {
				return 99
			}
			return int(b[6] - '0')
		}
		return M{"Op": "run", "Queries": qs}
	}
	return M{"Op": "info"}
}

// simple makes a request of the usual kind
func (f *front) simple(r *rand.Rand, stored bool, cs []conduct) {
	switch {
	case f.kind == "sim":
		q := &frequest{kind: "run"}
		reps := 1 + r.Intn(2)
		if f.n.ref.table != nil {
			q.rounds = reps
			s := map[string]string{"complexPIR": "fss-classic", "complexVPIR": "fss-auth"}[f.sch]
			f.ask(q, cs, "-scheme", s, "-repetitions", fmt.Sprint(reps), "-numServers", fmt.Sprint(f.n.k), "-inputSize", fmt.Sprint(1+r.Intn(8)))
			return
		}
		blocks := 1
		bits := 8
		if b := f.n.ref.info.BlockSize; b != 0 {
			blocks = 1 + r.Intn(2)
			bits = 8*b*(blocks-1) + 1 + r.Intn(8*b)
		}
		q.rounds = reps * blocks
		s := map[string]string{"pointPIR": "pir-classic", "pointVPIR": "pir-merkle"}[f.sch]
		f.ask(q, cs, "-scheme", s, "-repetitions", fmt.Sprint(reps), "-numServers", fmt.Sprint(f.n.k), "-elemBitSize", "8", "-bitsToRetrieve", fmt.Sprint(bits))
	case f.n.ref.table == nil:
		q := &frequest{kind: "key", email: f.someEmail(r, stored)}
		switch f.kind {
		case "web":
			f.ask(q, cs, "/retrieve", "email", q.email)
		case "inter":
			f.ask(q, cs, "key", q.email)
		default:
			f.ask(q, cs, "-scheme", f.sch, "-id", q.email)
		}
	default:
		e := f.someEmail(r, stored)
		q := &frequest{kind: "count", p: pred{kind: "email", part: "end", text: e[1+r.Intn(len(e)-1):]}}
		if r.Intn(2) == 0 {
			q.p.part, q.p.text = "start", e[:1+r.Intn(len(e)-1)]
		}
		switch f.kind {
		case "web":
			f.ask(q, cs, "/count/email", "position", map[string]string{"start": "begin", "end": "end"}[q.p.part], "text", q.p.text)
		case "inter":
			f.ask(q, cs, "count", "email", map[string]string{"start": "begin", "end": "end"}[q.p.part]+" with", q.p.text)
		default:
			fl := map[string]string{"start": "-from-start", "end": "-from-end"}[q.p.part]
			f.ask(q, cs, "-scheme", f.sch, "-target", "email", "-id", q.p.text, fl, fmt.Sprint(len(q.p.text)))
		}
	}
}

// inParallel runs jobs with at most 8 at the same time
func inParallel(jobs []func()) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var first interface{}
	var mu sync.Mutex
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j func()) {
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if first == nil {
						first = r
						if blame(r, string(debug.Stack())) {
							first = codeError{fmt.Errorf("%v %s", r, debug.Stack())}
						}
					}
					mu.Unlock()
				}
				<-sem
				wg.Done()
			}()
			j()
		}(j)
	}
	wg.Wait()
	if first != nil {
		panic(first)
	}
}

func honest(k int) []conduct {
	cs := make([]conduct, k)
	for i := range cs {
		cs[i] = conduct{info: "ok", ans: "honest"}
	}
	return cs
}

// differing are descriptions which differ in one field, at one server or several
func differing(r *rand.Rand, k int, fields []string, all bool) [][]conduct {
	var out [][]conduct
	for _, fd := range fields {
		var sets []int
		for b := 1; b < 1<<uint(k)-1; b++ {
			sets = append(sets, b)
		}
		if !all {
			r.Shuffle(len(sets), func(i, j int) { sets[i], sets[j] = sets[j], sets[i] })
			sets = sets[:1]
		}
		for _, b := range sets {
			cs := honest(k)
			how := r.Intn(1000)
			for s := range cs {
				if b>>uint(s)&1 == 1 {
					cs[s].field, cs[s].how = fd, how
				}
			}
			out = append(out, cs)
		}
	}
	return out
}

var shapeFields = []string{"rows", "columns", "block", "type", "rowscolumns"}

func fieldsOf(scheme string) []string {
	if scheme == "pointVPIR" {
		return descFields
	}
	return shapeFields
}

// delays delays infos and answers so that they arrive in the given orders
func delays(r *rand.Rand, k int) []conduct {
	cs := honest(k)
	step := time.Duration(20+r.Intn(40)) * time.Millisecond
	pi, pa := r.Perm(k), r.Perm(k)
	for s := range cs {
		cs[s].infoDelay = time.Duration(pi[s]) * step
		cs[s].ansDelay = time.Duration(pa[s]) * step
	}
	return cs
}

func c14() {
	d := newKeyset(work, 24, 14)
	var jobs []func()
	id := 0
	job := func(name, kind, scheme string, k int, f func(r *rand.Rand, fr *front)) {
		id++
		my := id
		jobs = append(jobs, func() {
			r := rng(int64(1400 + my))
			dir := filepath.Join(work, fmt.Sprintf("c14-%d", my))
			var fr *front
			if kind == "web" || kind == "inter" {
				make := newWeb
				if kind == "inter" {
					make = newInter
				}
				p, c := make(r, "pointVPIR", "complexVPIR", k, d, dir)
				fr = p
				if strings.HasPrefix(scheme, "complex") {
					fr = c
					defer p.close()
				} else {
					defer c.close()
				}
			} else {
				fr = newFront(r, kind, scheme, k, d, dir)
			}
			defer fr.close()
			f(r, fr)
			fr.n.flush(fmt.Sprintf("c14/%s/%s-%s-%d", name, kind, scheme, k))
		})
	}
	// every combination of the specification
	for _, k := range []int{2, 3} {
		sc := frontScenarios(fmt.Sprintf("front%d.ndjson", k))
		parts := 6
		for part := 0; part < parts; part++ {
			part := part
			job("scenarios", "mgr", "pointVPIR", k, func(r *rand.Rand, f *front) {
				for i, s := range sc {
					if i%parts == part && (k == 2 || thorough() || i/parts%3 == int(seed)%3) {
						f.simple(r, s.stored, s.conducts(r))
					}
				}
			})
		}
	}
	// one field differs
	type combo struct {
		kind, scheme string
		ks           []int
	}
	combos := []combo{
		{"cli", "pointVPIR", []int{2, 3, 4}}, {"cli", "pointPIR", []int{2, 3}}, {"cli", "complexVPIR", []int{2}}, {"cli", "complexPIR", []int{2}},
		{"mgr", "pointVPIR", []int{2, 3, 4}}, {"mgr", "pointPIR", []int{2, 4}},
		{"web", "pointVPIR", []int{2, 3}}, {"web", "complexVPIR", []int{2}},
		{"inter", "pointVPIR", []int{2, 3}}, {"inter", "complexVPIR", []int{2}},
		{"sim", "pointVPIR", []int{2, 3}}, {"sim", "pointPIR", []int{2}}, {"sim", "complexVPIR", []int{2}}, {"sim", "complexPIR", []int{2}},
	}
	for _, c := range combos {
		for _, k := range c.ks {
			c, k := c, k
			job("fields", c.kind, c.scheme, k, func(r *rand.Rand, f *front) {
				slow := c.kind == "cli" || c.kind == "sim"
				all := !slow || k == 2 || c.scheme == "pointVPIR" && c.kind == "cli" && k == 3 || thorough()
				for _, cs := range differing(r, k, fieldsOf(c.scheme), all) {
					for s := range cs {
						cs[s].infoDelay = time.Duration(r.Intn(3)) * 5 * time.Millisecond
					}
					f.simple(r, true, cs)
				}
				// one does not describe
				for s := 0; s < k; s++ {
					cs := honest(k)
					cs[s].info, cs[s].how = "err", r.Intn(100)
					f.simple(r, true, cs)
				}
				f.simple(r, true, nil)
			})
			job("orders", c.kind, c.scheme, k, func(r *rand.Rand, f *front) {
				for i := 0; i < pick(3+2*k, 40); i++ {
					f.simple(r, i%4 != 3, delays(r, k))
				}
				for i := 0; i < k && !(c.kind == "sim"); i++ {
					// one is late
					cs := honest(k)
					if i%2 == 0 {
						cs[i].infoDelay = 700 * time.Millisecond
					} else {
						cs[i].ansDelay = 700 * time.Millisecond
					}
					f.simple(r, true, cs)
				}
				if c.kind == "mgr" {
					for i := 0; i < pick(30, 300); i++ {
						f.ask(&frequest{kind: "run"}, delays(r, k))
					}
				}
			})
		}
	}
	// a server takes its time
	for _, c := range combos {
		c := c
		k := c.ks[len(c.ks)-1]
		job("patience", c.kind, c.scheme, k, func(r *rand.Rand, f *front) {
			late := time.Duration(pick(11, 65)) * time.Second
			cs := honest(k)
			cs[r.Intn(k)].infoDelay = late
			cs[r.Intn(k)].ansDelay = late
			if c.kind != "sim" || f.n.ref.table != nil {
				f.simple(r, true, cs)
			}
		})
	}
	// a server starts after the client
	for _, kind := range []string{"cli", "mgr", "sim", "inter"} {
		kind := kind
		job("late", kind, "pointVPIR", 3, func(r *rand.Rand, f *front) {
			s := r.Intn(3)
			f.n.down(s)
			done := make(chan bool)
			go func() {
				time.Sleep(1500 * time.Millisecond)
				f.n.up(s)
				close(done)
			}()
			f.simple(r, true, nil)
			<-done
		})
	}
	// a server is away: before the first contact, and after it
	for x, c := range []combo{{"mgr", "pointVPIR", []int{3}}, {"mgr", "pointPIR", []int{2}}, {"cli", "pointVPIR", []int{3}}, {"cli", "complexVPIR", []int{2}},
		{"sim", "pointVPIR", []int{3}}, {"mgr", "pointPIR", []int{4}}, {"web", "pointVPIR", []int{3}}, {"web", "complexVPIR", []int{2}},
		{"inter", "pointVPIR", []int{3}}, {"inter", "complexVPIR", []int{2}}} {
		x, c, k := x, c, c.ks[0]
		job("away", c.kind, c.scheme, k, func(r *rand.Rand, f *front) {
			for round := 0; round < pick(1, 3); round++ {
				away := []int{r.Intn(k)}
				if round == 0 { // the position decides about what is left over
					away[0] = []int{1, 1, 2, 0, 0, 3}[x%6] % k
				} else if k > 2 && round == 1 {
					away = append(away, (away[0]+1)%k)
				}
				cs := honest(k)
				for _, s := range away {
					cs[s].info, cs[s].ans = "err", "none"
				}
				if c.kind == "web" || c.kind == "inter" || c.kind == "mgr" && x > 3 {
					f.simple(r, true, nil)
				}
				for _, s := range away {
					f.n.down(s)
				}
				f.simple(r, true, cs)
				if f.m != nil || c.kind == "web" || c.kind == "inter" {
					f.simple(r, true, cs)
					return
				}
				for _, s := range away {
					f.n.up(s)
				}
				f.simple(r, true, nil)
				if f.m != nil {
					f.m.close()
					f.m = nil
				}
			}
		})
	}
	// the slow jobs first
	for i, j := 0, len(jobs)-1; i < j; i, j = i+1, j-1 {
		jobs[i], jobs[j] = jobs[j], jobs[i]
	}
	inParallel(jobs)
}

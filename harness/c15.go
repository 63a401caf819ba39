package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() { drivers["c15"] = c15 }

// cliCount makes a counting request with flags, and says what it asks for
func cliCount(r *rand.Rand, f *front, kind int) (*frequest, []string) {
	d := f.d
	k := d.keys[r.Intn(len(d.keys))]
	e := k.email
	q := &frequest{kind: "count"}
	args := []string{"-scheme", f.sch}
	switch kind {
	case 0: // the whole e-mail
		q.p = pred{kind: "email", part: "equal", text: e}
		if r.Intn(3) == 0 {
			q.p.text += "x"
		}
		args = append(args, "-target", "email", "-id", q.p.text)
	case 1: // the flag selects a part of the id
		n := 1 + r.Intn(len(e))
		q.p = pred{kind: "email", part: "start", text: e[:n]}
		id := e[:n+r.Intn(len(e)-n+1)]
		args = append(args, "-target", "email", "-id", id, "-from-start", fmt.Sprint(n))
	case 2:
		n := 1 + r.Intn(len(e))
		q.p = pred{kind: "email", part: "end", text: e[len(e)-n:]}
		id := e[len(e)-n-r.Intn(len(e)-n+1):]
		args = append(args, "-target", "email", "-id", id, "-from-end", fmt.Sprint(n))
	case 3:
		a := []uint8{1, 16, 17, 18, 19}[r.Intn(5)]
		if r.Intn(2) == 0 {
			a = k.algo()
		}
		name, ok := algoNames[a]
		if !ok {
			a, name = 19, "ECDSA"
		}
		q.p = pred{kind: "algo", part: "equal", algo: a}
		args = append(args, "-target", "algo", "-id", name)
	case 4:
		y := fmt.Sprint(1990 + r.Intn(60))
		q.p = pred{kind: "year", part: "equal", year: atoi(y)}
		q.p.t = instantOf(q.p.query(r).Input)
		q.p.kind = "time"
		args = append(args, "-target", "creation", "-id", y)
	case 5: // the year is what the helper says
		n := 1 + r.Intn(len(e))
		q.p = pred{kind: "and", part: "end", text: e[len(e)-n:], year: yearOfAnd()}
		args = append(args, "-and", "-id", q.p.text)
	default:
		n := 1 + r.Intn(len(e))
		q.p = pred{kind: "avg", part: "end", text: e[len(e)-n:]}
		fl := "-from-end"
		if r.Intn(2) == 0 {
			q.p.part, q.p.text, fl = "start", e[:n], "-from-start"
		}
		id := q.p.text
		switch x := r.Intn(5); {
		case x == 0 || kind > 6: // nobody
			q.p.text = "zz" + q.p.text
			id = q.p.text
			n += 2
		case x == 1:
			q.p.part, q.p.text, id, n = "equal", e, e, 0
		}
		args = append(args, "-and", "-avg", "-id", id, fl, fmt.Sprint(n))
	}
	return q, args
}

func (s *stored) algo() uint8 {
	if s.spec.rsaBits != 0 {
		return 1
	}
	return 19
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// webCount is a counting request of the web front end
func webCount(r *rand.Rand, f *front) (*frequest, []string) {
	k := f.d.keys[r.Intn(len(f.d.keys))]
	e := k.email
	n := 1 + r.Intn(len(e))
	q := &frequest{kind: "count"}
	switch r.Intn(4) {
	case 0:
		q.p = pred{kind: "email", part: "start", text: e[:n]}
		return q, []string{"/count/email", "position", "begin", "text", e[:n]}
	case 1:
		q.p = pred{kind: "email", part: "end", text: e[len(e)-n:]}
		return q, []string{"/count/email", "position", "end", "text", q.p.text}
	case 2:
		a := []uint8{1, 16, 17, 18, 19, k.algo()}[r.Intn(6)]
		q.p = pred{kind: "algo", part: "equal", algo: a}
		return q, []string{"/count/algo", "algo", algoNames[a]}
	}
	y := 1990 + r.Intn(60)
	q.p = pred{kind: "year", part: "equal", year: y}
	q.p.t = instantOf(q.p.query(r).Input)
	q.p.kind = "time"
	return q, []string{"/count/timestamp", "year", fmt.Sprint(y)}
}

// interCount is a counting request of the interactive front end
func interCount(r *rand.Rand, f *front) (*frequest, []string) {
	k := f.d.keys[r.Intn(len(f.d.keys))]
	e := k.email
	n := 1 + r.Intn(len(e))
	q := &frequest{kind: "count"}
	q.p = pred{kind: "email", part: "end", text: e[len(e)-n:]}
	where := "end with"
	if r.Intn(2) == 0 {
		q.p.part, q.p.text, where = "start", e[:n], "begin with"
	}
	switch r.Intn(6) {
	case 0:
		a := []uint8{1, 16, 17, 18, 19, k.algo()}[r.Intn(6)]
		q.p = pred{kind: "algo", part: "equal", algo: a}
		return q, []string{"count", "algo", algoNames[a]}
	case 1:
		y := 1990 + r.Intn(60)
		q.p = pred{kind: "year", part: "equal", year: y}
		q.p.t = instantOf(q.p.query(r).Input)
		q.p.kind = "time"
		return q, []string{"count", "creation", fmt.Sprint(y)}
	case 2, 3:
		q.p.kind = "avg"
		if r.Intn(5) == 0 { // nobody
			q.p.text = "zz" + q.p.text
		}
		return q, []string{"avg", where, q.p.text}
	}
	return q, []string{"count", "email", where, q.p.text}
}

// good makes a request of any kind
func (f *front) good(r *rand.Rand, cs []conduct) {
	if f.n.ref.table == nil {
		f.simple(r, r.Intn(4) != 0, cs)
		return
	}
	q, args := cliCount(r, f, r.Intn(7))
	switch f.kind {
	case "web":
		q, args = webCount(r, f)
	case "inter":
		q, args = interCount(r, f)
	}
	f.ask(q, cs, args...)
}

// oneFault makes one server misbehave in the given way
func oneFault(r *rand.Rand, k, s int, ans string, how int) []conduct {
	cs := honest(k)
	cs[s].ans, cs[s].how = ans, how
	o := r.Intn(k)
	cs[o].ansDelay = time.Duration(r.Intn(4)) * 5 * time.Millisecond
	return cs
}

var answerFaults = map[string]int{"altered": 4, "other": 4, "malformed": 6, "none": 6}

func c15() {
	d := newKeyset(work, 24, 15)
	var jobs []func()
	id := 0
	type maker func(r *rand.Rand, dir string) (*front, func())
	job := func(name string, mk maker, f func(r *rand.Rand, fr *front)) {
		id++
		my := id
		jobs = append(jobs, func() {
			r := rng(int64(1500 + my))
			fr, end := mk(r, filepath.Join(work, fmt.Sprintf("c15-%d", my)))
			defer end()
			f(r, fr)
			fr.n.flush("c15/" + name)
		})
	}
	single := func(kind, scheme string, k int) maker {
		return func(r *rand.Rand, dir string) (*front, func()) {
			f := newFront(r, kind, scheme, k, d, dir)
			return f, f.close
		}
	}
	site := func(scheme, cscheme string, k int, complex bool) maker {
		return func(r *rand.Rand, dir string) (*front, func()) {
			p, c := newWeb(r, scheme, cscheme, k, d, dir)
			f := p
			if complex {
				f = c
			}
			return f, func() { p.close(); c.n.stop() }
		}
	}
	terminal := func(scheme, cscheme string, k int, complex bool) maker {
		return func(r *rand.Rand, dir string) (*front, func()) {
			p, c := newInter(r, scheme, cscheme, k, d, dir)
			f := p
			if complex {
				f = c
			}
			return f, func() { p.close(); c.n.stop() }
		}
	}
	type setting struct {
		name string
		mk   maker
		slow bool
		k    int
	}
	settings := []setting{
		{"cli-pointVPIR-2", single("cli", "pointVPIR", 2), true, 2},
		{"cli-pointVPIR-3", single("cli", "pointVPIR", 3), true, 3},
		{"cli-pointPIR-2", single("cli", "pointPIR", 2), true, 2},
		{"cli-pointPIR-3", single("cli", "pointPIR", 3), true, 3},
		{"cli-complexPIR-2", single("cli", "complexPIR", 2), true, 2},
		{"cli-complexVPIR-2", single("cli", "complexVPIR", 2), true, 2},
		{"mgr-pointVPIR-2", single("mgr", "pointVPIR", 2), false, 2},
		{"mgr-pointVPIR-3", single("mgr", "pointVPIR", 3), false, 3},
		{"mgr-pointPIR-2", single("mgr", "pointPIR", 2), false, 2},
		{"web-pointVPIR-2", site("pointVPIR", "complexVPIR", 2, false), false, 2},
		{"web-pointVPIR-3", site("pointVPIR", "complexVPIR", 3, false), false, 3},
		{"web-pointPIR-2", site("pointPIR", "complexVPIR", 2, false), false, 2},
		{"web-complexVPIR-2", site("pointPIR", "complexVPIR", 2, true), false, 2},
		{"inter-pointVPIR-2", terminal("pointVPIR", "complexVPIR", 2, false), false, 2},
		{"inter-pointVPIR-3", terminal("pointVPIR", "complexVPIR", 3, false), false, 3},
		{"inter-pointPIR-2", terminal("pointPIR", "complexVPIR", 2, false), false, 2},
		{"inter-complexVPIR-2", terminal("pointPIR", "complexVPIR", 2, true), false, 2},
	}
	for _, st := range settings {
		st := st
		job("faults/"+st.name, st.mk, func(r *rand.Rand, f *front) {
			for rep := 0; rep < pick(1, 4); rep++ {
				for s := 0; s < st.k; s++ {
					for ans, n := range answerFaults {
						for how := 0; how < n; how++ {
							if ans == "altered" && f.n.ref.table == nil && how > 0 {
								continue
							}
							if st.slow && st.k == 3 && (how+s+rep)%2 == 1 {
								continue
							}
							f.good(r, oneFault(r, st.k, s, ans, how))
							if how == 0 {
								f.good(r, nil)
							}
						}
					}
					cs := honest(st.k)
					cs[s].info, cs[s].how = "err", rep+s
					f.good(r, cs)
				}
				// several misbehave
				if st.k > 2 {
					for i := 0; i < 6; i++ {
						cs := honest(st.k)
						for _, s := range r.Perm(st.k)[:2] {
							cs[s].ans, cs[s].how = []string{"altered", "other", "malformed", "none"}[r.Intn(4)], r.Intn(12)
						}
						f.good(r, cs)
					}
				}
			}
		})
		// undisturbed
		job("honest/"+st.name, st.mk, func(r *rand.Rand, f *front) {
			n := pick(24, 150)
			if !st.slow {
				n *= 2
			}
			for i := 0; i < n; i++ {
				if f.kind == "cli" && f.n.ref.table != nil && i < 8 {
					q, args := cliCount(r, f, i)
					f.ask(q, nil, args...)
				} else {
					f.good(r, nil)
				}
			}
			if f.n.ref.table == nil {
				for i := 0; i < len(d.keys); i++ { // every key, and its relatives
					e := d.keys[i].email
					q := &frequest{kind: "key", email: e}
					switch i % 6 {
					case 3:
						q.email = e[1:]
					case 4:
						q.email = e + "x"
					case 5:
						q.email = strings.Replace(e, "@", "@@", 1)
					}
					switch f.kind {
					case "web":
						f.ask(q, nil, "/retrieve", "email", q.email)
					case "inter":
						f.ask(q, nil, "key", q.email)
					default:
						f.ask(q, nil, "-scheme", f.sch, "-id", q.email)
					}
				}
			}
		})
	}
	// requests that are none
	bad := func(f *front, what string, args ...string) {
		q := &frequest{kind: "count", what: what}
		if f.n.ref.table == nil {
			q.kind = "key"
		}
		f.ask(q, nil, args...)
	}
	for _, sch := range []string{"pointVPIR", "pointPIR", "complexVPIR", "complexPIR"} {
		sch := sch
		job("invalid/cli-"+sch, single("cli", sch, 2), func(r *rand.Rand, f *front) {
			e := d.keys[0].email
			bad(f, "scheme", "-scheme", "", "-id", e)
			bad(f, "scheme", "-scheme", "pointvpir", "-id", e)
			bad(f, "scheme", "-scheme", "it", "-id", e)
			bad(f, "flag", "-schema", sch, "-id", e)
			bad(f, "flag", "-scheme", sch, "-id", e, "-from-start", "x")
			if f.n.ref.table == nil {
				bad(f, "id", "-scheme", sch)
				bad(f, "id", "-scheme", sch, "-id", "")
				return
			}
			bad(f, "target", "-scheme", sch, "-id", e)
			bad(f, "target", "-scheme", sch, "-id", e, "-target", "Email")
			bad(f, "target", "-scheme", sch, "-id", e, "-target", "name")
			bad(f, "avg", "-scheme", sch, "-id", e, "-target", "email", "-avg")
			bad(f, "year", "-scheme", sch, "-id", "MMXIX", "-target", "creation")
			bad(f, "year", "-scheme", sch, "-id", "2019x", "-target", "creation")
			bad(f, "year", "-scheme", sch, "-target", "creation")
			bad(f, "start", "-scheme", sch, "-id", "abc", "-target", "email", "-from-start", "4")
			bad(f, "end", "-scheme", sch, "-id", "abc", "-target", "email", "-from-end", "100")
			bad(f, "start", "-scheme", sch, "-id", "abc", "-target", "email", "-from-start", "-1")
			f.good(r, nil)
		})
		// another number of servers than the scheme has
		if strings.HasPrefix(sch, "complex") {
			job("three/cli-"+sch, single("cli", sch, 3), func(r *rand.Rand, f *front) {
				e := d.keys[1].email
				bad(f, "three servers", "-scheme", sch, "-id", e, "-target", "email")
			})
		}
		job("one/cli-"+sch, single("cli", sch, 1), func(r *rand.Rand, f *front) {
			e := d.keys[1].email
			bad(f, "one server", "-scheme", sch, "-id", e, "-target", "email")
		})
	}
	job("invalid/web", site("pointVPIR", "complexVPIR", 2, false), func(r *rand.Rand, f *front) {
		e := d.keys[0].email
		bad(f, "email", "/retrieve")
		bad(f, "email", "/retrieve", "email", "")
		bad(f, "email", "/retrieve", "mail", e)
		bad(f, "email", "/retrieve", "text", e)
		bad(f, "path", "/retrieve/x", "email", e)
		bad(f, "path", "/nothing", "email", e)
		f.good(r, nil)
	})
	job("invalid/webcount", site("pointVPIR", "complexVPIR", 2, true), func(r *rand.Rand, f *front) {
		bad(f, "form", "/count/email")
		bad(f, "position", "/count/email", "text", "abc")
		bad(f, "position", "/count/email", "text", "abc", "position", "")
		bad(f, "position", "/count/email", "text", "abc", "position", "middle")
		bad(f, "position", "/count/email", "text", "abc", "position", "Begin")
		bad(f, "text", "/count/email", "position", "begin")
		bad(f, "text", "/count/email", "position", "end", "text", "")
		bad(f, "algo", "/count/algo")
		bad(f, "algo", "/count/algo", "algo", "")
		bad(f, "year", "/count/timestamp")
		bad(f, "year", "/count/timestamp", "year", "")
		bad(f, "year", "/count/timestamp", "year", "last")
		bad(f, "year", "/count/timestamp", "year", "20 19")
		bad(f, "year", "/count/timestamp", "year", "99999999999999999999999")
		bad(f, "path", "/count", "algo", "RSA")
		for i := 0; i < 5; i++ {
			f.good(r, nil)
		}
	})
	job("invalid/inter", terminal("pointVPIR", "complexVPIR", 2, true), func(r *rand.Rand, f *front) {
		for _, where := range []string{"begin with", "end with"} {
			bad(f, "text", "count", "email", where, "")
			bad(f, "text", "avg", where, "")
		}
		for _, y := range []string{"", "last", "20 19", "99999999999999999999999", "-2019", "MMXIX"} {
			bad(f, "year", "count", "creation", y)
		}
		for i := 0; i < 5; i++ {
			f.good(r, nil)
		}
	})
	// the servers run another scheme
	for _, x := range []struct {
		client, servers string
		demand          bool
	}{{"pointVPIR", "pointPIR", true}, {"pointPIR", "pointVPIR", false}, {"complexVPIR", "complexPIR", true}, {"complexPIR", "complexVPIR", false}} {
		x := x
		job("mixed/cli-"+x.client+"-"+x.servers, single("cli", x.servers, 2), func(r *rand.Rand, f *front) {
			for i := 0; i < pick(4, 20); i++ {
				e := f.someEmail(r, true)
				q := &frequest{kind: "count", mixed: true, demand: x.demand, p: pred{kind: "email", part: "equal", text: e}}
				if f.n.ref.table == nil {
					q.kind, q.email = "key", e
				}
				f.ask(q, nil, "-scheme", x.client, "-id", e, "-target", "email")
			}
		})
	}
	job("mixed/web", site("pointPIR", "complexPIR", 2, true), func(r *rand.Rand, f *front) {
		for i := 0; i < pick(8, 40); i++ {
			q, args := webCount(r, f)
			q.mixed, q.demand = true, true
			f.ask(q, nil, args...)
		}
	})
	job("mixed/inter", terminal("pointPIR", "complexPIR", 2, true), func(r *rand.Rand, f *front) {
		for i := 0; i < pick(8, 40); i++ {
			q, args := interCount(r, f)
			q.mixed, q.demand = true, true
			f.ask(q, nil, args...)
		}
	})
	// a server nobody listens at
	for _, st := range settings[:7] {
		st := st
		job("unreachable/"+st.name, st.mk, func(r *rand.Rand, f *front) {
			s := r.Intn(st.k)
			f.n.down(s)
			cs := honest(st.k)
			cs[s].info = "err"
			f.good(r, cs)
			f.n.up(s)
			f.good(r, nil)
		})
	}
	// a server goes away and comes back
	for _, st := range settings[6:] {
		st := st
		job("away/"+st.name, st.mk, func(r *rand.Rand, f *front) {
			f.good(r, nil)
			s := r.Intn(st.k)
			f.n.down(s)
			cs := honest(st.k)
			cs[s].info = "err"
			f.good(r, cs)
			f.good(r, cs)
			f.n.up(s)
			time.Sleep(8 * time.Second)
			f.good(r, nil)
		})
	}
	// many at the same time
	for _, st := range settings[9:13] {
		st := st
		job("atonce/"+st.name, st.mk, func(r *rand.Rand, f *front) { atOnce(r, f) })
	}
	for i, j := 0, len(jobs)-1; i < j; i, j = i+1, j-1 {
		jobs[i], jobs[j] = jobs[j], jobs[i]
	}
	inParallel(jobs)
}

// yearOfAnd is the year which the helper for the conjunction asks for
func yearOfAnd() int {
	p := pred{}
	in := p.andHelper()
	y := 0
	for _, b := range in[:32] {
		y *= 2
		if b {
			y++
		}
	}
	return y
}

// atOnce makes requests at the same time, with honest servers
func atOnce(r *rand.Rand, f *front) {
	f.good(r, nil)
	f.n.mu.Lock()
	f.n.quiet = true
	f.n.mu.Unlock()
	type job struct {
		q    *frequest
		args []string
		s    *seen
	}
	jobs := make([]*job, pick(60, 400))
	for i := range jobs {
		q, args := &frequest{kind: "key", email: f.someEmail(r, i%4 != 0)}, []string{"/retrieve", "email", ""}
		if f.n.ref.table != nil {
			q, args = webCount(r, f)
		} else {
			args[2] = q.email
		}
		q.front, q.valid = "web", true
		jobs[i] = &job{q: q, args: args}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 20)
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j *job) {
			defer wg.Done()
			form := url.Values{}
			for i := 1; i+1 < len(j.args); i += 2 {
				form.Set(j.args[i], j.args[i+1])
			}
			j.s = f.w.post(f.n, j.args[0], form)
			<-sem
		}(j)
	}
	wg.Wait()
	for _, j := range jobs {
		f.n.announce(j.q, nil)
		f.n.outcome("atonce", j.s)
	}
}

package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"
)

func init() { drivers["c04"] = c04 }

func c04() {
	r := rng(4)
	for rep := 0; rep < pick(70, 400); rep++ {
		auth := rep%2 == 0
		n := []int{0, 1, 2, 3, 5, 8, 13, 30}[rep%8]
		ks := randKeys(r, n)
		z := []func(time.Time) time.Time{utc, zone(r)}
		t := newTable(ks, auth, z[rep/2%2], z[rep/4%2])
		Begin(fmt.Sprintf("table-%d-auth-%v", rep, auth), nil)
		t.emit()
		c, d := t.client(r), t.client(r)
		for i := 0; i < pick(14, 30); i++ {
			p := randPred(r, ks)
			cc := c
			if i%3 == 0 {
				cc = d
			}
			x := t.exchange(r, cc, p)
			T.Emit(x.result())
			if i%4 == 0 { // the same once more
				T.Emit(t.exchange(r, cc, p).result())
			}
		}
		// every address of the table, and what differs from it in a character
		for i := 0; i < len(ks) && i < 6; i++ {
			for _, kind := range []string{"email", "avg", "and"} {
				p := pred{kind: kind, part: "equal", text: ks[i].email, t: ks[i].t, year: ks[i].t.UTC().Year()}
				T.Emit(t.exchange(r, c, p).result())
				for _, part := range []string{"start", "end"} {
					if p.text != "" {
						p.part = part
						T.Emit(t.exchange(r, c, p).result())
					}
				}
			}
		}
	}
	// a larger table with many matches
	ks := randKeys(r, pick(150, 1000))
	for _, auth := range []bool{true, false} {
		t := newTable(ks, auth, utc, zone(r))
		Begin(fmt.Sprintf("large-auth-%v", auth), nil)
		t.emit()
		c := t.client(r)
		for i := 0; i < pick(10, 40); i++ {
			T.Emit(t.exchange(r, c, randPred(r, ks)).result())
		}
		T.Emit(t.exchange(r, c, pred{kind: "avg", part: "start", text: "a"}).result())
		T.Emit(t.exchange(r, c, pred{kind: "avg", part: "end", text: "h"}).result())
		T.Emit(t.exchange(r, c, pred{kind: "email", part: "end", text: "h"}).result())
	}
	// a very old and large sum of ages
	old := make([]meta, 300)
	for i := range old {
		old[i] = meta{email: "o@o", t: time.Date(1+i, 2, 3, 0, 0, 0, 0, time.UTC), algo: 1}
	}
	for _, auth := range []bool{true, false} {
		t := newTable(old, auth, utc, utc)
		Begin(fmt.Sprintf("old-auth-%v", auth), nil)
		t.emit()
		T.Emit(t.exchange(r, t.client(r), pred{kind: "avg", part: "end", text: "o"}).result())
		T.Emit(t.exchange(r, t.client(r), pred{kind: "and", part: "end", text: "o", t: old[7].t, year: old[7].t.Year()}).result())
	}
	// very many keys
	for x, n := range []int{66000, 1025, pick(4099, 20000)} {
		ks := make([]meta, n)
		for i := range ks {
			ks[i] = meta{email: string(rune('a'+r.Intn(3))) + "@" + string(rune('a'+r.Intn(3))), algo: uint8(1 + r.Intn(3)),
				t: time.Date(2000+r.Intn(thisYear-1998), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), 0, 0, 0, time.UTC)}
		}
		// the only ones of their kind, at the ends and at borders
		for _, i := range []int{0, n - 1, n / 2, 255, 256, 1023, 1024, 4095, 4096, 32768, 65535, 65536, 65537} {
			if i < n {
				ks[i].email, ks[i].algo = "zz", 22
			}
		}
		Begin(fmt.Sprintf("many-%d", n), nil)
		for _, auth := range []bool{true, false} {
			t := newTable(ks, auth, utc, zone(r))
			if auth { // once for both
				t.emit()
			}
			c := t.client(r)
			ps := []pred{{kind: "email", part: "start", text: "z"}, {kind: "avg", part: "start", text: "a"}, {kind: "algo", algo: 2},
				{kind: "email", part: "end", text: "b"}, {kind: "algo", algo: 22}, {kind: "avg", part: "end", text: "z"}, {kind: "avg", part: "end", text: "y"}}
			for _, p := range ps {
				T.Emit(t.exchange(r, c, p).result())
			}
			if x > 0 {
				for i := 0; i < 5; i++ {
					T.Emit(t.exchange(r, c, randPred(r, ks)).result())
				}
			}
		}
	}
	// instants that differ by less than a second
	rr := rng(404)
	for rep := 0; rep < pick(8, 40); rep++ {
		y := []int{2019, 1970, thisYear, 2016}[rep%4]
		at := time.Date(y, 12, 31, 23, 59, 59, rr.Intn(2)*rr.Intn(1e9), time.UTC)
		var ks []meta
		for _, d := range []time.Duration{0, 1, -1, 1000, 1e6, -1e6, 3e8, 999999999, -999999999, 1e9, -1e9, 1e9 + 1, 0, 60e9} {
			if rr.Intn(5) > 0 {
				ks = append(ks, meta{email: []string{"a@x", "b@x", "b@xy"}[rr.Intn(3)], t: at.Add(d), algo: 1})
			}
		}
		t := newTable(ks, rep%2 == 0, utc, zone(rr))
		Begin(fmt.Sprintf("instants-%d", rep), nil)
		t.emit()
		c := t.client(rr)
		for i := 0; i < 12 && i < len(ks); i++ {
			p := pred{kind: "time", part: "equal", t: zone(rr)(ks[i].t), text: "a@x", year: 2019}
			if i == 0 {
				p.t = at.Truncate(time.Second)
			}
			T.Emit(t.exchange(rr, c, p).result())
			if i%3 == 0 {
				p = pred{kind: "and", part: "end", text: "x", t: p.t, year: p.t.UTC().Year()}
				T.Emit(t.exchange(rr, c, p).result())
			}
		}
	}
	// queries at the same time on the same servers
	for rep := 0; rep < pick(6, 30); rep++ {
		auth := rep%2 == 0
		ks := randKeys(r, 25)
		t := newTable(ks, auth, utc, zone(rand.New(rand.NewSource(seed))))
		Begin(fmt.Sprintf("concurrent-%d-auth-%v", rep, auth), nil)
		t.emit()
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(r *rand.Rand) {
				defer wg.Done()
				c := t.client(r)
				for i := 0; i < pick(12, 30); i++ {
					m := t.exchange(r, c, randPred(r, ks)).result()
					mu.Lock()
					T.Emit(m)
					mu.Unlock()
				}
			}(rand.New(rand.NewSource(seed*100 + int64(rep*10+g))))
		}
		wg.Wait()
	}
	if time.Now().UTC().Year() != thisYear {
		fail("the year has changed during the run")
	}
}

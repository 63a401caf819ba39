package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"path/filepath"

	"github.com/si-co/vpir-code/lib/proto"
)

func init() { drivers["c02front"] = c02front }

// c02front looks at what servers receive from the front ends: every query of
// theirs is made with randomness of its own
func c02front() {
	d := newKeyset(work, 24, 2)
	id := 0
	run := func(kind, scheme string, k int, f func(r *rand.Rand, fr *front)) {
		id++
		r := rng(int64(290 + id))
		dir := filepath.Join(work, fmt.Sprintf("c02front-%d", id))
		var fr *front
		switch kind {
		case "web", "inter":
			mk := newWeb
			if kind == "inter" {
				mk = newInter
			}
			p, c := mk(r, map[bool]string{true: "pointPIR", false: scheme}[k == 2], "complexVPIR", k, d, dir)
			defer c.n.stop()
			defer p.close()
			if fr = p; k == 2 {
				fr = c
			}
		default:
			fr = newFront(r, kind, scheme, k, d, dir)
			defer fr.close()
		}
		Begin("front end "+kind+" "+scheme, nil)
		f(r, fr)
	}
	for _, kind := range []string{"cli", "web", "inter", "sim"} {
		kind := kind
		// records enough that a share does not repeat by chance
		run(kind, "pointPIR", 3, func(r *rand.Rand, f *front) {
			f.n.about = &proto.DatabaseInfoResponse{NumRows: 1, NumColumns: 4000, BlockLength: 32, PirType: "classical"}
			f.n.echo = true
			got := map[int][][]byte{}
			for x := 0; x < pick(6, 20); x++ {
				// the same request twice, so that what follows from it shows
				f.simple(rng(int64(500+x/2)), x%4 < 2, nil)
				for s, q := range f.n.queries {
					got[s] = append(got[s], q...)
				}
			}
			for s := 0; s < 3; s++ {
				emitFresh(fmt.Sprintf("%s: server %d", kind, s), 4000, got[s], "ok")
			}
		})
		if kind == "sim" {
			continue
		}
		run(kind, "complexVPIR", 2, func(r *rand.Rand, f *front) {
			got := map[int][][]byte{}
			var keys [][]byte
			for x := 0; x < pick(6, 20); x++ {
				same := rng(int64(600 + x/2))
				q, args := cliCount(same, f, x/2%5)
				switch kind {
				case "web":
					q, args = webCount(same, f)
				case "inter":
					q, args = interCount(same, f)
				}
				f.ask(q, nil, args...)
				qs := f.n.queries
				for s := 0; s < 2; s++ {
					got[s] = append(got[s], qs[s]...)
				}
				if len(qs[0]) == 1 && len(qs[1]) == 1 {
					a := secret(&exchange{queries: [][]byte{qs[0][0], qs[1][0]}}, q.p.query(r).Input)
					if len(a) == 5 {
						keys = append(keys, putWords(a[1:]))
					}
				}
			}
			if kind == "web" {
				// requests of many users at the same time
				q := &frequest{kind: "count", valid: true}
				q.p = pred{kind: "email", part: "start", text: "a"}
				f.n.announce(q, nil)
				form := url.Values{"position": {"begin"}, "text": {"a"}}
				var jobs []func()
				for x := 0; x < pick(24, 80); x++ {
					jobs = append(jobs, func() { f.w.post(f.n, "/count/email", form) })
				}
				inParallel(jobs)
				f.n.mu.Lock()
				for s := 0; s < 2; s++ {
					got[s] = append(got[s], f.n.queries[s]...)
				}
				f.n.mu.Unlock()
			}
			for s := 0; s < 2; s++ {
				emitFresh(fmt.Sprintf("%s: server %d", kind, s), 128, got[s], "ok")
			}
			emitFresh(kind+": verification keys", 124, keys, "ok")
		})
	}
}

package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
)

func init() { drivers["c12"] = c12 }

// dumpKey is a key of a dump
type dumpKey struct {
	spec keySpec
	raw  []byte
	core []byte // without subkeys and revocation
	fp   string
}

type ingestion struct {
	keys   []*dumpKey
	emails []string // numbered from 1
	dir    string
	n      int
}

func (g *ingestion) emailNo(e string) int {
	for i, x := range g.emails {
		if x == e {
			return i + 1
		}
	}
	return 1000
}

// core removes the packets that are not kept
func coreOf(raw []byte, s keySpec) []byte {
	ps := packets(raw)
	from := 1
	if s.revoked {
		from = 2
	}
	n := len(s.ids) * (2 + s.foreign)
	return []byte(ps[0] + strings.Join(ps[from:from+n], ""))
}

func newDumpKey(s keySpec, size int) *dumpKey {
	for try := 0; ; try++ {
		k := &dumpKey{spec: s, raw: makeKey(s)}
		k.core = coreOf(k.raw, s)
		if size == 0 || len(k.core) == size {
			k.fp = fingerprint(k.core)
			return k
		}
		if try > 2000 {
			fail("size %d: %d", size, len(k.core))
		}
		l := len(s.ids[0].comment) + size - len(k.core)
		if l < 1 {
			l = 1
		}
		s.ids = append([]ident{}, s.ids...)
		s.ids[0].comment = strings.Repeat("c", l)
	}
}

var c12base = time.Date(2004, 2, 28, 0, 0, 0, 0, time.UTC)

func hours(h int) time.Time { return c12base.Add(time.Duration(h) * time.Hour) }

// randDump makes n keys; their creation times are different
func randDump(r *rand.Rand, n, emails int, dir string) *ingestion {
	g := &ingestion{dir: dir}
	for i := 0; i < emails; i++ {
		g.emails = append(g.emails, fmt.Sprintf("%c%s", 'a'+rune(r.Intn(26)), randEmail(r, i)))
	}
	times := r.Perm(3 * n)
	// keys are as old as the clocks of those who made them say
	eras := []time.Time{c12base}
	if r.Intn(3) > 0 {
		eras = append(eras, time.Date(1970, 1, 1, 1, 0, 0, 0, time.UTC), time.Date(2038, 1, 19, 0, 0, 0, 0, time.UTC),
			time.Date(2100, 2, 28, 0, 0, 0, 0, time.UTC), time.Date(2105, 10, 1, 0, 0, 0, 0, time.UTC),
			time.Now().UTC().Truncate(time.Hour).Add(-time.Duration(n)*time.Hour))
	}
	for i := range times {
		times[i] += int(eras[r.Intn(len(eras))].Sub(c12base).Hours())
	}
	seen := map[int]bool{}
	for i := range times {
		for seen[times[i]] {
			times[i]++
		}
		seen[times[i]] = true
	}
	// some are made shortly after or before another one
	created := make([]time.Time, n)
	taken := map[time.Time]bool{}
	near := make([]int, n)
	rr := rand.New(rand.NewSource(r.Int63()))
	for i := range created {
		for {
			created[i], near[i] = hours(times[i]), -1
			if i > 0 && rr.Intn(2) == 0 {
				near[i] = rr.Intn(i)
				created[i] = created[near[i]].Add(time.Duration([]int{1, 2, 7, 59, 60, 61, 600, 3599}[rr.Intn(8)]*(2*rr.Intn(2)-1)) * time.Second)
			}
			if !taken[created[i]] && created[i].Unix() > 0 {
				break
			}
		}
		taken[created[i]] = true
	}
	type job struct {
		s    keySpec
		size int
	}
	jobs := make([]job, n)
	for i := range jobs {
		s := keySpec{created: created[i]}
		nid := 1
		if r.Intn(3) == 0 {
			nid = 2 + r.Intn(3)
		}
		upper := r.Intn(4) == 0
		for k := 0; k < nid; k++ {
			id := ident{name: fmt.Sprintf("N%d", r.Intn(1000)*10+k), primary: r.Intn(3) - 1, t: created[i].Add(time.Duration(r.Intn(3)) * time.Hour)}
			if r.Intn(5) > 0 {
				id.email = g.emails[r.Intn(emails)]
				if upper && (r.Intn(2) == 0 || nid > 1) {
					id.email = strings.ToUpper(id.email)
				}
			} else if r.Intn(2) == 0 {
				id.comment = "no mail"
			}
			s.ids = append(s.ids, id)
		}
		if rr.Intn(4) == 0 { // the primary one is without e-mail, several others have one
			s.ids = []ident{{name: fmt.Sprintf("N%d", rr.Intn(10000)), primary: 1, t: created[i].Add(time.Hour)}}
			for _, e := range rr.Perm(emails) {
				if len(s.ids) < 4 {
					s.ids = append(s.ids, ident{name: fmt.Sprintf("%c%d", "AOZ"[rr.Intn(3)], rr.Intn(1000)*10+len(s.ids)), email: g.emails[e], primary: rr.Intn(2) - 1, t: created[i]})
				}
			}
		}
		if j := near[i]; j >= 0 && rr.Intn(3) > 0 { // of the same addresses
			s.ids = nil
			for _, id := range jobs[j].s.ids {
				id.name += "x"
				id.t = created[i].Add(id.t.Sub(created[j]))
				s.ids = append(s.ids, id)
			}
		}
		s.revoked = r.Intn(5) == 0
		s.subkeys = r.Intn(3)
		size := 0
		switch r.Intn(7) {
		case 0:
			size = 8192
		case 1:
			size = 8193
		case 2:
			size = 8191
		case 3:
			if r.Intn(2) == 0 {
				size = 9000 + r.Intn(30000)
			}
		case 4:
			s.foreign = r.Intn(4)
		}
		jobs[i] = job{s, size}
	}
	g.keys = make([]*dumpKey, n)
	parallelFor(n, func(i int) { g.keys[i] = newDumpKey(jobs[i].s, jobs[i].size) })
	return g
}

func (g *ingestion) emit() {
	var ks []M
	var made []time.Time // the order of the creation times
	for _, k := range g.keys {
		made = append(made, k.spec.created)
	}
	sort.Slice(made, func(i, j int) bool { return made[i].Before(made[j]) })
	for _, k := range g.keys {
		var ids []M
		names, mails := []string{}, []string{}
		for _, i := range k.spec.ids {
			names = append(names, i.id())
			mails = append(mails, i.email)
		}
		sort.Strings(names)
		sort.Strings(mails)
		for _, i := range k.spec.ids {
			no := 0
			if i.email != "" {
				no = g.emailNo(strings.ToLower(i.email))
			}
			flag := 0
			if i.primary == 1 {
				flag = 1
			}
			ids = append(ids, M{"email": no, "flag": flag, "t": int(i.t.Sub(k.spec.created).Hours()),
				"rank": sort.SearchStrings(names, i.id()), "erank": sort.SearchStrings(mails, i.email)})
		}
		ks = append(ks, M{"idents": ids, "created": sort.Search(len(made), func(i int) bool { return !made[i].Before(k.spec.created) }), "revoked": k.spec.revoked, "size": len(k.core)})
	}
	T.Emit(M{"ev": "keys", "keys": ks})
}

// known says which key of the dump an entity is
func (g *ingestion) known(email string, e *openpgp.Entity) M {
	var b bytes.Buffer
	m := M{"email": g.emailNo(email), "key": -1, "intact": false, "subkeys": len(e.Subkeys)}
	if err := e.Serialize(&b); err != nil {
		return m
	}
	return g.knownPacket(email, b.Bytes(), len(e.Subkeys))
}

func (g *ingestion) knownPacket(email string, p []byte, subkeys int) M {
	m := M{"email": g.emailNo(email), "key": -1, "intact": false, "subkeys": subkeys}
	fp := fingerprint(p)
	for i, k := range g.keys {
		if k.fp == fp {
			m["key"] = i + 1
			m["intact"] = sameKey(k.core, p)
		}
	}
	return m
}

// dump writes the keys, in the given order, to dump files
func (g *ingestion) dump(r *rand.Rand, order []int, files int) (string, []string) {
	g.n++
	dir := filepath.Join(g.dir, fmt.Sprintf("dump%d", g.n))
	must(os.MkdirAll(dir, 0o755))
	parts := randParts(r, len(order), files)
	var out []string
	pos := 0
	for i, p := range parts {
		var b bytes.Buffer
		for ; p > 0; p-- {
			b.Write(g.keys[order[pos]].raw)
			pos++
		}
		f := filepath.Join(dir, fmt.Sprintf("sks-dump-%04d.pgp", i))
		must(os.WriteFile(f, b.Bytes(), 0o644))
		out = append(out, f)
	}
	// a file that is none of the dump
	must(os.WriteFile(filepath.Join(dir, "README"), []byte("not a dump"), 0o644))
	return dir, out
}

func (g *ingestion) emitLoad(from string, files []string) {
	var keys []*pgp.Key
	out, msg := guard(func() (err error) {
		keys, err = pgp.LoadKeysFromDisk(files)
		return
	})
	ms := []M{}
	for _, k := range keys {
		sub := 0
		if el, err := openpgp.ReadKeyRing(bytes.NewReader(k.Packet)); err == nil && len(el) == 1 {
			sub = len(el[0].Subkeys)
		}
		ms = append(ms, g.knownPacket(k.ID, k.Packet, sub))
	}
	T.Emit(M{"ev": "load", "from": from, "out": out, "msg": msg, "keys": ms})
	// the parsed keys, which carry the e-mail they are stored under
	var el []*openpgp.Entity
	out, msg = guard(func() (err error) {
		el, err = pgp.LoadAndParseKeys(files)
		return
	})
	ms = []M{}
	for _, e := range el {
		ms = append(ms, g.known(pgp.PrimaryEmail(e), e))
	}
	T.Emit(M{"ev": "load", "from": from + ", parsed", "out": out, "msg": msg, "keys": ms})
}

func glob(dir string) []string {
	f, err := pgp.GetAllFiles(dir)
	must2(err)
	return f
}

func dataCmd(cmd, path, out string) (string, string) {
	c := exec.Command(filepath.Join(work, "data"), "-cmd", cmd, "-path", path, "-out", out)
	b, err := c.CombinedOutput()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			must(err)
		}
		return "err", string(b)
	}
	return "ok", ""
}

func quiet(f func() error) (out, msg string) {
	so := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	out, msg = guard(f)
	os.Stdout = so
	null.Close()
	return
}

func (g *ingestion) analyze(files []string) map[string]*openpgp.Entity {
	var m map[string]*openpgp.Entity
	out, msg := quiet(func() (err error) {
		m, err = pgp.AnalyzeKeyDump(files)
		return
	})
	ms := []M{}
	for email, e := range m {
		ms = append(ms, g.known(email, e))
	}
	T.Emit(M{"ev": "analyze", "out": out, "msg": msg, "kept": ms})
	return m
}

func c12() {
	type size struct{ n, emails int }
	var sizes []size
	for _, s := range []size{{1, 1}, {2, 1}, {3, 1}, {4, 2}, {6, 2}, {12, 3}, {30, 6}} {
		for k := 0; k < pick(2, 8); k++ {
			sizes = append(sizes, s)
		}
	}
	sizes = append(sizes, size{pick(80, 150), 40})
	if thorough() {
		sizes = append(sizes, size{400, 150})
	}
	for si, s := range sizes {
		r := rng(int64(1200 + si))
		dir := filepath.Join(work, "c12", fmt.Sprint(si))
		g := randDump(r, s.n, s.emails, dir)
		Begin(fmt.Sprintf("ingestion of %d keys for %d e-mails", s.n, s.emails), nil)
		g.emit()
		order := make([]int, s.n)
		for i := range order {
			order[i] = i
		}
		byTime := func(up bool) []int {
			o := append([]int{}, order...)
			sort.Slice(o, func(i, j int) bool { return g.keys[o[i]].spec.created.Before(g.keys[o[j]].spec.created) == up })
			return o
		}
		var m map[string]*openpgp.Entity
		var dump string
		orders := [][]int{order, byTime(true), byTime(false)}
		for k := 0; k < pick(3, 10); k++ {
			orders = append(orders, r.Perm(s.n))
		}
		// some keys are in several dumps
		orders = append(orders, append(r.Perm(s.n), r.Perm(s.n)[:(s.n+1)/2]...))
		for _, o := range orders {
			var files []string
			dump, files = g.dump(r, o, 1+r.Intn(4))
			if r.Intn(2) == 0 {
				r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
			}
			m = g.analyze(files)
		}
		// written over an earlier result, which is larger
		outDir := filepath.Join(dir, "out")
		must(os.MkdirAll(outDir, 0o755))
		full := filepath.Join(outDir, pgp.SksParsedFullFileName)
		if r.Intn(2) == 0 {
			must(os.WriteFile(full, bytes.Repeat([]byte{7}, 200000), 0o644))
		}
		out, msg := quiet(func() error { return pgp.WriteKeysOnDisk(outDir, m) })
		T.Emit(M{"ev": "write", "out": out, "msg": msg})
		g.emitLoad("the full file", []string{full})

		// the same with the command
		outDir2, chunkDir := filepath.Join(dir, "out2"), filepath.Join(dir, "chunks")
		must(os.MkdirAll(outDir2, 0o755))
		must(os.MkdirAll(chunkDir, 0o755))
		if r.Intn(2) == 0 {
			must(os.WriteFile(filepath.Join(chunkDir, "sks-000.pgp"), bytes.Repeat([]byte{7}, 200000), 0o644))
		}
		out, msg = dataCmd("parseDump", dump, outDir2)
		T.Emit(M{"ev": "write", "out": out, "msg": msg})
		full2 := filepath.Join(outDir2, pgp.SksParsedFullFileName)
		g.emitLoad("the full file of the command", []string{full2})
		out, msg = dataCmd("genChunks", full2, chunkDir)
		T.Emit(M{"ev": "write", "out": out, "msg": msg})
		g.emitLoad("the chunks", glob(chunkDir))
		os.RemoveAll(dir)
	}
	c12chunks()
	c12damaged()
}

// c12chunks splits files that are larger than a chunk
func c12chunks() {
	const mb = 1 << 20
	const limit = 104857600
	cases := [][]int{
		{70 * mb, 50 * mb, 3, limit - 100, 20, 80, 1, 5, limit, 0, 9},
	}
	if thorough() {
		cases = append(cases, []int{limit + 5, limit + 5}, []int{limit - 30, 1, 1, 1, 1, 40}, []int{50 * mb, 50 * mb, 50 * mb, 50 * mb, 50 * mb, 50 * mb},
			[]int{0}, []int{})
		many := make([]int, 14000)
		for i := range many {
			many[i] = 8000
		}
		cases = append(cases, many)
	}
	for ci, sizes := range cases {
		dir := filepath.Join(work, "c12split")
		Begin(fmt.Sprintf("chunks %d", ci), nil)
		in := filepath.Join(dir, "sks-full.pgp")
		keys := make([]*pgp.Key, len(sizes))
		content := interner{}
		digest := func(k *pgp.Key) int { return content.id([]byte(k.ID + "|" + hashOf(k.Packet))) }
		written := []int{}
		for i, s := range sizes {
			p := make([]byte, s)
			for k := 0; k < len(p); k += 1 + len(p)/1000 {
				p[k] = byte(i + k)
			}
			keys[i] = &pgp.Key{ID: fmt.Sprintf("u%d@x.org", i), Packet: p}
			written = append(written, digest(keys[i]))
		}
		keyFile(in, keys)
		keys = nil
		out := filepath.Join(dir, "chunks")
		must(os.MkdirAll(out, 0o755))
		o, msg := dataCmd("genChunks", in, out)
		loaded := []int{}
		files := glob(out)
		if o == "ok" {
			var ks []*pgp.Key
			o, msg = guard(func() (err error) {
				ks, err = pgp.LoadKeysFromDisk(files)
				return
			})
			for _, k := range ks {
				loaded = append(loaded, digest(k))
			}
		}
		T.Emit(M{"ev": "split", "out": o, "msg": msg, "written": written, "loaded": loaded, "chunks": len(files)})
		os.RemoveAll(dir)
	}
}

// c12damaged loads files that are cut or altered
func c12damaged() {
	r := rng(1299)
	Begin("damaged files", nil)
	dir := filepath.Join(work, "c12damaged")
	must(os.MkdirAll(dir, 0o755))
	f := filepath.Join(dir, "sks-000.pgp")
	stored := storedKeys(r, 4, nil)
	var b bytes.Buffer
	enc := gob.NewEncoder(&b)
	ends := map[int]int{0: 0}
	keys := interner{}
	written := []int{}
	for i, s := range stored {
		must(enc.Encode(s.key()))
		ends[b.Len()] = i + 1
		written = append(written, keys.id([]byte(s.email+"|"+string(s.packet))))
	}
	// the end of the description of the type, which comes first
	ends[1+int(b.Bytes()[0])] = 0
	load := func() ([]int, string) {
		loaded := []int{}
		out, _ := guard(func() error {
			ks, err := pgp.LoadKeysFromDisk([]string{f})
			if err != nil {
				return err
			}
			for _, k := range ks {
				loaded = append(loaded, keys.id([]byte(k.ID+"|"+string(k.Packet))))
			}
			return nil
		})
		return loaded, out
	}
	for cut := 0; cut <= b.Len(); cut++ {
		complete, boundary := ends[cut]
		if !boundary && cut > 150 && !thorough() && r.Intn(4) > 0 {
			continue
		}
		must(os.WriteFile(f, b.Bytes()[:cut], 0o644))
		loaded, out := load()
		if !boundary {
			complete = -1
		}
		T.Emit(M{"ev": "cut", "at": cut, "boundary": boundary, "complete": complete, "out": out, "loaded": loaded, "written": written})
	}
	// a cut file among others
	good := keyFile(filepath.Join(dir, "good.pgp"), []*pgp.Key{stored[0].key()})
	must(os.WriteFile(f, b.Bytes()[:b.Len()-7], 0o644))
	for _, fs := range [][]string{{good, f}, {f, good}, {good, filepath.Join(dir, "missing")}, {filepath.Join(dir, "missing")}, {dir}} {
		for _, p := range []struct {
			name string
			f    func() error
		}{
			{"LoadKeysFromDisk", func() error { _, err := pgp.LoadKeysFromDisk(fs); return err }},
			{"LoadAndParseKeys", func() error { _, err := pgp.LoadAndParseKeys(fs); return err }},
			{"GenerateRealKeyBytes", func() error { _, err := database.GenerateRealKeyBytes(fs, true); return err }},
			{"GenerateRealKeyMerkle", func() error { _, err := database.GenerateRealKeyMerkle(fs, true); return err }},
			{"GenerateRealKeyDB", func() error { _, err := database.GenerateRealKeyDB(fs); return err }},
		} {
			out, msg := guard(p.f)
			T.Emit(M{"ev": "damaged", "how": "cut or missing", "call": p.name, "out": out, "msg": msg})
		}
	}
	chunks := filepath.Join(dir, "chunks")
	must(os.MkdirAll(chunks, 0o755))
	out, _ := dataCmd("genChunks", f, chunks)
	T.Emit(M{"ev": "damaged", "how": "cut", "call": "genChunks", "out": out})
	out, _ = dataCmd("genChunks", filepath.Join(dir, "missing"), chunks)
	T.Emit(M{"ev": "damaged", "how": "missing", "call": "genChunks", "out": out})
	out, _ = dataCmd("genChunks", good, filepath.Join(dir, "nowhere"))
	T.Emit(M{"ev": "damaged", "how": "no such folder", "call": "genChunks", "out": out})
	out, _ = dataCmd("parseDump", filepath.Join(dir, "missing"), dir)
	T.Emit(M{"ev": "damaged", "how": "missing", "call": "parseDump", "out": out})
	for _, g := range []string{"garbage", "\x05\x00\x01\x02\x03\x04", "\xff\xff\xff", strings.Repeat("\x00", 50), "{}"} {
		must(os.WriteFile(f, []byte(g), 0o644))
		_, out := load()
		T.Emit(M{"ev": "damaged", "how": "garbage", "call": "LoadKeysFromDisk", "out": out})
		out, _ = dataCmd("genChunks", f, chunks)
		T.Emit(M{"ev": "damaged", "how": "garbage", "call": "genChunks", "out": out})
	}
	// parts of the file are zeros, from the start of a key on
	for cut := range ends {
		if cut == b.Len() {
			continue
		}
		for _, n := range []int{2, 60, b.Len() - cut} {
			if cut+n > b.Len() {
				continue
			}
			x := append([]byte{}, b.Bytes()...)
			copy(x[cut:cut+n], make([]byte, n))
			must(os.WriteFile(f, x, 0o644))
			_, out := load()
			T.Emit(M{"ev": "damaged", "how": "zeros", "call": "LoadKeysFromDisk", "out": out})
			out, _ = dataCmd("genChunks", f, chunks)
			T.Emit(M{"ev": "damaged", "how": "zeros", "call": "genChunks", "out": out})
		}
	}
	// keys with an altered byte in what their signature covers
	for _, s := range stored {
		ps := packets(s.packet)
		key, uid := len(ps[0]), len(ps[1])
		for n := 0; n < pick(25, 400); n++ {
			p := append([]byte{}, s.packet...)
			pos := 3 + r.Intn(3) // the creation time
			if n%3 == 1 {
				pos = key - 1 - r.Intn(30)
			} else if n%3 == 2 {
				pos = key + uid - 1 - r.Intn(uid-4)
			}
			p[pos] ^= 1 << r.Intn(8)
			keyFile(f, []*pgp.Key{{ID: s.email, Packet: p}})
			out, msg := guard(func() error { _, err := pgp.LoadAndParseKeys([]string{f}); return err })
			T.Emit(M{"ev": "damaged", "how": fmt.Sprintf("byte %d", pos), "call": "LoadAndParseKeys", "out": out, "msg": msg})
			out, msg = guard(func() error { _, err := database.GetKeyInfoFromPacket(p); return err })
			T.Emit(M{"ev": "damaged", "how": fmt.Sprintf("byte %d", pos), "call": "GetKeyInfoFromPacket", "out": out, "msg": msg})
			out, msg = guard(func() error { _, err := pgp.RecoverKeyFromBlock(p, s.email); return err })
			T.Emit(M{"ev": "damaged", "how": fmt.Sprintf("byte %d", pos), "call": "RecoverKeyFromBlock", "out": out, "msg": msg})
		}
	}
	os.RemoveAll(dir)
}

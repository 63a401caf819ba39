package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/server"
)

func init() {
	drivers["c11"] = c11
	drivers["c11child"] = c11child
}

var layouts = []string{"table", "plain-vector", "plain-square", "merkle-vector", "merkle-square"}

type directory struct {
	layout string
	info   *database.Info
	db     *database.Bytes
	table  *database.DB
}

// build is how a server makes its directory
func build(layout string, files []string) (d *directory, out, msg string) {
	d = &directory{layout: layout}
	out, msg = guard(func() (err error) {
		switch layout {
		case "table":
			if d.table, err = database.GenerateRealKeyDB(files); err == nil {
				d.info = &d.table.Info
			}
		case "plain-vector", "plain-square":
			if d.db, err = database.GenerateRealKeyBytes(files, layout == "plain-square"); err == nil {
				d.info = &d.db.Info
			}
		default:
			if d.db, err = database.GenerateRealKeyMerkle(files, layout == "merkle-square"); err == nil {
				d.info = &d.db.Info
			}
		}
		return
	})
	return
}

// digest is of everything in the directory
func (d *directory) digest() string {
	h := sha256.New()
	i := d.info
	fmt.Fprintln(h, i.NumRows, i.NumColumns, i.BlockSize, i.PIRType, i.BlockLengths)
	if i.Merkle != nil {
		fmt.Fprintln(h, i.ProofLen, i.Root)
	}
	if d.db != nil {
		h.Write(d.db.Entries)
	}
	if d.table != nil {
		for _, k := range d.table.KeysInfo {
			fmt.Fprintf(h, "%q %q %q %q %d %d %d\n", k.UserId.Id, k.UserId.Name, k.UserId.Comment, k.UserId.Email,
				k.CreationTime.Unix(), k.PubKeyAlgo, k.BitLength)
		}
	}
	return hex.EncodeToString(h.Sum(nil))
}

// c11child is another server: it prints the digests of its directories
func c11child() {
	files := strings.Split(os.Getenv("VERIF_FILES"), ":")
	for _, l := range layouts {
		d, out, _ := build(l, files)
		dig := ""
		if out == "ok" {
			dig = d.digest()
		}
		T.Emit(M{"layout": l, "out": out, "digest": dig})
	}
}

func otherProcess(files []string, dir string) string {
	out := filepath.Join(dir, "child")
	os.Remove(out)
	cmd := exec.Command(os.Args[0], "c11child", "-out", out)
	cmd.Env = append(os.Environ(), "VERIF_FILES="+strings.Join(files, ":"), "TZ=Pacific/Auckland")
	if b, err := cmd.CombinedOutput(); err != nil {
		fail("child: %v %s", err, b)
	}
	return out
}

type dirCase struct {
	keys []*stored
	dir  string
	n    int
}

// split writes the keys to files, in the order given
func (c *dirCase) split(order []int, parts []int) []string {
	var files []string
	c.n++
	pos := 0
	for i, p := range parts {
		var ks []*pgp.Key
		for ; p > 0; p-- {
			ks = append(ks, c.keys[order[pos]].key())
			pos++
		}
		files = append(files, keyFile(filepath.Join(c.dir, fmt.Sprintf("split%d", c.n), fmt.Sprintf("sks-%03d.pgp", i)), ks))
	}
	return files
}

func randParts(r *rand.Rand, n, files int) []int {
	parts := make([]int, files)
	for ; n > 0; n-- {
		parts[r.Intn(files)]++
	}
	return parts
}

func c11() {
	type dcase struct {
		n    int
		ok   func(email string) bool
		name string
		like bool // e-mails with common parts
		long bool // keys of almost 8 KiB
	}
	var cases []dcase
	sizes := []int{1, 2, 5, 9, 10, 11, 19, 20, 31, 95, 250}
	if thorough() {
		sizes = append(sizes, 0, 3, 29, 30, 40, 50, 60, 89, 90, 91, 99, 100, 101, 400, 1000, 3000)
	}
	for _, n := range sizes {
		cases = append(cases, dcase{n, nil, "", false, false})
	}
	for _, n := range []int{12, 19, pick(60, 300)} {
		cases = append(cases, dcase{n, nil, " with like e-mails", true, false})
	}
	// large keys, many in a bucket
	for _, n := range []int{12, pick(31, 80)} {
		cases = append(cases, dcase{n, nil, " of almost 8 KiB", false, true})
	}
	// with empty buckets: the same number of buckets in a vector and in a square
	for _, b := range []int{4, 9, pick(9, 25)} {
		b := b
		n := 10 * b
		at := func(f func(i int) bool) func(string) bool {
			return func(e string) bool { return f(int(database.HashToIndex(e, b))) }
		}
		cases = append(cases, dcase{n, at(func(i int) bool { return i == 0 }), " in the first bucket", false, false},
			dcase{n, at(func(i int) bool { return i == b-1 }), " in the last bucket", false, false},
			dcase{n, at(func(i int) bool { return i%2 == 1 }), " in odd buckets", false, false},
			dcase{n, at(func(i int) bool { return i != 0 && i != b-1 }), " in the inner buckets", false, false})
	}
	for ci, dc := range cases {
		n := dc.n
		r := rng(int64(1100 + ci))
		dir := filepath.Join(work, "c11", fmt.Sprint(ci))
		c := &dirCase{dir: dir}
		if dc.like {
			c.keys = namedKeys(r, alike(r, n), false)
		} else {
			c.keys = storedKeys(r, n, dc.ok)
		}
		if dc.long {
			parallelFor(n, func(i int) {
				k := c.keys[i]
				k.spec.ids[0].name = strings.Repeat("n", 7000-len(k.packet)) + fmt.Sprint(i)
				k.packet = makeKey(k.spec)
			})
		}
		Begin(fmt.Sprintf("directory of %d keys%s", n, dc.name), nil)
		T.Emit(M{"ev": "keys", "n": n})

		in := interner{}
		id := make([]int, n)
		for i := range id {
			id[i] = i
		}
		var splits [][]string
		splits = append(splits, c.split(id, []int{n}))
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		splits = append(splits, c.split(rev, []int{0, n}))
		byEmail := append([]int{}, id...)
		sort.Slice(byEmail, func(i, j int) bool { return c.keys[byEmail[i]].email < c.keys[byEmail[j]].email })
		splits = append(splits, c.split(byEmail, randParts(r, n, 2)))
		for k := 0; k < pick(2, 5); k++ {
			splits = append(splits, c.split(r.Perm(n), randParts(r, n, 1+r.Intn(5))))
		}
		last := splits[len(splits)-1]
		backwards := make([]string, len(last))
		for i, f := range last {
			backwards[len(last)-1-i] = f
		}
		splits = append(splits, backwards)

		dirs := map[string]*directory{}
		for si, files := range splits {
			for _, l := range layouts {
				d, out, msg := build(l, files)
				e := M{"ev": "build", "layout": l, "split": si, "process": 0, "out": out, "msg": msg, "digest": 0}
				if out == "ok" {
					e["digest"] = in.id([]byte(d.digest()))
					if dirs[l] == nil || r.Intn(3) == 0 {
						dirs[l] = d
					}
				}
				T.Emit(e)
			}
		}
		for p := 0; p < 2; p++ {
			si := r.Intn(len(splits))
			f := otherProcess(splits[si], dir)
			readJSON(f, func(m M) {
				T.Emit(M{"ev": "build", "layout": m["layout"], "split": si, "process": p + 1, "out": m["out"], "msg": "",
					"digest": in.id([]byte(m["digest"].(string)))})
			})
		}
		for _, l := range layouts {
			d := dirs[l]
			if d == nil {
				continue
			}
			if l == "table" {
				c.checkTable(d)
			} else {
				c.lookups(r, d)
			}
		}
		os.RemoveAll(dir)
	}
}

// checkTable records which key every row of the metadata table describes
func (c *dirCase) checkTable(d *directory) {
	rows := make([]int, len(d.table.KeysInfo))
	for i, k := range d.table.KeysInfo {
		rows[i] = -1
		for j, s := range c.keys {
			if k == nil || k.UserId == nil || strings.ToLower(k.UserId.Email) != s.email {
				continue
			}
			el, err := openpgp.ReadKeyRing(bytes.NewReader(s.packet))
			must(err)
			pk := el[0].PrimaryKey
			bits := s.spec.rsaBits
			if k.UserId.Id == s.spec.primary().id() && k.CreationTime.Equal(s.spec.created) && k.PubKeyAlgo == pk.PubKeyAlgo &&
				int(k.BitLength) == bits {
				rows[i] = j
			}
		}
	}
	T.Emit(M{"ev": "table", "rows": rows, "announced": d.info.NumColumns})
}

type session struct {
	k       int
	servers []*server.PIR
	c       *client.PIR
}

// lookups retrieves by e-mail, as the clients do
func (c *dirCase) lookups(r *rand.Rand, d *directory) {
	buckets := d.info.NumRows * d.info.NumColumns
	var sessions []*session
	for _, k := range []int{2, 3} {
		s := &session{k: k, c: client.NewPIR(prg(r), copyInfo(d.info))}
		for i := 0; i < k; i++ {
			s.servers = append(s.servers, pointServer(d.db, k))
		}
		sessions = append(sessions, s)
	}
	used := make([]bool, buckets)
	for _, s := range c.keys {
		if i := database.HashToIndex(s.email, buckets); int(i) < buckets {
			used[i] = true
		}
	}
	max := pick(40, 200)
	for n, i := range r.Perm(len(c.keys)) {
		if n >= max {
			break
		}
		c.lookup(r, sessions, d, c.keys[i].email, i, buckets, used)
	}
	// e-mails that are not stored
	have := map[string]bool{}
	for _, s := range c.keys {
		have[s.email] = true
	}
	absent := func(e string) bool {
		if have[e] {
			return false
		}
		c.lookup(r, sessions, d, e, -1, buckets, used)
		return true
	}
	absent("")
	absent("nobody@nowhere.org")
	for n, i := range r.Perm(len(c.keys)) {
		if n >= pick(4, 20) {
			break
		}
		e := c.keys[i].email
		absent(e[1:])
		absent(e + "x")
		absent(e + "\x00")
		absent(strings.ToUpper(e))
		absent("other-" + e)
	}
	// one for many buckets, full or empty
	seen, count := make([]bool, buckets), 0
	for t := 0; t < 60*buckets && count < pick(25, 300); t++ {
		e := fmt.Sprintf("absent%d@%s", r.Intn(1<<30), domains[r.Intn(len(domains))])
		i := database.HashToIndex(e, buckets)
		if int(i) < buckets && seen[i] || have[e] {
			continue
		}
		if int(i) < buckets {
			seen[i] = true
		}
		count++
		absent(e)
	}
}

func (c *dirCase) lookup(r *rand.Rand, sessions []*session, d *directory, email string, key, buckets int, used []bool) {
	s := sessions[r.Intn(len(sessions))]
	got := -1
	res := "absent"
	var index uint32
	out, msg := guard(func() error {
		index = database.HashToIndex(email, buckets)
		in := make([]byte, 4)
		binary.BigEndian.PutUint32(in, index)
		q, err := s.c.QueryBytes(in, s.k)
		if err != nil {
			return err
		}
		answers := make([][]byte, s.k)
		for i := range answers {
			if answers[i], err = s.servers[i].AnswerBytes(q[i]); err != nil {
				return err
			}
		}
		v, err := s.c.ReconstructBytes(answers)
		if err != nil {
			return err
		}
		b, ok := valBytes(v)
		if !ok {
			return fmt.Errorf("not bytes")
		}
		e, err := pgp.RecoverKeyFromBlock(database.UnPadBlock(b), email)
		if err != nil {
			if e != nil {
				res = "both"
			}
			return nil
		}
		res = "key"
		// the armored key the users get is the stored one
		armored, err := pgp.ArmorKey(e)
		if err != nil {
			return err
		}
		el, err := openpgp.ReadArmoredKeyRing(strings.NewReader(armored))
		if err != nil || len(el) != 1 {
			return fmt.Errorf("armored: %v", err)
		}
		var b1, b2 bytes.Buffer
		must(e.Serialize(&b1))
		must(el[0].Serialize(&b2))
		for i, s := range c.keys {
			if sameKey(b1.Bytes(), s.packet) && sameKey(b2.Bytes(), s.packet) {
				got = i
			}
		}
		return nil
	})
	empty := int(index) < buckets && !used[index]
	T.Emit(M{"ev": "lookup", "layout": d.layout, "k": s.k, "asked": key, "email": email, "empty": empty,
		"out": out, "msg": msg, "res": res, "got": got})
}

// sameKey compares two keys up to the order of the user ids
func sameKey(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	if len(a) != len(b) {
		return false
	}
	pa, pb := packets(a), packets(b)
	sort.Strings(pa)
	sort.Strings(pb)
	return strings.Join(pa, "|") == strings.Join(pb, "|")
}

// packets splits a key
func packets(b []byte) []string {
	var out []string
	for len(b) > 2 {
		n := len(b) - len(packetBody(b))
		var l int
		switch n {
		case 2:
			l = int(b[1])
		case 3:
			l = (int(b[1])-192)<<8 + int(b[2]) + 192
		default:
			l = int(binary.BigEndian.Uint32(b[2:]))
		}
		if n+l > len(b) {
			return append(out, "cut "+string(b))
		}
		out = append(out, string(b[:n+l]))
		b = b[n+l:]
	}
	return out
}

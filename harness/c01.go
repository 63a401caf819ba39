package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
)

func init() { drivers["c01"] = c01 }

// records of different lengths, with the contents that are special somewhere
func records(r *rand.Rand, n, max int) [][]byte {
	recs := make([][]byte, n)
	for i := range recs {
		l := r.Intn(max + 1)
		switch r.Intn(5) {
		case 0:
			l = 0
		case 1:
			l = max
		}
		recs[i] = randBytes(r, l)
		if l > 0 {
			switch r.Intn(6) {
			case 0: // ends as padding does
				recs[i][l-1] = 0x80
			case 1:
				recs[i][l-1] = 0
			case 2:
				if l > 1 {
					recs[i][l-2], recs[i][l-1] = 0x80, 0
				}
			case 3:
				if i > 0 {
					recs[i] = append([]byte{}, recs[i-1]...)
				}
			}
		}
	}
	return recs
}

// session retrieves records from one database with k servers and two clients
func pointSession(r *rand.Rand, p *pdb, k, queries int) {
	Begin(fmt.Sprintf("%s-%dx%d-k%d", p.name, p.db.NumRows, p.db.NumColumns, k), nil)
	p.emit()
	entries := append([]byte{}, p.db.Entries...)
	lens := append([]int{}, p.db.BlockLengths...)
	servers := make([]*server.PIR, k)
	for i := range servers {
		servers[i] = pointServer(p.db, k)
	}
	clients := []*pclient{
		{"a", client.NewPIR(prg(r), copyInfo(servers[0].DBInfo())), nil},
		{"b", client.NewPIR(utils.RandomPRG(), copyInfo(servers[k-1].DBInfo())), nil},
	}
	if p.long != nil {
		clients[0].p, clients[1].p = p, p
	}
	n := p.db.NumRows * p.db.NumColumns
	var idx []int
	if n <= queries {
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
		r.Shuffle(n, func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
		idx = append(idx, idx[0], idx[0]) // the same again
	} else {
		c := p.db.NumColumns
		for _, i := range []int{0, n - 1, c - 1, c, n - c, 7, 8, 9, 15, 16, 127, 128, 129, 4095, 4096, 32768, 65535, 65536, 65537} {
			if i >= 0 && i < n && len(idx) < queries {
				idx = append(idx, i)
			}
		}
		for len(idx) < queries {
			idx = append(idx, r.Intn(n))
		}
	}
	var held [][]byte
	holder := clients[0]
	for x, i := range idx {
		c := clients[0]
		if x%3 == 2 {
			c = clients[1]
		}
		// every fifth time the answers are used only after another client's session
		if held == nil && x%5 == 1 {
			if _, a := c.ask(p, servers, i); a != nil {
				held, holder = a, c
			}
			continue
		}
		if held != nil && c == holder {
			c.reconstruct("result", nil, held)
			held = nil
		}
		if _, a := c.ask(p, servers, i); a != nil {
			c.reconstruct("result", nil, a)
		}
		if held != nil {
			holder.reconstruct("result", nil, held)
			held = nil
		}
	}
	if held != nil {
		holder.reconstruct("result", nil, held)
	}
	// not in the database, or not to enough servers
	for _, bad := range [][2]int{{n, k}, {n + 7, k}, {-1, k}, {0, 1}, {0, 0}} {
		var q [][]byte
		out, _ := guard(func() error {
			var err error
			q, err = clients[0].c.QueryBytes(be(bad[0]), bad[1])
			return err
		})
		T.Emit(M{"ev": "query", "client": "a", "index": bad[0], "k": bad[1], "out": out, "n": len(q)})
	}
	// and the client is usable after that
	if _, a := clients[0].ask(p, servers, 0); a != nil {
		clients[0].reconstruct("result", nil, a)
	}
	same := bytes.Equal(entries, p.db.Entries) && fmt.Sprint(lens) == fmt.Sprint(p.db.BlockLengths)
	T.Emit(M{"ev": "untouched", "same": same})
}

func c01() {
	r := rng(1)
	colss := []int{1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257}
	if thorough() {
		for c := 1; c <= 70; c++ {
			colss = append(colss, c)
		}
		colss = append(colss, 120, 121, 126, 131, 200, 248, 254, 258, 300, 511, 512, 513, 640, 1000, 1024, 1025, 2047, 2049)
	}
	for x, cols := range colss {
		for k := 2; k <= 5; k++ {
			rowss := []int{1, 2 + r.Intn(4)}
			for _, rows := range rowss {
				n := rows * cols
				q := pick(8, 16)
				if cols < 10 {
					q = 24
				}
				switch (x + k + rows) % 4 {
				case 0:
					pointSession(r, randomDB(r, rows, cols, 1+r.Intn(9)), k, q)
				case 1:
					pointSession(r, plainDB("lengths", rows, cols, records(r, n, 1+r.Intn(12))), k, q)
				case 2:
					pointSession(r, authDB("auth-lengths", rows, cols, records(r, n, 1+r.Intn(12))), k, q)
				case 3:
					pointSession(r, randomAuthDB(r, rows, cols, 1+r.Intn(9)), k, q)
				}
			}
		}
	}
	// every small shape, every kind, every index
	for rows := 1; rows <= 3; rows++ {
		for cols := 1; cols <= pick(4, 9); cols++ {
			for k := 2; k <= 4; k++ {
				n := rows * cols
				pointSession(r, randomDB(r, rows, cols, 1+r.Intn(3)), k, n)
				pointSession(r, randomAuthDB(r, rows, cols, 1+r.Intn(40)), k, n)
				pointSession(r, plainDB("lengths", rows, cols, records(r, n, 5)), k, n)
				pointSession(r, authDB("auth-lengths", rows, cols, records(r, n, 5)), k, n)
			}
		}
	}
	// all records but one empty, and one column or one row
	for _, s := range [][2]int{{1, 9}, {9, 1}, {4, 4}, {3, 130}, {130, 3}} {
		n := s[0] * s[1]
		recs := make([][]byte, n)
		for i := range recs {
			recs[i] = []byte{}
		}
		recs[n/2] = randBytes(r, 17)
		for k := 2; k <= 3; k++ {
			pointSession(r, plainDB("sparse", s[0], s[1], recs), k, 12)
			pointSession(r, authDB("auth-sparse", s[0], s[1], recs), k, 12)
		}
	}
	// larger blocks, as keys have
	for k := 2; k <= 3; k++ {
		pointSession(r, randomDB(r, 3, 11, 700), k, 6)
		pointSession(r, randomAuthDB(r, 2, 9, 900), k, 6)
		pointSession(r, authDB("auth-lengths", 2, 7, records(r, 14, 1200)), k, 6)
	}
	// very many servers
	for x, k := range []int{6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, pick(300, 1000)} {
		rows, cols := 1+r.Intn(3), []int{1, 3, 8, 9, 17, 40}[r.Intn(6)]
		n := rows * cols
		switch x % 4 {
		case 0:
			pointSession(r, randomDB(r, rows, cols, 1+r.Intn(9)), k, 4)
		case 1:
			pointSession(r, authDB("auth-lengths", rows, cols, records(r, n, 1+r.Intn(12))), k, 4)
		case 2:
			pointSession(r, plainDB("lengths", rows, cols, records(r, n, 1+r.Intn(12))), k, 4)
		case 3:
			pointSession(r, randomAuthDB(r, rows, cols, 1+r.Intn(9)), k, 4)
		}
	}
	// very many records
	for x, s := range [][2]int{{1, 70001}, {70003, 1}, {2, 33000}, {301, 220}, {1, 4097}, {1, 8200}, {1, 16390}, {5, 1030}, {1050, 4}, {4099, 1}} {
		for k := 2; k <= 3; k++ {
			n := s[0] * s[1]
			var p *pdb
			switch (x + k) % 4 {
			case 0:
				p = randomDB(r, s[0], s[1], 1+r.Intn(3))
			case 1:
				p = authDB("auth-many", s[0], s[1], records(r, n, 4))
			case 2:
				p = plainDB("many", s[0], s[1], records(r, n, 4))
			case 3:
				p = randomAuthDB(r, s[0], s[1], 2)
			}
			p.long = interner{}
			pointSession(r, p, k, pick(28, 60))
		}
	}
	// records as long as a bucket of keys can be
	for x, top := range []int{32767, 65535, 65536, pick(70000, 300000)} {
		for k := 2; k <= 3; k++ {
			for _, p := range []*pdb{
				plainDB("long", 2, 3, longRecords(r, 6, top)),
				authDB("auth-long", 3, 2, longRecords(r, 6, top)),
				randomDB(r, 1+x%2, 3, top),
				randomAuthDB(r, 2, 2, top),
			} {
				p.long = interner{}
				pointSession(r, p, k, 4)
			}
		}
	}
}

func longRecords(r *rand.Rand, n, top int) [][]byte {
	recs := make([][]byte, n)
	for i := range recs {
		recs[i] = randBytes(r, top-r.Intn(3)*r.Intn(5000))
	}
	recs[r.Intn(n)] = randBytes(r, top)
	recs[r.Intn(n)] = []byte{1}
	return recs
}

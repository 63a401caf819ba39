package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
)

// pdb is a database of the point schemes with the records it has to hold
type pdb struct {
	name    string
	db      *database.Bytes
	records [][]byte
	auth    bool
	long    interner // records are recorded as numbers
}

// word is how a record, or what a client got for it, appears in the trace
func (p *pdb) word(b []byte, record bool) []int {
	if p.long == nil {
		return ints(b)
	}
	if record && !p.auth {
		b = append(append([]byte{}, b...), make([]byte, p.db.BlockSize-len(b))...)
	}
	return []int{p.long.id(b)}
}

func lens(recs [][]byte) (l []int, max int) {
	for _, r := range recs {
		l = append(l, len(r))
		if len(r) > max {
			max = len(r)
		}
	}
	return
}

// plainDB has blocks of the lengths of the records
func plainDB(name string, rows, cols int, recs [][]byte) *pdb {
	l, max := lens(recs)
	return &pdb{name: name, records: recs, db: &database.Bytes{
		Entries: bytes.Join(recs, nil),
		Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: max, BlockLengths: l,
			Merkle: &database.Merkle{}},
	}}
}

// authDB has the records followed by their proofs
func authDB(name string, rows, cols int, recs [][]byte) *pdb {
	tree, err := merkle.New(clone2(recs))
	must2(err)
	var blocks [][]byte
	for i, d := range recs {
		p, err := tree.GenerateProofAt(uint32(i))
		must2(err)
		blocks = append(blocks, database.PadWithSignalByte(append(append([]byte{}, d...), merkle.EncodeProof(p)...)))
	}
	l, max := lens(blocks)
	return &pdb{name: name, records: recs, auth: true, db: &database.Bytes{
		Entries: bytes.Join(blocks, nil),
		Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: max, BlockLengths: l, PIRType: "merkle",
			Merkle: &database.Merkle{Root: tree.Root(), ProofLen: tree.EncodedProofLength()}},
	}}
}

// randomDB and randomAuthDB come from the database package
func randomDB(r *rand.Rand, rows, cols, bl int) *pdb {
	content := randBytes(r, rows*cols*bl)
	db := database.CreateRandomBytes(bytes.NewReader(content), len(content)*8, rows, bl)
	return &pdb{name: "random", db: db, records: split(content, bl)}
}

func randomAuthDB(r *rand.Rand, rows, cols, bl int) *pdb {
	content := randBytes(r, rows*cols*bl)
	db := database.CreateRandomMerkle(bytes.NewReader(content), len(content)*8, rows, bl)
	return &pdb{name: "random-merkle", db: db, records: split(content, bl), auth: true}
}

func split(b []byte, n int) [][]byte {
	var out [][]byte
	for i := 0; i+n <= len(b); i += n {
		out = append(out, append([]byte{}, b[i:i+n]...))
	}
	return out
}

func intss(b [][]byte) [][]int {
	out := make([][]int, len(b))
	for i := range b {
		out[i] = ints(b[i])
	}
	return out
}

func (p *pdb) emit() {
	recs := make([][]int, len(p.records))
	for i := range recs {
		recs[i] = p.word(p.records[i], true)
	}
	bs := p.db.BlockSize
	if p.long != nil {
		bs = 1
	}
	T.Emit(M{"ev": "db", "kind": p.name, "out": "ok", "rows": p.db.NumRows, "cols": p.db.NumColumns, "bs": bs,
		"auth": p.auth, "records": recs})
}

func be(i int) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(i))
	return b
}

// prg is the randomness of a client, determined by the seed of the run
func prg(r *rand.Rand) io.Reader {
	var k utils.PRGKey
	r.Read(k[:])
	return utils.NewPRG(&k)
}

// copyInfo is what a client gets to know about the database
func copyInfo(i *database.Info) *database.Info {
	c := *i
	c.BlockLengths = append([]int{}, i.BlockLengths...)
	if i.Merkle != nil {
		c.Merkle = &database.Merkle{Root: append([]byte{}, i.Root...), ProofLen: i.ProofLen}
	}
	return &c
}

func pointServer(db *database.Bytes, k int) *server.PIR {
	if k == 2 {
		return server.NewPIRTwo(db)
	}
	return server.NewPIR(db)
}

func valBytes(v interface{}) ([]byte, bool) {
	switch x := v.(type) {
	case []byte:
		return x, true
	case nil:
		return nil, true
	}
	return nil, false
}

// pclient runs the queries of one client
type pclient struct {
	id string
	c  *client.PIR
	p  *pdb // the database, if its records are long
}

// ask queries and collects the answers of honest servers
func (c *pclient) ask(p *pdb, servers []*server.PIR, index int) ([][]byte, [][]byte) {
	k := len(servers)
	var q [][]byte
	out, msg := guard(func() error {
		var err error
		q, err = c.c.QueryBytes(be(index), k)
		return err
	})
	T.Emit(M{"ev": "query", "client": c.id, "index": index, "k": k, "out": out, "n": len(q), "msg": msg})
	if out != "ok" || len(q) != k {
		return nil, nil
	}
	answers := make([][]byte, k)
	for s, srv := range servers {
		out, _ := guard(func() error {
			var err error
			answers[s], err = srv.AnswerBytes(q[s])
			return err
		})
		if out != "ok" {
			T.Emit(M{"ev": "serve", "client": c.id, "server": s, "out": out})
			return nil, nil
		}
	}
	return q, answers
}

func (c *pclient) reconstruct(ev string, m M, answers [][]byte) []byte {
	var v []byte
	out, _ := guard(func() error {
		x, err := c.c.ReconstructBytes(answers)
		if err != nil {
			return err
		}
		var ok bool
		if v, ok = valBytes(x); !ok {
			return fmt.Errorf("not bytes: %T", x)
		}
		return nil
	})
	e := M{"ev": ev, "client": c.id, "out": out, "val": ints(v)}
	if c.p != nil && out == "ok" {
		e["val"] = c.p.word(v, false)
	}
	for k, x := range m {
		e[k] = x
	}
	T.Emit(e)
	if out != "ok" {
		return nil
	}
	return v
}

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math/rand"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
)

// meta is the metadata of a key
type meta struct {
	email string
	t     time.Time
	algo  uint8
}

type pred struct {
	kind, part string
	text       string
	year       int
	t          time.Time
	algo       uint8
}

func instant(t time.Time) string { return t.UTC().Format(time.RFC3339Nano) }

func (p *pred) m() M {
	return M{"kind": p.kind, "part": p.part, "text": ints([]byte(p.text)), "year": p.year, "time": instant(p.t), "algo": p.algo}
}

// algoNames are the algorithms the query package knows by name
var algoNames = map[uint8]string{
	uint8(packet.PubKeyAlgoRSA): "RSA", uint8(packet.PubKeyAlgoElGamal): "ElGamal", uint8(packet.PubKeyAlgoDSA): "DSA",
	uint8(packet.PubKeyAlgoECDH): "ECDH", uint8(packet.PubKeyAlgoECDSA): "ECDSA",
}

// query builds the query for the predicate, with the helpers of the package where there are some
func (p *pred) query(r *rand.Rand) *query.ClientFSS {
	info := &query.Info{}
	switch p.part {
	case "start":
		info.FromStart = len(p.text)
	case "end":
		info.FromEnd = len(p.text)
	}
	switch p.kind {
	case "email":
		info.Target = query.UserId
		return info.ToEmailClientFSS(p.text)
	case "algo":
		info.Target = query.PubKeyAlgo
		if n, ok := algoNames[p.algo]; ok && r.Intn(2) == 0 {
			return info.ToPKAClientFSS(n)
		}
		return &query.ClientFSS{Info: info, Input: info.IdForPubKeyAlgo(packet.PublicKeyAlgorithm(p.algo))}
	case "time":
		info.Target = query.CreationTime
		id, err := info.IdForCreationTime(p.t)
		must2(err)
		return &query.ClientFSS{Info: info, Input: id}
	case "year":
		info.Target = query.CreationTime
		return info.ToCreationTimeClientFSS(fmt.Sprint(p.year))
	case "and":
		info.And = true
		y, err := info.IdForYearCreationTime(p.t)
		must2(err)
		id, _ := info.IdForEmail(p.text)
		return &query.ClientFSS{Info: info, Input: append(append([]bool{}, y...), id...)}
	case "avg":
		info.And, info.Avg = true, true
		return info.ToAvgClientFSS(p.text)
	}
	panic("pred")
}

type fssClient interface {
	QueryBytes([]byte, int) ([][]byte, error)
	ReconstructBytes([][]byte) (interface{}, error)
}
type fssServer interface {
	AnswerBytes([]byte) ([]byte, error)
}

// table is the metadata with the servers that hold it
type table struct {
	keys []meta
	auth bool
	srv  [2]fssServer
	dbs  [2]*database.DB
}

func keysDB(keys []meta, zone func(time.Time) time.Time) *database.DB {
	db := database.NewKeysDB(database.Info{NumColumns: len(keys), Merkle: &database.Merkle{Root: []byte{0}}})
	for _, k := range keys {
		db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{
			UserId: &packet.UserId{Email: k.email}, CreationTime: zone(k.t), PubKeyAlgo: packet.PublicKeyAlgorithm(k.algo)})
	}
	return db
}

func newTable(keys []meta, auth bool, z0, z1 func(time.Time) time.Time) *table {
	t := &table{keys: keys, auth: auth}
	for s, z := range []func(time.Time) time.Time{z0, z1} {
		t.dbs[s] = keysDB(keys, z)
		t.srv[s] = fssSrv(t.dbs[s], byte(s), auth)
	}
	return t
}

func fssSrv(db *database.DB, s byte, auth bool) fssServer {
	if auth {
		return server.NewPredicateAPIR(db, s)
	}
	return server.NewPredicatePIR(db, s)
}

func (t *table) client(r *rand.Rand) fssClient {
	info := t.dbs[0].Info
	if t.auth {
		return client.NewPredicateAPIR(prg(r), &info)
	}
	return client.NewPredicatePIR(prg(r), &info)
}

// thisYear is the year during the whole run
var thisYear = time.Now().UTC().Year()

func (t *table) emit() {
	ks := make([]M, len(t.keys))
	for i, k := range t.keys {
		ks[i] = M{"email": ints([]byte(k.email)), "year": k.t.UTC().Year(), "time": instant(k.t), "algo": k.algo}
	}
	T.Emit(M{"ev": "keys", "keys": ks, "now": thisYear, "auth": t.auth})
}

func utc(t time.Time) time.Time { return t.UTC() }
func zone(r *rand.Rand) func(time.Time) time.Time {
	return func(t time.Time) time.Time {
		return t.In(time.FixedZone("z", []int{0, 3600, -5 * 3600, 14 * 3600, -12 * 3600, 5*3600 + 1800, 1172, -17762, 1}[r.Intn(9)]))
	}
}

// exchange is one query with the honest answers
type exchange struct {
	c       fssClient
	p       pred
	queries [][]byte
	answers [][]byte
	out     string
	msg     string
}

func (t *table) exchange(r *rand.Rand, c fssClient, p pred) *exchange {
	x := &exchange{c: c, p: p}
	x.out, x.msg = guard(func() error {
		q := p.query(r)
		if p.kind == "year" { // the instant which the query carries
			x.p.kind = "time"
			x.p.t = instantOf(q.Input)
		}
		in, err := q.Encode()
		if err != nil {
			return err
		}
		if x.queries, err = c.QueryBytes(in, 2); err != nil {
			return err
		}
		for s := range t.srv {
			a, err := t.srv[s].AnswerBytes(x.queries[s])
			if err != nil {
				return err
			}
			x.answers = append(x.answers, a)
		}
		return nil
	})
	return x
}

func instantOf(in []bool) time.Time {
	b := make([]byte, len(in)/8)
	for i, x := range in {
		if x {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	var t time.Time
	if t.UnmarshalBinary(b) != nil {
		return time.Unix(1, 1)
	}
	return t
}

func (x *exchange) reconstruct(answers [][]byte) (string, int) {
	v := uint32(0)
	out, _ := guard(func() error {
		i, err := x.c.ReconstructBytes(answers)
		if err != nil {
			return err
		}
		var ok bool
		if v, ok = i.(uint32); !ok {
			return fmt.Errorf("type %T", i)
		}
		return nil
	})
	if v > p31-1 {
		return out, -1000000
	}
	return out, int(v)
}

// result is the event of an honest exchange
func (x *exchange) result() M {
	m := M{"ev": "answer", "pred": x.p.m(), "out": "failed", "val": 0, "msg": x.msg}
	if x.out == "ok" {
		m["out"], m["val"] = x.reconstruct(x.answers)
	} else {
		m["out"] = x.out + " before the answers"
	}
	return m
}

func decodeFSS(b []byte) (*query.FSS, error) {
	var q *query.FSS
	err := gob.NewDecoder(bytes.NewReader(b)).Decode(&q)
	return q, err
}

func encodeFSS(q *query.FSS) []byte {
	var b bytes.Buffer
	must2(gob.NewEncoder(&b).Encode(q))
	return b.Bytes()
}

func getWords(b []byte) []uint32 {
	out := make([]uint32, len(b)/4)
	for i := range out {
		out[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	return out
}

func putWords(v []uint32) []byte {
	out := make([]byte, 4*len(v))
	for i, x := range v {
		binary.BigEndian.PutUint32(out[4*i:], x)
	}
	return out
}

// tables of metadata with matching and nearly matching e-mails
func randKeys(r *rand.Rand, n int) []meta {
	parts := []string{"a", "al", "alice", "bob", "", "carol", "x@", "al@", "A"}
	doms := []string{"@epfl.ch", "@b.ch", "", "@x", "ch", ".ch", "@epfl.CH", "@mepfl.ch", "@epfl.chx"}
	var ks []meta
	for i := 0; i < n; i++ {
		k := meta{algo: []uint8{1, 16, 17, 18, 19, 22, 0, 255}[r.Intn(8)]}
		k.email = parts[r.Intn(len(parts))] + doms[r.Intn(len(doms))]
		if r.Intn(12) == 0 {
			k.email = "a-very-long-local-part-of-an-address-of-more-than-32-bytes" + doms[r.Intn(len(doms))]
		}
		if r.Intn(15) == 0 {
			k.email = "é" + k.email + "ü"
		}
		y := []int{2018, 2019, 2020, thisYear, thisYear - 1, thisYear + 1, 2040, 2106, 1970, 1999}[r.Intn(10)]
		switch r.Intn(6) {
		case 0:
			k.t = time.Date(y, 12, 31, 23, 30, 0, 0, time.UTC)
		case 1:
			k.t = time.Date(y, 1, 1, 0, 15, 0, 0, time.UTC)
		case 2: // the instant that the helper for years asks for
			k.t = time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
		default:
			k.t = time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		}
		if i > 0 && r.Intn(5) == 0 {
			k = ks[r.Intn(len(ks))]
		}
		ks = append(ks, k)
	}
	return ks
}

func randPred(r *rand.Rand, ks []meta) pred {
	p := pred{kind: []string{"email", "email", "algo", "time", "year", "and", "and", "avg", "avg"}[r.Intn(9)],
		part: []string{"start", "end", "equal"}[r.Intn(3)], t: time.Date(2019, 5, 5, 0, 0, 0, 0, time.UTC), text: "alice@epfl.ch", algo: uint8(r.Intn(24)), year: 1990 + r.Intn(40)}
	if len(ks) > 0 {
		k := ks[r.Intn(len(ks))]
		p.text, p.algo = k.email, k.algo
		if r.Intn(6) == 0 {
			p.algo = uint8(r.Intn(256))
		}
		p.t = ks[r.Intn(len(ks))].t
		if p.kind == "and" && r.Intn(3) > 0 {
			p.t = k.t
		}
		p.year = p.t.UTC().Year() + r.Intn(3) - 1
	}
	if p.part != "equal" && len(p.text) > 0 {
		n := 1 + r.Intn(len(p.text))
		if p.part == "start" {
			p.text = p.text[:n]
		} else {
			p.text = p.text[len(p.text)-n:]
		}
	}
	if r.Intn(6) == 0 {
		p.text += "z"
	}
	if len(p.text) == 0 {
		p.part = "equal"
	}
	if p.kind == "time" && r.Intn(3) == 0 {
		p.t = p.t.Add(time.Duration(r.Intn(3)-1) * time.Second)
	}
	if r.Intn(2) == 0 {
		p.t = zone(r)(p.t)
	}
	if p.kind == "and" {
		p.year = p.t.UTC().Year()
	}
	return p
}

// andHelper is the input which the package makes for a year and the end of an e-mail
func (p *pred) andHelper() []bool {
	return (&query.Info{And: true, FromEnd: 1}).ToAndClientFSS("x").Input
}

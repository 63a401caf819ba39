package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/bits"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/dkales/dpf-go/dpf"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
)

func init() { drivers["c19"] = c19 }

// xflags are the parameters of an experiment
type xflags struct {
	scheme     string
	bits, rows int // length of the database, 1 for a vector
	block      int // bytes of data in a block
	k          int
}

func (f xflags) point() bool { return strings.HasPrefix(f.scheme, "pir") }
func (f xflags) auth() bool  { return f.scheme == "pir-merkle" || f.scheme == "fss-auth" }

// dbname: what has to be the same database
func (f xflags) dbname() string { return fmt.Sprint(f.scheme, f.bits, f.rows, f.block) }

// xsys are the servers of an experiment, each a process with a proxy before it
// that the driver controls
type xsys struct {
	xflags
	dir   string
	hosts []string
	addrs []string
	procs []*proc
	conns []*grpc.ClientConn
	info  *proto.DatabaseInfoResponse
	px    []*xproxy
	act   fnet // activity of the client program
}

var (
	xvals  = interner{} // contents of blocks, roots
	xdbs   = interner{}
	xmu    sync.Mutex
	xstats = regexp.MustCompile(`stats,(\d+),(\d+),([0-9.]+)`)
	xlens  = regexp.MustCompile(`stats,(\d+)\s`)
)

func xid(b []byte) int {
	xmu.Lock()
	defer xmu.Unlock()
	return xvals.id(b)
}

// freeAt returns an address at the host that nobody listens at
func freeAt(host string) string {
	l, err := net.Listen("tcp", host+":0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

func newX(dir string, f xflags) *xsys {
	x := &xsys{xflags: f, dir: dir}
	for i := 0; i < f.k; i++ {
		h := fmt.Sprintf("127.0.0.%d", 21+i)
		x.hosts = append(x.hosts, h)
		x.addrs = append(x.addrs, freeAt(h))
		d := filepath.Join(dir, fmt.Sprint("server-", i))
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, "sid"), []byte(fmt.Sprintln(i)), 0o644))
	}
	x.procs = make([]*proc, f.k)
	x.conns = make([]*grpc.ClientConn, f.k)
	writeConfig(filepath.Join(dir, "config.toml"), x.addrs)
	Begin("experiment/"+f.scheme, M{"flags": M{"scheme": f.scheme, "bits": f.bits, "rows": f.rows, "block": f.block, "k": f.k, "db": xdbs.id([]byte(f.dbname())),
		"auth": f.auth(), "point": f.point()}})
	return x
}

// start starts a server and waits for it
func (x *xsys) start(i int) {
	args := []string{"-scheme", x.scheme}
	if x.point() {
		args = append(args, "-dbLen", fmt.Sprint(x.bits), "-elemBitSize", "8", "-nRows", fmt.Sprint(x.rows), "-blockLen", fmt.Sprint(x.block), "-servers", fmt.Sprint(x.k))
	}
	x.procs[i] = startProc(filepath.Join(x.dir, fmt.Sprint("server-", i)), []string{"VPIR_CONFIG=" + filepath.Join(x.dir, "config.toml")}, "vxserver", args...)
	x.conns[i] = dial(x.addrs[i])
	out := "hang"
	for t := 0; t < 600; t++ {
		ctx, cancel := background(20 * time.Second)
		_, err := proto.NewVPIRClient(x.conns[i]).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
		cancel()
		if err == nil {
			out = "ok"
			break
		}
		if x.procs[i].exited() {
			out = "exited"
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	m := M{"ev": "start", "s": i, "out": out}
	if out != "ok" {
		m["msg"] = x.procs[i].tail()
	}
	T.Emit(m)
}

func (x *xsys) describe(i int) {
	ctx, cancel := background(30 * time.Second)
	defer cancel()
	d, err := proto.NewVPIRClient(x.conns[i]).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
	m := M{"ev": "info", "s": i, "out": "ok", "rows": 0, "cols": 0, "bs": 0, "type": "", "root": 0, "proof": 0}
	if err != nil {
		m["out"] = "err"
	} else {
		x.info = d
		m["rows"], m["cols"], m["bs"], m["type"], m["proof"] = d.NumRows, d.NumColumns, d.BlockLength, d.PirType, d.ProofLen
		if len(d.Root) > 0 {
			m["root"] = xid(append([]byte("root"), d.Root...))
		}
	}
	T.Emit(m)
}

func (x *xsys) total() int { return int(x.info.NumRows) * int(x.info.NumColumns) }

func (x *xsys) client() vclient {
	i := &database.Info{NumRows: int(x.info.NumRows), NumColumns: int(x.info.NumColumns), BlockSize: int(x.info.BlockLength),
		PIRType: x.info.PirType, Merkle: &database.Merkle{Root: x.info.Root, ProofLen: int(x.info.ProofLen)}}
	switch x.scheme {
	case "fss-classic":
		return client.NewPredicatePIR(utils.RandomPRG(), i)
	case "fss-auth":
		return client.NewPredicateAPIR(utils.RandomPRG(), i)
	}
	return client.NewPIR(utils.RandomPRG(), i)
}

// retrieve sends a query to all the servers
func (x *xsys) retrieve(c vclient, in []byte, d time.Duration) (v interface{}, out string) {
	out, _ = guardT(d+60*time.Second, func() error {
		qs, err := c.QueryBytes(in, x.k)
		if err != nil {
			return err
		}
		as := make([][]byte, x.k)
		errs := make([]error, x.k)
		var wg sync.WaitGroup
		for s := range qs {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				ctx, cancel := background(d)
				defer cancel()
				r, err := proto.NewVPIRClient(x.conns[s]).Query(ctx, &proto.QueryRequest{Query: qs[s]})
				if err != nil {
					errs[s] = err
					return
				}
				as[s] = r.GetAnswer()
			}(s)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		v, err = c.ReconstructBytes(as)
		return err
	})
	return
}

// block retrieves a block
func (x *xsys) get(c vclient, i int) {
	v, out := x.retrieve(c, be(i), 120*time.Second)
	m := M{"ev": "get", "i": i, "out": out, "val": 0, "len": 0}
	if b, ok := valBytes(v); ok && out == "ok" {
		m["val"], m["len"] = xid(b), len(b)
	}
	T.Emit(m)
}

// blocks retrieves blocks for several clients at the same time
func (x *xsys) blocks(r *rand.Rand, clients, n int) {
	var wg sync.WaitGroup
	for c := 0; c < clients; c++ {
		order := r.Perm(x.total())
		if len(order) > n {
			order = order[:n]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := x.client()
			for _, i := range order {
				x.get(c, i)
			}
		}()
	}
	wg.Wait()
}

// partition counts the keys of each kind; all together are all the keys
func (x *xsys) partition(r *rand.Rand, name string, ps []pred) {
	var wg sync.WaitGroup
	for j := range ps {
		in, err := ps[j].query(r).Encode()
		must2(err)
		wg.Add(1)
		go func(j int, in []byte) {
			defer wg.Done()
			v, out := x.retrieve(x.client(), in, 300*time.Second)
			num := -1
			if n, ok := v.(uint32); ok && out == "ok" && n < 1<<30 {
				num = int(n)
			}
			T.Emit(M{"ev": "count", "what": name, "i": j, "out": out, "num": num})
		}(j, in)
		if j%8 == 7 {
			wg.Wait()
		}
	}
	wg.Wait()
	T.Emit(M{"ev": "partition", "what": name, "n": len(ps)})
}

func algoPreds() (ps []pred) {
	for a := 0; a < 32; a++ {
		switch a {
		case 1, 16, 17, 18, 19: // those the experiment creates
			ps = append(ps, pred{kind: "algo", algo: uint8(a)})
		}
	}
	return append(ps, pred{kind: "algo", algo: 3})
}

func letterPreds(part string) (ps []pred) {
	for _, c := range "abcdefghijklmnopqrstuvwxyz0123456789" {
		ps = append(ps, pred{kind: "email", part: part, text: string(c)})
	}
	return
}

// stop asks a server to terminate
func (x *xsys) stop(i int, how string) {
	T.Emit(M{"ev": "stop", "s": i, "how": how})
	switch how {
	case "interrupt":
		x.procs[i].cmd.Process.Signal(syscall.SIGINT)
	case "terminate":
		x.procs[i].cmd.Process.Signal(syscall.SIGTERM)
	default: // through HTTP; perhaps several times
		n := 1
		if how == "http4" {
			n = 4
		}
		for j := 0; j < n; j++ {
			go func() {
				c := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
				r, err := c.Get("http://" + x.hosts[i] + ":8080")
				if err == nil {
					r.Body.Close()
				}
			}()
		}
	}
}

func (x *xsys) exit(i int) {
	rc, hang := x.procs[i].wait(120 * time.Second)
	m := M{"ev": "exit", "s": i, "rc": rc, "hang": hang}
	if rc != 0 {
		m["msg"] = x.procs[i].tail()
	}
	T.Emit(m)
	x.conns[i].Close()
}

// httpPort: whether the port for stopping servers can be used here
func (x *xsys) httpPort(i int) bool {
	l, err := net.Listen("tcp", x.hosts[i]+":8080")
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// ---- the client program, before servers whose messages the driver sees

type xproxy struct {
	proto.UnimplementedVPIRServer
	x       *xsys
	s       int
	mu      sync.Mutex
	g       *grpc.Server
	queries [][]byte
	answers [][]byte
	desc    string // field of the description that is changed
	bad     int    // the query (from 1) that is answered wrongly
	how     string
}

func (p *xproxy) DatabaseInfo(ctx context.Context, r *proto.DatabaseInfoRequest) (*proto.DatabaseInfoResponse, error) {
	d, err := proto.NewVPIRClient(p.x.conns[p.s]).DatabaseInfo(ctx, r)
	if err != nil {
		return nil, err
	}
	d = &proto.DatabaseInfoResponse{NumRows: d.NumRows, NumColumns: d.NumColumns, BlockLength: d.BlockLength, PirType: d.PirType, Root: d.Root, ProofLen: d.ProofLen}
	switch p.desc {
	case "rows":
		d.NumRows++
	case "columns":
		d.NumColumns--
	case "block":
		d.BlockLength++
	case "type":
		d.PirType += "x"
	case "root":
		d.Root = append(append([]byte{}, d.Root...), 1)
	case "proof":
		d.ProofLen += 32
	case "error":
		return nil, status.Error(codes.Internal, "no description")
	}
	return d, nil
}

func (p *xproxy) Query(_ context.Context, q *proto.QueryRequest) (*proto.QueryResponse, error) {
	p.mu.Lock()
	p.queries = append(p.queries, q.Query)
	n := len(p.queries)
	p.mu.Unlock()
	// also when the client is gone
	ctx, cancel := background(120 * time.Second)
	defer cancel()
	a, err := proto.NewVPIRClient(p.x.conns[p.s]).Query(ctx, &proto.QueryRequest{Query: q.Query})
	if err != nil {
		return nil, err
	}
	b := append([]byte{}, a.Answer...)
	p.mu.Lock()
	p.answers = append(p.answers, b)
	p.mu.Unlock()
	if n == p.bad {
		b = append([]byte{}, b...)
		switch p.how {
		case "error":
			return nil, status.Error(codes.Internal, "no answer")
		case "short":
			b = b[:len(b)-1]
		case "none":
			b = nil
		default:
			for i := range b {
				b[i] ^= byte(1 + i%7)
			}
		}
	}
	return &proto.QueryResponse{Answer: b}, nil
}

// front starts the proxies
func (x *xsys) front() {
	if x.px != nil {
		return
	}
	var addrs []string
	for s := 0; s < x.k; s++ {
		p := &xproxy{x: x, s: s}
		ln := listenAt("127.0.0.1:0")
		addrs = append(addrs, ln.Addr().String())
		p.g = grpc.NewServer(grpc.StatsHandler(&x.act), grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{certificate()}})), grpc.MaxRecvMsgSize(1<<30), grpc.MaxSendMsgSize(1<<30))
		proto.RegisterVPIRServer(p.g, p)
		x.px = append(x.px, p)
		go p.g.Serve(ln)
	}
	writeConfig(filepath.Join(x.dir, "front.toml"), addrs)
}

func xorAll(bs [][]byte) []byte {
	out := append([]byte{}, bs[0]...)
	for _, b := range bs[1:] {
		if len(b) != len(out) {
			return nil
		}
		for i := range b {
			out[i] ^= b[i]
		}
	}
	return out
}

// column is the position that queries to all the servers share, or -1
func (x *xsys) column(qs [][]byte) int {
	var v []byte
	out, _ := guard(func() error {
		if x.k == 2 {
			for i, q := range qs {
				qs[i] = dpf.EvalFull(q, uint64(bits.Len(uint(x.info.NumColumns))))
			}
		}
		v = xorAll(qs)
		return nil
	})
	if out != "ok" {
		return -1
	}
	at := -1
	for i := 0; i < 8*len(v); i++ {
		if v[i/8]>>(i%8)&1 == 1 {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

// run lets the experiment client do its repetitions
type xrun struct {
	reps, bits, input int
	desc              string // changed description of server bad
	at                int    // query that server bad answers wrongly
	how               string
	bad               int
	down              bool // server bad is not there
	logFile           bool
}

func (x *xsys) run(r xrun) {
	if r.bits == 0 {
		r.bits = 1
	}
	x.front()
	for _, p := range x.px {
		p.mu.Lock()
		p.queries, p.answers, p.desc, p.bad, p.how = nil, nil, "", 0, ""
		if p.s == r.bad {
			p.desc, p.bad, p.how = r.desc, r.at, r.how
		}
		p.mu.Unlock()
	}
	m := M{"ev": "run", "reps": r.reps, "bits": r.bits, "desc": r.desc != "" || r.down, "at": r.at,
		"noticed": r.at > 0 && (x.auth() || r.how != "altered"), "down": r.down}
	T.Emit(m)
	cfg := filepath.Join(x.dir, "front.toml")
	if r.down {
		var addrs []string
		for s := 0; s < x.k; s++ {
			addrs = append(addrs, freeAddrs(1)[0])
		}
		cfg = writeConfig(filepath.Join(x.dir, "down.toml"), addrs)
	}
	args := []string{"-scheme", x.scheme, "-repetitions", fmt.Sprint(r.reps), "-numServers", fmt.Sprint(x.k)}
	if x.point() {
		args = append(args, "-elemBitSize", "8", "-bitsToRetrieve", fmt.Sprint(r.bits))
	} else {
		args = append(args, "-inputSize", fmt.Sprint(r.input))
	}
	lf := filepath.Join(x.dir, "client.log")
	os.Remove(lf)
	if r.logFile {
		args = append(args, "-logFile", lf)
	}
	before := make([]int, x.k)
	for s, p := range x.procs {
		before[s] = len(p.output())
	}
	p := startProc(x.dir, []string{"VPIR_CONFIG=" + cfg, "VERIF_CERT=" + certFile()}, "vsim", args...)
	rc, hang := p.wait(180 * time.Second)
	x.act.settle()
	text := p.output()
	if r.logFile {
		b, _ := os.ReadFile(lf)
		text += string(b)
	}
	// what was sent, retrieval by retrieval
	n := 0
	for _, p := range x.px {
		p.mu.Lock()
		if len(p.queries) > n {
			n = len(p.queries)
		}
		p.mu.Unlock()
	}
	for i := 0; i < n; i++ {
		var qs, as [][]byte
		size := 0
		for _, p := range x.px {
			p.mu.Lock()
			if i < len(p.queries) {
				qs = append(qs, p.queries[i])
				size += len(p.queries[i])
			}
			if i < len(p.answers) {
				as = append(as, p.answers[i])
			}
			p.mu.Unlock()
		}
		e := M{"ev": "asked", "servers": len(qs), "size": size, "col": -1, "vals": []int{}}
		if x.point() && len(qs) == x.k {
			e["col"] = x.column(append([][]byte{}, qs...))
			if a := as; len(a) == x.k {
				col := xorAll(a)
				bs := int(x.info.BlockLength)
				vals := []int{}
				for j := 0; j+bs <= len(col) && len(vals) < int(x.info.NumRows); j += bs {
					vals = append(vals, xid(col[j:j+x.block]))
				}
				e["vals"] = vals
			}
		}
		T.Emit(e)
	}
	// and what the servers say about it
	for s, p := range x.px {
		p.mu.Lock()
		lens := []int{}
		for _, a := range p.answers {
			lens = append(lens, len(a))
		}
		p.mu.Unlock()
		logged := []int{}
		for t := 0; t < 100; t++ {
			logged = logged[:0]
			o := x.procs[s].output()
			if len(o) < before[s] {
				break
			}
			for _, l := range xlens.FindAllStringSubmatch(o[before[s]:], -1) {
				n, _ := strconv.Atoi(l[1])
				logged = append(logged, n)
			}
			if len(logged) >= len(lens) {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		T.Emit(M{"ev": "logged", "s": s, "sizes": logged, "answers": lens})
	}
	reports := [][]int{}
	for _, s := range xstats.FindAllStringSubmatch(text, -1) {
		a, _ := strconv.Atoi(s[1])
		b, _ := strconv.Atoi(s[2])
		reports = append(reports, []int{a, b})
	}
	o := M{"ev": "outcome", "rc": rc, "hang": hang, "stats": reports}
	if rc != 0 || hang {
		o["msg"] = p.tail()
	}
	T.Emit(o)
}

// ---- the experiments in one process

func (s *simulator) config(name, primitive string, rows, block int, lengths []int, reps int) string {
	must(os.MkdirAll(s.dir, 0o755))
	l := strings.ReplaceAll(fmt.Sprint(lengths), " ", ", ")
	must(os.WriteFile(filepath.Join(s.dir, "simul.toml"), []byte(fmt.Sprintf("DBBitLengths = %s\nRepetitions = %d\nBitsToRetrieve = 1\n", l, reps)), 0o644))
	f := filepath.Join(s.dir, name+".toml")
	must(os.WriteFile(f, []byte(fmt.Sprintf("Name = %q\nPrimitive = %q\nNumRows = %d\nBlockLength = %d\nElementBitSize = 8\n", name, primitive, rows, block)), 0o644))
	return f
}

type simulator struct{ dir string }

// genuine are the sizes of the messages and digest over databases of that length
func genuine(primitive string, dl int) (q, a, d int) {
	prg := utils.RandomPRG()
	switch primitive {
	case "cmp-vpir-dh":
		db := database.CreateRandomEllipticWithDigest(prg, dl, group.P256, true)
		b, err := client.NewDH(prg, &db.Info).QueryBytes(0)
		must2(err)
		x, err := server.NewDH(db).AnswerBytes(b)
		must2(err)
		return len(b), len(x), len(db.SubDigests) + len(db.Digest)
	case "cmp-vpir-lwe":
		db := database.CreateRandomBinaryLWEWithLength(prg, dl)
		p := utils.ParamsWithDatabaseSize(db.NumRows, db.NumColumns)
		c := client.NewAmplify(prg, &db.Info, p, map[int]int{1 << 13: 3}[dl])
		ms := c.Query(0, 0)
		for _, m := range ms {
			q += 4 * m.Len()
		}
		for _, m := range server.NewAmplify(db).Answer(ms) {
			a += 4 * m.Len()
		}
		return q, a, 4 * db.Auth.DigestLWE.Len()
	case "cmp-vpir-lwe-128":
		db := database.CreateRandomBinaryLWEWithLength128(prg, dl)
		p := utils.ParamsWithDatabaseSize128(db.NumRows, db.NumColumns)
		m := client.NewLWE128(prg, &db.Info, p).Query(0, 0)
		x := server.NewLWE128(db).Answer(m)
		g := db.Auth.DigestLWE128
		return 16 * m.Rows() * m.Cols(), 16 * x.Rows() * x.Cols(), 16 * g.Rows() * g.Cols()
	}
	return 0, 0, 0
}

func (s *simulator) run(primitive string, rows, block int, lengths []int, reps int) {
	name := strings.ReplaceAll(primitive, "-", "")
	cfg := s.config(name, primitive, rows, block, lengths, reps)
	os.RemoveAll(filepath.Join(s.dir, "results"))
	p := startProc(s.dir, nil, "vsimul", "-config", cfg)
	rc, hang := p.wait(300 * time.Second)
	m := M{"ev": "simul", "primitive": primitive, "lengths": lengths, "reps": reps, "rc": rc, "hang": hang, "results": []M{}}
	if rc != 0 {
		m["msg"] = p.tail()
	}
	var res struct {
		Results map[string][]struct {
			CPU, Bandwidth []*struct {
				Query       float64
				Answers     []float64
				Reconstruct float64
			}
			Digest float64
		}
	}
	b, err := os.ReadFile(filepath.Join(s.dir, "results", name+".json"))
	if err == nil {
		err = json.NewDecoder(bytes.NewReader(b)).Decode(&res)
	}
	var out []M
	if err == nil {
		for _, dl := range lengths {
			q, a, d := genuine(primitive, dl)
			chunks := res.Results[fmt.Sprint(dl)]
			e := M{"length": dl, "n": len(chunks), "right": 0}
			right := 0
			for _, c := range chunks {
				ok := true
				if primitive != "preprocessing" {
					ok = len(c.Bandwidth) == 1 && c.Bandwidth[0] != nil && len(c.Bandwidth[0].Answers) == 1 &&
						int(c.Bandwidth[0].Query) == q && int(c.Bandwidth[0].Answers[0]) == a && int(c.Digest) == d &&
						len(c.CPU) == 1 && c.CPU[0].Reconstruct > 0
				} else {
					ok = len(c.CPU) == 1 && len(c.CPU[0].Answers) == 1
				}
				if ok {
					right++
				}
			}
			e["right"] = right
			out = append(out, e)
		}
		m["results"] = out
	}
	T.Emit(m)
}

// ----

func c19() {
	certificate()
	r := rng(19)
	matrixBits := 8 * 24 * 50
	systems := []xflags{
		{"pir-classic", 8 * 16 * 37, 1, 16, 2}, {"pir-classic", 8 * 16 * 37, 1, 16, 3},
		{"pir-classic", matrixBits + 8*5, 0, 24, 2}, {"pir-classic", matrixBits + 8*5, 0, 24, 4},
		{"pir-merkle", 8 * 20 * 33, 1, 20, 2}, {"pir-merkle", 8 * 20 * 33, 1, 20, 3},
		{"pir-merkle", matrixBits, 0, 24, 3}, {"pir-merkle", matrixBits, 0, 24, 2},
		{"pir-classic", 8 * 32 * 400, 1, 32, 2}, {"pir-merkle", 8 * 32 * 300, 1, 32, 2},
		{"fss-classic", 0, 0, 0, 2}, {"fss-auth", 0, 0, 0, 2},
	}
	if thorough() {
		systems = append(systems, xflags{"pir-classic", 8 * 64 * 3000, 0, 64, 5}, xflags{"pir-merkle", 8 * 64 * 3000, 0, 64, 5},
			xflags{"pir-classic", 8 * 1024 * 4096, 1, 1024, 2}, xflags{"pir-merkle", 8 * 1024 * 4096, 1, 1024, 2},
			xflags{"pir-merkle", 8 * 16 * 5, 1, 16, 3}, xflags{"pir-classic", 8 * 16, 1, 16, 2}, xflags{"pir-merkle", 8 * 16 * 2, 0, 16, 2})
		for i := 0; i < 12; i++ {
			systems = append(systems, xflags{[]string{"pir-classic", "pir-merkle"}[i%2], 8 * (16 + r.Intn(50)) * (4 + r.Intn(200)), r.Intn(2), 16 + r.Intn(40), 2 + r.Intn(3)})
		}
	}
	for n, f := range systems {
		x := newX(filepath.Join(work, fmt.Sprint("x", n)), f)
		for _, i := range r.Perm(f.k) {
			x.start(i)
			x.describe(i)
		}
		if x.info == nil || (x.point() && (x.total() == 0 || x.info.BlockLength == 0)) {
			fail2(x)
			continue
		}
		if x.point() {
			x.blocks(r, 1, pick(60, 400))
			x.blocks(r, 4, pick(20, 200))
		} else {
			x.partition(r, "algorithm", algoPreds())
			if f.scheme == "fss-auth" || thorough() {
				x.partition(r, "first", letterPreds("start"))
			}
		}
		x.program(r)
		// one server is started again, by whatever stops it, with a retrieval under way
		for round := 0; round < pick(1, 3); round++ {
			again := (n + round) % f.k
			how := []string{"interrupt", "http", "terminate", "http4"}[(n+round)%4]
			if strings.HasPrefix(how, "http") && !x.listens(again) {
				how = "terminate"
			}
			x.pending(r, again, how)
			x.exit(again)
			x.start(again)
			x.describe(again)
			if x.point() {
				x.blocks(r, 3, pick(10, 60))
			} else {
				x.partition(r, "algorithm", algoPreds())
			}
		}
		for i := range x.procs {
			leave := func() {}
			if n == 1 {
				leave = x.stalled(i)
			}
			x.stop(i, []string{"interrupt", "terminate"}[r.Intn(2)])
			if n == 1 {
				out := "running"
				select {
				case <-x.procs[i].done:
					out = "exited"
				case <-time.After(10 * time.Second):
				}
				T.Emit(M{"ev": "held", "s": i, "how": stalls[i%len(stalls)], "out": out})
			}
			leave()
		}
		for i := range x.procs {
			x.exit(i)
		}
		for _, p := range x.px {
			p.g.Stop()
		}
		T.Emit(M{"ev": "end"})
		os.RemoveAll(x.dir)
	}
	Begin("one process", nil)
	s := &simulator{filepath.Join(work, "simul")}
	s.run("cmp-vpir-lwe", 0, 1, []int{1 << 13}, pick(2, 5))
	s.run("cmp-vpir-lwe-128", 0, 1, []int{1 << 10, 1 << 13}, pick(2, 4))
	s.run("cmp-vpir-dh", 0, 1, []int{1 << 8, 1000}, pick(2, 4))
	s.run("preprocessing", 1, 32, []int{8 * 32 * 20, 8 * 32 * 64}, 1)
}

var stalls = []string{"request", "http", "idle"}

// stalled: a peer which holds a request that it only began, or an idle connection
func (x *xsys) stalled(i int) func() {
	conn := dial(x.addrs[i])
	switch stalls[i%len(stalls)] {
	case "request":
		ctx, cancel := context.WithCancel(context.Background())
		_, err := conn.NewStream(ctx, &grpc.StreamDesc{}, "/proto.VPIR/Query")
		must(err)
		return func() { cancel(); conn.Close() }
	case "http":
		if x.listens(i) {
			c, err := net.Dial("tcp", x.hosts[i]+":8080")
			must(err)
			fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: x\r\n")
			time.Sleep(200 * time.Millisecond)
			return func() { c.Close() }
		}
	}
	reach(conn)
	return func() { conn.Close() }
}

// fail2 ends a history whose servers are of no use
func fail2(x *xsys) {
	T.Emit(M{"ev": "useless"})
	for _, p := range x.procs {
		p.cmd.Process.Kill()
		<-p.done
	}
}

// listens: whether the server took the port for HTTP
func (x *xsys) listens(i int) bool {
	c, err := net.DialTimeout("tcp", x.hosts[i]+":8080", 5*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// program runs the client program, undisturbed and disturbed
func (x *xsys) program(r *rand.Rand) {
	if !x.point() {
		x.run(xrun{reps: 2, input: 1 + r.Intn(3), bad: -1})
		x.run(xrun{reps: 1, input: 1 + r.Intn(32), bad: -1, logFile: true})
		x.run(xrun{reps: 2, input: 1, bad: r.Intn(2), at: 2, how: "altered"})
		x.run(xrun{reps: 2, input: 1, bad: r.Intn(2), at: 1 + r.Intn(2), how: []string{"error", "short", "none"}[r.Intn(3)]})
		x.run(xrun{reps: 1, input: 1, bad: r.Intn(2), desc: "columns"})
		return
	}
	bl := 8 * x.block
	total := x.total()
	some := 1 + r.Intn(5)
	if some > total {
		some = total
	}
	x.run(xrun{reps: 3, bits: bl, bad: -1})
	x.run(xrun{reps: 2, bits: bl*(some-1) + 1 + r.Intn(bl), bad: -1, logFile: true})
	x.run(xrun{reps: 1, bits: bl * (total - 1 + r.Intn(2)), bad: -1})
	x.run(xrun{reps: 1, bits: bl*(total-1) + 1, bad: -1})
	x.run(xrun{reps: 2, bits: bl*(total) + 1 + r.Intn(bl*3), bad: -1}) // more than there is
	fields := []string{"rows", "columns", "block", "type", "root", "proof", "error"}
	for j := 0; j < pick(2, 7); j++ {
		x.run(xrun{reps: 1, bits: bl, bad: r.Intn(x.k), desc: fields[(j+r.Intn(pick(7, 1)))%len(fields)]})
	}
	x.run(xrun{reps: 2, bits: bl * some, bad: r.Intn(x.k), at: 1 + r.Intn(2*some), how: "altered"})
	x.run(xrun{reps: 2, bits: bl * some, bad: r.Intn(x.k), at: 1 + r.Intn(2*some), how: []string{"error", "short", "none"}[r.Intn(3)]})
	if r.Intn(6) == 0 || thorough() {
		x.run(xrun{reps: 1, bits: bl, bad: 0, down: true})
	}
}

// pending stops a server when it works on queries; these are answered
func (x *xsys) pending(r *rand.Rand, i int, how string) {
	n := pick(6, 16)
	type reply struct {
		ok  bool
		len int
	}
	q := &query.ClientFSS{Info: &query.Info{Target: query.UserId, FromStart: 32}, Input: utils.ByteToBits([]byte("abcdefghijklmnopqrstuvwxyz012345"))}
	in := be(0)
	if !x.point() {
		var err error
		in, err = q.Encode()
		must2(err)
		n = pick(48, 80) // more than is answered at once, so that the stop has to wait
	}
	qs, err := x.client().QueryBytes(in, x.k)
	must2(err)
	ctx, cancel := background(240 * time.Second)
	defer cancel()
	// this one is there before
	w, err0 := proto.NewVPIRClient(x.conns[i]).Query(ctx, &proto.QueryRequest{Query: qs[i]})
	want := -1
	if err0 == nil {
		want = xid(w.GetAnswer())
	}
	res := make([]M, n)
	conns := make([]*grpc.ClientConn, n)
	for j := range conns {
		conns[j] = dial(x.addrs[i], true)
		reach(conns[j])
	}
	before := strings.Count(x.procs[i].output(), "got query request")
	var wg sync.WaitGroup
	for j := 0; j < n; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			a, err := proto.NewVPIRClient(conns[j]).Query(ctx, &proto.QueryRequest{Query: qs[i]})
			res[j] = M{"ev": "pending", "s": i, "out": "ok", "got": 0, "want": want}
			if err != nil {
				res[j]["out"] = "err"
				if status.Code(err) == codes.Unavailable {
					res[j]["out"] = "unavailable"
				}
				res[j]["msg"] = err.Error()
			} else {
				res[j]["got"] = xid(a.GetAnswer())
			}
		}(j)
	}
	// the server says when it begins to work on a query
	accepted := false
	for t := 0; t < 100 && !accepted; t++ {
		time.Sleep(20 * time.Millisecond)
		accepted = strings.Count(x.procs[i].output(), "got query request") >= before+n
	}
	x.stop(i, how)
	wg.Wait()
	for _, m := range res {
		m["accepted"] = accepted
		T.Emit(m)
	}
	for _, c := range conns {
		c.Close()
	}
}

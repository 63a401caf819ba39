package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/armor"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	_ "google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	gproto "google.golang.org/protobuf/proto"
)

// ---- certificate of the servers of the driver

var (
	certOnce sync.Once
	certPair tls.Certificate
)

func certificate() tls.Certificate {
	certOnce.Do(func() {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		must(err)
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"},
			NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
			DNSNames: []string{"localhost", "127.0.0.1"}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
		der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &k.PublicKey, k)
		must(err)
		must(os.WriteFile(certFile(), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
		certPair = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	})
	return certPair
}

func certFile() string { return filepath.Join(work, "verif-cert.pem") }

// ---- servers

// conduct is what one server does for one request
type conduct struct {
	field     string // of the description, that differs ("" none)
	info      string // ok or err
	ans       string // honest, altered, other, malformed, none
	how       int    // which of the ways
	infoDelay time.Duration
	ansDelay  time.Duration
	hold      chan bool // describes when it is closed
}

func (c *conduct) honest() bool { return c.field == "" && c.info == "ok" && c.ans == "honest" }

// fnet is a set of servers of one front end
type fnet struct {
	ref       *reference
	k         int
	auth      bool
	addrs     []string
	gs        []*grpc.Server
	dataEvent M
	byEmail   map[string]int
	in        interner
	mu        sync.Mutex // of what follows
	r         *rand.Rand
	conducts  []conduct
	position  func(s int, q []byte) int
	queries   map[int][][]byte
	quiet     bool
	echo      bool                        // answers are the queries
	about     *proto.DatabaseInfoResponse // a description to give instead
	amu       []sync.Mutex
	buf       []M
	active    int64
}

// flush writes what the net has recorded, as one history
func (n *fnet) flush(name string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	netMu.Lock()
	defer netMu.Unlock()
	Begin(name, nil)
	for _, m := range n.buf {
		T.Emit(m)
	}
	n.buf = nil
}

var netMu sync.Mutex

type fserver struct {
	proto.UnimplementedVPIRServer
	n *fnet
	s int
}

// keyset are the keys of a reference
type keyset struct {
	keys  []*stored
	files []string
}

func newKeyset(dir string, n int, salt int64) *keyset {
	d := &keyset{keys: storedKeys(rng(salt), n, nil)}
	var ks []*pgp.Key
	for _, k := range d.keys {
		ks = append(ks, k.key())
	}
	d.files = []string{keyFile(filepath.Join(dir, fmt.Sprintf("sks-%d", salt), "sks-000.pgp"), ks)}
	return d
}

func listenAt(addr string) net.Listener {
	for try := 0; ; try++ {
		ln, err := net.Listen("tcp", addr)
		if err == nil {
			return ln
		}
		if try > 50 {
			must(err)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// newNet starts servers with the scheme over the directory
func newNet(r *rand.Rand, d *keyset, scheme string, k int) *fnet {
	n := &fnet{k: k, r: r, ref: newReference(scheme, d.files, k), auth: strings.Contains(scheme, "VPIR"), in: interner{},
		byEmail: map[string]int{}, queries: map[int][][]byte{}, amu: make([]sync.Mutex, k)}
	for s := 0; s < k; s++ {
		ln := listenAt("127.0.0.1:0")
		n.addrs = append(n.addrs, ln.Addr().String())
		n.gs = append(n.gs, nil)
		n.serve(s, ln)
	}
	n.calm()
	var ks []M
	if n.ref.table != nil {
		for _, ki := range n.ref.table.KeysInfo {
			ks = append(ks, M{"email": ints([]byte(ki.UserId.Email)), "year": ki.CreationTime.UTC().Year(), "time": instant(ki.CreationTime), "algo": uint8(ki.PubKeyAlgo), "fp": 0})
		}
	} else {
		for _, x := range d.keys {
			fp := n.in.id([]byte(fingerprint(x.packet)))
			n.byEmail[x.email] = fp
			ks = append(ks, M{"email": ints([]byte(x.email)), "year": 0, "time": "", "algo": 0, "fp": fp})
		}
	}
	n.dataEvent = M{"ev": "data", "keys": ks, "now": thisYear}
	n.record(n.dataEvent)
	return n
}

func (n *fnet) serve(s int, ln net.Listener) {
	g := grpc.NewServer(grpc.StatsHandler(n), grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{certificate()}})), grpc.MaxRecvMsgSize(1<<30), grpc.MaxSendMsgSize(1<<30))
	proto.RegisterVPIRServer(g, &fserver{n: n, s: s})
	n.gs[s] = g
	go g.Serve(ln)
}

// the activity of clients (stats.Handler)
func (n *fnet) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context   { return ctx }
func (n *fnet) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (n *fnet) HandleRPC(_ context.Context, s stats.RPCStats) {
	switch s.(type) {
	case *stats.Begin:
		atomic.AddInt64(&n.active, 1)
	case *stats.End:
		atomic.AddInt64(&n.active, -1)
	}
}
func (n *fnet) HandleConn(_ context.Context, s stats.ConnStats) {
	switch s.(type) {
	case *stats.ConnBegin:
		atomic.AddInt64(&n.active, 1)
	case *stats.ConnEnd:
		atomic.AddInt64(&n.active, -1)
	}
}

// settle waits until what a client that is gone has sent is processed
func (n *fnet) settle() {
	for i := 0; i < 5000 && atomic.LoadInt64(&n.active) != 0; i++ {
		time.Sleep(time.Millisecond)
	}
}

// down stops a server, up starts it again
func (n *fnet) down(s int) { n.gs[s].Stop() }
func (n *fnet) up(s int)   { n.serve(s, listenAt(n.addrs[s])) }

func (n *fnet) record(m M) { n.buf = append(n.buf, m) }

// config writes the configuration, in any order
func (n *fnet) config(path string, more ...string) string {
	addrs := append(append([]string{}, n.addrs...), more...)
	var b strings.Builder
	b.WriteString("[servers]\n")
	for _, i := range n.r.Perm(len(addrs)) {
		h, p, err := net.SplitHostPort(addrs[i])
		must(err)
		fmt.Fprintf(&b, "\n    [servers.%d]\n    ip = \"%s\"\n    port = %s\n", i, h, p)
	}
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, []byte(b.String()), 0o644))
	return path
}

func (n *fnet) stop() {
	for _, g := range n.gs {
		g.Stop()
	}
}

func (n *fnet) calm() {
	n.conducts = make([]conduct, n.k)
	for i := range n.conducts {
		n.conducts[i] = conduct{info: "ok", ans: "honest"}
	}
}

var descFields = []string{"rows", "columns", "block", "type", "root", "rootlen", "noroot", "prooflen", "noprooflen", "rowscolumns"}

// describe gives the description of a server, as it is sent
func (n *fnet) describe(s int) *proto.DatabaseInfoResponse {
	d := n.ref.description()
	if n.about != nil {
		d = gproto.Clone(n.about).(*proto.DatabaseInfoResponse)
	}
	c := n.conducts[s]
	up := uint32(1 + c.how%3)
	if c.how%2 == 1 {
		up = -up
	}
	switch c.field {
	case "rows":
		d.NumRows += up
	case "columns":
		d.NumColumns += up
	case "rowscolumns":
		d.NumRows, d.NumColumns = d.NumRows+1, d.NumColumns+3
	case "block":
		d.BlockLength += up
	case "type":
		if d.PirType == "merkle" {
			d.PirType = []string{"classical", "", "Merkle", "merkle2"}[c.how%4]
		} else {
			d.PirType = "merkle"
		}
	case "root":
		d.Root = flip(rand.New(rand.NewSource(int64(c.how))), d.Root)
	case "rootlen":
		if len(d.Root) > 0 && c.how%2 == 0 {
			d.Root = d.Root[:len(d.Root)-1]
		} else {
			d.Root = append(append([]byte{}, d.Root...), byte(c.how))
		}
	case "noroot":
		if len(d.Root) > 0 {
			d.Root = nil
		} else {
			d.Root = []byte{1}
		}
	case "prooflen":
		d.ProofLen += up
	case "noprooflen":
		if d.ProofLen != 0 {
			d.ProofLen = 0
		} else {
			d.ProofLen = 36
		}
	}
	return d
}

var serverErrors = []error{
	status.Error(codes.Internal, "broken"), status.Error(codes.Unknown, "unknown"), status.Error(codes.Unavailable, "gone"),
	status.Error(codes.ResourceExhausted, "busy"), status.Error(codes.PermissionDenied, "denied"), status.Error(codes.Unimplemented, "none"),
}

func (f *fserver) DatabaseInfo(ctx context.Context, _ *proto.DatabaseInfoRequest) (*proto.DatabaseInfoResponse, error) {
	n := f.n
	n.mu.Lock()
	c := n.conducts[f.s]
	n.mu.Unlock()
	time.Sleep(c.infoDelay)
	if c.hold != nil {
		<-c.hold
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.info != "ok" {
		return nil, serverErrors[c.how%len(serverErrors)]
	}
	if !n.quiet {
		n.record(M{"ev": "info", "s": f.s})
	}
	return n.describe(f.s), nil
}

func (f *fserver) Query(ctx context.Context, q *proto.QueryRequest) (*proto.QueryResponse, error) {
	n := f.n
	n.mu.Lock()
	c := n.conducts[f.s]
	pos := -1
	if n.position != nil {
		pos = n.position(f.s, q.Query)
	}
	if !n.quiet {
		n.record(M{"ev": "query", "s": f.s, "pos": pos})
		n.queries[f.s] = append(n.queries[f.s], q.Query)
	}
	echo := n.echo
	n.mu.Unlock()
	n.amu[f.s].Lock()
	var a []byte
	out, msg := guard(func() error {
		var err error
		if echo {
			a = q.Query
			return nil
		}
		a, err = n.ref.srv[f.s].AnswerBytes(append([]byte{}, q.Query...))
		return err
	})
	n.amu[f.s].Unlock()
	time.Sleep(c.ansDelay)
	if out != "ok" {
		return nil, status.Error(codes.Internal, "refused: "+msg)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	switch c.ans {
	case "none":
		return nil, serverErrors[c.how%len(serverErrors)]
	case "honest":
		return &proto.QueryResponse{Answer: a}, nil
	}
	return &proto.QueryResponse{Answer: n.damage(c, a)}, nil
}

// damage alters an answer
func (n *fnet) damage(c conduct, a []byte) []byte {
	b := append([]byte{}, a...)
	r := n.r
	switch c.ans {
	case "altered": // everywhere
		if n.ref.table == nil {
			for i := range b {
				b[i] ^= byte(1 + r.Intn(255))
			}
			return b
		}
		w := getWords(b)
		switch c.how % 4 {
		case 0: // the number
			w[0] = (w[0] + 1 + uint32(r.Intn(5))) % p31
		case 1:
			i := r.Intn(len(w))
			w[i] = (w[i] + 1 + uint32(r.Intn(1<<30))) % p31
		case 2:
			for i := range w {
				w[i] = (w[i] + 1 + uint32(r.Intn(1<<20))) % p31
			}
		case 3:
			w[0] = (w[0] + p31 - 1) % p31
		}
		return putWords(w)
	case "other":
		if len(b) == 0 {
			return b
		}
		switch c.how % 4 {
		case 0:
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		case 1:
			x := r.Intn(len(b))
			for i := x; i < len(b) && i < x+1+r.Intn(200); i++ {
				b[i] ^= byte(r.Intn(256))
			}
		case 2:
			for i := range b {
				b[i] = 0
			}
		case 3:
			x := r.Intn(len(b))
			b = append(b[x:], b[:x]...)
		}
		return b
	case "malformed":
		switch c.how % 6 {
		case 0:
			return nil
		case 1:
			return b[:len(b)-1]
		case 2:
			return append(b, 0)
		case 3:
			return b[:len(b)/2]
		case 4:
			return append(b, b...)
		default:
			return []byte{1}
		}
	}
	return b
}

// ---- requests

// frequest is what the user wants
type frequest struct {
	front  string // cli, mgr, web, inter, sim
	kind   string // key, count, run
	email  string
	p      pred
	valid  bool
	rounds int
	what   string
	mixed  bool // the servers run another scheme than the client
	demand bool // the client wants to verify
}

// announce opens a request
func (n *fnet) announce(q *frequest, cs []conduct) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if cs != nil {
		n.conducts = cs
	} else {
		n.calm()
	}
	n.queries = map[int][][]byte{}
	var ss []M
	in := interner{}
	for s, c := range n.conducts {
		d := n.describe(s)
		ss = append(ss, M{"desc": []int{in.id([]byte("r" + fmt.Sprint(d.NumRows))), in.id([]byte("c" + fmt.Sprint(d.NumColumns))), in.id([]byte("b" + fmt.Sprint(d.BlockLength))),
			in.id([]byte("t" + d.PirType)), in.id(append([]byte("m"), d.Root...)), in.id([]byte("p" + fmt.Sprint(d.ProofLen)))}, "info": c.info, "ans": c.ans, "field": c.field, "how": c.how})
	}
	if q.rounds == 0 {
		q.rounds = 1
	}
	n.record(M{"ev": "request", "front": q.front, "kind": q.kind, "what": q.what, "email": ints([]byte(q.email)), "pred": q.p.m(), "auth": n.auth, "valid": q.valid, "mixed": q.mixed, "demand": q.demand, "rounds": q.rounds, "servers": ss})
}

// seen is what the user sees
type seen struct {
	out   string // ok, error, hang
	kind  string // key, number, missing, nothing
	fp    int
	email string
	num   int64
	msg   string
}

func (n *fnet) outcome(ev string, s *seen) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if s.num > 1<<30 || s.num < -(1<<30) {
		s.num = -5
	}
	if len(s.msg) > 500 {
		s.msg = s.msg[len(s.msg)-500:]
	}
	n.record(M{"ev": ev, "out": s.out, "kind": s.kind, "fp": s.fp, "email": ints([]byte(s.email)), "num": s.num, "msg": s.msg})
}

var (
	armored = regexp.MustCompile(`(?s)-----BEGIN PGP PUBLIC KEY BLOCK-----.*-----END PGP PUBLIC KEY BLOCK-----`)
	missing = regexp.MustCompile(`(?i)\bno key\b|\bkey( is| was)? not found`)
	number  = regexp.MustCompile(`(?m)^\s*(?:count: |result: )?(\d+)\s*$`)
)

// readKey parses an armored key in the text
func (n *fnet) readKey(text string, s *seen) bool {
	b := armored.FindString(text)
	if b == "" {
		if strings.Contains(text, "BEGIN PGP") {
			s.kind, s.fp, s.email = "key", -1, "unreadable"
			return true
		}
		return false
	}
	s.kind, s.fp, s.email = "key", -1, "unreadable"
	blk, err := armor.Decode(strings.NewReader(b))
	if err != nil {
		return true
	}
	raw, err := io.ReadAll(blk.Body)
	if err != nil {
		return true
	}
	el, err := openpgp.ReadKeyRing(bytes.NewReader(raw))
	if err != nil || len(el) != 1 {
		return true
	}
	n.mu.Lock()
	s.fp = n.in.id(el[0].PrimaryKey.Fingerprint[:])
	n.mu.Unlock()
	s.email = strings.ToLower(el[0].PrimaryIdentity().UserId.Email)
	if s.email == "" {
		s.email = pgp.PrimaryEmail(el[0])
	}
	return true
}

// program runs the command-line client
func (n *fnet) program(dir, name, cfg string, q *frequest, args ...string) *seen {
	p := startProc(dir, []string{"VPIR_CONFIG=" + cfg, "VERIF_CERT=" + certFile()}, name, args...)
	rc, hang := p.wait(90 * time.Second)
	n.settle()
	s := &seen{kind: "nothing", out: "ok", msg: p.tail()}
	text := p.output()
	if hang {
		s.out = "hang"
	} else if rc != 0 {
		s.out = "error"
	}
	if !n.readKey(text, s) {
		if m := number.FindStringSubmatch(text); m != nil {
			s.kind = "number"
			s.num, _ = strconv.ParseInt(m[1], 10, 64)
		} else if missing.MatchString(text) && q.kind == "key" {
			s.kind = "missing"
		}
	}
	return s
}

// website is the running web front end
type website struct {
	n    *fnet // point
	c    *fnet // predicates
	p    *proc
	url  string
	dir  string
	pcfg string
	ccfg string
}

func (w *website) start() error {
	addr := freeAddrs(1)[0]
	w.url = "http://" + addr
	w.p = startProc(w.dir, []string{"VPIR_CONFIG_POINT=" + w.pcfg, "VPIR_CONFIG_COMPLEX=" + w.ccfg, "VERIF_CERT=" + certFile()}, "vweb", "-listen-addr", addr)
	for t := 0; t < 300; t++ {
		r, err := http.Get(w.url + "/")
		if err == nil {
			r.Body.Close()
			return nil
		}
		if w.p.exited() {
			return fmt.Errorf("exited: %s", w.p.tail())
		}
		time.Sleep(50 * time.Millisecond)
	}
	return fmt.Errorf("not up: %s", w.p.tail())
}

func (w *website) post(n *fnet, path string, form url.Values) *seen {
	if w.p == nil || w.p.exited() {
		// the administrator starts it again
		if err := w.start(); err != nil {
			return &seen{out: "hang", kind: "nothing", msg: err.Error()}
		}
	}
	c := &http.Client{Timeout: 90 * time.Second}
	r, err := c.PostForm(w.url+path, form)
	s := &seen{kind: "nothing", out: "ok"}
	if err != nil {
		s.msg = err.Error() + w.p.tail()
		// no status: the site is gone, or did not answer
		s.out = "hang"
		time.Sleep(50 * time.Millisecond)
		return s
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	text := string(b)
	s.msg = fmt.Sprint(r.StatusCode, " ", text)
	if err != nil || r.StatusCode < 200 || r.StatusCode > 299 {
		s.out = "error"
	}
	if !n.readKey(text, s) {
		if m := number.FindStringSubmatch(text); m != nil {
			s.kind = "number"
			s.num, _ = strconv.ParseInt(m[1], 10, 64)
		} else if n.ref.table == nil && missing.MatchString(text) {
			s.kind = "missing"
		}
	}
	return s
}

// ---- the manager package

type mgr struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	ch  chan string
}

type mgrResult struct {
	Out, Msg, Key string
	Answers       [][]byte
}

func newMgr(dir, cfg string) (*mgr, string) {
	m := &mgr{cmd: exec.Command(filepath.Join(work, "vmgr")), ch: make(chan string, 1000)}
	m.cmd.Dir = dir
	m.cmd.Env = append(os.Environ(), "VPIR_CONFIG="+cfg, "VERIF_CERT="+certFile())
	var err error
	m.in, err = m.cmd.StdinPipe()
	must(err)
	o, err := m.cmd.StdoutPipe()
	must(err)
	m.cmd.Stderr = m.cmd.Stdout
	must(m.cmd.Start())
	go func() {
		r := bufio.NewReader(o)
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				close(m.ch)
				m.cmd.Wait()
				return
			}
			m.ch <- l
		}
	}()
	last := ""
	for {
		select {
		case l, ok := <-m.ch:
			if !ok {
				return nil, last
			}
			if strings.HasPrefix(l, "VERIF-READY") {
				return m, ""
			}
			last = l
		case <-time.After(60 * time.Second):
			m.cmd.Process.Kill()
			return nil, "hang"
		}
	}
}

func (m *mgr) do(c M) *mgrResult {
	b, err := json.Marshal(c)
	must(err)
	m.in.Write(append(b, '\n'))
	last := ""
	for {
		select {
		case l, ok := <-m.ch:
			if !ok {
				return &mgrResult{Out: "exited", Msg: last}
			}
			if strings.HasPrefix(l, "VERIF-RESULT ") {
				r := &mgrResult{}
				must(json.Unmarshal([]byte(l[13:]), r))
				return r
			}
			last = l
		case <-time.After(90 * time.Second):
			return &mgrResult{Out: "hang"}
		}
	}
}

func (m *mgr) close() {
	if m != nil {
		m.in.Close()
		go func() {
			for range m.ch {
			}
		}()
	}
}

func (n *fnet) mgrSeen(q *frequest, r *mgrResult) *seen {
	s := &seen{kind: "nothing", out: "ok", msg: r.Msg}
	switch r.Out {
	case "ok":
	case "error":
		s.out = "error"
	default: // a panic, the end of the process
		s.out = "hang"
	}
	if q.kind == "key" && !n.readKey(r.Key, s) && missing.MatchString(r.Msg) {
		s.kind = "missing"
	}
	return s
}

// twin gives the queries the manager makes for the e-mail with the seed
func (n *fnet) twin(email string, seed []byte) [][]byte {
	var k utils.PRGKey
	copy(k[:], seed)
	info := copyInfo(n.ref.info)
	qs, err := client.NewPIR(utils.NewPRG(&k), info).QueryBytes(be(int(database.HashToIndex(email, info.NumRows*info.NumColumns))), n.k)
	if err != nil {
		return nil
	}
	return qs
}

func positionIn(qs [][]byte) func(int, []byte) int {
	return func(s int, q []byte) int {
		if s < len(qs) && bytes.Equal(qs[s], q) { // queries can be equal
			return s
		}
		for i := range qs {
			if bytes.Equal(qs[i], q) {
				return i
			}
		}
		return len(qs) + 5
	}
}

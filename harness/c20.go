package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/credentials/insecure"
)

func init() { drivers["c20"] = c20 }

// ---- the certificates of the attacker

func newPair(tmpl, parent *x509.Certificate, signer crypto.PrivateKey) (tls.Certificate, *x509.Certificate) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	if signer == nil {
		parent, signer = tmpl, k
	}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, parent, &k.PublicKey, signer)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, c
}

func certTemplate(name string, serial int64, from, to time.Duration, names ...string) *x509.Certificate {
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, n)
		}
	}
	return t
}

// impostors are what can be at the end of a link instead of the server, by
// name: its certificate (nil for no encryption), and what it is for the
// specification
var (
	impostors     map[string]*tls.Config
	impostorNames = []string{"unknown", "lookalike", "chained", "public", "thief", "expired", "othername", "plain"}
	impostorEnd   = map[string]string{"unknown": "unknown", "lookalike": "unknown", "chained": "unknown", "public": "unknown",
		"thief": "thief", "expired": "unknown", "othername": "unknown", "plain": "plain"}
)

func makeImpostors() {
	day := 24 * time.Hour
	pin := certificate()
	pinned, err := x509.ParseCertificate(pin.Certificate[0])
	must(err)
	impostors = map[string]*tls.Config{"plain": nil}
	put := func(name string, c tls.Certificate) {
		impostors[name] = &tls.Config{Certificates: []tls.Certificate{c}}
	}
	unknown, _ := newPair(certTemplate("somebody", 7, -day, day, "localhost", "127.0.0.1"), nil, nil)
	put("unknown", unknown)
	like, _ := newPair(certTemplate("verif", 1, -day, day, "localhost", "127.0.0.1"), nil, nil)
	put("lookalike", like)
	// his own certificate, and the shipped one after it
	leaf, _ := newPair(certTemplate("leaf", 8, -day, day, "localhost", "127.0.0.1"), nil, nil)
	leaf.Certificate = append(leaf.Certificate, pin.Certificate[0])
	put("chained", leaf)
	// one that the system trusts
	ca, caCert := newPair(certTemplate("authority", 9, -day, day), nil, nil)
	t := certTemplate("of the authority", 10, -day, day, "localhost", "127.0.0.1")
	t.IsCA = false
	public, _ := newPair(t, caCert, ca.PrivateKey)
	put("public", public)
	f := filepath.Join(work, "system-roots.pem")
	must(os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Certificate[0]}), 0o644))
	must(os.Setenv("SSL_CERT_FILE", f))
	must(os.Setenv("SSL_CERT_DIR", work))
	// the shipped certificate with another key
	thief := tls.Certificate{Certificate: pin.Certificate, PrivateKey: unknown.PrivateKey}
	put("thief", thief)
	// shipped ones that are not valid any more, or for another name
	expired, _ := newPair(certTemplate("expired", 11, -10*day, -day, "localhost", "127.0.0.1"), nil, nil)
	put("expired", expired)
	other, _ := newPair(certTemplate("other", 12, -day, day, "elsewhere.example"), nil, nil)
	put("othername", other)
	var b bytes.Buffer
	for _, der := range [][]byte{pinned.Raw, expired.Certificate[0], other.Certificate[0]} {
		must(pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: der}))
	}
	must(os.WriteFile(certFile(), b.Bytes(), 0o644))
}

// ---- links

// onPath is what the attacker does with one record on a genuine link
type onPath struct {
	dir  int // 0 to the server
	nth  int // record of application data
	how  string
	done int32
}

var pathFaults = []string{"flip", "fliptag", "drop", "twice", "swap", "cut", "cutinside", "junk", "foreign", "shorten", "plaintext"}

// link is the network before one server
type link struct {
	n      *fnet
	s      int
	addr   string
	target string
	ln     net.Listener

	mu      sync.Mutex
	end     string // genuine, or the name of an impostor
	fault   *onPath
	conns   map[net.Conn]bool
	attempt int // connections that came to an impostor
	wire    [2]string
	bytes   [2]int
	old     [2][][]byte // records of earlier connections
	imp     map[string]*handover
}

// handover is a listener that is given its connections
type handover struct {
	ch   chan net.Conn
	done chan bool
	once sync.Once
	g    *grpc.Server
}

func (h *handover) Accept() (net.Conn, error) {
	select {
	case c := <-h.ch:
		return c, nil
	case <-h.done:
		return nil, io.EOF
	}
}
func (h *handover) Close() error {
	h.once.Do(func() { close(h.done) })
	return nil
}
func (h *handover) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)} }

// fake is an impostor's service, as good as the server's
type fake struct {
	proto.UnimplementedVPIRServer
	l    *link
	name string
}

func (f *fake) reach(what string) {
	f.l.n.mu.Lock()
	f.l.n.record(M{"ev": "reach", "s": f.l.s, "end": f.name, "what": what})
	f.l.n.mu.Unlock()
}

func (f *fake) DatabaseInfo(context.Context, *proto.DatabaseInfoRequest) (*proto.DatabaseInfoResponse, error) {
	f.reach("info")
	return f.l.n.ref.description(), nil
}

func (f *fake) Query(_ context.Context, q *proto.QueryRequest) (*proto.QueryResponse, error) {
	f.reach("query")
	n := f.l.n
	n.amu[f.l.s].Lock()
	defer n.amu[f.l.s].Unlock()
	a, err := n.ref.srv[f.l.s].AnswerBytes(append([]byte{}, q.Query...))
	return &proto.QueryResponse{Answer: a}, err
}

func newLink(n *fnet, s int) *link {
	l := &link{n: n, s: s, target: n.addrs[s], ln: listenAt("127.0.0.1:0"), end: "genuine", conns: map[net.Conn]bool{}, imp: map[string]*handover{}}
	l.addr = l.ln.Addr().String()
	go func() {
		for {
			c, err := l.ln.Accept()
			if err != nil {
				return
			}
			go l.serve(c)
		}
	}()
	return l
}

func (l *link) close() {
	l.ln.Close()
	l.cut()
	for _, h := range l.imp {
		h.g.Stop()
	}
}

// cut closes all connections
func (l *link) cut() {
	l.mu.Lock()
	defer l.mu.Unlock()
	for c := range l.conns {
		c.Close()
	}
	l.conns = map[net.Conn]bool{}
}

// set decides who is at the end from now on
func (l *link) set(end string) {
	l.mu.Lock()
	l.end, l.attempt = end, 0
	l.mu.Unlock()
	l.cut()
}

func (l *link) attempts() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.attempt
}

func (l *link) serve(c net.Conn) {
	l.mu.Lock()
	end := l.end
	l.conns[c] = true
	if end != "genuine" {
		l.attempt++
		h := l.imp[end]
		if h == nil {
			h = &handover{ch: make(chan net.Conn, 1000), done: make(chan bool)}
			opts := []grpc.ServerOption{grpc.MaxRecvMsgSize(1 << 30), grpc.MaxSendMsgSize(1 << 30)}
			if cfg := impostors[end]; cfg != nil {
				opts = append(opts, grpc.Creds(credentials.NewTLS(cfg)))
			}
			h.g = grpc.NewServer(opts...)
			proto.RegisterVPIRServer(h.g, &fake{l: l, name: end})
			l.imp[end] = h
			go h.g.Serve(h)
		}
		l.mu.Unlock()
		h.ch <- c
		return
	}
	l.mu.Unlock()
	up, err := net.Dial("tcp", l.target)
	if err != nil {
		c.Close()
		return
	}
	l.mu.Lock()
	l.conns[up] = true
	l.mu.Unlock()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { l.relay(0, c, up); wg.Done() }()
	go func() { l.relay(1, up, c); wg.Done() }()
	wg.Wait()
	c.Close()
	up.Close()
	l.mu.Lock()
	delete(l.conns, c)
	delete(l.conns, up)
	l.mu.Unlock()
}

// note records what was seen on the wire
func (l *link) note(dir int, what string, n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.bytes[dir] += n
	if l.wire[dir] != "plain" {
		l.wire[dir] = what
	}
}

// relay passes records in one direction
func (l *link) relay(dir int, from, to net.Conn) {
	defer func() { // the end of one direction
		if t, ok := to.(*net.TCPConn); ok {
			t.CloseWrite()
		}
		if dir == 1 {
			to.Close()
			from.Close()
		}
	}()
	r := bufio.NewReaderSize(from, 1<<16)
	data := 0
	var held []byte
	for {
		head := make([]byte, 5)
		n, err := io.ReadFull(r, head)
		if n > 0 && (head[0] < 20 || head[0] > 23 || (n > 1 && head[1] != 3)) || err == io.ErrUnexpectedEOF {
			l.note(dir, "plain", n)
			to.Write(head[:n])
			m, _ := io.Copy(to, r)
			l.note(dir, "plain", int(m))
			return
		}
		if err != nil {
			return
		}
		size := int(head[3])<<8 | int(head[4])
		if size > 1<<14+2048 {
			l.note(dir, "plain", 5)
			to.Write(head)
			io.Copy(to, r)
			return
		}
		rec := make([]byte, 5+size)
		copy(rec, head)
		if _, err := io.ReadFull(r, rec[5:]); err != nil {
			return
		}
		l.note(dir, "tls", len(rec))
		out := [][]byte{rec}
		stop := false
		if held != nil {
			out = [][]byte{rec, held}
			held = nil
		}
		if rec[0] == 23 {
			l.mu.Lock()
			f := l.fault
			if f != nil && f.dir == dir && f.nth <= data && atomic.CompareAndSwapInt32(&f.done, 0, 1) {
				l.mu.Unlock()
				out, held, stop = l.disturb(f, rec, dir)
				l.mu.Lock()
			}
			if len(l.old[dir]) < 40 {
				l.old[dir] = append(l.old[dir], rec)
			}
			l.mu.Unlock()
			data++
		}
		for _, b := range out {
			if _, err := to.Write(b); err != nil {
				return
			}
		}
		if held != nil { // if nothing follows it is only late
			h := held
			from.SetReadDeadline(time.Now().Add(150 * time.Millisecond))
			_, err := r.Peek(1)
			from.SetReadDeadline(time.Time{})
			if err != nil {
				if _, err := to.Write(h); err != nil {
					return
				}
				held = nil
			}
		}
		if stop {
			from.Close()
			to.Close()
			return
		}
	}
}

func (l *link) disturb(f *onPath, rec []byte, dir int) (out [][]byte, held []byte, stop bool) {
	l.n.mu.Lock()
	x := l.n.r.Int63()
	l.n.mu.Unlock()
	r := rand.New(rand.NewSource(x))
	b := append([]byte{}, rec...)
	switch f.how {
	case "flip":
		b[5+r.Intn(len(b)-5)] ^= 1 << uint(r.Intn(8))
	case "fliptag":
		b[len(b)-1-r.Intn(16)] ^= byte(1 + r.Intn(255))
	case "drop": // what follows does not fit; if nothing does, nobody waits forever
		time.AfterFunc(300*time.Millisecond, l.cut)
		return nil, nil, false
	case "twice":
		return [][]byte{b, rec}, nil, false
	case "swap":
		return nil, b, false
	case "cut":
		return [][]byte{b}, nil, true
	case "cutinside":
		return [][]byte{b[:5+r.Intn(len(b)-5)]}, nil, true
	case "junk":
		r.Read(b[5:])
	case "foreign": // a record of an earlier connection, or an earlier one of this
		l.mu.Lock()
		o := l.old[dir]
		if len(o) > 0 {
			b = append([]byte{}, o[r.Intn(len(o))]...)
		}
		l.mu.Unlock()
		return [][]byte{b, rec}, nil, false
	case "shorten":
		k := 1 + r.Intn(len(b)-5)
		b = b[:len(b)-k]
		b[3], b[4] = byte((len(b)-5)>>8), byte(len(b)-5)
	case "plaintext": // an HTTP/2 frame instead of a record
		b = []byte{0, 0, 8, 6, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}
	}
	return [][]byte{b}, nil, false
}

// ---- front ends with links

type linked struct {
	*front
	links  []*link
	shaken bool // something was disturbed since the process has started
}

func (f *front) withLinks() *linked {
	x := &linked{front: f}
	addrs := make([]string, f.n.k)
	for s := 0; s < f.n.k; s++ {
		l := newLink(f.n, s)
		x.links = append(x.links, l)
		addrs[s] = l.addr
	}
	servers := f.n.addrs
	f.n.addrs = addrs
	f.n.config(f.cfg)
	f.n.addrs = servers
	return x
}

func (x *linked) end() {
	x.close()
	for _, l := range x.links {
		l.close()
	}
	if x.w != nil && x.w.c != nil {
		x.w.c.stop()
	}
	if x.i != nil && x.i.c != nil {
		x.i.c.stop()
	}
}

// fresh ends the process of the front end
func (x *linked) fresh() {
	if x.shaken { // connections are cut up to 300 ms later
		time.Sleep(500 * time.Millisecond)
	}
	if x.m != nil {
		x.m.close()
		x.m = nil
	}
	if x.w != nil && x.w.p != nil {
		x.w.p.cmd.Process.Kill()
		<-x.w.p.done
		x.w.p = nil
	}
	if x.i != nil {
		x.i.stop()
	}
	x.shaken = false
}

// request makes one request; from says since when who is at the ends: "start"
// of the process, "before" the request, "between" description and query
func (x *linked) request(r *rand.Rand, from string, cs []conduct) {
	n := x.n
	ends := []string{}
	altered := x.shaken
	for _, l := range x.links {
		l.mu.Lock()
		e := l.end
		if l.fault != nil {
			altered = true
		}
		l.wire, l.bytes = [2]string{"nothing", "nothing"}, [2]int{}
		l.mu.Unlock()
		if e != "genuine" {
			e = impostorEnd[e]
		}
		ends = append(ends, e)
	}
	n.mu.Lock()
	n.record(M{"ev": "path", "ends": ends, "altered": altered, "from": from})
	n.mu.Unlock()
	if x.w != nil && (x.w.p == nil || x.w.p.exited()) {
		if err := x.w.start(); err != nil && x.w.p.exited() { // it does not start
			q := &frequest{kind: "key", front: "web", valid: true, email: x.someEmail(r, true)}
			n.announce(q, cs)
			x.finish(&seen{out: "error", kind: "nothing", msg: err.Error()})
			return
		}
	}
	x.simple(r, true, cs)
	x.finish(nil)
}

func (x *linked) finish(s *seen) {
	n := x.n
	if s != nil {
		n.outcome("outcome", s)
	}
	for i, l := range x.links {
		l.mu.Lock()
		n.mu.Lock()
		n.record(M{"ev": "wire", "s": i, "end": l.end, "up": l.wire[0], "down": l.wire[1], "n": l.bytes[0] + l.bytes[1]})
		n.mu.Unlock()
		if l.fault != nil && atomic.LoadInt32(&l.fault.done) == 1 {
			x.shaken = true
		}
		l.fault = nil
		l.mu.Unlock()
	}
}

// works says if the last request gave a result
func (x *linked) works() bool {
	x.n.mu.Lock()
	defer x.n.mu.Unlock()
	for i := len(x.n.buf) - 1; i >= 0; i-- {
		if x.n.buf[i]["ev"] == "outcome" {
			return x.n.buf[i]["out"] == "ok"
		}
	}
	return false
}

// recover waits until requests are answered again; then they have to be
func (x *linked) recover(r *rand.Rand) {
	for i := 0; i < 30; i++ {
		x.shaken = true
		x.request(r, "before", nil)
		if x.works() {
			break
		}
		time.Sleep(time.Duration(i) * 300 * time.Millisecond)
	}
	x.shaken = false
	x.request(r, "before", nil)
}

// later puts the impostor at the end of s as soon as s has described the database
func (x *linked) later(s int, imp string) []conduct {
	cs := honest(x.n.k)
	hold := make(chan bool)
	for i := range cs {
		if i != s {
			cs[i].hold = hold
		}
	}
	l := x.links[s]
	go func() {
		defer close(hold)
		for i := 0; i < 3000; i++ {
			x.n.mu.Lock()
			seen := false
			for j := len(x.n.buf) - 1; j >= 0 && x.n.buf[j]["ev"] != "path"; j-- {
				if x.n.buf[j]["ev"] == "info" && x.n.buf[j]["s"] == s {
					seen = true
				}
			}
			x.n.mu.Unlock()
			if seen {
				time.Sleep(200 * time.Millisecond)
				x.n.mu.Lock()
				x.n.record(M{"ev": "replace", "s": s, "end": impostorEnd[imp]})
				x.n.mu.Unlock()
				l.set(imp)
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	}()
	return cs
}

// ---- server programs

// serverChecks makes sure that a server proves what the clients are shipped
// with, and that it answers nobody who does not encrypt
func serverChecks(r *rand.Rand, name string, addrs []string, ask func(conn *grpc.ClientConn) error) {
	for s, addr := range addrs {
		pin := -1
		pool := x509.NewCertPool()
		var when time.Time
		for i, p := range utils.ServerPublicKeys {
			b, _ := pem.Decode([]byte(p))
			if b == nil {
				continue
			}
			c, err := x509.ParseCertificate(b.Bytes)
			if err != nil {
				continue
			}
			pool.AddCert(c)
			if i == s {
				when = c.NotBefore.Add(time.Hour)
			}
		}
		out := "ok"
		c, err := tls.Dial("tcp", addr, &tls.Config{RootCAs: pool, ServerName: "127.0.0.1", Time: func() time.Time { return when }, NextProtos: []string{"h2"}})
		if err != nil {
			out = "err"
		} else {
			leaf := c.ConnectionState().PeerCertificates[0]
			for i, p := range utils.ServerPublicKeys {
				if b, _ := pem.Decode([]byte(p)); b != nil && bytes.Equal(b.Bytes, leaf.Raw) {
					pin = i
				}
			}
			c.Close()
		}
		T.Emit(M{"ev": "prove", "s": s, "server": name, "out": out, "pin": pin})
		var open []net.Conn
		for _, how := range []string{"plain", "plainquery", "junk", "half", "hello", "http", "close"} {
			m := M{"ev": "unsealed", "s": s, "server": name, "how": how, "answered": false}
			switch how {
			case "plain", "plainquery":
				conn, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
				must(err)
				ctx, cancel := background(2 * time.Second)
				if how == "plain" {
					_, err = proto.NewVPIRClient(conn).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
				} else {
					_, err = proto.NewVPIRClient(conn).Query(ctx, &proto.QueryRequest{Query: randBytes(r, 50)})
				}
				cancel()
				conn.Close()
				m["answered"] = err == nil
			default:
				for i := 0; i < pick(10, 60); i++ {
					c, err := net.Dial("tcp", addr)
					if err != nil {
						continue
					}
					switch how {
					case "junk":
						c.Write(randBytes(r, 1+r.Intn(3000)))
					case "half": // and no more
						c.Write([]byte{22, 3, 1, 2, 0, 1})
					case "hello":
						c.Write(append([]byte{22, 3, 1, 0, 200, 1, 0, 0, 196}, randBytes(r, 196)...))
					case "http":
						c.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"))
					case "close":
						c.Close()
					}
					open = append(open, c)
				}
			}
			T.Emit(m)
			conn := dial(addr)
			err := ask(conn)
			conn.Close()
			g := M{"ev": "usable", "s": s, "server": name, "after": how, "out": "ok"}
			if err != nil {
				g["out"], g["msg"] = "err", err.Error()
			}
			T.Emit(g)
		}
		for _, c := range open {
			c.Close()
		}
	}
}

func describeOnce(conn *grpc.ClientConn) error {
	ctx, cancel := background(20 * time.Second)
	defer cancel()
	_, err := proto.NewVPIRClient(conn).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
	return err
}

// ----

func c20() {
	makeImpostors()
	d := newKeyset(work, 24, 20)
	var jobs []func()
	id := 0
	type setting struct {
		kind, scheme string
		k            int
	}
	job := func(name string, st setting, f func(r *rand.Rand, x *linked)) {
		id++
		my := id
		jobs = append(jobs, func() {
			t0 := time.Now()
			defer func() { fmt.Fprintf(os.Stderr, "JOB %s %.1f\n", name, time.Since(t0).Seconds()) }()
			r := rng(int64(2000 + my))
			dir := filepath.Join(work, fmt.Sprintf("c20-%d", my))
			var fr *front
			switch st.kind {
			case "web", "inter":
				mk := newWeb
				if st.kind == "inter" {
					mk = newInter
				}
				point, count := st.scheme, "complexVPIR"
				if strings.HasPrefix(st.scheme, "complex") {
					point, count = "pointPIR", st.scheme
				}
				p, c := mk(r, point, count, st.k, d, dir)
				fr = p
				if strings.HasPrefix(st.scheme, "complex") {
					fr = c
					if c.w != nil {
						c.w = &website{n: p.n, c: p.n, dir: dir, pcfg: p.cfg, ccfg: c.cfg}
					}
					if c.i != nil {
						c.i = &inter{p: p.n, c: p.n, dir: dir, pcfg: p.cfg, ccfg: c.cfg}
					}
				}
			default:
				fr = newFront(r, st.kind, st.scheme, st.k, d, dir)
			}
			x := fr.withLinks()
			defer x.end()
			f(r, x)
			x.n.flush("c20/" + name)
		})
	}
	settings := []setting{{"cli", "pointVPIR", 2}, {"cli", "pointPIR", 3}, {"cli", "complexVPIR", 2}, {"cli", "complexPIR", 2},
		{"sim", "pointVPIR", 2}, {"sim", "complexPIR", 2}, {"mgr", "pointVPIR", 3}, {"mgr", "pointPIR", 2}, {"web", "pointVPIR", 2}, {"web", "complexVPIR", 2},
		{"inter", "pointVPIR", 2}, {"inter", "complexVPIR", 2}}
	for i, st := range settings {
		st := st
		name := fmt.Sprint(st.kind, "-", st.scheme, "-", st.k)
		lasting := st.kind == "mgr" || st.kind == "web" || st.kind == "inter"
		for j, imp := range impostorNames {
			imp := imp
			if !thorough() && (i+j)%2 == 1 && st.kind != "mgr" && imp != "unknown" && imp != "plain" {
				continue
			}
			// from the start
			job("start/"+name+"/"+imp, st, func(r *rand.Rand, x *linked) {
				x.request(r, "start", nil)
				x.fresh()
				s := r.Intn(st.k)
				x.links[s].set(imp)
				x.request(r, "start", nil)
				if thorough() {
					x.fresh()
					for _, l := range x.links {
						l.set(imp)
					}
					x.request(r, "start", nil)
				}
				for _, l := range x.links {
					l.set("genuine")
				}
				x.fresh()
				x.request(r, "start", nil)
			})
			// between the description and the query
			job("between/"+name+"/"+imp, st, func(r *rand.Rand, x *linked) {
				s := r.Intn(st.k)
				x.request(r, "between", x.later(s, imp))
				if lasting {
					x.links[s].set("genuine")
					x.recover(r)
				}
			})
			// between requests
			if lasting {
				job("later/"+name+"/"+imp, st, func(r *rand.Rand, x *linked) {
					x.request(r, "start", nil)
					s := r.Intn(st.k)
					l := x.links[s]
					l.set(imp)
					x.request(r, "before", nil)
					for i := 0; i < 300 && l.attempts() < 2; i++ {
						time.Sleep(10 * time.Millisecond)
					}
					x.request(r, "before", nil)
					l.set("genuine")
					x.recover(r)
				})
			}
		}
		// altered on the path
		for part := 0; part < 4; part++ {
			part := part
			job("altered/"+name, st, func(r *rand.Rand, x *linked) {
				x.request(r, "start", nil)
				for rep := 0; rep < pick(1, 6); rep++ {
					for h, how := range pathFaults {
						for dir := 0; dir < 2; dir++ {
							if (h+dir)%4 != part {
								continue
							}
							s := r.Intn(st.k)
							x.links[s].mu.Lock()
							x.links[s].fault = &onPath{dir: dir, how: how, nth: r.Intn(9)}
							x.links[s].mu.Unlock()
							x.request(r, "before", nil)
							if lasting && r.Intn(3) == 0 {
								x.fresh()
							}
						}
					}
				}
				if lasting {
					x.recover(r)
				} else {
					x.fresh()
					x.request(r, "start", nil)
				}
			})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 20)
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j func()) { j(); <-sem; wg.Done() }(j)
	}
	wg.Wait()

	// the server programs
	r := rng(2020)
	for _, sch := range []string{"pointVPIR", "complexPIR"} {
		k := 2
		if sch == "pointVPIR" {
			k = 5
		}
		Begin("c20/server/"+sch, nil)
		sys := startSystem(filepath.Join(work, "c20-"+sch), sch, k, 12, 300)
		serverChecks(r, "server", sys.addrs, describeOnce)
		sys.kill()
	}
	for _, f := range []xflags{{"pir-merkle", 8 * 16 * 37, 1, 16, 3}, {"fss-auth", 0, 0, 0, 2}} {
		x := newX(filepath.Join(work, "c20-"+f.scheme), f)
		for i := 0; i < f.k; i++ {
			x.start(i)
		}
		serverChecks(r, "experiment", x.addrs, describeOnce)
		for _, p := range x.procs {
			p.cmd.Process.Kill()
			<-p.done
		}
	}
}

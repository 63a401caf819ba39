package main

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/query"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/status"
)

func init() { drivers["c13"] = c13 }

// system is a set of running key servers
type system struct {
	scheme string
	k      int
	procs  []*proc
	conns  []*grpc.ClientConn
	addrs  []string
	ref    *reference
	emails []string
	n      int64
	stuck  int32 // a request was never answered: there is nothing more to learn
	in     interner
	inMu   sync.Mutex
}

func (s *system) id(b []byte) int {
	s.inMu.Lock()
	defer s.inMu.Unlock()
	return s.in.id([]byte(hashOf(b)))
}

func startSystem(dir, scheme string, k, keys, size int, extra ...string) *system {
	s := &system{scheme: scheme, k: k, in: interner{}}
	sks := filepath.Join(dir, "sks")
	var file string
	if strings.HasPrefix(scheme, "complex") {
		var ks []*pgp.Key
		for _, x := range storedKeys(rng(13), keys, nil) {
			ks = append(ks, x.key())
			s.emails = append(s.emails, x.spec.primary().email)
		}
		file = keyFile(filepath.Join(sks, "sks-000.pgp"), ks)
	} else {
		file = keyFile(filepath.Join(sks, "sks-000.pgp"), opaqueKeys(keys, size, 131))
	}
	s.ref = newReference(scheme, []string{file}, k)
	s.addrs = freeAddrs(k)
	cfg := writeConfig(filepath.Join(dir, "config.toml"), s.addrs)
	for i := 0; i < k; i++ {
		args := append([]string{"-id", fmt.Sprint(i), "-scheme", scheme, "-files", "1"}, extra...)
		s.procs = append(s.procs, startProc(dir, []string{"VPIR_CONFIG=" + cfg, "VPIR_SKS_ROOT=" + sks}, "vserver", args...))
		s.conns = append(s.conns, dial(s.addrs[i]))
	}
	for i, p := range s.procs {
		out := "hang"
		for t := 0; t < 600; t++ {
			ctx, cancel := background(5 * time.Second)
			_, err := proto.NewVPIRClient(s.conns[i]).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
			cancel()
			if err == nil {
				out = "ok"
				break
			}
			if p.exited() {
				out = "exited"
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		m := M{"ev": "start", "server": i, "out": out}
		if out != "ok" {
			m["msg"] = p.tail()
		}
		T.Emit(m)
	}
	return s
}

func (s *system) descriptions() {
	for i := range s.conns {
		ctx, cancel := background(30 * time.Second)
		r, err := proto.NewVPIRClient(s.conns[i]).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
		cancel()
		m := M{"ev": "info", "server": i, "out": "err", "got": 0, "want": s.id([]byte(infoDigest(s.ref.description())))}
		if err == nil {
			m["out"], m["got"] = "ok", s.id([]byte(infoDigest(r)))
		}
		T.Emit(m)
	}
}

// input is the content of a query, and its result
func (s *system) input(r *rand.Rand) ([]byte, func(got interface{}) int, int) {
	if s.ref.table == nil {
		i := r.Intn(s.ref.info.NumRows * s.ref.info.NumColumns)
		in := make([]byte, 4)
		binary.BigEndian.PutUint32(in, uint32(i))
		pos := 0
		for j := 0; j < i; j++ {
			pos += s.ref.bytes.BlockLengths[j]
		}
		data := s.ref.bytes.Entries[pos : pos+s.ref.bytes.BlockLengths[i]]
		if s.ref.bytes.PIRType == "merkle" {
			// the records have their proof and the end of the padding after them
			data = data[:len(data)-s.ref.bytes.ProofLen-1]
		}
		return in, func(got interface{}) int {
			b, _ := valBytes(got)
			if len(b) > len(data) && len(strings.Trim(string(b[len(data):]), "\x00")) == 0 {
				b = b[:len(data)] // plain blocks come with their padding
			}
			return s.id(b)
		}, s.id(data)
	}
	p := pred{kind: "email", part: "equal", text: s.emails[r.Intn(len(s.emails))]}
	if r.Intn(2) == 0 {
		p.part, p.text = "end", domains[r.Intn(len(domains))]
	} else if r.Intn(6) == 0 {
		p.text += "x"
	}
	want := 0
	for _, e := range s.emails {
		if p.part == "equal" && e == p.text || p.part == "end" && strings.HasSuffix(e, p.text) {
			want++
		}
	}
	in, err := p.query(r).Encode()
	must2(err)
	return in, func(got interface{}) int {
		if v, ok := got.(uint32); ok && v < 1<<30 {
			return int(v)
		}
		return -1
	}, want
}

// request is one query to one server
type request struct {
	r      int
	server int
	query  []byte
	giveup time.Duration
	gzip   bool
	valid  bool // the answer that the query has
	want   int
}

func outcome(err error, ctx context.Context) string {
	switch {
	case err == nil:
		return "ok"
	case ctx.Err() != nil || status.Code(err) == codes.Canceled || status.Code(err) == codes.DeadlineExceeded:
		return "cancelled"
	case status.Code(err) == codes.Unavailable:
		return "unavailable"
	}
	return "err"
}

// expect determines the answer to a query, without the server program
func (s *system) expect(q *request) {
	if out, _ := guard(func() error {
		a, err := s.ref.srv[q.server].AnswerBytes(append([]byte{}, q.query...))
		if err == nil {
			q.want, q.valid = s.id(a), true
		}
		return err
	}); out == "panic" || out == "hang" {
		fail("the reference server: %s", out)
	}
}

// announce records that a request is made
func (s *system) announce(q *request) {
	q.r = int(atomic.AddInt64(&s.n, 1))
	T.Emit(M{"ev": "send", "r": q.r, "server": q.server, "valid": q.valid, "want": q.want, "giveup": q.giveup != 0})
}

func (s *system) received(q *request, a []byte, err error, ctx context.Context) {
	m := M{"ev": "recv", "r": q.r, "out": outcome(err, ctx), "ans": 0}
	if err == nil {
		m["ans"] = s.id(a)
	} else {
		m["msg"] = err.Error()
		if q.giveup == 0 && ctx.Err() != nil {
			m["out"] = "hang"
			atomic.StoreInt32(&s.stuck, 1)
		}
	}
	T.Emit(m)
}

func (q *request) context() (context.Context, context.CancelFunc) {
	if q.giveup > 0 && q.giveup%2 == 0 { // abandoned without a deadline
		ctx, cancel := context.WithCancel(context.Background())
		time.AfterFunc(q.giveup, cancel)
		return ctx, cancel
	} else if q.giveup > 0 {
		return context.WithTimeout(context.Background(), q.giveup)
	}
	return context.WithTimeout(context.Background(), 240*time.Second)
}

func (q *request) opts() []grpc.CallOption {
	if q.gzip {
		return []grpc.CallOption{grpc.UseCompressor(gzip.Name)}
	}
	return nil
}

func (s *system) do(conn *grpc.ClientConn, q *request) {
	s.announce(q)
	ctx, cancel := q.context()
	defer cancel()
	r, err := proto.NewVPIRClient(conn).Query(ctx, &proto.QueryRequest{Query: q.query}, q.opts()...)
	s.received(q, r.GetAnswer(), err, ctx)
}

// malformed returns a query that no server can answer
func (s *system) malformed(r *rand.Rand, q []byte) []byte {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return q[:len(q)-1]
	case 2:
		return append(append([]byte{}, q...), byte(r.Intn(256)))
	case 3:
		if s.ref.table != nil {
			return randBytes(r, len(q))
		}
		return q[:len(q)/2]
	}
	x := &query.FSS{}
	return encodeFSS(x)
}

// requests makes the queries of n clients for all the servers
func (s *system) requests(r *rand.Rand, n int, bad, giveup float64) []*request {
	var out []*request
	for len(out) < n {
		in, _, _ := s.input(r)
		qs, err := s.ref.client().QueryBytes(in, s.k)
		must2(err)
		for i, q := range qs {
			x := &request{server: i, query: q, gzip: r.Intn(2) == 0}
			if r.Float64() < bad {
				x.query = s.malformed(r, q)
			}
			if r.Float64() < giveup {
				x.giveup = time.Duration(r.Intn(30000))*time.Microsecond + time.Duration(r.Intn(2))
				if x.giveup == 0 {
					x.giveup = 1
				}
			}
			out = append(out, x)
		}
	}
	parallelFor(len(out), func(i int) { s.expect(out[i]) })
	return out
}

// alike makes queries that differ from one another in a single place, one
// after the other: each has the answer of its own content
func (s *system) alike(r *rand.Rand, n int) {
	in, _, _ := s.input(r)
	qs, err := s.ref.client().QueryBytes(in, s.k)
	must2(err)
	for i, q := range qs {
		all := []*request{{server: i, query: q}}
		for x := 0; x < n; x++ {
			v := append([]byte{}, q...)
			var at int
			switch x % 4 {
			case 0: // the end: the last correction word of a key
				at = len(v) - 1 - r.Intn(minInt(16, len(v)))
			case 1:
				at = len(v)/2 + r.Intn(len(v)-len(v)/2)
			case 2:
				at = r.Intn(len(v))
			case 3:
				at = len(v) * 3 / 4
			}
			v[at] ^= 1 << uint(r.Intn(8))
			if s.ref.table != nil {
				f, err := decodeFSS(q)
				must2(err)
				k := &f.FssKey
				switch y := x / 2 % 3; {
				case y == 0 && len(k.FinalCW) > 0:
					k.FinalCW[r.Intn(len(k.FinalCW))] ^= 1 << uint(r.Intn(30))
				case y == 1:
					k.SInit[r.Intn(len(k.SInit))] ^= 1 << uint(r.Intn(8))
				default:
					c := k.CW[len(k.CW)-1]
					c[r.Intn(len(c))] ^= 1
				}
				v = encodeFSS(f)
			}
			all = append(all, &request{server: i, query: v})
			if x%3 == 1 {
				all = append(all, &request{server: i, query: q})
			}
		}
		parallelFor(len(all), func(x int) { s.expect(all[x]) })
		for _, x := range all {
			if atomic.LoadInt32(&s.stuck) != 0 {
				return
			}
			s.do(s.conns[i], x)
		}
	}
}

// storm makes many requests at the same time
func (s *system) storm(r *rand.Rand, n, conns int, bad, giveup float64) *sync.WaitGroup {
	pool := make([][]*grpc.ClientConn, s.k)
	for i := range pool {
		for c := 0; c < conns; c++ {
			pool[i] = append(pool[i], dial(s.addrs[i]))
		}
	}
	var wg sync.WaitGroup
	for _, q := range s.requests(r, n, bad, giveup) {
		q := q
		c := pool[q.server][r.Intn(conns)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.do(c, q)
		}()
	}
	return &wg
}

// retrievals are whole queries, to all the servers at the same time
func (s *system) retrievals(r *rand.Rand, n int) {
	for ; n > 0 && atomic.LoadInt32(&s.stuck) == 0; n-- {
		in, conv, want := s.input(r)
		c := s.ref.client()
		got := 0
		out, msg := guard(func() error {
			qs, err := c.QueryBytes(in, s.k)
			if err != nil {
				return err
			}
			answers, errs := make([][]byte, s.k), make([]error, s.k)
			var wg sync.WaitGroup
			for i := range qs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					ctx, cancel := background(60 * time.Second)
					defer cancel()
					var resp *proto.QueryResponse
					resp, errs[i] = proto.NewVPIRClient(s.conns[i]).Query(ctx, &proto.QueryRequest{Query: qs[i]})
					answers[i] = resp.GetAnswer()
				}(i)
			}
			wg.Wait()
			for _, e := range errs {
				if e != nil {
					return e
				}
			}
			v, err := c.ReconstructBytes(answers)
			if err == nil {
				got = conv(v)
			}
			return err
		})
		if strings.Contains(msg, codes.DeadlineExceeded.String()) {
			atomic.StoreInt32(&s.stuck, 1)
		}
		T.Emit(M{"ev": "retrieve", "out": out, "msg": msg, "got": got, "want": want})
	}
}

// work is the number of requests that keep the server busy for a while
func (s *system) work(server int) time.Duration {
	in, _, _ := s.input(rng(1))
	qs, err := s.ref.client().QueryBytes(in, s.k)
	must2(err)
	begin := time.Now()
	for i := 0; i < 10; i++ {
		ctx, cancel := background(60 * time.Second)
		_, err = proto.NewVPIRClient(s.conns[server]).Query(ctx, &proto.QueryRequest{Query: qs[server]})
		cancel()
	}
	if err != nil {
		return 0
	}
	n := 10 * time.Duration(pick(22, 110)) * time.Second / time.Since(begin)
	if n > 8000 {
		n = 8000
	}
	return n
}

// pendingAtStop sends requests, makes sure that the server has accepted them,
// and stops the server
func (s *system) pendingAtStop(r *rand.Rand, server, n int, long bool, sig syscall.Signal) {
	var wg sync.WaitGroup
	var accepted []int
	var qs [2][]*request
	rs := s.requests(r, n*s.k, 0.1, 0)
	if long { // so many that the answers take their time
		for l, i := len(rs), int(s.work(server)); len(rs) < i*s.k; {
			q := *rs[len(rs)%l]
			rs = append(rs, &q)
		}
	}
	for i, q := range rs {
		if q.server == server {
			c := i / s.k % 2
			qs[c] = append(qs[c], q)
		}
	}
	// some others are abandoned around the stop, on connections of their own
	for _, q := range s.requests(r, 10*s.k, 0, 1) {
		if q.server == server {
			q := q
			q.giveup *= 3
			conn := dial(s.addrs[server])
			defer conn.Close()
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.do(conn, q)
			}()
		}
	}
	late := s.requests(r, s.k, 0, 0)
	for c := 0; c < 2; c++ {
		conn := dial(s.addrs[server], true)
		defer conn.Close()
		for _, q := range qs[c] {
			q := q
			s.announce(q)
			ctx, cancel := q.context()
			st, err := conn.NewStream(ctx, &grpc.StreamDesc{}, "/proto.VPIR/Query", q.opts()...)
			if err == nil {
				if err = st.SendMsg(&proto.QueryRequest{Query: q.query}); err == nil {
					err = st.CloseSend()
				}
			}
			if err != nil {
				s.received(q, nil, err, ctx)
				cancel()
				continue
			}
			accepted = append(accepted, q.r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer cancel()
				resp := new(proto.QueryResponse)
				err := st.RecvMsg(resp)
				s.received(q, resp.Answer, err, ctx)
			}()
		}
		// the server reads what a connection brings in order
		ctx, cancel := background(60 * time.Second)
		_, err := proto.NewVPIRClient(conn).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
		cancel()
		m := M{"ev": "info", "server": server, "out": "ok", "got": 0, "want": 0}
		if err != nil {
			m["out"] = "err"
		}
		T.Emit(m)
	}
	T.Emit(M{"ev": "accepted", "rs": accepted})
	s.stop(server, sig)
	// requests which come too late
	s.do(s.conns[server], late[server])
	wg.Wait()
}

func (s *system) stop(server int, sig syscall.Signal) {
	T.Emit(M{"ev": "stop", "server": server, "signal": sig.String()})
	s.procs[server].cmd.Process.Signal(sig)
}

func (s *system) exit(server int) {
	rc, hang := s.procs[server].wait(60 * time.Second)
	m := M{"ev": "exit", "server": server, "rc": rc, "hang": hang}
	if rc != 0 {
		m["msg"] = s.procs[server].tail()
	}
	T.Emit(m)
}

// stalled stops the servers while peers hold connections on which nothing is
// going on: an unfinished handshake, no request, or a request of which only
// the beginning was sent
func (s *system) stalled(r *rand.Rand) {
	for i, how := range []string{"handshake", "silent", "request"} {
		conn := dial(s.addrs[i])
		var leave func()
		var err error
		switch how {
		case "handshake":
			var c net.Conn
			if c, err = net.Dial("tcp", s.addrs[i]); err == nil {
				leave = func() { c.Close() }
			}
		case "silent":
			var c net.Conn
			if c, err = tls.Dial("tcp", s.addrs[i], &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"h2"}}); err == nil {
				leave = func() { c.Close() }
			}
		case "request":
			ctx, cancel := context.WithCancel(context.Background())
			leave = cancel
			_, err = conn.NewStream(ctx, &grpc.StreamDesc{}, "/proto.VPIR/Query")
		}
		if err != nil {
			fail("stalled peer: %v", err)
		}
		// the others are served
		for _, q := range s.requests(r, 2*s.k, 0.2, 0) {
			if q.server == i {
				s.do(conn, q)
			}
		}
		s.stop(i, syscall.SIGTERM)
		out := "running"
		select {
		case <-s.procs[i].done:
			out = "exited"
		case <-time.After(time.Duration(pick(12, 140)) * time.Second):
		}
		T.Emit(M{"ev": "held", "server": i, "how": how, "out": out, "long": thorough()})
		leave()
		s.exit(i)
		conn.Close()
	}
}

func (s *system) kill() {
	for _, p := range s.procs {
		if !p.exited() {
			p.cmd.Process.Kill()
			<-p.done
		}
	}
	for _, c := range s.conns {
		c.Close()
	}
}

func c13() {
	type conf struct {
		scheme     string
		k          int
		keys, size int
		extra      []string
	}
	confs := []conf{
		{"pointPIR", 2, 600, 9000, nil},
		{"pointVPIR", 2, 300, 6000, nil},
		{"pointPIR", 3, 300, 9000, []string{"-experiment", "-cores", "3"}},
		{"pointVPIR", 3, 400, 6000, nil},
		{"complexPIR", 2, 250, 0, nil},
		{"complexVPIR", 2, 120, 0, []string{"-experiment", "-cores", "2"}},
	}
	if thorough() {
		confs = append(confs, conf{"pointVPIR", 2, 500, 9000, []string{"-experiment", "-cores", "4"}}, conf{"pointPIR", 4, 200, 9000, nil},
			conf{"complexVPIR", 2, 300, 0, nil}, conf{"complexPIR", 2, 40, 0, []string{"-experiment", "-cores", "1"}}, conf{"pointPIR", 5, 37, 100, nil})
	}
	{ // peers that hold their connections
		dir := filepath.Join(work, "c13", "stalled")
		Begin("stalled peers", nil)
		s := startSystem(dir, "pointPIR", 3, 40, 300)
		alive := true
		for _, p := range s.procs {
			alive = alive && !p.exited()
		}
		if alive {
			s.stalled(rng(1399))
			T.Emit(M{"ev": "end"})
		}
		s.kill()
		os.RemoveAll(dir)
	}
	stuck := false
	for round := 0; round < pick(1, 4); round++ {
		for ci, c := range confs {
			if stuck {
				return
			}
			r := rng(int64(1300 + 100*round + ci))
			dir := filepath.Join(work, "c13", fmt.Sprint(round, ci))
			Begin(fmt.Sprintf("%s, %d servers %v", c.scheme, c.k, c.extra), nil)
			func() {
				s := startSystem(dir, c.scheme, c.k, c.keys, c.size, c.extra...)
				defer s.kill()
				for _, p := range s.procs {
					if p.exited() {
						return
					}
				}
				s.descriptions()
				s.retrievals(r, pick(6, 15))
				s.alike(r, pick(8, 24))
				s.storm(r, pick(60, 150), 3, 0.15, 0.25).Wait()
				s.retrievals(r, 2)
				// more than the queue holds, at once, and most of them abandoned
				if s.stuck == 0 {
					s.storm(r, 25*c.k, 1, 0, 0.8).Wait()
					s.descriptions()
					s.retrievals(r, pick(3, 6))
				}
				if stuck = s.stuck != 0; stuck {
					return
				}
				for i := range s.procs {
					sig := syscall.SIGTERM
					if r.Intn(2) == 0 {
						sig = syscall.SIGINT
					}
					switch (i + ci + round) % 3 {
					case 0, 1:
						s.pendingAtStop(r, i, 40, i == 0 && c.scheme == "complexPIR", sig)
					case 2:
						// idle
						s.stop(i, sig)
					}
					s.exit(i)
				}
				T.Emit(M{"ev": "end"})
			}()
			os.RemoveAll(dir)
		}
	}
}

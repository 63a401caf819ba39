package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

var (
	portMu   sync.Mutex
	nextPort = 10000 + os.Getpid()*331%20000
)

// freeAddrs returns loopback addresses nobody listens at. None is returned
// twice, and they are not among those the system chooses for others: what is
// found there is what was started there.
func freeAddrs(n int) []string {
	portMu.Lock()
	defer portMu.Unlock()
	var out []string
	for tries := 0; len(out) < n; tries++ {
		if tries > 20000 {
			fail("no free address")
		}
		addr := fmt.Sprintf("127.0.0.1:%d", nextPort)
		if nextPort++; nextPort >= 30000 {
			nextPort = 10000
		}
		l, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}
		l.Close()
		out = append(out, addr)
	}
	return out
}

// writeConfig writes the configuration of the servers at the addresses
func writeConfig(path string, addrs []string) string {
	var b strings.Builder
	b.WriteString("[servers]\n")
	for i, a := range addrs {
		h, p, err := net.SplitHostPort(a)
		must(err)
		fmt.Fprintf(&b, "\n    [servers.%d]\n    ip = \"%s\"\n    port = %s\n", i, h, p)
	}
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, []byte(b.String()), 0o644))
	return path
}

// proc is a running program of the repository. What it writes goes to a file, so
// that it is there as soon as it is written.
type proc struct {
	cmd  *exec.Cmd
	out  string
	done chan struct{}
	rc   int
}

func startProc(dir string, env []string, name string, args ...string) *proc {
	p := &proc{cmd: exec.Command(filepath.Join(work, name), args...), done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), env...)
	w, err := os.CreateTemp(work, "out-*")
	must(err)
	w.Close()
	p.out = w.Name()
	w, err = os.OpenFile(p.out, os.O_WRONLY|os.O_APPEND, 0)
	must(err)
	p.cmd.Stdout, p.cmd.Stderr = w, w
	must(p.cmd.Start())
	w.Close()
	go func() {
		// a program that does not stop writing must not fill the disk
		for !p.exited() {
			if i, err := os.Stat(p.out); err == nil && i.Size() > 64<<20 {
				os.Truncate(p.out, 0)
			}
			time.Sleep(time.Second)
		}
	}()
	go func() {
		p.cmd.Wait()
		p.rc = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

// wait returns the exit status, or "hang"
func (p *proc) wait(d time.Duration) (rc int, hang bool) {
	select {
	case <-p.done:
		return p.rc, false
	case <-time.After(d):
		p.cmd.Process.Kill()
		<-p.done
		return -2, true
	}
}

func (p *proc) output() string {
	b, err := os.ReadFile(p.out)
	must(err)
	return string(b)
}

func (p *proc) tail() string {
	o := p.output()
	if len(o) > 600 {
		o = o[len(o)-600:]
	}
	return o
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// dial connects to a server. With still, the connection carries nothing from
// the client to the server but the requests: gRPC closes the connections of a
// stopping server when the last answer is written, and if there is anything
// unread from the client then (pings that measure the bandwidth, updates of the
// window) the operating system resets the connection, and the client may lose
// the answers it has not read yet.
func dial(addr string, still ...bool) *grpc.ClientConn {
	var opts []grpc.DialOption
	if len(still) > 0 && still[0] {
		opts = append(opts, grpc.WithInitialWindowSize(1<<30), grpc.WithInitialConnWindowSize(1<<30))
	}
	c, err := grpc.Dial(addr, append(opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30), grpc.MaxCallSendMsgSize(1<<30)))...)
	must(err)
	return c
}

// reach makes sure that a connection to a server stands: a machine that is busy
// may need more than one try
func reach(c *grpc.ClientConn) {
	var err error
	for i := 0; i < 5; i++ {
		ctx, cancel := background(40 * time.Second)
		_, err = proto.NewVPIRClient(c).DatabaseInfo(ctx, &proto.DatabaseInfoRequest{})
		cancel()
		if err == nil {
			return
		}
	}
	must(err)
}

// reference answers queries over the same files without the server program
type reference struct {
	scheme string
	bytes  *database.Bytes
	table  *database.DB
	info   *database.Info
	srv    []interface {
		AnswerBytes([]byte) ([]byte, error)
	}
}

func newReference(scheme string, files []string, k int) *reference {
	ref := &reference{scheme: scheme}
	var err error
	switch scheme {
	case "pointPIR":
		ref.bytes, err = database.GenerateRealKeyBytes(files, true)
	case "pointVPIR":
		ref.bytes, err = database.GenerateRealKeyMerkle(files, true)
	default:
		ref.table, err = database.GenerateRealKeyDB(files)
	}
	must2(err)
	for s := 0; s < k; s++ {
		switch scheme {
		case "pointPIR", "pointVPIR":
			ref.info = &ref.bytes.Info
			ref.srv = append(ref.srv, pointServer(ref.bytes, k))
		case "complexPIR":
			ref.info = &ref.table.Info
			ref.srv = append(ref.srv, server.NewPredicatePIR(ref.table, byte(s)))
		case "complexVPIR":
			ref.info = &ref.table.Info
			ref.srv = append(ref.srv, server.NewPredicateAPIR(ref.table, byte(s)))
		}
	}
	return ref
}

// vclient is a client of any scheme
type vclient interface {
	QueryBytes([]byte, int) ([][]byte, error)
	ReconstructBytes([][]byte) (interface{}, error)
}

func (ref *reference) client() vclient {
	i := copyInfo(ref.info)
	switch ref.scheme {
	case "complexPIR":
		return client.NewPredicatePIR(utils.RandomPRG(), i)
	case "complexVPIR":
		return client.NewPredicateAPIR(utils.RandomPRG(), i)
	}
	return client.NewPIR(utils.RandomPRG(), i)
}

func infoDigest(i *proto.DatabaseInfoResponse) string {
	return fmt.Sprint(i.NumRows, i.NumColumns, i.BlockLength, i.PirType, i.Root, i.ProofLen)
}

func (ref *reference) description() *proto.DatabaseInfoResponse {
	i := ref.info
	return &proto.DatabaseInfoResponse{NumRows: uint32(i.NumRows), NumColumns: uint32(i.NumColumns), BlockLength: uint32(i.BlockSize),
		PirType: i.PIRType, Root: i.Root, ProofLen: uint32(i.ProofLen)}
}

// opaqueKeys are keys nobody parses, of about the size
func opaqueKeys(n, size int, salt int64) []*pgp.Key {
	r := rng(salt)
	var out []*pgp.Key
	for i := 0; i < n; i++ {
		out = append(out, &pgp.Key{ID: randEmail(r, i), Packet: randBytes(r, size/2+r.Intn(size))})
	}
	return out
}

func background(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

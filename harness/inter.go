package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// inter is the running interactive front end, with a terminal
type inter struct {
	p, c       *fnet // point, predicates
	dir        string
	pcfg, ccfg string
	cmd        *exec.Cmd
	tty        *os.File
	done       chan struct{}
	rc         int

	mu    sync.Mutex
	buf   []byte
	asked []int // where the program asked for the position of the cursor
	last  time.Time
}

// newInter is an interactive front end with two sets of servers
func newInter(r *rand.Rand, scheme, cscheme string, k int, d *keyset, dir string) (*front, *front) {
	p := newFront(r, "inter", scheme, k, d, filepath.Join(dir, "p"))
	c := newFront(r, "inter", cscheme, 2, d, filepath.Join(dir, "c"))
	p.i = &inter{p: p.n, c: c.n, dir: dir, pcfg: p.cfg, ccfg: c.cfg}
	c.i = p.i
	return p, c
}

func openTerminal() (m, s *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
			fail("terminal: %v", e)
		}
	}
	var n, zero int32
	ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n))
	ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
	s, err = os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	size := [4]uint16{60, 2000, 0, 0}
	ioctl(s, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	return m, s
}

func (t *inter) start() bool {
	m, s := openTerminal()
	t.tty, t.done, t.buf, t.asked, t.last = m, make(chan struct{}), nil, nil, time.Now()
	t.cmd = exec.Command(filepath.Join(work, "vinter"))
	t.cmd.Dir = t.dir
	t.cmd.Env = append(os.Environ(), "TERM=xterm", "VPIR_CONFIG_POINT="+t.pcfg, "VPIR_CONFIG_COMPLEX="+t.ccfg, "VERIF_CERT="+certFile())
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = s, s, s
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true}
	must(t.cmd.Start())
	s.Close()
	gone := make(chan struct{})
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			t.mu.Lock()
			before := len(t.buf)
			t.buf = append(t.buf, b[:n]...)
			t.last = time.Now()
			from := before - 3 // the request can come in two pieces
			if from < 0 {
				from = 0
			}
			for {
				i := strings.Index(string(t.buf[from:]), "\x1b[6n")
				if i < 0 {
					break
				}
				from += i + 4
				if from > before {
					t.asked = append(t.asked, from)
					m.Write([]byte("\x1b[1;1R"))
				}
			}
			t.mu.Unlock()
			if err != nil {
				close(gone)
				return
			}
		}
	}()
	done, cmd := t.done, t.cmd
	go func() {
		cmd.Wait()
		select { // what it has written last
		case <-gone:
		case <-time.After(2 * time.Second):
		}
		t.rc = cmd.ProcessState.ExitCode()
		close(done)
		m.Close()
	}()
	return t.selection(0, 60*time.Second)
}

func (t *inter) exited() bool {
	if t.cmd == nil {
		return true
	}
	select {
	case <-t.done:
		return true
	default:
		return false
	}
}

func (t *inter) stop() {
	if !t.exited() {
		t.cmd.Process.Kill()
		<-t.done
	}
}

func (t *inter) mark() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.buf)
}

var ansi = regexp.MustCompile("\x1b(\\[[0-9;?]*[A-Za-z]|[78])|\r")

// shown is the text since the mark
func (t *inter) shown(from int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return ansi.ReplaceAllString(string(t.buf[from:]), "")
}

// until waits until ok and silence, or the end of the program
func (t *inter) until(d time.Duration, ok func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if t.exited() {
			return false
		}
		t.mu.Lock()
		quiet := time.Since(t.last) > 20*time.Millisecond
		t.mu.Unlock()
		if quiet && ok() {
			return true
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

const choices = "Use arrows"

// selection waits for a list to choose from
func (t *inter) selection(from int, d time.Duration) bool {
	return t.until(d, func() bool { return strings.Contains(t.shown(from), choices) })
}

// line waits for a prompt for a line of text
func (t *inter) line(from int, d time.Duration) bool {
	return t.until(d, func() bool {
		t.mu.Lock()
		defer t.mu.Unlock()
		n := 0
		for _, a := range t.asked {
			if a > from {
				n++
			}
		}
		return n >= 2
	})
}

// choose moves to the option with the word
func (t *inter) choose(from int, word string) bool {
	if !t.selection(from, 20*time.Second) {
		return false
	}
	s := t.shown(from)
	opts := strings.Split(s[strings.LastIndex(s, choices):], "\n")[1:]
	at := -1
	for i, o := range opts {
		o = strings.TrimLeft(o, "> ")
		if o == word || strings.Contains(o, " "+word) || strings.HasPrefix(o, word+" ") {
			at = i
			break
		}
	}
	if at < 0 {
		fail("no option %q in %q", word, s)
	}
	for i := 0; i < at; i++ {
		m := t.mark()
		t.tty.Write([]byte("\t"))
		if !t.until(5*time.Second, func() bool { return t.mark() > m }) {
			return false
		}
	}
	return true
}

// write types the text
func (t *inter) write(from int, text string) bool {
	if !t.line(from, 20*time.Second) {
		return false
	}
	m := t.mark()
	t.tty.Write([]byte(text))
	return t.until(5*time.Second, func() bool { return strings.HasSuffix(t.shown(m), text) })
}

func (t *inter) enter() int {
	m := t.mark()
	t.tty.Write([]byte("\r"))
	return m
}

// prepare answers all the questions and does not confirm the last answer
func (t *inter) prepare(args []string) bool {
	first := map[string]string{"key": "Download", "count": "Get stats", "avg": "Get stats"}[args[0]]
	if !t.choose(0, first) {
		return false
	}
	m := t.enter()
	if args[0] == "key" {
		return t.write(m, args[1])
	}
	if !t.choose(m, map[string]string{"count": "Count", "avg": "average"}[args[0]]) {
		return false
	}
	m = t.enter()
	if args[0] == "count" {
		if !t.choose(m, args[1]) {
			return false
		}
		m = t.enter()
		args = args[1:]
	}
	switch args[0] {
	case "algo":
		return t.choose(m, args[1])
	case "creation":
		return t.write(m, args[1])
	}
	if !t.choose(m, args[1]) {
		return false
	}
	return t.write(t.enter(), args[2])
}

var result = regexp.MustCompile(`(?is)\bresult\b.*:\s*(\d+)\b`)

func (t *inter) ask(n *fnet, q *frequest, args []string, announce func()) *seen {
	for try := 0; ; try++ {
		if t.exited() && !t.start() {
			announce()
			s := &seen{out: "hang", kind: "nothing", msg: "did not start: " + t.shown(0)}
			if t.exited() && t.rc > 0 {
				s.out = "error"
			}
			t.stop()
			return s
		}
		if t.prepare(args) {
			break
		}
		msg := t.shown(0)
		t.stop()
		if try == 3 {
			fail("cannot make the request %v: %q", args, msg)
		}
	}
	announce()
	m := t.enter()
	answered, refused := false, false
	if args[0] == "key" {
		answered = t.selection(m, 200*time.Second)
	} else if answered = t.line(m, 200*time.Second); answered {
		if refused = strings.Contains(t.shown(m), "reply was invalid"); !refused {
			t.selection(t.enter(), 20*time.Second)
		}
	}
	s := &seen{kind: "nothing", out: "ok", msg: t.shown(m)}
	text := s.msg
	if !answered {
		s.out = "hang"
		if t.exited() && t.rc > 0 {
			s.out = "error"
		}
	}
	if refused {
		s.out = "error"
	}
	t.tidy(answered && !refused)
	if !n.readKey(text, s) {
		if x := result.FindStringSubmatch(text); x != nil {
			s.kind = "number"
			s.num, _ = strconv.ParseInt(x[1], 10, 64)
		} else if q.kind == "key" && missing.MatchString(text) {
			s.kind = "missing"
		}
	}
	return s
}

// tidy keeps only the end of what was shown
func (t *inter) tidy(answered bool) {
	if !answered {
		t.stop()
		return
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.buf)
	if i := strings.LastIndex(s, choices); i > 0 {
		if j := strings.LastIndex(s[:i], "\n"); j > 0 {
			t.buf = append([]byte{}, t.buf[j:]...)
			t.asked = nil
		}
	}
}

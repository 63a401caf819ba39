package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"encoding/gob"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/pgp"
)

// ident is a user id of a key
type ident struct {
	name, comment, email string
	primary              int // 1: flagged as primary, 0: flagged as not, -1: no flag
	t                    time.Time
}

func (i ident) id() string { return packet.NewUserId(i.name, i.comment, i.email).Id }

// keySpec says how a key is made
type keySpec struct {
	created time.Time
	ids     []ident
	revoked bool
	subkeys int
	rsaBits int // 0: an elliptic-curve key
	foreign int // signatures of others
}

// primary is the user id flagged as the primary one
func (s keySpec) primary() ident {
	for _, i := range s.ids {
		if i.primary == 1 {
			return i
		}
	}
	return ident{}
}

var foreignSigner *packet.PrivateKey

func newPriv(t time.Time, rsaBits int) *packet.PrivateKey {
	if rsaBits != 0 {
		k, err := rsa.GenerateKey(crand.Reader, rsaBits)
		must(err)
		return packet.NewRSAPrivateKey(t, k)
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	return packet.NewECDSAPrivateKey(t, k)
}

// makeKey returns a key as it is in a dump
func makeKey(s keySpec) []byte {
	priv := newPriv(s.created, s.rsaBits)
	pub := &priv.PublicKey
	cfg := &packet.Config{Time: func() time.Time { return s.created }}
	var b bytes.Buffer
	must(pub.Serialize(&b))
	if s.revoked {
		sig := &packet.Signature{SigType: packet.SigTypeKeyRevocation, PubKeyAlgo: pub.PubKeyAlgo, Hash: crypto.SHA256,
			CreationTime: s.created, IssuerKeyId: &pub.KeyId}
		h := crypto.SHA256.New()
		pub.SerializeSignaturePrefix(h)
		var p bytes.Buffer
		must(pub.Serialize(&p))
		h.Write(packetBody(p.Bytes()))
		must(sig.Sign(h, priv, cfg))
		must(sig.Serialize(&b))
	}
	for _, i := range s.ids {
		uid := packet.NewUserId(i.name, i.comment, i.email)
		if uid == nil {
			fail("user id %v", i)
		}
		must(uid.Serialize(&b))
		sig := &packet.Signature{SigType: packet.SigTypePositiveCert, PubKeyAlgo: pub.PubKeyAlgo, Hash: crypto.SHA256,
			CreationTime: i.t, FlagsValid: true, FlagSign: true, FlagCertify: true, IssuerKeyId: &pub.KeyId}
		if i.primary >= 0 {
			p := i.primary == 1
			sig.IsPrimaryId = &p
		}
		must(sig.SignUserId(uid.Id, pub, priv, cfg))
		must(sig.Serialize(&b))
		for k := 0; k < s.foreign; k++ {
			if foreignSigner == nil {
				foreignSigner = newPriv(s.created, 0)
			}
			fs := &packet.Signature{SigType: packet.SigTypeGenericCert, PubKeyAlgo: foreignSigner.PubKeyAlgo, Hash: crypto.SHA256,
				CreationTime: i.t, IssuerKeyId: &foreignSigner.KeyId}
			must(fs.SignUserId(uid.Id, pub, foreignSigner, cfg))
			must(fs.Serialize(&b))
		}
	}
	for k := 0; k < s.subkeys; k++ {
		sub := newPriv(s.created, 0)
		sub.IsSubkey = true
		sub.PublicKey.IsSubkey = true
		sig := &packet.Signature{SigType: packet.SigTypeSubkeyBinding, PubKeyAlgo: pub.PubKeyAlgo, Hash: crypto.SHA256,
			CreationTime: s.created, FlagsValid: true, FlagEncryptStorage: true, IssuerKeyId: &pub.KeyId}
		must(sig.SignKey(&sub.PublicKey, priv, cfg))
		must(sub.PublicKey.Serialize(&b))
		must(sig.Serialize(&b))
	}
	return b.Bytes()
}

// packetBody removes the header of an openpgp packet
func packetBody(p []byte) []byte {
	switch l := p[1]; {
	case l < 192:
		return p[2:]
	case l < 224:
		return p[3:]
	default:
		return p[6:]
	}
}

// fingerprint identifies the primary key of a serialised key
func fingerprint(k []byte) string {
	el, err := openpgp.ReadKeyRing(bytes.NewReader(k))
	if err != nil || len(el) != 1 {
		return fmt.Sprintf("%d keys, %v", len(el), err)
	}
	return string(el[0].PrimaryKey.Fingerprint[:])
}

// stored is a key of the directory
type stored struct {
	email  string
	packet []byte
	spec   keySpec
}

func (s *stored) key() *pgp.Key { return &pgp.Key{ID: s.email, Packet: s.packet} }

var domains = []string{"epfl.ch", "x.org", "mail.example.com", "a.b.c.d.net", "q.io"}

func randEmail(r *rand.Rand, i int) string {
	letters := "abcdefghijklmnopqrstuvwxyz0123456789._-+"
	n := 1 + r.Intn(12)
	var s strings.Builder
	for k := 0; k < n; k++ {
		s.WriteByte(letters[r.Intn(len(letters))])
	}
	return fmt.Sprintf("%s%d@%s", s.String(), i, domains[r.Intn(len(domains))])
}

// alike returns different e-mails which have parts in common
func alike(r *rand.Rand, n int) []string {
	long := strings.Repeat("a-very.long_local+part", 3+r.Intn(3))
	var out []string
	have := map[string]bool{}
	add := func(e string) {
		if !have[e] && len(out) < n {
			have[e] = true
			out = append(out, e)
		}
	}
	for i := 0; len(out) < n; i++ {
		l := randEmail(r, i)
		l = l[:strings.Index(l, "@")]
		for _, d := range append(domains, "org", "x.or", "x.org.uk", "mail.x.org") { // the same local part
			if r.Intn(3) > 0 {
				add(l + "@" + d)
			}
		}
		d := domains[i%len(domains)]
		for j := 1; j <= len(l) && r.Intn(5) > 0; j++ { // prefixes and suffixes
			add(l[:j] + "@" + d)
			add(l[len(l)-j:] + "@" + d)
		}
		for j := 0; j < 4; j++ { // a long common part in front or behind
			add(fmt.Sprintf("%s%d.%d@%s", long, i, j, d))
			add(fmt.Sprintf("%d.%d%s@%s", i, j, long, d))
			add(fmt.Sprintf("%s%d@%s", long, i, domains[j]))
		}
	}
	r.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// storedKeys makes n keys with different e-mails, all of which ok accepts
func storedKeys(r *rand.Rand, n int, ok func(email string) bool) []*stored {
	var emails []string
	for i := 0; i < n; i++ {
		e := randEmail(r, i)
		for ok != nil && !ok(e) {
			e = randEmail(r, i)
		}
		emails = append(emails, e)
	}
	return namedKeys(r, emails, ok != nil)
}

// namedKeys makes keys with these e-mails
func namedKeys(r *rand.Rand, emails []string, plain bool) []*stored {
	n := len(emails)
	out := make([]*stored, n)
	base := time.Date(2001, 5, 3, 0, 0, 0, 0, time.UTC)
	specs := make([]keySpec, n)
	for i := range out {
		email := emails[i]
		t := base.Add(time.Duration(r.Intn(20*365*24)) * time.Hour)
		s := keySpec{created: t, ids: []ident{{name: "User", email: email, primary: 1, t: t}}}
		switch r.Intn(12) {
		case 0:
			s.ids[0].comment = strings.Repeat("x", 1+r.Intn(400))
		case 1:
			s.ids = append(s.ids, ident{name: "Other", email: "other-" + email, primary: -1, t: t.Add(time.Hour)})
		case 2:
			s.ids[0].email = strings.ToUpper(email)
		case 3:
			s.foreign = 1 + r.Intn(3)
		case 4:
			if n <= 60 {
				s.rsaBits = 1024
			}
		case 5, 6: // user ids with the e-mails of other keys, which do not count
			used := map[string]bool{email: true}
			for k := 1 + r.Intn(4); k > 0 && n > 1; k-- {
				if o := emails[r.Intn(n)]; !used[o] {
					used[o] = true
					s.ids = append(s.ids, ident{name: "Also", email: o, primary: -r.Intn(2), t: t.Add(time.Duration(r.Intn(5)-2) * time.Hour)})
				}
			}
			if r.Intn(2) == 0 {
				last := len(s.ids) - 1
				s.ids[0], s.ids[last] = s.ids[last], s.ids[0]
			}
		}
		specs[i] = s
		out[i] = &stored{email: email, spec: s}
	}
	// the tails which look like paddings
	tails := [][]byte{{0}, {0x80}}
	parallelFor(n, func(i int) {
		for try := 0; ; try++ {
			out[i].packet = makeKey(specs[i])
			if i >= 2*len(tails) || i%2 == 1 || n > 60 || plain || try > 3000 || specs[i].rsaBits != 0 || bytes.HasSuffix(out[i].packet, tails[i/2]) {
				return
			}
		}
	})
	return out
}

func parallelFor(n int, f func(i int)) {
	ch := make(chan int)
	done := make(chan interface{})
	for w := 0; w < 8; w++ {
		go func() {
			defer func() { done <- recover() }()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	for w := 0; w < 8; w++ {
		if r := <-done; r != nil {
			panic(r)
		}
	}
}

// keyFile writes keys as the ingestion does
func keyFile(path string, keys []*pgp.Key) string {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	f, err := os.Create(path)
	must(err)
	enc := gob.NewEncoder(f)
	for _, k := range keys {
		must(enc.Encode(k))
	}
	must(f.Close())
	return path
}

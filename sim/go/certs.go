package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"time"
)

// detKey signs deterministically, so that a certificate depends on its content
// and the run's seed only, not on what else happened before.
type detKey struct{ k *ecdsa.PrivateKey }

func newDetKey(seed uint64, name string) detKey {
	c := elliptic.P256()
	h := sha256.Sum256([]byte(fmt.Sprintf("key %d %s", seed, name)))
	d := new(big.Int).SetBytes(h[:])
	d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.FillBytes(make([]byte, 32)))
	return detKey{k}
}

func (d detKey) Public() crypto.PublicKey { return &d.k.PublicKey }

func (d detKey) Sign(_ io.Reader, digest []byte, _ crypto.SignerOpts) ([]byte, error) {
	c := d.k.Curve
	n := c.Params().N
	for ctr := uint32(0); ; ctr++ {
		h := sha256.New()
		h.Write(d.k.D.Bytes())
		h.Write(digest)
		binary.Write(h, binary.BigEndian, ctr)
		k := new(big.Int).SetBytes(h.Sum(nil))
		k.Mod(k, n)
		if k.Sign() == 0 {
			continue
		}
		x, _ := c.ScalarBaseMult(k.FillBytes(make([]byte, 32)))
		r := new(big.Int).Mod(x, n)
		s := new(big.Int).Mul(r, d.k.D)
		s.Add(s, new(big.Int).SetBytes(digest))
		s.Mul(s, new(big.Int).ModInverse(k, n))
		s.Mod(s, n)
		if r.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		return asn1.Marshal(struct{ R, S *big.Int }{r, s})
	}
}

type CA struct {
	name string
	key  detKey
	cert *x509.Certificate
	up   *CA
}

// chain is the certificates from the CA's own up to the root.
func (c *CA) chain() [][]byte {
	var out [][]byte
	for ; c != nil; c = c.up {
		out = append(out, c.cert.Raw)
	}
	return out
}

// PKI is the certificate world of a run.
type PKI struct {
	seed         uint64
	ca           map[string]*CA
	roots        []*CA
	mk           func(name, keyName, subject string, up *CA, eku []asn1.ObjectIdentifier) *CA
	start, limit time.Time
	subs         map[string]*Sub
	byFp         map[[32]byte][]byte // CA certificates
}

var (
	oidPoison   = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}
	oidCTEKU    = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}
	poisonExt   = pkix.Extension{Id: oidPoison, Critical: true, Value: []byte{5, 0}}
	caNotBefore = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	caNotAfter  = time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)
)

func NewPKI(seed uint64) *PKI {
	p := &PKI{seed: seed, ca: map[string]*CA{}, subs: map[string]*Sub{}, byFp: map[[32]byte][]byte{},
		start: time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC), limit: time.Date(2026, 7, 1, 0, 0, 0, 0, time.UTC)}
	var edit func(*x509.Certificate)
	mk := func(name, keyName, subject string, up *CA, eku []asn1.ObjectIdentifier) *CA {
		key := newDetKey(seed, keyName)
		kh := sha256.Sum256(append([]byte("ski"), key.k.X.Bytes()...))
		t := &x509.Certificate{SerialNumber: serial(seed, "ca "+name), Subject: pkix.Name{CommonName: subject, Organization: []string{"sim"}},
			NotBefore: caNotBefore, NotAfter: caNotAfter, IsCA: true, BasicConstraintsValid: true,
			KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, SubjectKeyId: kh[:20], UnknownExtKeyUsage: eku}
		if edit != nil {
			edit(t)
		}
		parent, pk := t, key
		if up != nil {
			parent, pk = up.cert, up.key
		}
		der, err := x509.CreateCertificate(nil, t, parent, key.Public(), pk)
		if err != nil {
			panic(err)
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			panic(err)
		}
		ca := &CA{name: name, key: key, cert: c, up: up}
		p.ca[name] = ca
		p.byFp[sha256.Sum256(der)] = der
		return ca
	}
	ra := mk("rootA", "rootA", "Root A", nil, nil)
	rb := mk("rootB", "rootB", "Root B", nil, nil)
	rx := mk("rootX", "rootX", "Root X", nil, nil)
	a1 := mk("intA1", "intA1", "Int A1", ra, nil)
	mk("intA2", "intA2", "Int A2", a1, nil)
	b1 := mk("intB1", "intB1", "Int B1", rb, nil)
	mk("intX", "intX", "Int X", rx, nil)
	// one intermediate, certified by both roots
	mk("crossA", "cross", "Cross", ra, nil)
	mk("crossB", "cross", "Cross", rb, nil)
	// precertificate signing certificates; the second pair shares key and name
	mk("preA", "preA", "Pre A", a1, []asn1.ObjectIdentifier{oidCTEKU})
	mk("preR", "preR", "Pre R", ra, []asn1.ObjectIdentifier{oidCTEKU})
	mk("preS1", "preS", "Pre S", a1, []asn1.ObjectIdentifier{oidCTEKU})
	mk("preS2", "preS", "Pre S", b1, []asn1.ObjectIdentifier{oidCTEKU})
	// roots that are unusual submissions themselves
	var odd []*CA
	for i, n := range []string{"selfroot0", "selfroot1", "poisonroot", "preroot"} {
		var eku []asn1.ObjectIdentifier
		if n == "preroot" {
			eku = []asn1.ObjectIdentifier{oidCTEKU}
		}
		edit = func(t *x509.Certificate) {
			t.NotAfter = p.start.Add(time.Duration(100+i) * 24 * time.Hour)
			if n == "poisonroot" {
				t.ExtraExtensions = []pkix.Extension{poisonExt}
			}
		}
		odd = append(odd, mk(n, n, "Odd "+n, nil, eku))
		edit = nil
	}
	p.roots = append([]*CA{ra, rb}, odd...)
	p.mk = mk
	return p
}

func serial(seed uint64, name string) *big.Int {
	h := sha256.Sum256([]byte(fmt.Sprintf("serial %d %s", seed, name)))
	h[0] &= 0x3f
	h[0] |= 0x40
	return new(big.Int).SetBytes(h[:16])
}

func (p *PKI) RootsPEM() []byte {
	var b bytes.Buffer
	for _, r := range p.roots {
		pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: r.cert.Raw})
	}
	return b.Bytes()
}

// Variant is one way to submit a certificate, and what the log must make of it.
type Variant struct {
	Submit [][]byte // the chain as sent
	Want   *Want    // nil: must be refused whatever the endpoint
}

// Want is the entry a valid submission must become.
type Want struct {
	Pre     bool
	IKH     [32]byte
	Cert    []byte // certificate, or TBS of a precertificate
	PreCert []byte
	Chain   [][]byte // rest of the chain up to the root
	sent    bool     // sent to the endpoint of its kind
	first   time.Time
}

// Sub is one leaf (pre)certificate.
type Sub struct {
	Name string
	Leaf []byte
	Fp   [32]byte
	Pre  bool
	Var  []Variant
}

// Kinds of certificates.
var goodKinds = []string{"leaf", "leaf2", "direct", "pre", "prepre", "cross", "crosspre", "edgestart", "edgelimit", "prepre2", "big", "ca", "selfroot", "preroot3"}
var badKinds = []string{"untrusted", "early", "late", "atlimit", "badsig", "misordered", "noissuer", "badpoison", "untrustedpre", "poisonroot", "preroot", "untrustedroot"}

// Get builds (once) the certificate idx of a kind.
func (p *PKI) Get(kind string, idx int) *Sub {
	if kind == "selfroot" {
		idx %= 2 // there are no more
	}
	name := fmt.Sprintf("%s-%d", kind, idx)
	if s := p.subs[name]; s != nil {
		return s
	}
	s := p.build(kind, idx, name)
	s.Name = name
	s.Fp = sha256.Sum256(s.Leaf)
	p.subs[name] = s
	return s
}

func (p *PKI) build(kind string, idx int, name string) *Sub {
	r := NewRng(p.seed).Fork("cert " + name)
	span := int(p.limit.Sub(p.start) / time.Second)
	na := p.start.Add(time.Duration(1+r.Intn(span-2)) * time.Second)
	issuer := "intA1"
	pre := false
	switch kind {
	case "leaf2":
		issuer = "intA2"
	case "wide": // one of many intermediates
		issuer = fmt.Sprintf("wide%d", idx%24)
		if p.ca[issuer] == nil {
			p.mk(issuer, issuer, "Wide "+issuer, p.ca["rootA"], nil)
		}
	case "deep", "deep2": // below a long chain
		up, base := p.ca["rootB"], kind+"x"
		for k := 0; k <= 1+idx%9; k++ {
			issuer = fmt.Sprintf("%s%d", base, k)
			if p.ca[issuer] == nil {
				p.mk(issuer, issuer, "Deep "+issuer, up, nil)
			}
			up = p.ca[issuer]
		}
	case "direct":
		issuer = "rootB"
	case "pre":
		issuer, pre = "intB1", true
	case "prepre":
		issuer, pre = "preA", true
	case "preroot3": // the root will issue the certificate
		issuer, pre = "preR", true
	case "prepre2":
		issuer, pre = "preS1", true
	case "cross":
		issuer = "crossA"
	case "crosspre":
		issuer, pre = "crossA", true
	case "edgestart":
		na = p.start
	case "edgelimit":
		na = p.limit.Add(-time.Second)
	case "untrusted":
		issuer = "intX"
	case "untrustedpre":
		issuer, pre = "intX", true
	case "early":
		na = p.start.Add(-time.Second)
	case "late":
		na = p.limit.Add(time.Duration(1+r.Intn(1000)) * time.Hour)
	case "atlimit":
		na = p.limit
	case "badpoison":
		issuer, pre = "intB1", true
	case "preroot": // signed by a precertificate signing certificate that is a root: who will issue the certificate?
		issuer, pre = "preroot", true
	case "selfroot": // an accepted root itself
		ca := p.ca[fmt.Sprintf("selfroot%d", idx)]
		return &Sub{Leaf: ca.cert.Raw, Var: []Variant{{[][]byte{ca.cert.Raw}, &Want{Cert: ca.cert.Raw}}}}
	case "poisonroot", "untrustedroot":
		ca := p.ca[map[string]string{"poisonroot": "poisonroot", "untrustedroot": "rootX"}[kind]]
		return &Sub{Leaf: ca.cert.Raw, Pre: kind == "poisonroot", Var: []Variant{{[][]byte{ca.cert.Raw}, nil}}}
	}
	ca := p.ca[issuer]
	key := newDetKey(p.seed, "leaf") // one key for all leaves: generating keys is slow
	t := &x509.Certificate{SerialNumber: serial(p.seed, name), Subject: pkix.Name{CommonName: name + ".example"},
		DNSNames: []string{name + ".example"}, NotBefore: na.Add(-90 * 24 * time.Hour), NotAfter: na,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
	if kind == "big" {
		n := 200 + r.Intn(900)
		for i := 0; i < n; i++ {
			t.DNSNames = append(t.DNSNames, fmt.Sprintf("h%d-%x.%s.example", i, r.U64(), name))
		}
	}
	if kind == "ca" {
		t.IsCA, t.KeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageCRLSign
	}
	if pre {
		t.ExtraExtensions = []pkix.Extension{poisonExt}
		if kind == "badpoison" {
			t.ExtraExtensions[0].Critical = false
		}
	}
	create := func(t *x509.Certificate, by *CA) []byte {
		der, err := x509.CreateCertificate(nil, t, by.cert, key.Public(), by.key)
		if err != nil {
			panic(err)
		}
		return der
	}
	leaf := create(t, ca)
	s := &Sub{Leaf: leaf, Pre: pre}
	want := func(ca *CA) *Want {
		w := &Want{Pre: pre, Cert: leaf, Chain: ca.chain()}
		if pre {
			real := ca
			if len(ca.name) > 3 && ca.name[:3] == "pre" {
				real = ca.up
			}
			// the final certificate the CA will issue, without poison
			ft := *t
			ft.ExtraExtensions = nil
			final, err := x509.ParseCertificate(create(&ft, real))
			if err != nil {
				panic(err)
			}
			w.PreCert = leaf
			w.Cert = final.RawTBSCertificate
			w.IKH = sha256.Sum256(real.cert.RawSubjectPublicKeyInfo)
		}
		return w
	}
	add := func(cas ...*CA) {
		for _, ca := range cas {
			wt := want(ca)
			ch := ca.chain()
			full := append([][]byte{leaf}, ch...)
			short := full[:len(full)-1]
			if idx%2 == 0 {
				s.Var = append(s.Var, Variant{full, wt}, Variant{short, wt})
			} else {
				s.Var = append(s.Var, Variant{short, wt}, Variant{full, wt})
			}
		}
	}
	chain := append([][]byte{leaf}, ca.chain()...)
	switch kind {
	case "cross", "crosspre":
		add(p.ca["crossA"], p.ca["crossB"])
	case "prepre2":
		add(p.ca["preS1"], p.ca["preS2"])
	case "untrusted", "untrustedpre", "preroot", "early", "late", "atlimit", "badpoison":
		s.Var = []Variant{{chain, nil}}
	case "badsig":
		bad := append([]byte(nil), leaf...)
		bad[len(bad)-3] ^= 0x55
		s.Leaf = bad
		s.Var = []Variant{{append([][]byte{bad}, chain[1:]...), nil}}
	case "misordered":
		c2 := append([][]byte{leaf}, p.ca["rootA"].cert.Raw, p.ca["intA1"].cert.Raw)
		s.Var = []Variant{{c2, nil}}
	case "noissuer":
		s.Var = []Variant{{[][]byte{leaf}, nil}}
	default:
		add(ca)
	}
	return s
}

func chainFps(chain [][]byte) [][32]byte {
	out := make([][32]byte, len(chain))
	for i, c := range chain {
		out[i] = sha256.Sum256(c)
	}
	return out
}

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/iomz/gosstrak/verif/simrt"
)

// The reference model. It works on field values: it never looks at the bits the
// code under test derives from a pattern, and it shares no code with it.

type partRow struct{ cpBits, cpDigits, refBits, refDigits int }

var cpBitsByPart = []int{40, 37, 34, 30, 27, 24, 20}

func refBitsOf(scheme string, part int) int {
	switch scheme {
	case "sgtin-96", "grai-96":
		return 44 - cpBitsByPart[part]
	case "sscc-96":
		return 58 - cpBitsByPart[part]
	case "giai-96":
		return 82 - cpBitsByPart[part]
	}
	panic(scheme)
}

func refDigitsOf(scheme string, part int) int {
	switch scheme {
	case "sgtin-96":
		return part + 1
	case "grai-96":
		return part
	case "sscc-96":
		return part + 5
	case "giai-96":
		return part + 13
	}
	panic(scheme)
}

var epcHeader = map[string]int64{"sgtin-96": 0x30, "sscc-96": 0x31, "grai-96": 0x33, "giai-96": 0x34}
var epcSchemes = []string{"sgtin-96", "sscc-96", "grai-96", "giai-96"}

// EPC is a well-formed 96 bit tag: field values as decimal text.
type EPC struct {
	Scheme string `json:"s"`
	Filter int    `json:"f"`
	CP     string `json:"cp"`            // company prefix, 6 to 12 digits
	Ref    string `json:"ref"`           // item reference, extension, asset type, asset reference
	Serial string `json:"ser,omitempty"` // sgtin and grai
}

// ISO is a well-formed 6-bit encoded tag.
type ISO struct {
	Scheme string   `json:"s"` // iso17363 or iso17365
	Parts  []string `json:"p"`
}

func bitsOf(dec string, n int) string {
	v, ok := new(big.Int).SetString(dec, 10)
	if !ok {
		panic("bad number " + dec)
	}
	s := v.Text(2)
	if len(s) > n {
		panic(fmt.Sprintf("%s does not fit in %d bits", dec, n))
	}
	return strings.Repeat("0", n-len(s)) + s
}

func (e EPC) part() int { return 12 - len(e.CP) }

// fieldBits are the bits of header and filter, partition and company prefix,
// reference, and serial.
func (e EPC) fieldBits() []string {
	p := e.part()
	out := []string{
		bitsOf(fmt.Sprint(epcHeader[e.Scheme]), 8) + bitsOf(fmt.Sprint(e.Filter), 3),
		bitsOf(fmt.Sprint(p), 3) + bitsOf(e.CP, cpBitsByPart[p]),
	}
	ref := e.Ref
	if ref == "" {
		ref = "0"
	}
	out = append(out, bitsOf(ref, refBitsOf(e.Scheme, p)))
	switch e.Scheme {
	case "sgtin-96", "grai-96":
		out = append(out, bitsOf(e.Serial, 38))
	}
	return out
}

func packBits(s string) []byte {
	out := make([]byte, len(s)/8)
	for i := range out {
		for j := 0; j < 8; j++ {
			out[i] = out[i]<<1 | (s[i*8+j] - '0')
		}
	}
	return out
}

func bitString(b []byte) string {
	var sb strings.Builder
	for _, x := range b {
		fmt.Fprintf(&sb, "%08b", x)
	}
	return sb.String()
}

func (e EPC) bytes() []byte {
	s := strings.Join(e.fieldBits(), "")
	s += strings.Repeat("0", 96-len(s))
	return packBits(s)
}

func (e EPC) identity() string {
	p := e.part()
	pad := func(s string) string { return strings.Repeat("0", refDigitsOf(e.Scheme, p)-len(s)) + s }
	switch e.Scheme {
	case "sgtin-96":
		return "urn:epc:id:sgtin:" + e.CP + "." + pad(e.Ref) + "." + e.Serial
	case "sscc-96":
		return "urn:epc:id:sscc:" + e.CP + "." + pad(e.Ref)
	case "grai-96":
		if p == 0 {
			return "urn:epc:id:grai:" + e.CP + "." + e.Serial
		}
		return "urn:epc:id:grai:" + e.CP + "." + pad(e.Ref) + "." + e.Serial
	case "giai-96":
		return "urn:epc:id:giai:" + e.CP + "." + e.Ref
	}
	panic("scheme")
}

func six(c byte) string { return fmt.Sprintf("%06b", c&63) }

func sixText(t string) string {
	var sb strings.Builder
	for i := 0; i < len(t); i++ {
		sb.WriteString(six(t[i]))
	}
	return sb.String()
}

// checkDigit is the ISO 6346 check digit of a ten character container code.
func checkDigit(s string) string {
	if len(s) != 10 {
		panic("check digit of " + s)
	}
	sum := 0
	for i := 0; i < 10; i++ {
		c := s[i]
		var v int
		if c >= '0' && c <= '9' {
			v = int(c - '0')
		} else {
			v = int(c-'A') + 10
			v += (v - 1) / 10 // 11, 22 and 33 are skipped
		}
		sum += v << i
	}
	return fmt.Sprint(sum % 11 % 10)
}

func (t ISO) text() string {
	x := strings.Join(t.Parts, "")
	if t.Scheme == "iso17363" && len(t.Parts) == 4 {
		x += checkDigit(t.Parts[1] + t.Parts[2] + t.Parts[3])
	}
	return x
}

func (t ISO) bytes() []byte {
	s := sixText(t.text())
	pad := "100000"
	for i := 0; len(s)%16 != 0; i++ {
		s += pad[i%6 : i%6+1]
	}
	return packBits(s)
}

func (t ISO) pc() []byte {
	n := len(t.bytes()) / 2
	afi := byte(0xA9)
	if t.Scheme == "iso17365" {
		afi = 0xA2
	}
	return []byte{byte(n<<3) | 1, afi}
}

func (t ISO) identity() string { return "urn:epc:id:" + t.Scheme + ":" + t.text() }

// Tag is one tag of a workload.
type Tag struct {
	E    *EPC   `json:"e,omitempty"`
	I    *ISO   `json:"i,omitempty"`
	PC   []byte `json:"pc"`
	ID   []byte `json:"id"`
	WF   bool   `json:"wf"`             // well formed
	What string `json:"what,omitempty"` // what damaged it
}

func (t *Tag) identity() string {
	if t.E != nil {
		return t.E.identity()
	}
	return t.I.identity()
}

func (t *Tag) String() string {
	if t.WF {
		return fmt.Sprintf("%x/%x (%s)", t.PC, t.ID, t.identity())
	}
	return fmt.Sprintf("%x/%x (%s)", t.PC, t.ID, t.What)
}

// Pat is a subscription pattern as written, with its parsed meaning; Bad
// patterns are unsupported and must be ignored.
type Pat struct {
	Text string   `json:"t"`
	Type string   `json:"ty,omitempty"`
	F    []string `json:"f,omitempty"`
	Bad  bool     `json:"bad,omitempty"`
}

// Sub is one subscriber line.
type Sub struct {
	URI  string `json:"u"`
	Pats []Pat  `json:"p"`
}

// epcOf completes the fields of an EPC pattern with zeros.
func (p Pat) epcOf() EPC {
	e := EPC{Scheme: p.Type, CP: "000000", Ref: "0", Serial: "0"}
	fmt.Sscan(p.F[0], &e.Filter)
	if len(p.F) > 1 {
		e.CP = p.F[1]
	}
	if len(p.F) > 2 {
		e.Ref = p.F[2]
	}
	if len(p.F) > 3 {
		e.Serial = p.F[3]
	}
	return e
}

// bits of the complete pattern: what every identifier it accepts starts with.
func (p Pat) bits() string {
	if strings.HasPrefix(p.Type, "iso") {
		return sixText(ISO{Scheme: p.Type, Parts: p.F}.text())
	}
	return strings.Join(p.epcOf().fieldBits()[:len(p.F)], "")
}

// fieldBits is bits without the check digit, which is not part of the pattern as
// it is written.
func (p Pat) fieldBits() string {
	if strings.HasPrefix(p.Type, "iso") {
		return sixText(strings.Join(p.F, ""))
	}
	return p.bits()
}

func numEq(a, b string) bool {
	if a == "" {
		a = "0"
	}
	if b == "" {
		b = "0"
	}
	x, _ := new(big.Int).SetString(a, 10)
	y, _ := new(big.Int).SetString(b, 10)
	return x.Cmp(y) == 0
}

// matches decides on field values whether the pattern accepts a well-formed tag.
func (p Pat) matches(t *Tag) bool {
	if p.Bad || !t.WF {
		return false
	}
	if strings.HasPrefix(p.Type, "iso") {
		if t.I == nil || t.I.Scheme != p.Type {
			return false
		}
		return strings.HasPrefix(t.I.text(), ISO{Scheme: p.Type, Parts: p.F}.text())
	}
	if t.E == nil || t.E.Scheme != p.Type {
		return false
	}
	if fmt.Sprint(t.E.Filter) != p.F[0] {
		return false
	}
	if len(p.F) > 1 && t.E.CP != p.F[1] {
		return false
	}
	if len(p.F) > 2 && !numEq(t.E.Ref, p.F[2]) {
		return false
	}
	if len(p.F) > 3 && !numEq(t.E.Serial, p.F[3]) {
		return false
	}
	return true
}

// expect is the set of subscribers that must be told about a well-formed tag.
func expect(subs []Sub, t *Tag) []string {
	set := map[string]bool{}
	for _, s := range subs {
		for _, p := range s.Pats {
			if p.matches(t) {
				set[s.URI] = true
			}
		}
	}
	return keys(set)
}

// allowed is the set of subscribers that may be told about a damaged tag.
func allowed(subs []Sub, t *Tag) map[string]bool {
	set := map[string]bool{}
	b := bitString(t.ID)
	for _, s := range subs {
		for _, p := range s.Pats {
			if !p.Bad && strings.HasPrefix(b, p.fieldBits()) {
				set[s.URI] = true
			}
		}
	}
	return set
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func setOf(l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return keys(m)
}

// ---- generation ----

type gen struct {
	r     *simrt.Rand
	cps   []string // pool of company prefixes
	owner []string
	uris  int
	last  string // the address made last
}

func digits(r *simrt.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(8) {
		case 0:
			b[i] = '0'
		case 1:
			b[i] = '9'
		default:
			b[i] = byte('0' + r.Intn(10))
		}
	}
	return string(b)
}

func canon(s string) string {
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	return s
}

func letters(r *simrt.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + r.Intn(26))
	}
	return string(b)
}

func newGen(r *simrt.Rand) *gen {
	g := &gen{r: r}
	for n := 2 + r.Intn(4); n > 0; n-- {
		cp := digits(r, 6+r.Intn(7))
		g.cps = append(g.cps, cp)
		// prefixes of one another, as text, in different partitions
		if len(cp) < 12 && r.Bool(0.5) {
			g.cps = append(g.cps, cp+digits(r, 1))
		}
	}
	for n := 2; n > 0; n-- {
		g.owner = append(g.owner, letters(r, 3))
	}
	return g
}

func maxDec(bits int) *big.Int {
	return new(big.Int).Lsh(big.NewInt(1), uint(bits))
}

// fit makes a number of up to d digits that fits in the bits, canonical.
func (g *gen) fit(d, bits int) string {
	if d == 0 {
		return "0"
	}
	for i := 0; ; i++ {
		n := d
		if g.r.Bool(0.4) {
			n = 1 + g.r.Intn(d)
		}
		s := canon(digits(g.r, n))
		v, _ := new(big.Int).SetString(s, 10)
		if v.Cmp(maxDec(bits)) < 0 {
			return s
		}
		if i > 20 {
			d--
		}
	}
}

func (g *gen) epc() EPC {
	r := g.r
	e := EPC{Scheme: epcSchemes[r.Intn(4)], Filter: r.Intn(8), CP: g.cps[r.Intn(len(g.cps))]}
	if r.Bool(0.6) {
		e.Filter = 3
	}
	if r.Bool(0.2) {
		e.CP = digits(r, 6+r.Intn(7))
	}
	p := e.part()
	e.Ref = g.ref(e.Scheme, p)
	if e.Scheme == "sgtin-96" || e.Scheme == "grai-96" {
		e.Serial = g.fit(12, 38)
		if r.Bool(0.3) {
			e.Serial = fmt.Sprint(r.Intn(3))
		}
	}
	return e
}

func (g *gen) ref(scheme string, p int) string {
	if g.r.Bool(0.4) {
		if refDigitsOf(scheme, p) == 0 {
			return "0"
		}
		return fmt.Sprint(1 + g.r.Intn(3))
	}
	return g.fit(refDigitsOf(scheme, p), refBitsOf(scheme, p))
}

func (g *gen) iso() ISO {
	r := g.r
	if r.Bool(0.5) {
		return ISO{Scheme: "iso17363", Parts: []string{"7B", g.owner[r.Intn(len(g.owner))], string("UJZ"[r.Intn(3)]), serial6(r)}}
	}
	iac := []string{"UN", "OD", "LA"}[r.Intn(3)]
	cin := []string{"043325711", "12345", "AB12C"}[r.Intn(3)]
	n := 12
	if r.Bool(0.1) {
		n = 34 // as long as they get
	}
	return ISO{Scheme: "iso17365", Parts: []string{"25S", iac, cin, digits(r, 1+r.Intn(n)) + letters(r, r.Intn(3))}}
}

func serial6(r *simrt.Rand) string {
	k := []int{6, 6, 6, 5, 4, 2, 1}[r.Intn(7)]
	return "000000"[k:] + digits(r, k)
}

func mkEPC(e EPC, r *simrt.Rand) Tag {
	pc := []byte{0x30, 0x00}
	if r != nil && r.Bool(0.2) {
		pc = []byte{0x34, byte(r.Intn(256))}
	}
	return Tag{E: &e, PC: pc, ID: e.bytes(), WF: true}
}

func mkISO(t ISO) Tag { return Tag{I: &t, PC: t.pc(), ID: t.bytes(), WF: true} }

func (g *gen) tag() Tag {
	if g.r.Bool(0.22) {
		return mkISO(g.iso())
	}
	return mkEPC(g.epc(), g.r)
}

// patOf writes a pattern of n fields that accepts the tag.
func (g *gen) patOf(t Tag, n int) Pat {
	var p Pat
	if t.I != nil {
		if n > 4 {
			n = 4
		}
		p = Pat{Type: t.I.Scheme, F: append([]string(nil), t.I.Parts[:n]...)}
	} else {
		e := t.E
		ref := e.Ref
		d := refDigitsOf(e.Scheme, e.part())
		if e.Scheme != "giai-96" && len(ref) < d {
			ref = strings.Repeat("0", d-len(ref)) + ref // as in the pure identity
		}
		all := []string{fmt.Sprint(e.Filter), e.CP, ref}
		if e.Serial != "" {
			all = append(all, e.Serial)
		}
		if n > len(all) {
			n = len(all)
		}
		if e.Scheme == "grai-96" && e.part() == 0 && n > 2 {
			n = 2 // has no asset type to write
		}
		p = Pat{Type: e.Scheme, F: append([]string(nil), all[:n]...)}
	}
	p.Text = "urn:epc:pat:" + p.Type + ":" + strings.Join(p.F, ".")
	switch g.r.Intn(12) {
	case 0: // the scheme of a URN is not case sensitive
		p.Text = []string{"URN:EPC:PAT:", "urn:EPC:pat:", "Urn:epc:Pat:"}[g.r.Intn(3)] + p.Text[12:]
	case 1:
		if t.I != nil {
			p.Text = strings.ToLower(p.Text)
		}
	case 2, 3:
		if p.Type == "iso17363" && len(p.F) == 4 {
			// the container serial number is padded by the middleware
			f := append([]string(nil), p.F...)
			for len(f[3]) > 1 && f[3][0] == '0' && g.r.Bool(0.7) {
				f[3] = f[3][1:]
			}
			p.Text = "urn:epc:pat:" + p.Type + ":" + strings.Join(f, ".")
		}
	}
	return p
}

func (g *gen) uri() string {
	g.uris++
	if g.last != "" && g.r.Bool(0.12) {
		// addresses that contain one another, or differ in little
		switch g.r.Intn(8) {
		case 6:
			g.last = strings.TrimSpace(g.last) + strings.Repeat("/", g.uris)
		case 7:
			u := g.last
			g.last = ""
			return strings.TrimSpace(u) + fmt.Sprintf("?x=%d", g.uris)
		case 0:
			g.last += fmt.Sprint(g.uris)
		case 1:
			g.last += fmt.Sprintf("/%d", g.uris)
		case 2:
			g.last = fmt.Sprintf("http://%d.proxy.example/?to=%s", g.uris, g.last)
		case 3:
			// a later one that is part of this one
			u := g.last
			g.last = ""
			if i := strings.LastIndex(u, "http://"); i > 0 {
				return u[i:] + fmt.Sprintf("#%d", g.uris)
			}
			return "http://a.example/?to=" + strings.TrimSpace(u) + fmt.Sprintf("&n=%d", g.uris)
		case 4:
			g.last = strings.TrimSpace(g.last) + strings.Repeat(" ", g.uris)
		case 5:
			g.last += ", ;'é&amp;" + fmt.Sprint(g.uris)
		}
		return g.last
	}
	g.last = g.newURI()
	return g.last
}

func (g *gen) newURI() string {
	return fmt.Sprintf("http://s%d.example/%s", g.uris, []string{"sgtin", "dock", "a/b", "x"}[g.r.Intn(4)])
}

type workOpt struct {
	tags    int
	subs    int
	dup     float64 // chance that a pattern is also subscribed by another subscriber
	bad     float64 // chance of an unsupported pattern
	damaged float64
}

// work makes tags and subscriptions that overlap: most patterns are cut from a
// tag, most tags vary one field of another.
func (g *gen) work(o workOpt) (subs []Sub, tags []Tag) {
	r := g.r
	for len(tags) < o.tags {
		if len(tags) > 0 && r.Bool(0.55) {
			tags = append(tags, g.vary(tags[r.Intn(len(tags))]))
		} else {
			tags = append(tags, g.tag())
		}
	}
	var pool []Pat
	for i := 0; i < o.subs; i++ {
		s := Sub{URI: g.uri()}
		for n := 1 + r.Intn(4); n > 0; n-- {
			var p Pat
			if len(pool) > 0 && r.Bool(o.dup) {
				p = pool[r.Intn(len(pool))]
			} else if r.Bool(o.bad) {
				p = g.badPat(tags)
			} else {
				t := g.tag()
				if r.Bool(0.85) && len(tags) > 0 {
					t = tags[r.Intn(len(tags))]
				}
				if r.Bool(0.15) {
					t = g.vary(t)
				}
				p = g.patOf(t, []int{1, 2, 2, 3, 3, 4, 4}[r.Intn(7)])
				// the same bits may be subscribed only once unless asked for
				clash := false
				for _, q := range pool {
					if o.dup == 0 && !q.Bad && q.bits() == p.bits() {
						clash = true
					}
				}
				if clash && o.dup == 0 {
					continue
				}
			}
			s.Pats = append(s.Pats, p)
			if !p.Bad {
				pool = append(pool, p)
			}
		}
		if len(s.Pats) > 0 {
			subs = append(subs, s)
		}
	}
	if o.damaged > 0 {
		for i := range tags {
			if r.Bool(o.damaged) {
				tags[i] = g.damage(tags[i])
			}
		}
	}
	return
}

func (g *gen) vary(t Tag) Tag {
	r := g.r
	if t.I != nil {
		x := ISO{Scheme: t.I.Scheme, Parts: append([]string(nil), t.I.Parts...)}
		y := g.iso()
		for y.Scheme != x.Scheme {
			y = g.iso()
		}
		k := 1 + r.Intn(3)
		x.Parts[k] = y.Parts[k]
		return mkISO(x)
	}
	if t.E == nil {
		return g.tag()
	}
	e := *t.E
	switch r.Intn(5) {
	case 0:
		e.Filter = r.Intn(8)
	case 1:
		e.CP = g.cps[r.Intn(len(g.cps))]
		e.Ref = g.ref(e.Scheme, e.part())
	case 2:
		e.Ref = g.ref(e.Scheme, e.part())
	case 3, 4:
		if e.Serial != "" {
			e.Serial = g.fit(12, 38)
			if r.Bool(0.4) {
				e.Serial = canon(t.E.Serial + "0")
				if v, _ := new(big.Int).SetString(e.Serial, 10); v.Cmp(maxDec(38)) >= 0 {
					e.Serial = "7"
				}
			}
		} else {
			e.Ref = g.ref(e.Scheme, e.part())
		}
	}
	return mkEPC(e, r)
}

func (g *gen) badISO(t Tag) Pat {
	p := g.patOf(t, 4)
	f := append([]string(nil), p.F...)
	ty := p.Type
	switch g.r.Intn(5) {
	case 0:
		f = append(f, "")
	case 1:
		f = append(f[:3], f[3][:1], f[3][1:])
	case 2:
		ty = []string{"iso17364", "iso17366", "iso17367", "ISO17365", "iso"}[g.r.Intn(5)]
	case 3:
		if ty == "iso17363" { // with the check digit
			id := t.I.text()
			f[3] = id[len(id)-7:]
		} else {
			f = append(f[:2], "", f[2], f[3])
		}
	case 4:
		if ty == "iso17363" {
			f[3] = "0" + f[3]
		} else {
			ty = "iso17363"
			f[3] = "1234567"
		}
	}
	return Pat{Text: "urn:epc:pat:" + ty + ":" + strings.Join(f, "."), Bad: true}
}

// badPat writes a pattern that is outside of what the middleware supports.
func (g *gen) badPat(tags []Tag) Pat {
	r := g.r
	var t Tag
	for i := 0; i < 50; i++ {
		t = g.tag()
		if len(tags) > 0 && r.Bool(0.9) {
			t = tags[r.Intn(len(tags))]
		}
		if t.E != nil {
			break
		}
		if r.Bool(0.3) {
			return g.badISO(t)
		}
	}
	if t.E == nil {
		t = mkEPC(g.epc(), r)
	}
	p := g.patOf(t, 4)
	name := strings.TrimSuffix(p.Type, "-96")
	f := append([]string(nil), p.F...)
	join := func(ty string, f []string) string { return "urn:epc:pat:" + ty + ":" + strings.Join(f, ".") }
	last := len(f) - 1
	var s string
	switch r.Intn(16) {
	case 0:
		s = join(name+"-64", f)
	case 1:
		s = join("gid-96", f)
	case 2:
		s = join(p.Type, append(f, "1", "2"))
	case 3:
		f[last] = "*"
		s = join(p.Type, f)
	case 4:
		f[last] = "[0-9]"
		s = join(p.Type, f)
	case 5:
		f[0] = []string{"8", "9", "12", "*", "x", "-1", "+" + f[0], ""}[r.Intn(8)]
		s = join(p.Type, f)
	case 6:
		if len(f) > 1 {
			f[1] = f[1][:5-r.Intn(2)]
		}
		s = join(p.Type, f[:2])
	case 7:
		f[1] = (f[1] + "0000000")[:13]
		s = join(p.Type, f[:2])
	case 8:
		f[1] = "*"
		s = join(p.Type, f[:2])
	case 9:
		f[1] = f[1][:3] + "x" + f[1][4:]
		s = join(p.Type, f[:2])
	case 10:
		if last >= 2 {
			f[2] = "99999999999999999999999"
			s = join(p.Type, f[:3])
		} else {
			s = join("sgtin-198", f)
		}
	case 11:
		if last >= 3 {
			f[3] = "999999999999999"
			s = join(p.Type, f)
		} else {
			s = join("usdod-96", f)
		}
	case 12:
		s = "urn:epc:pat:" + p.Type
	case 13:
		s = "urn:epc:pat:foo:" + name[:1+r.Intn(len(name))]
	case 14:
		s = "urn:epc:pat:foo:" + name + ":" + strings.Join(f[1:], ".")
	case 15:
		s = "urn:epc:pat:" + p.Type + ":" + strings.Join(f, ".") + ":x"
	}
	return Pat{Text: s, Bad: true}
}

// damage makes a tag that no healthy tag of the workload could be.
func (g *gen) damage(t Tag) Tag {
	r := g.r
	id := append([]byte(nil), t.ID...)
	pc := append([]byte(nil), t.PC...)
	d := Tag{}
	switch r.Intn(12) {
	case 0:
		d.What = "truncated"
		if len(id) > 0 {
			id = id[:r.Intn(len(id))]
		}
	case 1:
		d.What = "extended"
		for n := 1 + r.Intn(6); n > 0; n-- {
			id = append(id, byte(r.Intn(256)))
		}
	case 2, 3:
		d.What = "bits flipped"
		for n := 1 + r.Intn(4); n > 0; n-- {
			if len(id) == 0 {
				break
			}
			i := r.Intn(len(id))
			if r.Bool(0.5) && i > 2 {
				i = r.Intn(3)
			}
			id[i] ^= 1 << r.Intn(8)
		}
	case 4:
		d.What = "undefined partition"
		if len(id) > 1 {
			id[1] |= 0x1c
		}
	case 5:
		d.What = "all fields at their maximum"
		for i := 2; i < len(id); i++ {
			id[i] = 0xff
		}
		if len(id) > 1 {
			id[1] |= 3
		}
	case 6:
		d.What = "empty identifier"
		id = nil
	case 7:
		d.What = "short protocol bits"
		pc = pc[:r.Intn(2)]
	case 8:
		d.What = "protocol bits missing"
		pc = nil
	case 9:
		d.What = "protocol bits flipped"
		pc[r.Intn(2)] ^= 1 << r.Intn(8)
	case 10:
		d.What = "long protocol bits"
		pc = append(pc, 0)
	case 11:
		d.What = "out-of-range field"
		if len(id) >= 12 {
			for i := 2 + r.Intn(8); i < 12; i++ {
				id[i] = 0xff
			}
		}
	}
	d.ID, d.PC = id, pc
	return d
}

// wellFormedBits says whether some well-formed tag has exactly these bits, so
// that a flip which lands on another healthy tag is not called damaged.
func subsMap(subs []Sub) map[string][]string {
	m := map[string][]string{}
	for _, s := range subs {
		for _, p := range s.Pats {
			m[s.URI] = append(m[s.URI], p.Text)
		}
	}
	return m
}

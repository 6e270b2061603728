package main

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/iomz/gosstrak/verif/simrt"
	"github.com/moby/spdystream"
)

// fc: the whole filtering core, its main function included, between a reader
// model, a statistics database model and management clients.
//
// Ops are the reader's script: "ren", "ka", "cfg" and "rep" (tags L) are
// messages, each written T after the one before, or together with it (B=1);
// "bad" (A = kind, N = where to cut) breaks the session; "w" waits.
// Clients are the management clients: K is what it does, T when it starts.
// Influx trouble: Infl, windows of T..T+N with mode A.

const (
	fcReader = "127.0.0.1:5084"
	fcMgmt   = "127.0.0.1:2784"
	fcInflux = "127.0.0.1:8086"
	fcDB     = "gosstrak"
)

// site is where the parts of an installation are and what they are called.
type site struct {
	reader, mgmt, influx, db, user, pass string
	firstID                              uint32 // 0: as by default
	csv                                  string
}

var sites = []site{
	{fcReader, fcMgmt, fcInflux, fcDB, "gosstrak", "gosstrak", 0, "/work/ecspec.csv"},
	{"10.0.0.7:5085", "127.0.0.1:4001", "10.1.2.3:9086", "dock 7&b=1", "writer", "p:w", 0x12345678, "/srv/dock 7/subscriptions.txt"},
	{"192.168.3.4:5084", "127.0.0.1:5084", "127.0.0.1:5085", "5084", "g", "gosstrak", 0, "/work/ecspec.csv.d/a"},
}

func (sc *Scenario) site() site { return sites[int(sc.P["site"])%len(sites)] }

// args are the arguments an installation starts the filtering core with.
func (sc *Scenario) args() []string {
	st := sc.site()
	a := []string{"gosstrak-fc", "start", "--ecspecfile", st.csv, "--ip", st.reader, "--statInterval", fmt.Sprint(sc.P["interval"])}
	if st != sites[0] {
		a = append(a, "--managementAddr", st.mgmt, "--influxAddr", "http://"+st.influx, "--influxDB", st.db, "--influxUser", st.user, "--influxPass", st.pass)
		if st.firstID != 0 {
			a = append(a, "--initialMessageID", fmt.Sprint(st.firstID))
		}
	}
	return a
}

const (
	ixRefuse = iota + 1
	ix500
	ixHang
	ixSlow
	ixReset
	ixBodyHang
	ix400
	ixModes
)

var ixName = map[int]string{ixRefuse: "influx_refuse", ix500: "influx_500", ixHang: "influx_hang", ixSlow: "influx_slow", ixReset: "influx_reset", ixBodyHang: "influx_body_hang", ix400: "influx_400"}

const (
	badShort = iota
	badHuge
	badType
	badFin
	badRst
	badCutFin
	badCutRst
	badKinds
)

var badName = []string{"length_too_small", "length_too_large", "unknown_type", "reader_close", "reader_reset", "cut_in_message_close", "cut_in_message_reset"}

func uniq(tags []Tag, keep func(*Tag) bool) []Tag {
	seen := map[string]bool{}
	var out []Tag
	for i := range tags {
		k := keyOf(tags[i].PC, tags[i].ID)
		if !seen[k] && keep(&tags[i]) {
			seen[k] = true
			out = append(out, tags[i])
		}
	}
	return out
}

func genBuilds(r *simrt.Rand, sc *Scenario, max int) {
	names := []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}
	slow := r.Intn(4)
	alive := false
	for _, n := range names {
		var b int64
		switch {
		case slow == 0:
		case slow == 1:
			b = int64(r.Intn(30)) * ms
		default:
			b = int64(r.Intn(max)) * ms
		}
		if r.Bool(0.1) {
			b = -1
		}
		if b >= 0 {
			alive = true
		}
		sc.P["build."+n] = b
		sc.P["svc."+n] = []int64{0, 0, int64(r.Intn(2000)), int64(r.Intn(200)) * 1000, int64(r.Intn(4)) * ms}[r.Intn(5)]
	}
	if r.Bool(0.15) {
		// a single engine
		k := r.Intn(4)
		for i, n := range names {
			if i == k {
				sc.P["build."+n] = int64(r.Intn(max)) * ms
			} else {
				sc.P["build."+n] = -1
			}
		}
	} else if !alive {
		sc.P["build."+names[r.Intn(4)]] = 0
	}
}

func genFC(r *simrt.Rand, prop string) *Scenario {
	g := newGen(r)
	o := workOpt{tags: 4 + r.Intn(24), subs: 1 + r.Intn(5)}
	if r.Bool(0.25) {
		o.dup = 0.3
	}
	if prop == "C13" || r.Bool(0.1) {
		o.damaged = 0.4
	}
	if r.Bool(0.1) {
		o.bad = 0.3
	}
	if r.Bool(0.07) {
		o.subs = 0
	}
	sc := &Scenario{Kind: "fc", P: map[string]int64{}}
	if prop == "C18" {
		o.tags += r.Intn(200)
		sc.P["kept"] = 1
	}
	bulk := 0
	flood := r.Bool(0.4)
	if r.Bool(0.05) {
		// reports as large as a busy reader makes them, or as many
		bulk = 100 + r.Intn(400)
		if r.Bool(0.15) && !flood {
			bulk = 1000 + r.Intn(2500)
		}
		o.tags += bulk
	}
	sc.Subs, sc.Tags = g.work(o)
	sc.Tags = uniq(sc.Tags, func(t *Tag) bool { return len(t.PC) == 2 })
	// extra is the time by which the run may be longer than usual
	extra := int64(0)
	if r.Bool(0.03) || prop == "C11" && r.Bool(0.05) {
		// engines that take minutes
		most := 300_000
		if r.Bool(0.2) {
			most = 4_000_000 // or an hour
		}
		genBuilds(r, sc, most)
		extra += int64(most) * ms
	} else {
		genBuilds(r, sc, 3500)
	}
	sc.P["interval"] = int64(1 + r.Intn(2))
	if r.Bool(0.1) {
		sc.P["interval"] = 5
	}
	if prop == "C07" || prop == "C08" || r.Bool(0.4) {
		sc.P["stat"] = 1
	}
	// the network
	sc.P["seg"] = []int64{0, 0, 1, 3, 17, 100}[r.Intn(6)]
	sc.P["delay"] = []int64{0, 0, 1, 30, 300}[r.Intn(5)] * ms
	sc.P["short"] = int64(r.Intn(2))
	if r.Bool(0.1) {
		sc.P["window"] = 64
		if sc.P["delay"] > ms {
			sc.P["delay"] = ms
		}
	}
	if bulk > 0 {
		for _, n := range engineNames() {
			sc.P["svc."+n] = 0
		}
		if sc.P["seg"] > 0 {
			sc.P["seg"] = 1000
		}
		sc.P["window"] = 0
		if sc.P["delay"] > ms {
			sc.P["delay"] = ms
		}
	}
	// the reader
	switch r.Intn(5) {
	case 0, 1:
	case 2:
		sc.P["open"] = int64(r.Intn(3000)) * ms
	case 3:
		sc.P["open"] = int64(r.Intn(15000)) * ms
	case 4:
		sc.P["open"] = int64(r.Intn(1500)) * ms
		if prop == "C11" && r.Bool(0.2) {
			sc.P["open"] = -1
		}
	}
	if sc.P["open"] > 0 && (r.Bool(0.03) || (prop == "C11" || prop == "C18") && r.Bool(0.1)) {
		sc.P["open"] = int64(20+r.Intn(400)) * sec
		extra += sc.P["open"]
	}
	if r.Bool(0.2) {
		sc.P["dial"] = int64(r.Intn(400)) * ms
		if r.Bool(0.15) {
			// a reader that is slow to answer
			sc.P["dial"] = int64(1000+r.Intn(2500)) * ms
		}
	}
	next := 0
	n := 3 + r.Intn(20)
	pace := []int{0, 5, 200, 1500}[r.Intn(4)]
	if prop == "C18" && r.Bool(0.5) {
		n, pace = 100+r.Intn(300), []int{0, 5, 200}[r.Intn(3)]
	}
	small := r.Bool(0.4)
	for i := 0; i < n; i++ {
		op := Op{}
		if pace > 0 {
			op.T = int64(r.Intn(pace)) * ms
		}
		if r.Bool(0.35) {
			op.B = 1
		}
		if r.Bool(0.005) {
			// nothing for a long time
			op.B = 0
			op.T = int64(5+r.Intn(300)) * sec
			if r.Bool(0.15) && sc.P["hours"] == 0 {
				// as long as a night or a weekend
				sc.P["hours"] = 1
				op.T = int64(1+r.Intn(40)) * 3600 * sec
				sc.P["interval"] = 60
				extra += 600 * sec
			}
			extra += op.T
		}
		switch x := r.Intn(10); {
		case x < 5 && next < len(sc.Tags):
			op.K = "rep"
			k := 1 + r.Intn(4)
			if r.Bool(0.1) {
				k = 0
			}
			if bulk > 0 && r.Bool(0.4) {
				k, bulk = bulk, 0
				for ; flood && k > 5 && next < len(sc.Tags)-5; k-- {
					sc.Ops = append(sc.Ops, Op{K: "rep", L: []int{next}, B: 1, T: op.T, N: int64(r.Intn(1 << 30))})
					op.T, op.B = 0, 1
					next++
				}
			}
			for ; k > 0 && next < len(sc.Tags); k-- {
				op.L = append(op.L, next)
				next++
			}
		case x < 6:
			op.K = "ren"
			op.A = r.Intn(2)
			if r.Bool(0.2) {
				op.A = genText(r, sc)
			}
		case x < 7:
			op.K = "cfg"
			if r.Bool(0.2) {
				op.A = genText(r, sc)
			}
		default:
			op.K = "ka"
		}
		op.N = int64(r.Intn(1 << 32))
		if small {
			op.N %= 40 // as a reader numbers its first messages
		}
		sc.Ops = append(sc.Ops, op)
		if r.Bool(0.03) {
			// the last bytes of a message come later
			p := Op{K: "pause", N: int64(r.Intn(1 << 30)), T: int64(1+r.Intn(4000)) * ms, B: 1}
			if r.Bool(0.1) {
				p.T = int64(5+r.Intn(200)) * sec
			}
			extra += p.T
			sc.Ops = append(sc.Ops, p)
		}
	}
	if prop == "C10" || r.Bool(0.05) {
		op := Op{K: "bad", A: r.Intn(badKinds), N: int64(r.Uint64() >> 1)}
		if r.Bool(0.5) {
			op.T = int64(r.Intn(1500)) * ms
		}
		if r.Bool(0.4) {
			op.B = 1
		}
		// cut a report of the tags that are left, or anything else
		if op.A == badCutFin || op.A == badCutRst {
			op.S = []string{"rep", "ka", "ren"}[r.Intn(3)]
			if next >= len(sc.Tags) {
				op.S = "ka"
			}
			for k := 1 + r.Intn(3); op.S == "rep" && k > 0 && next < len(sc.Tags); k-- {
				op.L = append(op.L, next)
				next++
			}
		}
		sc.Ops = append(sc.Ops, op)
	} else if next < len(sc.Tags) {
		op := Op{K: "rep", T: int64(r.Intn(2000)) * ms}
		for ; next < len(sc.Tags) && (len(op.L) < 6 || bulk > 0); next++ {
			op.L = append(op.L, next)
		}
		sc.Ops = append(sc.Ops, op)
	}
	if prop == "C12" || prop == "C18" && r.Bool(0.6) || r.Bool(0.15) {
		for k := 1 + r.Intn(4); k > 0; k-- {
			c := genClient(r)
			if prop == "C18" && k == 1 {
				c.K, c.S = []string{"churn", "visits"}[r.Intn(2)], ""
				c.A = 60 + r.Intn(300)
			}
			if sc.P["window"] > 0 && c.N > 2000 {
				c.N = 2000
			}
			sc.Clients = append(sc.Clients, c)
		}
		if bulk == 0 && sc.P["window"] == 0 && r.Bool(0.03) {
			// one that is silent for hours and still there
			sc.Clients = append(sc.Clients, Op{K: "good", S: "hours", A: 1, B: r.Intn(1 << 30), N: 1000, T: int64(r.Intn(3000)) * ms})
			sc.P["interval"] = 60
			extra += 85 * 3600 * sec
		}
		genMaxConn(r, sc)
	}
	if sc.P["stat"] == 1 && prop != "C08" && (prop == "C07" || prop == "C18" && r.Bool(0.5) || r.Bool(0.2)) {
		if r.Bool(0.06) || prop == "C18" && r.Bool(0.4) {
			extra += genInflux(r, sc, 300)
		} else {
			genInflux(r, sc, 12)
		}
	}
	for _, c := range sc.Clients {
		if c.S == "slow" || c.K == "visits" {
			extra += 300 * sec
			break
		}
	}
	if r.Bool(0.1) {
		sc.P["site"] = int64(1 + r.Intn(len(sites)-1))
	}
	genPrior(r, sc)
	if extra > 0 {
		sc.P["cap"] = 150*sec + extra
	}
	return sc
}

func genPrior(r *simrt.Rand, sc *Scenario) {
	if r.Bool(0.2) {
		sc.P["cache"] = 1
	}
	if r.Bool(0.08) {
		sc.P["prior"] = 1 + int64(r.Intn(4_000_000))*1000>>r.Intn(12)
	}
}

func genInflux(r *simrt.Rand, sc *Scenario, span int) int64 {
	t := int64(0)
	if r.Bool(0.5) {
		t = int64(r.Intn(4000)) * ms
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		d := int64(500+r.Intn(span*1000)) * ms
		if r.Bool(0.1) {
			d = never
		}
		sc.Infl = append(sc.Infl, Op{T: t, N: d, A: 1 + r.Intn(ixModes-1)})
		if d == never {
			break
		}
		t += d + int64(r.Intn(6000))*ms
	}
	return t
}

// genMaxConn limits the connections the program can have at a mirror port to
// what all but the crowds need.
func genMaxConn(r *simrt.Rand, sc *Scenario) {
	n, crowd := 1, false
	for i := range sc.Clients {
		switch sc.Clients[i].K {
		case "crowd":
			sc.Clients[i].N = int64(r.Intn(10))
			crowd = true
		default:
			n++
		}
	}
	if crowd && r.Bool(0.5) {
		sc.P["maxconn"] = int64(n + r.Intn(4))
	}
}

// genText chooses the length of a text in a message.
func genText(r *simrt.Rand, sc *Scenario) int {
	n := []int{10, 100, 250, 1000, 10000, 60000}[r.Intn(6)]
	if sc.P["seg"] > 0 && sc.P["seg"] < 1000 && n > 250 {
		n = 250
	}
	return 2 + r.Intn(n)
}

func genClient(r *simrt.Rand) Op {
	c := Op{K: []string{"good", "good", "good", "garbage", "stall", "cut", "silent"}[r.Intn(7)]}
	c.T = int64(r.Intn(3000)) * ms
	c.A = 1 + r.Intn(3)
	c.B = r.Intn(1 << 30)
	c.N = []int64{1, 10, 1000, 20000, 100000}[r.Intn(5)]
	if r.Bool(0.12) {
		c.K = []string{"crowd", "churn", "visits"}[r.Intn(3)]
		c.A = 3 + r.Intn(60)
		c.T = int64(r.Intn(1000)) * ms
	}
	if c.K == "good" && r.Bool(0.05) {
		c.A = 10 + r.Intn(120) // many streams
		c.N = []int64{1, 100, 3000}[r.Intn(3)]
	} else if c.K == "good" && r.Bool(0.06) {
		c.S = "slow" // pauses for up to minutes
		c.A = 1
	}
	return c
}

// csvOf writes subscriptions as the file the filtering core is started with.
func csvOf(subs []Sub) []byte {
	var b bytes.Buffer
	wr := csv.NewWriter(&b)
	for _, s := range subs {
		rec := []string{s.URI}
		for _, p := range s.Pats {
			rec = append(rec, p.Text)
		}
		wr.Write(rec)
	}
	wr.Flush()
	return b.Bytes()
}

func llrpMsg(typ uint16, id uint32, body []byte) []byte {
	b := binary.BigEndian.AppendUint16(nil, typ)
	b = binary.BigEndian.AppendUint32(b, uint32(10+len(body)))
	b = binary.BigEndian.AppendUint32(b, id)
	return append(b, body...)
}

func reportBody(tags []Tag, idx []int) []byte {
	var b []byte
	for _, i := range idx {
		t := &tags[i]
		var p []byte
		if len(t.ID) == 12 && i%3 != 0 {
			p = append([]byte{141}, t.ID...)
		} else {
			p = binary.BigEndian.AppendUint16(p, 241)
			p = binary.BigEndian.AppendUint16(p, uint16(6+len(t.ID)))
			p = binary.BigEndian.AppendUint16(p, uint16(8*len(t.ID)))
			p = append(p, t.ID...)
		}
		p = append(p, 140)
		p = append(p, t.PC...)
		b = binary.BigEndian.AppendUint16(b, 240)
		b = binary.BigEndian.AppendUint16(b, uint16(4+len(p)))
		b = append(b, p...)
	}
	return b
}

type rdMsg struct {
	kind  string
	start int64 // stream offsets
	end   int64
	tags  []int
}

type fcWorld struct {
	*world
	dials     []dialRec
	openAt    int64
	accepted  []int64
	conn      *simrt.Conn
	msgs      []*rdMsg
	sent      int64
	delivs    []dlv
	replies   []reply
	badReply  string
	brokenAt  int64 // when the break can have been noticed
	brokenOff int64 // the end of what the reader writes
	closingAt int64 // when the reader starts to close
	broken    int   // kind, or -1
	site      site
	pauseTill int64 // the reader sends nothing until then
	scripted  bool  // the script has been written completely
	points    []point
	ixReqs    int64
	clients   []*client
	mgmtAt    int64
}

type dialRec struct {
	at, answered int64
}
type dlv struct{ at, total int64 }
type reply struct {
	at   int64
	typ  uint16
	id   uint32
	body []byte
}
type point struct {
	at, ts  int64
	m       string
	tags    map[string]string
	fields  map[string]string
	healthy bool
}

// deliveredAt is when the filtering core had been given the stream up to off.
func (f *fcWorld) deliveredAt(off int64) int64 {
	i := sort.Search(len(f.delivs), func(i int) bool { return f.delivs[i].total >= off })
	if i < len(f.delivs) {
		return f.delivs[i].at
	}
	return never
}

func (f *fcWorld) message(op *Op) []byte {
	switch op.K {
	case "ren":
		// ReaderEventNotificationData with an uptime or a timestamp
		body := []byte{0, 246, 0, 16, 0, 128, 0, 12, 0, 0, 0, 0, 0, 0, 0, byte(op.N)}
		switch {
		case op.A == 1:
			// a connection attempt event
			body = append(body, 1, 0, 0, 6, 0, byte(op.N%5))
		case op.A > 1:
			// a reader exception event with a text
			n := op.A
			body = append(body, 0, 252, byte((n+6)>>8), byte(n+6), byte(n>>8), byte(n))
			body = append(body, text(n)...)
		}
		binary.BigEndian.PutUint16(body[2:], uint16(len(body)))
		return llrpMsg(1087, uint32(op.N), body)
	case "ka":
		return llrpMsg(1086, uint32(op.N), nil)
	case "cfg":
		body := []byte{1, 31, 0, 8, 0, 0, 0, 0}
		if n := op.A; n > 1 {
			// a status with a description
			body = append([]byte{1, 31, byte((n + 8) >> 8), byte(n + 8), 0, 100, byte(n >> 8), byte(n)}, text(n)...)
		}
		return llrpMsg(1037, uint32(op.N), body)
	case "rep":
		return llrpMsg(1085, uint32(op.N), reportBody(f.sc.Tags, op.L))
	}
	return nil
}

// text is n bytes of text.
func text(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + i*7%95)
	}
	return b
}

// reader is the reader model: it listens, writes its script on the first
// session and records what comes back.
func (f *fcWorld) reader() {
	sc := f.sc
	if sc.P["open"] < 0 {
		f.openAt = never
		return
	}
	simrt.Sleep(sc.P["open"])
	l, err := simrt.Listen(sc.site().reader)
	if err != nil {
		panic(err)
	}
	f.openAt = simrt.NowNS()
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		f.accepted = append(f.accepted, simrt.NowNS())
		if f.conn != nil {
			continue
		}
		f.conn = c.(*simrt.Conn)
		f.conn.OnDeliver = func(total int64) { f.delivs = append(f.delivs, dlv{simrt.NowNS(), total}) }
		simrt.Go(f.readReplies)
		simrt.Go(f.script)
	}
}

func (f *fcWorld) readReplies() {
	for {
		h := make([]byte, 10)
		if _, err := io.ReadFull(f.conn, h[:1]); err != nil {
			return
		}
		if _, err := io.ReadFull(f.conn, h[1:]); err != nil {
			f.badReply = fmt.Sprintf("reply %d ends inside its header", len(f.replies))
			return
		}
		at := simrt.NowNS()
		n := binary.BigEndian.Uint32(h[2:])
		if n < 10 || n > 1<<16 {
			f.badReply = fmt.Sprintf("reply %d has a length of %d", len(f.replies), n)
			return
		}
		body := make([]byte, n-10)
		if _, err := io.ReadFull(f.conn, body); err != nil {
			f.badReply = fmt.Sprintf("reply %d is shorter than its length of %d", len(f.replies), n)
			return
		}
		f.replies = append(f.replies, reply{at, binary.BigEndian.Uint16(h), binary.BigEndian.Uint32(h[6:]), body})
	}
}

func (f *fcWorld) script() {
	var buf []byte
	flush := func() {
		for len(buf) > 0 {
			n, err := f.conn.Write(buf)
			f.sent += int64(n)
			if err != nil {
				return
			}
			buf = buf[n:]
		}
		buf = nil
	}
	off := int64(0)
	for i := range f.sc.Ops {
		op := &f.sc.Ops[i]
		if op.K == "pause" {
			if len(buf) < 2 {
				continue
			}
			k := 1 + int(op.N%int64(len(buf)-1))
			simrt.Fault("reader_pause")
			rest := buf[k:]
			buf = buf[:k]
			flush()
			f.pauseTill = simrt.NowNS() + op.T
			simrt.Sleep(op.T)
			buf = rest
			continue
		}
		if op.B == 0 {
			flush()
			if op.T > 0 {
				f.pauseTill = simrt.NowNS() + op.T
				simrt.Sleep(op.T)
			}
		}
		if op.K == "bad" {
			simrt.Fault(badName[op.A%badKinds])
			f.broken = op.A % badKinds
			switch f.broken {
			case badShort:
				n := uint32(uint64(op.N) % 10)
				b := binary.BigEndian.AppendUint16(nil, []uint16{1085, 1086, 1087, 1037}[op.N>>8%4])
				b = binary.BigEndian.AppendUint32(b, n)
				buf = append(buf, binary.BigEndian.AppendUint32(b, 1)...)
				off += 10
			case badHuge:
				n := uint32(1<<31 | uint64(op.N)>>20)
				if op.N&1 == 1 {
					n = 0xffffffff - uint32(op.N>>8)%64
				}
				b := binary.BigEndian.AppendUint16(nil, []uint16{1085, 1086, 1087, 1037}[op.N>>8%4])
				b = binary.BigEndian.AppendUint32(b, n)
				buf = append(buf, binary.BigEndian.AppendUint32(b, 1)...)
				off += 10
			case badType:
				t := []uint16{0, 1, 61, 62, 63, 1024, 1088, 1096, 1027, 1084, 65535, 2047}[uint64(op.N)%12]
				var body []byte
				if op.N&64 != 0 {
					body = make([]byte, op.N>>8%32)
				}
				m := llrpMsg(t, 7, body)
				buf = append(buf, m...)
				off += int64(len(m))
			case badCutFin, badCutRst:
				m := f.message(&Op{K: op.S, L: op.L, N: op.N & 0xffff, A: op.A})
				k := 1 + int(uint64(op.N)%uint64(len(m)-1))
				buf = append(buf, m[:k]...)
				off += int64(k)
			}
			// what follows in the same write must not be acted on either
			if f.broken <= badType && op.N&128 != 0 {
				buf = append(buf, llrpMsg(1086, 9, nil)...)
			}
			f.brokenAt = -off // until the stream is delivered
			f.brokenOff = off
			flush()
			if f.broken >= badFin {
				// the other side may notice while this one is still in it
				f.closingAt = simrt.NowNS()
			}
			switch f.broken {
			case badFin, badCutFin:
				if op.N&256 != 0 {
					f.conn.CloseWrite()
				} else {
					f.conn.Close()
				}
			case badRst, badCutRst:
				f.conn.Reset()
			}
			f.brokenAt = simrt.NowNS()
			f.scripted = true
			return
		}
		b := f.message(op)
		if b == nil {
			continue
		}
		m := &rdMsg{kind: op.K, start: off, tags: op.L}
		off += int64(len(b))
		m.end = off
		f.msgs = append(f.msgs, m)
		buf = append(buf, b...)
	}
	flush()
	f.scripted = true
}

// influx is the statistics database model.
func (f *fcWorld) influx(req *simrt.HTTPReq) simrt.HTTPResp {
	now := simrt.NowNS()
	f.ixReqs++
	mode, left := f.ixMode(now)
	if mode != 0 {
		simrt.Fault(ixName[mode])
	}
	hdr := map[string]string{"X-Influxdb-Version": "1.8.10"}
	ok := simrt.HTTPResp{Status: http.StatusNoContent, Header: hdr, Delay: int64(simrt.Choose(4)) * ms}
	switch mode {
	case ixRefuse:
		return simrt.HTTPResp{Err: &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}}
	case ix500:
		return simrt.HTTPResp{Status: 500, Header: hdr, Body: []byte(`{"error":"engine: cache-max-memory-size exceeded"}`)}
	case ix400:
		return simrt.HTTPResp{Status: 400, Header: hdr, Body: []byte(`not json`)}
	case ixHang:
		return simrt.HTTPResp{Hang: true}
	case ixReset:
		return simrt.HTTPResp{Err: errors.New("read: connection reset by peer"), Delay: int64(simrt.Choose(100)) * ms}
	case ixBodyHang:
		return simrt.HTTPResp{Status: 200, Header: hdr, BodyHang: true}
	case ixSlow:
		d := int64(500+simrt.Choose(20000)) * ms
		if d > left {
			d = left
		}
		ok.Delay = d
	}
	q, _ := url.ParseQuery(req.Query)
	if f.site.user != "" {
		r := http.Request{Header: http.Header(req.Header)}
		if u, pw, _ := r.BasicAuth(); (u != f.site.user || pw != f.site.pass) && (q.Get("u") != f.site.user || q.Get("p") != f.site.pass) {
			return simrt.HTTPResp{Status: 401, Header: hdr, Body: []byte(`{"error":"authorization failed"}`)}
		}
	}
	if req.Path != "/write" || q.Get("db") != f.site.db {
		return simrt.HTTPResp{Status: 404, Header: hdr, Body: []byte(`{"error":"database not found: \"\""}`)}
	}
	prec := int64(1)
	for k, v := range map[string]int64{"u": 1000, "ms": ms, "s": sec, "m": 60 * sec, "h": 3600 * sec} {
		if q.Get("precision") == k {
			prec = v
		}
	}
	for _, l := range strings.Split(string(req.Body), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		p, err := parsePoint(l)
		if err != nil {
			f.fail("C08", "badpoint", "the statistics database was sent %q: %v", l, err)
			return simrt.HTTPResp{Status: 400, Header: hdr, Body: []byte(`{"error":"unable to parse"}`)}
		}
		p.at = now
		p.ts = f.sc.mono(p.ts*prec-epochNS, now) + epochNS
		p.healthy = mode == 0
		f.points = append(f.points, *p)
		simrt.Probe("point:" + p.m)
	}
	return ok
}

// ixMode is the database's trouble at a time, and for how long it lasts.
func (f *fcWorld) ixMode(t int64) (int, int64) {
	for _, o := range f.sc.Infl {
		if t >= o.T && t < o.T+o.N {
			return o.A, o.T + o.N - t
		}
	}
	return 0, 0
}

// ixHealthyFrom is when the last trouble is over.
func (f *fcWorld) ixHealthyFrom() int64 {
	e := int64(0)
	for _, o := range f.sc.Infl {
		if o.T+o.N > e {
			e = o.T + o.N
		}
	}
	return e
}

// mono turns a wall clock reading from before now into an instant of the run.
func (sc *Scenario) mono(wall, now int64) int64 {
	c := &sc.Sched
	best := int64(-1)
	for i := -1; i < len(c.Jumps); i++ {
		var t int64 // an instant with each offset there is
		if i >= 0 {
			t = c.Jumps[i].At
		}
		off := c.WallOff(t)
		if x := wall - off; x > best && x <= now && c.WallOff(x) == off {
			best = x
		}
	}
	if best < 0 {
		return wall - c.WallOff(now)
	}
	return best
}

func parsePoint(l string) (*point, error) {
	p := &point{tags: map[string]string{}, fields: map[string]string{}}
	w := strings.Fields(l)
	if len(w) < 2 || len(w) > 3 {
		return nil, errors.New("not a line protocol point")
	}
	for i, s := range strings.Split(w[0], ",") {
		if i == 0 {
			p.m = s
			continue
		}
		kv := strings.SplitN(s, "=", 2)
		if len(kv) != 2 {
			return nil, errors.New("bad tag")
		}
		p.tags[kv[0]] = kv[1]
	}
	for _, s := range strings.Split(w[1], ",") {
		kv := strings.SplitN(s, "=", 2)
		if len(kv) != 2 {
			return nil, errors.New("bad field")
		}
		p.fields[kv[0]] = kv[1]
	}
	if len(w) == 3 {
		n, err := strconv.ParseInt(w[2], 10, 64)
		if err != nil {
			return nil, err
		}
		p.ts = n
	}
	return p, nil
}

func (p *point) num(k string) (float64, bool) {
	s, ok := p.fields[k]
	if !ok {
		return 0, false
	}
	x, err := strconv.ParseFloat(strings.TrimSuffix(s, "i"), 64)
	return x, err == nil
}

// foreign names what a point carries of another kind of report.
func (p *point) foreign() string {
	of := map[string]string{"incoming_events": "traffic", "matched_events": "traffic", "matching_probability": "traffic", "event_per_us": "throughput", "selected": "engine"}
	var ks []string
	for k := range p.fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if m := of[k]; m != "" && m != p.m {
			return "the field " + k
		}
	}
	if e, ok := p.tags["engine"]; ok && p.m == "engine" {
		if x, ok := p.num("selected"); ok && x != selectedID[e] {
			return "the engine tag " + e
		}
	}
	return ""
}

var selectedID = map[string]float64{"LegacyEngine": 0, "List": 1, "PatriciaTrie": 2, "SplayTree": 3}

// ---- management clients ----

type client struct {
	op      *Op
	addr    string
	prop    string
	begin   int64
	conn    net.Conn
	done    bool
	err     string
	started bool
}

// limit is how long a client may take.
func (cl *client) limit() int64 {
	if cl.op.S == "slow" || cl.op.K == "visits" {
		return 400 * sec
	}
	if cl.op.S == "hours" {
		return 100 * 3600 * sec
	}
	return 65 * sec
}

// stallConn stops reading when told to.
type stallConn struct {
	net.Conn
	hold bool
}

func (c *stallConn) Read(b []byte) (int, error) {
	for c.hold {
		simrt.Sleep(sec)
	}
	return c.Conn.Read(b)
}

// client runs one client of a mirror port; unless it closed its connection, it
// stays connected until the run ends.
func (f *fcWorld) client(cl *client) {
	f.clientOp(cl)
	for cl.conn != nil {
		simrt.Sleep(600 * sec)
	}
}

func (f *fcWorld) clientOp(cl *client) {
	op := cl.op
	for !simrt.Net().Listening(cl.addr) {
		simrt.Sleep(20 * ms)
		if t := f.portDue(); t < never && simrt.NowNS() > t {
			cl.err = "the port is not listening"
			return
		}
	}
	if f.mgmtAt == 0 {
		f.mgmtAt = simrt.NowNS()
	}
	simrt.Sleep(op.T)
	cl.begin = simrt.NowNS()
	switch op.K {
	case "crowd":
		// many clients that connect and stay
		simrt.Fault("client_crowd")
		var cs []net.Conn
		for k := 0; k < op.A; k++ {
			c, err := simrt.Dial(cl.addr, 0)
			if err != nil {
				cl.err = "connect: " + err.Error()
				return
			}
			cl.conn = c
			cs = append(cs, c)
			if (op.B+k)%5 == 0 {
				c.Write([]byte{0x80})
			}
		}
		if f.sc.P["maxconn"] > 0 {
			// they take all there are, for some seconds
			simrt.Sleep(op.N % 10 * sec)
			for _, c := range cs {
				c.Close()
			}
			cl.conn = nil
		}
		cl.done = true
		return
	case "churn":
		// many clients that connect and go away
		simrt.Fault("client_churn")
		r := simrt.NewRand(uint64(op.B) + 3)
		for k := 0; k < op.A; k++ {
			c, err := simrt.Dial(cl.addr, 0)
			if err != nil {
				cl.err = "connect: " + err.Error()
				return
			}
			if r.Bool(0.3) {
				c.Write([]byte{0x80, 3, 0, 1}[:1+r.Intn(4)])
			}
			if r.Bool(0.5) {
				simrt.Sleep(int64(r.Intn(100)) * ms)
			}
			if r.Bool(0.4) {
				c.(*simrt.Conn).Reset()
			} else {
				c.Close()
			}
		}
		cl.done = true
		return
	case "visits":
		// one visit after the other: some use streams, and go away in any way
		simrt.Fault("client_visits")
		r := simrt.NewRand(uint64(op.B) + 5)
		for k := 0; k < op.A; k++ {
			c, err := simrt.Dial(cl.addr, 0)
			if err != nil {
				cl.err = "connect: " + err.Error()
				return
			}
			f.visit(c.(*simrt.Conn), r)
			if r.Bool(0.1) {
				simrt.Sleep(int64(r.Intn(3000)) * ms)
			}
		}
		cl.done = true
		return
	}
	c, err := simrt.Dial(cl.addr, 0)
	if err != nil {
		cl.err = "connect: " + err.Error()
		return
	}
	cl.conn = c
	cl.started = true
	r := simrt.NewRand(uint64(op.B) + 7)
	switch op.K {
	case "garbage":
		simrt.Fault("client_garbage")
		for k := 1 + r.Intn(4); k > 0; k-- {
			b := make([]byte, 1+r.Intn(300))
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
			if r.Bool(0.4) {
				b[0] = 0x80
				if len(b) > 4 {
					b[1], b[2], b[3] = byte(r.Intn(4)), 0, byte(r.Intn(12))
				}
			}
			if _, err := c.Write(b); err != nil {
				break
			}
			simrt.Sleep(int64(r.Intn(200)) * ms)
		}
		if r.Bool(0.5) {
			c.Close()
			cl.conn = nil
		}
		cl.done = true
		return
	case "settings":
		// only in the replay file of a listed finding: a SPDY SETTINGS frame
		// that announces 2^32-1 settings
		simrt.Fault("client_settings_flood")
		c.Write([]byte{0x80, 3, 0, 4, 0, 0, 0, 4, 0xff, 0xff, 0xff, 0xff})
		cl.done = true
		return
	case "silent":
		simrt.Fault("client_silent")
		cl.done = true
		return
	}
	sc := &stallConn{Conn: c}
	sp, err := spdystream.NewConnection(sc, false)
	if err != nil {
		cl.err = "spdy: " + err.Error()
		return
	}
	simrt.Go(func() { sp.Serve(spdystream.NoOpStreamHandler) })
	if op.K == "stall" || op.K == "cut" {
		// sends on a stream and does not read the mirrored bytes, or goes away
		simrt.Fault("client_" + op.K)
		st, err := sp.CreateStream(http.Header{"x": []string{"y"}}, nil, false)
		if err == nil {
			n := 200 + r.Intn(4000)
			if op.K == "stall" {
				n = 60000
				sc.hold = true
			}
			simrt.Go(func() {
				for n > 0 {
					if _, err := st.Write(make([]byte, 2000)); err != nil {
						return
					}
					n -= 2000
				}
			})
			simrt.Sleep(int64(r.Intn(400)) * ms)
		}
		if op.K == "cut" {
			if r.Bool(0.5) {
				c.(*simrt.Conn).Reset()
			} else {
				c.Close()
			}
			cl.conn = nil
		}
		cl.done = true
		return
	}
	left := op.A
	ok := true
	for s := 0; s < op.A; s++ {
		s := s
		simrt.Go(func() {
			if e := f.stream(sp, simrt.NewRand(uint64(op.B)+uint64(s)), int(op.N), s, op.S); e != "" {
				if cl.err == "" {
					cl.err = fmt.Sprintf("stream %d: %s", s, e)
				}
				ok = false
			}
			left--
		})
	}
	for left > 0 {
		if op.S == "hours" {
			simrt.Sleep(sec)
		}
		simrt.Sleep(10 * ms)
	}
	if ok {
		simrt.Probe("client_mirrored")
		cl.done = true
	}
	if op.B%2 == 0 {
		sp.Close()
		c.Close()
		cl.conn = nil
	}
}

// visit uses a connection for a moment and goes away.
func (f *fcWorld) visit(c *simrt.Conn, r *simrt.Rand) {
	sp, err := spdystream.NewConnection(c, false)
	if err != nil {
		c.Close()
		return
	}
	simrt.Go(func() { sp.Serve(spdystream.NoOpStreamHandler) })
	for n := r.Intn(4); n > 0; n-- {
		st, err := sp.CreateStream(http.Header{"v": []string{"1"}}, nil, false)
		if err != nil {
			break
		}
		if r.Bool(0.7) {
			simrt.Go(func() { io.Copy(io.Discard, st) })
		}
		for w := r.Intn(4); w > 0; w-- {
			if _, err := st.Write(make([]byte, 1+r.Intn(1000))); err != nil {
				break
			}
		}
		switch r.Intn(5) {
		case 0:
			st.Close()
		case 1:
			st.Reset()
		}
	}
	if r.Bool(0.5) {
		simrt.Sleep(int64(r.Intn(200)) * ms)
	}
	switch r.Intn(5) {
	case 0:
		sp.Close() // says that it goes away
		simrt.Sleep(int64(r.Intn(100)) * ms)
		c.Close()
	case 1, 2:
		c.Reset()
	default:
		c.Close()
	}
}

// stream sends bytes on a new stream and wants them all back.
func (f *fcWorld) stream(sp *spdystream.Connection, r *simrt.Rand, n, id int, pace string) string {
	st, err := sp.CreateStream(http.Header{"id": []string{fmt.Sprint(id)}}, nil, false)
	if err != nil {
		return "create: " + err.Error()
	}
	if err := st.Wait(); err != nil {
		return "reply: " + err.Error()
	}
	if r.Bool(0.2) {
		// headers come back as well
		for k := 1 + r.Intn(3); k > 0; k-- {
			v := fmt.Sprint(r.Uint64())
			if err := st.SendHeader(http.Header{"more": []string{v}}, false); err != nil {
				return "send header: " + err.Error()
			}
			h, err := st.ReceiveHeader()
			if err != nil {
				return "receive header: " + err.Error()
			}
			if h.Get("more") != v {
				return fmt.Sprintf("sent the header %s, %v came back", v, h)
			}
		}
		simrt.Probe("header_mirrored")
	}
	data := make([]byte, 1+r.Intn(n))
	for i := range data {
		data[i] = byte(r.Uint64())
	}
	var got []byte
	var paused int64
	var rerr error
	rdone := false
	simrt.Go(func() {
		b := make([]byte, 1+r.Intn(4000))
		for {
			k, err := st.Read(b)
			got = append(got, b[:k]...)
			if err != nil {
				rerr = err
				break
			}
		}
		rdone = true
	})
	for o := 0; o < len(data); {
		k := 1 + r.Intn(len(data)-o)
		if k > 30000 {
			k = 30000
		}
		if _, err := st.Write(data[o : o+k]); err != nil {
			return "write: " + err.Error()
		}
		o += k
		if r.Bool(0.3) {
			simrt.Sleep(int64(r.Intn(50)) * ms)
		}
		if pace == "hours" && o < len(data) && paused == 0 || pace == "slow" && o < len(data) && paused < 250*sec {
			d := int64(5+r.Intn(120)) * sec
			if pace == "hours" {
				d = int64(1+r.Intn(80)) * 3600 * sec
			}
			paused += d
			simrt.Fault("client_pause")
			simrt.Sleep(d)
		}
	}
	// all of it must come back before this side ends the stream
	lim := simrt.NowNS() + 5*sec + 100*f.sc.P["delay"]
	for len(got) < len(data) && !rdone && simrt.NowNS() < lim {
		simrt.Sleep(10 * ms)
	}
	if !bytes.Equal(got, data) {
		i := 0
		for i < len(got) && i < len(data) && got[i] == data[i] {
			i++
		}
		return fmt.Sprintf("sent %d bytes, %d came back (error: %v), the first %d are equal", len(data), len(got), rerr, i)
	}
	st.Close()
	lim = simrt.NowNS() + 5*sec + 20*f.sc.P["delay"]
	for !rdone && simrt.NowNS() < lim {
		simrt.Sleep(10 * ms)
	}
	if len(got) > len(data) {
		return fmt.Sprintf("sent %d bytes, %d came back", len(data), len(got))
	}
	if !rdone {
		return "the mirrored stream does not end after the client ended it"
	}
	return ""
}

// judgeLeft looks for what finished work has left behind in a process.
func (f *fcWorld) judgeLeft(p *simrt.Proc, was simrt.HTTPWorld) {
	if p.Exited {
		return
	}
	simrt.Probe("leftovers_judged")
	limit := 80
	conns := simrt.Net().Held(p)
	limit += 16 * conns
	for _, cl := range f.clients {
		if cl.conn != nil {
			limit += 6 * (1 + cl.op.A)
		}
	}
	gs := simrt.ProcGs(p)
	if len(gs) > limit {
		by := map[string]int{}
		for _, g := range gs {
			by[g[strings.Index(g, " ")+1:]]++
		}
		most := ""
		for g, n := range by {
			if most == "" || n > by[most] || n == by[most] && g < most {
				most = g
			}
		}
		f.fail("C18", "goroutines", "%d goroutines are left in %s at a quiet moment with %d open connections, most of them (%d): %s", len(gs), p.Name, conns, by[most], most)
	}
	// connections the process holds although the work with them is over
	clients := 2
	for _, cl := range f.clients {
		switch {
		case cl.conn == nil:
		case cl.op.K == "crowd":
			clients += cl.op.A
		default:
			clients++
		}
	}
	if conns > clients+8 {
		f.fail("C18", "connections", "%s holds %d connections, of which at most %d are in use", p.Name, conns, clients)
	}
	if f.sc.P["kept"] == 1 {
		if n := simrt.Net().Kept(p); n > 24 {
			f.fail("C18", "kept", "%s keeps %d connections that their clients have ended, and neither closes them nor lets go of them", p.Name, n)
		}
	}
	h := simrt.HTTP()
	if n := h.Idle - was.Idle; n > 8 {
		f.fail("C18", "idle", "%s keeps %d idle connections to the database, which it does not use again", p.Name, n)
	}
	if n := h.Open - was.Open; n > 16 {
		f.fail("C18", "answers", "%s holds %d answers of the database that it neither reads nor closes", p.Name, n)
	}
	if n := h.Busy - was.Busy; n > 16 {
		f.fail("C18", "requests", "%s has %d requests to the database under way", p.Name, n)
	}
}

// portDue is when a mirror port must be listening.
func (f *fcWorld) portDue() int64 {
	if f.sc.Kind == "aleec" {
		return 2 * sec
	}
	if b := f.firstBuilt(); b < never {
		return b + 3*sec
	}
	return never
}

// ---- the run ----

func (f *fcWorld) troubles() (props string) {
	if len(f.sc.Infl) > 0 {
		props += " C07"
	}
	if len(f.sc.Clients) > 0 {
		props += " C12"
	}
	if f.hasDamaged() {
		props += " C13"
	}
	return
}

// priorLife runs the middleware on other subscriptions and kills it: what it
// leaves behind is on the disk.
func (f *fcWorld) priorLife() {
	sc := f.sc
	simrt.Fault("killed_and_restarted")
	simrt.FS().Put(sc.site().csv, csvOf(sc.Subs[:int(sc.P["prior"])%(len(sc.Subs)+1)]))
	f.installEngines()
	args := sc.args()
	p := simrt.Spawn("gosstrak-fc", args, mains["gosstrak-fc"])
	simrt.Sleep(sc.P["prior"])
	if p.Exited {
		f.fail("C03 C11"+f.troubles(), "crash:"+crashSite(p), "the filtering core ended by itself at %s: %s%s", tm(p.ExitTime), p.ExitMsg, shortStack(p.Stack))
		return
	}
	simrt.KillProc(p, "killed")
	simrt.Sleep(50 * ms)
	resetAll()
	f.calls, f.builds, f.begun = nil, nil, nil
	f.insts = map[string]int{}
}

func runFC(w *world) {
	f := &fcWorld{world: w, broken: -1, openAt: never}
	sc := w.sc
	nw := simrt.Net()
	nw.MaxSeg = int(sc.P["seg"])
	nw.MaxDelay = sc.P["delay"]
	nw.Short = sc.P["short"] == 1
	nw.MaxAccepted = map[string]int{sc.site().mgmt: int(sc.P["maxconn"])}
	if sc.P["window"] > 0 {
		nw.Window = int(sc.P["window"])
	}
	stat := sc.P["stat"] == 1
	iv := sc.P["interval"] * sec
	if sc.P["cache"] == 1 {
		simrt.FS().Put("/var/tmp/gosstrak-fc-cache/left", []byte("x"))
	}
	if sc.P["prior"] > 0 {
		f.priorLife()
	}
	nw.DialHook = func(addr string, n int64) (int64, error) {
		if addr != sc.site().reader {
			return 0, nil
		}
		var d int64
		if m := sc.P["dial"]; m > 0 {
			d = int64(simrt.Choose(int(m/ms)+1)) * ms
		}
		f.dials = append(f.dials, dialRec{simrt.NowNS(), simrt.NowNS() + d})
		return d, nil
	}
	f.site = sc.site()
	simrt.HTTP().Servers[f.site.influx] = f.influx
	simrt.FS().Put(sc.site().csv, csvOf(sc.Subs))
	w.installEngines()
	args := sc.args()
	if stat {
		args = append(args, "--enableStat")
	}
	tStart := simrt.NowNS()
	was := *simrt.HTTP() // what processes of before left
	fc := simrt.Spawn("gosstrak-fc", args, mains["gosstrak-fc"])
	simrt.Spawn("reader", []string{"reader"}, f.reader).NoStall = true
	for i := range sc.Clients {
		cl := &client{op: &sc.Clients[i], addr: f.site.mgmt, prop: "C12"}
		f.clients = append(f.clients, cl)
		simrt.Spawn(fmt.Sprintf("client%d", i), []string{"client"}, func() { f.client(cl) }).NoStall = true
	}
	maxOpen := sc.P["open"]
	bound := 2*sec + 4*sc.P["delay"]
	limit := max64(150*sec, sc.P["cap"])
	// run until the script is through and everything had time to happen
	var settled int64
	for {
		simrt.Sleep(25 * ms)
		away := f.pauseTill > simrt.NowNS()+400*sec
		for _, cl := range f.clients {
			away = away || cl.op.S == "hours" && !cl.done && cl.err == "" && f.scripted && simrt.NowNS() > cl.begin+150*sec
		}
		if away && !fc.Exited {
			simrt.Sleep(10 * sec)
		}
		now := simrt.NowNS()
		if fc.Exited {
			if settled == 0 {
				settled = now
			}
			if now > settled+sc.P["delay"]+200*ms {
				break
			}
			continue
		}
		if now > limit {
			break
		}
		idle := false
		switch {
		case f.openAt == never && maxOpen < 0:
			idle = now > 12*sec
		case f.conn != nil && f.scripted:
			idle = true
			if f.broken < 0 && f.conn.PeerConsumed() < f.sent {
				idle = false
				// a writer that does not get through is judged below
				if len(f.delivs) > 0 && now > max64(f.pauseTill, f.delivs[len(f.delivs)-1].at)+20*sec {
					idle = true
				}
			}
		case f.conn == nil && f.firstBuilt() < never && f.openAt < never && now > max64(f.firstBuilt(), f.openAt)+20*sec:
			idle = true // never connected
		case f.conn != nil && !f.scripted && len(f.delivs) > 0 && now > max64(f.pauseTill, f.delivs[len(f.delivs)-1].at)+20*sec:
			idle = true
		}
		for _, cl := range f.clients {
			if !cl.done && cl.err == "" && now < cl.begin+cl.limit()+10*sec {
				idle = false
			}
		}
		if !idle {
			settled = 0
			continue
		}
		if settled == 0 {
			settled = now
		}
		quiet := bound + 3500*ms
		if stat {
			quiet += 2*iv + 500*ms
			if h := f.ixHealthyFrom(); h < never && h+15*sec+2*iv < limit-30*sec && now < h+12*sec+2*iv {
				continue
			}
		}
		if now > settled+quiet {
			break
		}
	}
	tEnd := simrt.NowNS()
	f.judgeLeft(fc, was)
	f.judgeFC(fc, tStart, tEnd, bound, iv)
}

func (f *fcWorld) judgeFC(fc *simrt.Proc, tStart, tEnd, bound, iv int64) {
	sc := f.sc
	stat := sc.P["stat"] == 1
	tr := f.troubles()
	var busy int64 // what the engines took in total
	for _, c := range f.calls {
		t1 := c.T1
		if !c.Done {
			t1 = tEnd
		}
		busy += t1 - c.T0
	}
	bound += busy
	brokenAt := never
	if f.broken >= 0 {
		brokenAt = f.brokenAt
		if brokenAt < 0 { // the writer could not get through
			brokenAt = tEnd
		}
	}
	// the end of the process
	if fc.Exited && fc.ExitTime < brokenAt && !(f.broken >= 0 && f.brokenNoticed(fc.ExitTime)) {
		props := "C01 C03 C09 C11" + tr
		if stat && len(sc.Infl) == 0 {
			props += " C08"
		}
		if f.hasBad("") {
			props += " C14"
		}
		if strings.Contains(fc.Stack, "spdystream") {
			props = "C12"
		}
		f.fail(props, "crash:"+crashSite(fc), "the filtering core ended by itself at %s: %s%s", tm(fc.ExitTime), fc.ExitMsg, shortStack(fc.Stack))
	}
	if fc.Exited && f.broken >= 0 && fc.ExitCode == 0 {
		f.fail("C10", "exit0", "the reader session was broken (%s) and the filtering core ended successfully", badName[f.broken])
	}
	if fc.OOM && !strings.Contains(fc.Stack, "spdystream") && (f.broken == badShort || f.broken == badHuge) {
		f.fail("C10", "absurd-allocation", "the reader session was broken (%s) and the filtering core asked for the memory: %s%s", badName[f.broken], fc.ExitMsg, shortStack(fc.Stack))
	}
	if f.broken >= 0 && f.brokenAt > 0 && f.conn != nil {
		simrt.Probe("broken:" + badName[f.broken])
		at := f.brokenAt
		if f.broken <= badType {
			for _, d := range f.delivs {
				at = max64(at, d.at)
			}
		}
		if !fc.Exited && tEnd > at+bound+3*sec || fc.Exited && fc.ExitTime > at+bound+3*sec {
			f.fail("C10", "nofail:"+badName[f.broken], "the reader session was broken (%s) at %s and the filtering core has not ended by %s", badName[f.broken], tm(at), tm(tEnd))
		}
	}
	// startup
	if !fc.Exited && tEnd > tStart+15*sec {
		f.judgeBegun("C03 C11 C01")
	}
	fb := f.firstBuilt()
	if len(f.dials) > 0 && f.dials[0].at < fb {
		f.fail("C11", "early-dial", "the reader was dialled at %s, before any engine was built (%s)", tm(f.dials[0].at), tm(fb))
	}
	alive := func(t int64) bool { return !fc.Exited || fc.ExitTime > t }
	lim := fb + 2*sec + delta
	if fb < never && alive(lim) && tEnd > lim && (len(f.dials) == 0 || f.dials[0].at > lim) {
		f.fail("C03 C11"+tr, "late-dial", "the first engine was built at %s and the reader has not been dialled by %s", tm(fb), tm(lim))
	}
	gap := 2*sec + sc.P["dial"] + delta
	for i, d := range f.dials {
		if f.openAt <= d.answered+ms {
			continue
		}
		simrt.Fault("reader_refuses")
		next := never
		if i+1 < len(f.dials) {
			next = f.dials[i+1].at
		}
		if next > d.at+gap && alive(d.at+gap) && tEnd > d.at+gap {
			f.fail("C11", "retry", "the reader refused a connection at %s and was dialled next at %s", tm(d.at), tm(next))
		}
	}
	if f.openAt < never && fb < never {
		lim := max64(f.openAt+gap+delta, fb+2*sec+sc.P["dial"]+2*delta)
		if alive(lim) && tEnd > lim && (len(f.accepted) == 0 || f.accepted[0] > lim) {
			f.fail("C11", "no-session", "the reader was reachable at %s and an engine built at %s, but there is no session at %s", tm(f.openAt), tm(fb), tm(lim))
		}
	}
	if len(f.accepted) > 1 {
		f.fail("C11 C09", "sessions", "the filtering core opened %d sessions with the reader", len(f.accepted))
	}
	f.judgeMessages(fc, tEnd, bound, brokenAt, tr)
	f.judgeClients(fc, tEnd, brokenAt)
	if stat {
		f.judgePoints(fc, tStart, tEnd, iv, brokenAt)
	}
}

// brokenNoticed: the break had been delivered at a time.
func (f *fcWorld) brokenNoticed(t int64) bool {
	if f.brokenAt >= 0 && t >= f.brokenAt || f.closingAt > 0 && t >= f.closingAt {
		return true
	}
	for _, d := range f.delivs {
		if f.broken < badFin && f.brokenOff > 0 && d.at <= t && d.total >= f.brokenOff-9 {
			return true
		}
	}
	return false
}

// asksKeepalives tells if the body of a SET_READER_CONFIG message has a
// KeepaliveSpec for periodic keepalives.
func asksKeepalives(body []byte) bool {
	if len(body) < 1 {
		return false
	}
	for p := body[1:]; len(p) >= 4; {
		n := int(binary.BigEndian.Uint16(p[2:]))
		if n < 4 || n > len(p) {
			return false
		}
		if binary.BigEndian.Uint16(p)&0x3ff == 220 {
			return n == 9 && p[4] == 1 && binary.BigEndian.Uint32(p[5:]) > 0
		}
		p = p[n:]
	}
	return false
}

func (f *fcWorld) judgeMessages(fc *simrt.Proc, tEnd, bound, brokenAt int64, tr string) {
	sc := f.sc
	// what must be acted on: complete messages before the break
	upto := tEnd
	if fc.Exited {
		upto = fc.ExitTime
	}
	due := func(m *rdMsg) bool { return f.broken < 0 && f.deliveredAt(m.end)+bound < upto }
	// replies
	var want []*rdMsg
	for _, m := range f.msgs {
		if m.kind == "ka" || m.kind == "ren" {
			want = append(want, m)
		}
	}
	for i, r := range f.replies {
		if i >= len(want) {
			f.fail("C09 C10", "extra-reply", "the reader was sent %d replies to %d messages that need one", len(f.replies), len(want))
			break
		}
		m := want[i]
		typ := map[string]uint16{"ka": 1096, "ren": 1027}[m.kind]
		if r.typ != typ {
			f.fail("C09", "wrong-reply", "reply %d to a %q message has type %d, want %d", i, m.kind, r.typ, typ)
			break
		}
		// messages are numbered from the configured identifier on
		first := sc.site().firstID
		if first == 0 {
			first = 1000
		}
		if r.id < first || i == 0 && r.id != first {
			f.fail("C09", "reply-id", "reply %d has the identifier %d, those of this installation start from %d", i, r.id, first)
			break
		}
		if m.kind == "ren" && !asksKeepalives(r.body) {
			f.fail("C09", "reply-config", "reply %d to a %q message does not ask for periodic keepalives: %x", i, m.kind, r.body)
			break
		}
		at := f.deliveredAt(m.end)
		if at > r.at {
			f.fail("C09 C10", "early-reply", "message %q was answered at %s before it was delivered completely (%s)", m.kind, tm(r.at), tm(at))
		}
		if r.at > at+bound {
			f.fail("C09"+tr, "late-reply", "message %q delivered at %s was answered only at %s", m.kind, tm(at), tm(r.at))
		}
	}
	if f.badReply != "" && f.broken < 0 && !fc.Exited {
		f.fail("C09", "bad-reply", "%s", f.badReply)
	}
	if len(f.replies) < len(want) {
		if m := want[len(f.replies)]; due(m) {
			f.fail("C09"+tr, "no-reply", "message %q (%d of those to be answered), delivered at %s, is not answered by %s", m.kind, len(f.replies), tm(f.deliveredAt(m.end)), tm(upto))
		}
	}
	// tags
	pos := map[string]int{}
	var msgOf []*rdMsg
	var order []int
	for _, m := range f.msgs {
		for _, t := range m.tags {
			pos[keyOf(sc.Tags[t].PC, sc.Tags[t].ID)] = len(order)
			order = append(order, t)
			msgOf = append(msgOf, m)
		}
	}
	last := map[string]int{}
	searched := map[int]map[string]bool{}
	hi := -1
	for _, c := range f.calls {
		p, ok := pos[c.Key]
		if !ok {
			f.fail("C01 C09 C10", "invented", "engine %s searched %s, which is in no complete message", c.Eng, c.Key)
			continue
		}
		if at := f.deliveredAt(msgOf[p].end); c.T0 < at {
			f.fail("C09 C10", "early-tag", "tag %d was searched at %s before its report was delivered completely (%s)", p, tm(c.T0), tm(at))
		}
		if at := f.deliveredAt(msgOf[p].end); c.T0 > at+bound {
			f.fail("C09"+tr, "late-tag", "tag %d delivered at %s was searched only at %s", p, tm(at), tm(c.T0))
		}
		if l, ok := last[c.Eng]; ok && p == l {
			f.fail("C09 C06 C10", "tag-twice", "tag %d was searched twice by %s", p, c.Eng)
		} else if ok && p < l {
			f.fail("C09", "tag-order", "%s searched tag %d after tag %d", c.Eng, p, l)
		}
		last[c.Eng] = p
		if p < hi {
			f.fail("C09", "tag-order", "tag %d was searched after tag %d", p, hi)
		}
		if p > hi {
			hi = p
		}
		if searched[p] == nil {
			searched[p] = map[string]bool{}
		}
		searched[p][c.Eng] = true
		if c.Done {
			f.judge(c.Eng, &sc.Tags[order[p]], c.ans, nil, fmt.Sprintf("tag %d at %s", p, tm(c.T0)))
		}
	}
	for p, m := range msgOf {
		if searched[p] == nil && (due(m) || p < hi) {
			f.fail("C01 C09 C11"+tr, "tag-lost", "tag %d (%s), delivered at %s, was searched by no engine by %s", p, &sc.Tags[order[p]], tm(f.deliveredAt(m.end)), tm(upto))
			break
		}
		if searched[p] != nil {
			simrt.Probe("fc_tag")
		}
	}
	if f.conn != nil && f.broken < 0 && !fc.Exited && !f.scripted {
		f.fail("C09"+tr, "stuck-reader", "the filtering core does not take the reader's messages: %s", strings.Join(simrt.ProcGs(fc), "; "))
	}
}

func (f *fcWorld) judgeClients(fc *simrt.Proc, tEnd, brokenAt int64) {
	for i, cl := range f.clients {
		if fc != nil && fc.Exited {
			return
		}
		if cl.op.K != "good" && !(cl.err == "the port is not listening") {
			continue
		}
		if cl.err != "" {
			f.fail("C12", "client", "client %d (%s): %s", i, cl.op.K, cl.err)
		} else if cl.started && !cl.done && tEnd > cl.begin+cl.limit() {
			f.fail("C12", "client-hangs", "client %d, connected at %s, is not through at %s", i, tm(cl.begin), tm(tEnd))
		}
	}
}

const epochNS = 1_700_000_000_000_000_000

func (f *fcWorld) judgePoints(fc *simrt.Proc, tStart, tEnd, iv, brokenAt int64) {
	upto := tEnd
	if fc.Exited {
		upto = fc.ExitTime
	}
	// recovery: the reports of an interval after the trouble arrive
	h := f.ixHealthyFrom()
	if h < never {
		h = max64(h, tStart)
		lim := h + 10*sec + 2*iv
		if h == 0 {
			lim = 2*iv + 2*sec
		}
		if upto > lim {
			n := 0
			for _, p := range f.points {
				if p.at >= h && p.at <= lim && p.m == "traffic" {
					n++
				}
			}
			if n == 0 {
				pr := "C08"
				if h > 0 {
					pr = "C07"
				}
				f.fail(pr, "no-statistics", "the statistics database is healthy since %s but no statistics have reached it by %s", tm(h), tm(lim))
			} else if h > 0 {
				simrt.Probe("statistics_recovered")
			}
		}
	}
	for i := range f.points {
		p := &f.points[i]
		if e := p.foreign(); e != "" {
			f.fail("C08", "foreign", "a %s point carries %s, which belongs to another report: %v %v", p.m, e, p.tags, p.fields)
		}
		if !p.healthy {
			continue
		}
		if ts := p.ts - epochNS; len(f.sc.Infl) == 0 && (ts > p.at || ts < p.at-sec) {
			f.fail("C08", "timestamp", "a %s point that arrived at %s carries the time %s", p.m, tm(p.at), tm(ts))
		}
		switch p.m {
		case "traffic":
			n, ok1 := p.num("incoming_events")
			m, ok2 := p.num("matched_events")
			if !ok1 || !ok2 || prio[p.tags["engine"]] == 0 && p.tags["engine"] != "LegacyEngine" {
				f.fail("C08", "traffic-point", "a traffic point has tags %v and fields %v", p.tags, p.fields)
				break
			}
			q, ok3 := p.num("matching_probability")
			if n == 0 && ok3 && q != 0 {
				f.fail("C08", "percentage", "a traffic point without events has a percentage of %q", p.fields["matching_probability"])
			}
			if n > 0 && (!ok3 || math.Abs(q-m/n*100) > 1e-6) {
				f.fail("C08", "percentage", "a traffic point for %v events, %v matches has a percentage of %q", n, m, p.fields["matching_probability"])
			}
		case "throughput":
			x, ok := p.num("event_per_us")
			if _, known := prio[p.tags["engine"]]; !ok || !known || x <= 0 {
				f.fail("C08", "throughput-point", "a throughput point has tags %v and fields %v", p.tags, p.fields)
			}
		case "engine":
			x, ok := p.num("selected")
			if !ok || x < 0 || x > 3 || x != math.Trunc(x) {
				f.fail("C08", "engine-point", "an engine point has fields %v", p.fields)
			}
			// a single engine leaves no doubt about which is serving
			var only []string
			for _, n := range engineNames() {
				if f.sc.P["build."+n] >= 0 {
					only = append(only, n)
				}
			}
			if len(only) == 1 && len(f.sc.Infl) == 0 && f.firstBuilt() < p.at-delta {
				if sel := map[string]float64{"LegacyEngine": 0, "List": 1, "PatriciaTrie": 2, "SplayTree": 3}[only[0]]; ok && x != sel && p.ts-epochNS > f.firstBuilt()+delta {
					f.fail("C08", "engine-selected", "only %s is deployed but a selection point says %v", only[0], x)
				}
			}
		default:
			f.fail("C08", "unknown-point", "a point of measurement %q", p.m)
		}
	}
	if len(f.sc.Infl) > 0 || fc.Exited {
		return
	}
	// a healthy database has every report exactly once
	sums := map[string][2]float64{}
	count := map[string]int{}
	thr := map[string]int{}
	var ticks int
	for _, p := range f.points {
		switch p.m {
		case "traffic":
			n, _ := p.num("incoming_events")
			m, _ := p.num("matched_events")
			s := sums[p.tags["engine"]]
			sums[p.tags["engine"]] = [2]float64{s[0] + n, s[1] + m}
			count[p.tags["engine"]]++
			if n > 0 {
				thr[p.tags["engine"]]++
			}
		case "throughput":
			thr[p.tags["engine"]]--
		case "engine":
			ticks++
		}
	}
	for _, e := range engineNames() {
		var n, m float64
		var busyNS int64
		quiet := true
		for _, c := range f.calls {
			if c.Eng != e {
				continue
			}
			n++
			busyNS += c.T1 - c.T0
			if c.Matched {
				m++
			}
			if c.T1 > tEnd-iv-sec {
				quiet = false
			}
		}
		if !quiet {
			continue
		}
		if s := sums[e]; s[0] != n || s[1] != m {
			f.fail("C08", "sums", "%s searched %v reads, %v matched, but the traffic points in the statistics database add up to %v and %v", e, n, m, s[0], s[1])
		}
		// intervals since its generator was made
		lo, hi := (tEnd-tStart-sec)/iv-1, (tEnd-tStart)/iv
		if int64(count[e]) < lo || int64(count[e]) > hi {
			f.fail("C08", "intervals", "%s has %d traffic points after %s of intervals of %s", e, count[e], tm(tEnd-tStart), tm(iv))
		}
		if f.sc.Sched.Gran == 0 && busyNS > 1_000_000*int64(count[e]) && thr[e] > 0 {
			f.fail("C08", "throughput-missing", "%s: %d busy intervals have no throughput point", e, thr[e])
		}
		if thr[e] < 0 {
			f.fail("C08", "throughput-twice", "%s: there are %d throughput points more than busy intervals", e, -thr[e])
		}
	}
	if lo := (tEnd-max64(f.firstBuilt(), tStart))/iv - 2; int64(ticks) < lo {
		f.fail("C08", "selections", "%d engine selection points after %s of intervals of %s", ticks, tm(tEnd-tStart), tm(iv))
	}
}

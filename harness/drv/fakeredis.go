package main

// A small in-process Redis / Redis Cluster stand-in speaking RESP2. It keeps sorted sets and
// strings, runs Lua scripts atomically (lua.go), hands out SCAN results in tiny pages with
// duplicates, and (in cluster mode) enforces slot ownership exactly like a real cluster:
// MOVED for foreign slots, CROSSSLOT for multi-slot commands and scripts.

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

type rerr string // error reply
type rstatus string

type zset struct {
	m      map[string]float64
	sorted []zent
	dirty  bool
}
type zent struct {
	id string
	s  float64
}

func (z *zset) list() []zent {
	if z.dirty || len(z.sorted) != len(z.m) {
		z.sorted = z.sorted[:0]
		for k, v := range z.m {
			z.sorted = append(z.sorted, zent{k, v})
		}
		sort.Slice(z.sorted, func(i, j int) bool {
			if z.sorted[i].s != z.sorted[j].s {
				return z.sorted[i].s < z.sorted[j].s
			}
			return z.sorted[i].id < z.sorted[j].id
		})
		z.dirty = false
	}
	return z.sorted
}

type rnode struct {
	idx    int
	lo, hi int
	ln     net.Listener
	addr   string
}

type FakeRedis struct {
	mu      sync.Mutex
	data    map[string]any
	ver     map[string]int64
	nodes   []*rnode
	cluster bool
	scripts map[string]*lprog
	Page    int
	conns   map[net.Conn]bool
	nconn   int64

	// Hook is called (without the lock) before a data command; a non-empty result is sent as error
	// and the command is not executed. After is called after it was executed; a non-empty result
	// replaces the reply.
	hookMu      sync.Mutex
	Hook        func(cmd []string) string
	After       func(cmd []string) string
	Ping        func() bool // set before the first connection
	Unsupported atomic.Value
	Violations  []string // commands real Redis would refuse are simply refused; kept for diagnosis
	slots       map[int]bool
}

func NewFakeRedis(shards int) (*FakeRedis, error) {
	f := &FakeRedis{data: map[string]any{}, ver: map[string]int64{}, scripts: map[string]*lprog{}, Page: 3, conns: map[net.Conn]bool{}}
	n := shards
	if n <= 0 {
		n = 1
	} else {
		f.cluster = true
	}
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		nd := &rnode{idx: i, lo: 16384 * i / n, hi: 16384*(i+1)/n - 1, ln: ln, addr: ln.Addr().String()}
		f.nodes = append(f.nodes, nd)
	}
	for _, nd := range f.nodes {
		go f.accept(nd)
	}
	return f, nil
}

func (f *FakeRedis) URI() string {
	u := "redis://" + f.nodes[0].addr
	if f.cluster {
		for i, nd := range f.nodes[1:] {
			if i == 0 {
				u += "?addr=" + nd.addr
			} else {
				u += "&addr=" + nd.addr
			}
		}
	}
	return u
}

func (f *FakeRedis) SetHooks(before, after func(cmd []string) string) {
	f.hookMu.Lock()
	f.Hook, f.After = before, after
	f.hookMu.Unlock()
}

// Reset drops all data (not the loaded scripts).
func (f *FakeRedis) Reset() {
	f.mu.Lock()
	f.data = map[string]any{}
	f.mu.Unlock()
}

// Clone / Restore give cheap snapshots for schedule exploration.
func (f *FakeRedis) Clone() map[string]any {
	f.mu.Lock()
	defer f.mu.Unlock()
	return cloneData(f.data)
}
func (f *FakeRedis) Restore(d map[string]any) {
	f.mu.Lock()
	f.data = cloneData(d)
	f.mu.Unlock()
}
func cloneData(d map[string]any) map[string]any {
	r := map[string]any{}
	for k, v := range d {
		if z, ok := v.(*zset); ok {
			n := &zset{m: map[string]float64{}, dirty: true}
			for a, b := range z.m {
				n.m[a] = b
			}
			r[k] = n
		} else {
			r[k] = v
		}
	}
	return r
}

func (f *FakeRedis) Keys() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	var ks []string
	for k := range f.data {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (f *FakeRedis) PutForeign(key, val string) {
	f.mu.Lock()
	f.data[key] = val
	f.mu.Unlock()
}

func (f *FakeRedis) Foreign(key string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	s, _ := f.data[key].(string)
	return s
}

func (f *FakeRedis) Close() {
	for _, n := range f.nodes {
		n.ln.Close()
	}
	f.mu.Lock()
	for c := range f.conns {
		c.Close()
	}
	f.mu.Unlock()
}

func (f *FakeRedis) accept(nd *rnode) {
	for {
		c, err := nd.ln.Accept()
		if err != nil {
			return
		}
		f.mu.Lock()
		f.conns[c] = true
		f.mu.Unlock()
		go f.serve(nd, c)
	}
}

type rconn struct {
	nd    *rnode
	multi bool
	q     [][]string
	watch map[string]int64
	ask   bool
}

func (f *FakeRedis) serve(nd *rnode, c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	w := bufio.NewWriter(c)
	rc := &rconn{nd: nd}
	for {
		args, err := readCmd(r)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		rep := f.dispatch(rc, args)
		writeReply(w, rep)
		if r.Buffered() == 0 {
			if w.Flush() != nil {
				return
			}
		}
		if strings.EqualFold(args[0], "QUIT") {
			w.Flush()
			return
		}
	}
}

func readCmd(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if line == "" {
		return nil, nil
	}
	if line[0] != '*' {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	out := make([]string, n)
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		h = strings.TrimRight(h, "\r\n")
		if len(h) == 0 || h[0] != '$' {
			return nil, errors.New("bad bulk")
		}
		l, err := strconv.Atoi(h[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out[i] = string(b[:l])
	}
	return out, nil
}

func writeReply(w *bufio.Writer, v any) {
	switch x := v.(type) {
	case nil:
		w.WriteString("$-1\r\n")
	case nilArr:
		w.WriteString("*-1\r\n")
	case rerr:
		w.WriteString("-" + string(x) + "\r\n")
	case rstatus:
		w.WriteString("+" + string(x) + "\r\n")
	case int:
		fmt.Fprintf(w, ":%d\r\n", x)
	case int64:
		fmt.Fprintf(w, ":%d\r\n", x)
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x)
	case []any:
		fmt.Fprintf(w, "*%d\r\n", len(x))
		for _, e := range x {
			writeReply(w, e)
		}
	case []string:
		fmt.Fprintf(w, "*%d\r\n", len(x))
		for _, e := range x {
			writeReply(w, e)
		}
	default:
		w.WriteString("-ERR fake: bad reply type\r\n")
	}
}

type nilArr struct{}

func (f *FakeRedis) dispatch(rc *rconn, a []string) any {
	name := strings.ToUpper(a[0])
	switch name {
	case "HELLO":
		return rerr("ERR unknown command 'HELLO'")
	case "CLIENT", "SELECT", "AUTH", "READONLY", "READWRITE", "QUIT", "ASKING":
		return rstatus("OK")
	case "PING":
		if f.Ping != nil && !f.Ping() {
			return rerr("ERR not ready")
		}
		return rstatus("PONG")
	case "COMMAND":
		return []any{}
	case "INFO":
		return "redis_version:6.0.0\r\n"
	case "CLUSTER":
		return f.clusterCmd(a)
	case "SCRIPT":
		return f.scriptCmd(a)
	case "MULTI":
		rc.multi, rc.q = true, nil
		return rstatus("OK")
	case "DISCARD":
		rc.multi, rc.watch = false, nil
		return rstatus("OK")
	case "UNWATCH":
		rc.watch = nil
		return rstatus("OK")
	}
	if name == "EVALSHA" && len(a) > 1 {
		f.mu.Lock()
		_, ok := f.scripts[strings.ToLower(a[1])]
		f.mu.Unlock()
		if !ok {
			return rerr("NOSCRIPT No matching script. Please use EVAL.")
		}
	}
	if rc.multi && name != "EXEC" {
		rc.q = append(rc.q, a)
		return rstatus("QUEUED")
	}
	f.hookMu.Lock()
	before, after := f.Hook, f.After
	f.hookMu.Unlock()
	if before != nil {
		if e := before(a); e != "" {
			return rerr(e)
		}
	}
	f.mu.Lock()
	var rep any
	switch name {
	case "WATCH":
		if rc.watch == nil {
			rc.watch = map[string]int64{}
		}
		for _, k := range a[1:] {
			rc.watch[k] = f.ver[k]
		}
		rep = rstatus("OK")
	case "EXEC":
		rc.multi = false
		ok := true
		for k, v := range rc.watch {
			if f.ver[k] != v {
				ok = false
			}
		}
		rc.watch = nil
		if !ok {
			rep = nilArr{}
		} else {
			rs := []any{}
			for _, q := range rc.q {
				rs = append(rs, f.exec(rc.nd, q, -1))
			}
			rep = rs
		}
	default:
		rep = f.exec(rc.nd, a, -1)
	}
	f.mu.Unlock()
	if after != nil {
		if e := after(a); e != "" {
			return rerr(e)
		}
	}
	return rep
}

func (f *FakeRedis) clusterCmd(a []string) any {
	if !f.cluster {
		return rerr("ERR This instance has cluster support disabled")
	}
	switch strings.ToUpper(a[1]) {
	case "SLOTS":
		out := []any{}
		for _, n := range f.nodes {
			h, p, _ := net.SplitHostPort(n.addr)
			pi, _ := strconv.Atoi(p)
			out = append(out, []any{n.lo, n.hi, []any{h, pi, fmt.Sprintf("%040d", n.idx)}})
		}
		return out
	case "INFO":
		return "cluster_state:ok\r\n"
	case "KEYSLOT":
		return keySlot(a[2])
	}
	return rerr("ERR Unknown CLUSTER subcommand")
}

func (f *FakeRedis) scriptCmd(a []string) any {
	switch strings.ToUpper(a[1]) {
	case "LOAD":
		f.mu.Lock()
		defer f.mu.Unlock()
		sha, err := f.load(a[2])
		if err != nil {
			return rerr("ERR Error compiling script " + strings.ReplaceAll(err.Error(), "\n", " "))
		}
		return sha
	case "EXISTS":
		f.mu.Lock()
		defer f.mu.Unlock()
		out := []any{}
		for _, s := range a[2:] {
			if _, ok := f.scripts[strings.ToLower(s)]; ok {
				out = append(out, 1)
			} else {
				out = append(out, 0)
			}
		}
		return out
	case "FLUSH":
		f.mu.Lock()
		defer f.mu.Unlock()
		f.scripts = map[string]*lprog{}
		return rstatus("OK")
	}
	return rerr("ERR Unknown SCRIPT subcommand")
}

func (f *FakeRedis) load(src string) (string, error) {
	h := sha1.Sum([]byte(src))
	sha := hex.EncodeToString(h[:])
	if _, ok := f.scripts[sha]; ok {
		return sha, nil
	}
	p, err := luaParse(src)
	if err != nil {
		return "", err
	}
	f.scripts[sha] = p
	return sha, nil
}

var crcTab = func() [256]uint16 {
	var t [256]uint16
	for i := range t {
		c := uint16(i) << 8
		for j := 0; j < 8; j++ {
			if c&0x8000 != 0 {
				c = c<<1 ^ 0x1021
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return t
}()

func keySlot(k string) int {
	if i := strings.IndexByte(k, '{'); i >= 0 {
		if j := strings.IndexByte(k[i+1:], '}'); j > 0 {
			k = k[i+1 : i+1+j]
		}
	}
	var c uint16
	for i := 0; i < len(k); i++ {
		c = c<<8 ^ crcTab[byte(c>>8)^k[i]]
	}
	return int(c) % 16384
}

func keysOf(name string, a []string) []string {
	switch name {
	case "EVAL", "EVALSHA", "EVAL_RO", "EVALSHA_RO":
		if len(a) < 3 {
			return nil
		}
		n, _ := strconv.Atoi(a[2])
		if len(a) < 3+n {
			return nil
		}
		return a[3 : 3+n]
	case "DEL", "UNLINK", "EXISTS", "MGET", "WATCH", "TOUCH":
		return a[1:]
	case "MSET":
		var ks []string
		for i := 1; i < len(a); i += 2 {
			ks = append(ks, a[i])
		}
		return ks
	case "SCAN", "KEYS", "DBSIZE", "FLUSHDB", "FLUSHALL", "TIME", "RANDOMKEY":
		return nil
	case "RENAME", "RENAMENX":
		return a[1:3]
	case "ZUNIONSTORE", "ZINTERSTORE", "ZDIFFSTORE":
		n, _ := strconv.Atoi(a[2])
		return append([]string{a[1]}, a[3:3+n]...)
	case "ZUNION", "ZINTER", "ZDIFF":
		n, _ := strconv.Atoi(a[1])
		return a[2 : 2+n]
	case "ZRANGESTORE":
		return a[1:3]
	}
	if len(a) > 1 {
		return a[1:2]
	}
	return nil
}

// exec runs one command with the lock held. scriptSlot >= 0 when called from a script in cluster mode.
func (f *FakeRedis) exec(nd *rnode, a []string, scriptSlot int) any {
	name := strings.ToUpper(a[0])
	if f.cluster {
		slot := scriptSlot
		for _, k := range keysOf(name, a) {
			s := keySlot(k)
			if f.slots == nil {
				f.slots = map[int]bool{}
			}
			f.slots[s] = true
			if slot >= 0 && s != slot {
				if scriptSlot >= 0 {
					return rerr("ERR Script attempted to access keys that do not hash to the same slot")
				}
				return rerr("CROSSSLOT Keys in request don't hash to the same slot")
			}
			slot = s
			if s < nd.lo || s > nd.hi {
				for _, n := range f.nodes {
					if s >= n.lo && s <= n.hi {
						return rerr(fmt.Sprintf("MOVED %d %s", s, n.addr))
					}
				}
			}
		}
	}
	r := f.exec2(nd, name, a)
	if e, ok := r.(rerr); ok && strings.HasPrefix(string(e), "ERR unknown command") {
		f.Unsupported.Store(strings.Join(a, " "))
	}
	return r
}

// TakeSlots returns the hash slots of the keys named since the last call.
func (f *FakeRedis) TakeSlots() []int {
	f.mu.Lock()
	defer f.mu.Unlock()
	out := []int{}
	for s := range f.slots {
		out = append(out, s)
	}
	f.slots = nil
	sort.Ints(out)
	return out
}

func (f *FakeRedis) touch(k string) { f.ver[k]++ }

func (f *FakeRedis) z(k string, create bool) (*zset, bool) {
	v, ok := f.data[k]
	if !ok {
		if !create {
			return nil, true
		}
		z := &zset{m: map[string]float64{}}
		f.data[k] = z
		return z, true
	}
	z, ok := v.(*zset)
	return z, ok
}

const wrongType = rerr("WRONGTYPE Operation against a key holding the wrong kind of value")
const argErr = rerr("ERR wrong number of arguments")

func fmtFloat(v float64) string {
	switch {
	case math.IsInf(v, 1):
		return "inf"
	case math.IsInf(v, -1):
		return "-inf"
	}
	if v == math.Trunc(v) && math.Abs(v) < 1e17 {
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	return strconv.FormatFloat(v, 'g', 17, 64)
}

func parseFloat(s string) (float64, bool) {
	switch strings.ToLower(s) {
	case "inf", "+inf", "infinity", "+infinity":
		return math.Inf(1), true
	case "-inf", "-infinity":
		return math.Inf(-1), true
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(v) {
		return 0, false
	}
	return v, true
}

func parseBound(s string) (v float64, excl, ok bool) {
	if strings.HasPrefix(s, "(") {
		excl = true
		s = s[1:]
	}
	v, ok = parseFloat(s)
	return
}

func (f *FakeRedis) zadd(a []string) any {
	if len(a) < 4 {
		return argErr
	}
	i := 2
	nx, xx, gt, lt, ch, incr := false, false, false, false, false, false
loop:
	for ; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "NX":
			nx = true
		case "XX":
			xx = true
		case "GT":
			gt = true
		case "LT":
			lt = true
		case "CH":
			ch = true
		case "INCR":
			incr = true
		default:
			break loop
		}
	}
	rest := a[i:]
	if len(rest) == 0 || len(rest)%2 != 0 {
		return rerr("ERR syntax error")
	}
	for j := 0; j < len(rest); j += 2 {
		if _, ok := parseFloat(rest[j]); !ok {
			return rerr("ERR value is not a valid float")
		}
	}
	z, ok := f.z(a[1], true)
	if !ok {
		return wrongType
	}
	added, changed := 0, 0
	for j := 0; j < len(rest); j += 2 {
		s, _ := parseFloat(rest[j])
		id := rest[j+1]
		old, ex := z.m[id]
		if ex && nx || !ex && xx {
			continue
		}
		if incr {
			s += old
		}
		if ex && (gt && s <= old || lt && s >= old) {
			continue
		}
		if !ex {
			added++
		} else if old != s {
			changed++
		}
		z.m[id] = s
		z.dirty = true
	}
	f.touch(a[1])
	if len(z.m) == 0 {
		delete(f.data, a[1])
	}
	if incr {
		if v, ok := z.m[rest[1]]; ok {
			return fmtFloat(v)
		}
		return nil
	}
	if ch {
		return added + changed
	}
	return added
}

func (f *FakeRedis) zrem(k string, ids []string) any {
	z, ok := f.z(k, false)
	if !ok {
		return wrongType
	}
	if z == nil {
		return 0
	}
	n := 0
	for _, id := range ids {
		if _, ok := z.m[id]; ok {
			delete(z.m, id)
			z.dirty = true
			n++
		}
	}
	if n > 0 {
		f.touch(k)
	}
	if len(z.m) == 0 {
		delete(f.data, k)
	}
	return n
}

func withScores(es []zent, ws bool) any {
	out := []any{}
	for _, e := range es {
		out = append(out, e.id)
		if ws {
			out = append(out, fmtFloat(e.s))
		}
	}
	return out
}

func rangeIdx(l []zent, s1, s2 string, rev bool) ([]zent, any) {
	st, e1 := strconv.Atoi(s1)
	en, e2 := strconv.Atoi(s2)
	if e1 != nil || e2 != nil {
		return nil, rerr("ERR value is not an integer or out of range")
	}
	n := len(l)
	if st < 0 {
		st += n
	}
	if en < 0 {
		en += n
	}
	if st < 0 {
		st = 0
	}
	if en >= n {
		en = n - 1
	}
	if st > en || st >= n {
		return nil, nil
	}
	if rev {
		r := make([]zent, n)
		for i := range l {
			r[n-1-i] = l[i]
		}
		l = r
	}
	return append([]zent{}, l[st:en+1]...), nil
}

func rangeScore(l []zent, lo, hi string, rev bool) ([]zent, any) {
	a, ax, ok1 := parseBound(lo)
	b, bx, ok2 := parseBound(hi)
	if !ok1 || !ok2 {
		return nil, rerr("ERR min or max is not a float")
	}
	var out []zent
	for _, e := range l {
		if e.s < a || ax && e.s == a || e.s > b || bx && e.s == b {
			continue
		}
		out = append(out, e)
	}
	if rev {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out, nil
}

func limit(es []zent, off, cnt string) ([]zent, any) {
	o, e1 := strconv.Atoi(off)
	c, e2 := strconv.Atoi(cnt)
	if e1 != nil || e2 != nil {
		return nil, rerr("ERR value is not an integer or out of range")
	}
	if o < 0 || o >= len(es) {
		return nil, nil
	}
	es = es[o:]
	if c >= 0 && c < len(es) {
		es = es[:c]
	}
	return es, nil
}

func (f *FakeRedis) zrangeGeneric(name string, a []string) any {
	if len(a) < 4 {
		return argErr
	}
	z, ok := f.z(a[1], false)
	if !ok {
		return wrongType
	}
	var l []zent
	if z != nil {
		l = z.list()
	}
	rev, byscore, bylex, ws := false, false, false, false
	off, cnt := "", ""
	switch name {
	case "ZREVRANGE":
		rev = true
	case "ZRANGEBYSCORE":
		byscore = true
	case "ZREVRANGEBYSCORE":
		byscore, rev = true, true
	}
	for i := 4; i < len(a); i++ {
		switch strings.ToUpper(a[i]) {
		case "WITHSCORES":
			ws = true
		case "LIMIT":
			if i+2 >= len(a) {
				return rerr("ERR syntax error")
			}
			off, cnt = a[i+1], a[i+2]
			i += 2
		case "BYSCORE":
			byscore = true
		case "BYLEX":
			bylex = true
		case "REV":
			rev = true
		default:
			return rerr("ERR syntax error")
		}
	}
	if bylex {
		return rerr("ERR unknown command BYLEX (fake)")
	}
	var es []zent
	var er any
	if byscore {
		lo, hi := a[2], a[3]
		if rev {
			lo, hi = hi, lo
		}
		es, er = rangeScore(l, lo, hi, rev)
	} else {
		es, er = rangeIdx(l, a[2], a[3], rev)
	}
	if er != nil {
		return er
	}
	if cnt != "" {
		if es, er = limit(es, off, cnt); er != nil {
			return er
		}
	}
	return withScores(es, ws)
}

func (f *FakeRedis) exec2(nd *rnode, name string, a []string) any {
	need := func(n int) bool { return len(a) >= n }
	switch name {
	case "GET":
		if !need(2) {
			return argErr
		}
		v, ok := f.data[a[1]]
		if !ok {
			return nil
		}
		if s, ok := v.(string); ok {
			return s
		}
		return wrongType
	case "MGET":
		out := []any{}
		for _, k := range a[1:] {
			if s, ok := f.data[k].(string); ok {
				out = append(out, s)
			} else {
				out = append(out, nil)
			}
		}
		return out
	case "SET":
		if !need(3) {
			return argErr
		}
		_, ex := f.data[a[1]]
		get := false
		var old any
		for i := 3; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				if ex {
					return nil
				}
			case "XX":
				if !ex {
					return nil
				}
			case "GET":
				get = true
				if s, ok := f.data[a[1]].(string); ok {
					old = s
				}
			case "EX", "PX", "EXAT", "PXAT":
				i++
			}
		}
		f.data[a[1]] = a[2]
		f.touch(a[1])
		if get {
			return old
		}
		return rstatus("OK")
	case "SETNX":
		if _, ok := f.data[a[1]]; ok {
			return 0
		}
		f.data[a[1]] = a[2]
		f.touch(a[1])
		return 1
	case "GETSET":
		old, _ := f.data[a[1]].(string)
		_, ok := f.data[a[1]]
		f.data[a[1]] = a[2]
		f.touch(a[1])
		if !ok {
			return nil
		}
		return old
	case "GETDEL":
		old, ok := f.data[a[1]].(string)
		if !ok {
			return nil
		}
		delete(f.data, a[1])
		f.touch(a[1])
		return old
	case "MSET":
		for i := 1; i+1 < len(a); i += 2 {
			f.data[a[i]] = a[i+1]
			f.touch(a[i])
		}
		return rstatus("OK")
	case "INCR", "INCRBY", "DECR":
		d := int64(1)
		if name == "DECR" {
			d = -1
		}
		if name == "INCRBY" {
			d, _ = strconv.ParseInt(a[2], 10, 64)
		}
		s, _ := f.data[a[1]].(string)
		v, _ := strconv.ParseInt(s, 10, 64)
		v += d
		f.data[a[1]] = strconv.FormatInt(v, 10)
		f.touch(a[1])
		return v
	case "DEL", "UNLINK":
		n := 0
		for _, k := range a[1:] {
			if _, ok := f.data[k]; ok {
				delete(f.data, k)
				f.touch(k)
				n++
			}
		}
		return n
	case "EXISTS":
		n := 0
		for _, k := range a[1:] {
			if _, ok := f.data[k]; ok {
				n++
			}
		}
		return n
	case "TYPE":
		switch f.data[a[1]].(type) {
		case string:
			return rstatus("string")
		case *zset:
			return rstatus("zset")
		}
		return rstatus("none")
	case "EXPIRE", "PEXPIRE", "PERSIST":
		if _, ok := f.data[a[1]]; ok {
			return 1
		}
		return 0
	case "TTL", "PTTL":
		if _, ok := f.data[a[1]]; ok {
			return -1
		}
		return -2
	case "DBSIZE":
		n := 0
		for k := range f.data {
			if f.owns(nd, k) {
				n++
			}
		}
		return n
	case "FLUSHDB", "FLUSHALL":
		for k := range f.data {
			if f.owns(nd, k) {
				delete(f.data, k)
			}
		}
		return rstatus("OK")
	case "KEYS":
		out := []any{}
		for k := range f.data {
			if f.owns(nd, k) && globMatch(a[1], k) {
				out = append(out, k)
			}
		}
		return out
	case "SCAN":
		return f.scan(nd, a)
	case "RENAME":
		v, ok := f.data[a[1]]
		if !ok {
			return rerr("ERR no such key")
		}
		delete(f.data, a[1])
		f.data[a[2]] = v
		f.touch(a[1])
		f.touch(a[2])
		return rstatus("OK")
	case "ZADD":
		return f.zadd(a)
	case "ZINCRBY":
		if !need(4) {
			return argErr
		}
		return f.zadd([]string{"ZADD", a[1], "INCR", a[2], a[3]})
	case "ZREM":
		if !need(3) {
			return argErr
		}
		return f.zrem(a[1], a[2:])
	case "ZSCORE":
		if !need(3) {
			return argErr
		}
		z, ok := f.z(a[1], false)
		if !ok {
			return wrongType
		}
		if z == nil {
			return nil
		}
		if s, ok := z.m[a[2]]; ok {
			return fmtFloat(s)
		}
		return nil
	case "ZMSCORE":
		z, ok := f.z(a[1], false)
		if !ok {
			return wrongType
		}
		out := []any{}
		for _, id := range a[2:] {
			if z != nil {
				if s, ok := z.m[id]; ok {
					out = append(out, fmtFloat(s))
					continue
				}
			}
			out = append(out, nil)
		}
		return out
	case "ZCARD":
		z, ok := f.z(a[1], false)
		if !ok {
			return wrongType
		}
		if z == nil {
			return 0
		}
		return len(z.m)
	case "ZCOUNT":
		z, ok := f.z(a[1], false)
		if !ok {
			return wrongType
		}
		if z == nil {
			return 0
		}
		es, er := rangeScore(z.list(), a[2], a[3], false)
		if er != nil {
			return er
		}
		return len(es)
	case "ZRANK", "ZREVRANK":
		z, ok := f.z(a[1], false)
		if !ok {
			return wrongType
		}
		if z == nil {
			return nil
		}
		l := z.list()
		for i, e := range l {
			if e.id == a[2] {
				if name == "ZREVRANK" {
					return len(l) - 1 - i
				}
				return i
			}
		}
		return nil
	case "ZRANGE", "ZREVRANGE", "ZRANGEBYSCORE", "ZREVRANGEBYSCORE":
		return f.zrangeGeneric(name, a)
	case "ZRANGESTORE":
		r := f.zrangeGeneric("ZRANGE", append(append([]string{"ZRANGE"}, a[2:]...), "WITHSCORES"))
		l, ok := r.([]any)
		if !ok {
			return r
		}
		delete(f.data, a[1])
		for i := 0; i < len(l); i += 2 {
			f.zadd([]string{"ZADD", a[1], l[i+1].(string), l[i].(string)})
		}
		f.touch(a[1])
		return len(l) / 2
	case "ZPOPMIN", "ZPOPMAX":
		z, ok := f.z(a[1], false)
		if !ok {
			return wrongType
		}
		if z == nil {
			return []any{}
		}
		n := 1
		if len(a) > 2 {
			n, _ = strconv.Atoi(a[2])
		}
		l := append([]zent{}, z.list()...)
		if name == "ZPOPMAX" {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		if n < len(l) {
			l = l[:n]
		}
		for _, e := range l {
			f.zrem(a[1], []string{e.id})
		}
		return withScores(l, true)
	case "ZREMRANGEBYSCORE", "ZREMRANGEBYRANK":
		z, ok := f.z(a[1], false)
		if !ok {
			return wrongType
		}
		if z == nil {
			return 0
		}
		var es []zent
		var er any
		if name == "ZREMRANGEBYSCORE" {
			es, er = rangeScore(z.list(), a[2], a[3], false)
		} else {
			es, er = rangeIdx(z.list(), a[2], a[3], false)
		}
		if er != nil {
			return er
		}
		for _, e := range es {
			f.zrem(a[1], []string{e.id})
		}
		return len(es)
	case "TIME":
		return []any{"0", "0"}
	case "EVAL", "EVALSHA", "EVAL_RO", "EVALSHA_RO":
		return f.eval(nd, strings.TrimSuffix(name, "_RO"), a)
	}
	return rerr("ERR unknown command '" + a[0] + "'")
}

func (f *FakeRedis) owns(nd *rnode, k string) bool {
	if !f.cluster {
		return true
	}
	s := keySlot(k)
	return s >= nd.lo && s <= nd.hi
}

func (f *FakeRedis) eval(nd *rnode, name string, a []string) any {
	if len(a) < 3 {
		return argErr
	}
	var p *lprog
	if name == "EVAL" {
		sha, err := f.load(a[1])
		if err != nil {
			f.Unsupported.Store("script: " + err.Error())
			return rerr("ERR Error compiling script")
		}
		p = f.scripts[sha]
	} else {
		p = f.scripts[strings.ToLower(a[1])]
		if p == nil {
			return rerr("NOSCRIPT No matching script. Please use EVAL.")
		}
	}
	n, err := strconv.Atoi(a[2])
	if err != nil || n < 0 || len(a) < 3+n {
		return rerr("ERR Number of keys can't be greater than number of args")
	}
	keys, argv := a[3:3+n], a[3+n:]
	slot := -1
	if f.cluster && len(keys) > 0 {
		slot = keySlot(keys[0])
	}
	res, err := p.run(keys, argv, func(args []string) (lval, error) {
		r := f.exec(nd, args, slot)
		if e, ok := r.(rerr); ok {
			return nil, errors.New(string(e))
		}
		return toLua(r), nil
	})
	if err != nil {
		return rerr("ERR " + strings.NewReplacer("\n", " ", "\r", " ").Replace(err.Error()))
	}
	if len(res) == 0 {
		return nil
	}
	return fromLua(res[0])
}

func toLua(r any) lval {
	switch x := r.(type) {
	case nil:
		return false
	case nilArr:
		return false
	case int:
		return float64(x)
	case int64:
		return float64(x)
	case string:
		return x
	case rstatus:
		t := tbl()
		t.set("ok", string(x))
		return t
	case []any:
		vs := make([]lval, len(x))
		for i := range x {
			vs[i] = toLua(x[i])
		}
		return tbl(vs...)
	}
	return false
}

func fromLua(v lval) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return 1
		}
		return nil
	case float64:
		return int64(x) // Redis truncates Lua numbers
	case string:
		return x
	case *ltable:
		if e, ok := x.get("err").(string); ok {
			return rerr(e)
		}
		if e, ok := x.get("ok").(string); ok {
			return rstatus(e)
		}
		out := []any{}
		for i := 1; ; i++ {
			e := x.get(float64(i))
			if e == nil {
				break
			}
			out = append(out, fromLua(e))
		}
		return out
	}
	return nil
}

func khash(k string) uint64 {
	h := fnv.New32a()
	io.WriteString(h, k)
	return uint64(h.Sum32())
}

func (f *FakeRedis) scan(nd *rnode, a []string) any {
	cur, err := strconv.ParseUint(a[1], 10, 64)
	if err != nil {
		return rerr("ERR invalid cursor")
	}
	pat, typ := "*", ""
	for i := 2; i+1 < len(a); i += 2 {
		switch strings.ToUpper(a[i]) {
		case "MATCH":
			pat = a[i+1]
		case "TYPE":
			typ = strings.ToLower(a[i+1])
		}
	}
	type kh struct {
		k string
		h uint64
	}
	var ks []kh
	for k := range f.data {
		if f.owns(nd, k) {
			ks = append(ks, kh{k, khash(k)})
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].h != ks[j].h {
			return ks[i].h < ks[j].h
		}
		return ks[i].k < ks[j].k
	})
	out := []any{}
	emit := func(k string) {
		if typ != "" {
			_, isz := f.data[k].(*zset)
			if isz != (typ == "zset") {
				return
			}
		}
		if globMatch(pat, k) {
			out = append(out, k)
		}
	}
	i := 0
	for i < len(ks) && ks[i].h < cur {
		i++
	}
	if i > 0 && cur != 0 {
		emit(ks[i-1].k) // SCAN may return an element more than once
	}
	n := 0
	for i < len(ks) && (n < f.Page || i > 0 && ks[i].h == ks[i-1].h) {
		emit(ks[i].k)
		i++
		n++
	}
	next := "0"
	if i < len(ks) {
		next = strconv.FormatUint(ks[i].h, 10)
		if next == "0" {
			next = "1"
		}
	}
	return []any{next, out}
}

// globMatch is Redis' stringmatchlen.
func globMatch(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if globMatch(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			m := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						m = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					if s[0] >= lo && s[0] <= hi {
						m = true
					}
					p = p[2:]
				} else if p[0] == s[0] {
					m = true
				}
				p = p[1:]
			}
			if not {
				m = !m
			}
			if !m {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
		if len(s) == 0 {
			for len(p) > 0 && p[0] == '*' {
				p = p[1:]
			}
			break
		}
	}
	return len(p) == 0 && len(s) == 0
}

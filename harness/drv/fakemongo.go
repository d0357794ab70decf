package main

// A small in-process MongoDB stand-in (OP_MSG wire protocol, presented as a mongos so that read
// preferences travel with the commands). Supports what a queue storage needs: insert, update with
// upsert, delete, find/getMore, aggregate-count, distinct; a lagging view for reads that may go to
// a secondary; failure hooks.

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"go.mongodb.org/mongo-driver/v2/bson"
)

type mdoc = map[string]any

type mcoll struct {
	docs []mdoc          // insertion order
	idx  map[string]mdoc // "queue\x00id" -> doc for fast equality lookups
}

type FakeMongo struct {
	mu     sync.Mutex
	colls  map[string]*mcoll
	lagged map[string]*mcoll // view served to secondary-allowed reads, nil = up to date
	ln     net.Listener
	conns  map[net.Conn]bool
	ctr    uint64
	curs   map[int64][]any
	ncur   int64
	Batch  int // cap on documents per batch

	hookMu      sync.Mutex
	Hook        func(cmd string, doc mdoc) string
	After       func(cmd string, doc mdoc) string
	Ping        func() bool // set before the first connection
	Unsupported atomic.Value
}

func NewFakeMongo() (*FakeMongo, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	f := &FakeMongo{colls: map[string]*mcoll{}, ln: ln, conns: map[net.Conn]bool{}, curs: map[int64][]any{}, Batch: 1 << 30, ctr: 1}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			f.conns[c] = true
			f.mu.Unlock()
			go f.serve(c)
		}
	}()
	return f, nil
}

func (f *FakeMongo) URI() string {
	return "mongodb://" + f.ln.Addr().String() + "/?heartbeatFrequencyMS=60000"
}

func (f *FakeMongo) SetHooks(b, a func(cmd string, doc mdoc) string) {
	f.hookMu.Lock()
	f.Hook, f.After = b, a
	f.hookMu.Unlock()
}

func (f *FakeMongo) Reset() {
	f.mu.Lock()
	f.colls, f.lagged = map[string]*mcoll{}, nil
	f.mu.Unlock()
}

func (c *mcoll) clone() *mcoll {
	n := &mcoll{idx: map[string]mdoc{}}
	for _, d := range c.docs {
		x := cloneDoc(d)
		n.docs = append(n.docs, x)
		n.index(x)
	}
	return n
}

func dkey(d mdoc) (string, bool) {
	q, ok1 := d["queue"].(string)
	i, ok2 := d["id"].(string)
	return q + "\x00" + i, ok1 && ok2
}
func (c *mcoll) index(d mdoc) {
	if k, ok := dkey(d); ok {
		if _, dup := c.idx[k]; dup {
			c.idx[k] = nil
		} else {
			c.idx[k] = d
		}
	}
}

func cloneDoc(d mdoc) mdoc {
	r := mdoc{}
	for k, v := range d {
		if m, ok := v.(mdoc); ok {
			v = cloneDoc(m)
		}
		r[k] = v
	}
	return r
}

// Freeze makes secondary reads see the present content until Thaw.
func (f *FakeMongo) Freeze() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.lagged = map[string]*mcoll{}
	for k, c := range f.colls {
		f.lagged[k] = c.clone()
	}
}
func (f *FakeMongo) Thaw() { f.mu.Lock(); f.lagged = nil; f.mu.Unlock() }

func (f *FakeMongo) Clone() map[string]*mcoll {
	f.mu.Lock()
	defer f.mu.Unlock()
	r := map[string]*mcoll{}
	for k, c := range f.colls {
		r[k] = c.clone()
	}
	return r
}
func (f *FakeMongo) Restore(d map[string]*mcoll) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.colls = map[string]*mcoll{}
	for k, c := range d {
		f.colls[k] = c.clone()
	}
	f.lagged = nil
}

func (f *FakeMongo) Close() {
	f.ln.Close()
	f.mu.Lock()
	for c := range f.conns {
		c.Close()
	}
	f.mu.Unlock()
}

func (f *FakeMongo) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		h := make([]byte, 16)
		if _, err := io.ReadFull(r, h); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h))
		reqID := binary.LittleEndian.Uint32(h[4:])
		op := binary.LittleEndian.Uint32(h[12:])
		body := make([]byte, n-16)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		switch op {
		case 2004: // OP_QUERY hello
			rep, _ := bson.Marshal(helloDoc())
			out := make([]byte, 16+20, 36+len(rep))
			binary.LittleEndian.PutUint32(out[8:], reqID)
			binary.LittleEndian.PutUint32(out[12:], 1)
			binary.LittleEndian.PutUint32(out[32:], 1)
			out = append(out, rep...)
			binary.LittleEndian.PutUint32(out, uint32(len(out)))
			if _, err := c.Write(out); err != nil {
				return
			}
		case 2013:
			doc, name, err := parseMsg(body)
			var rep any
			if err != nil {
				rep = bson.M{"ok": 0.0, "errmsg": err.Error(), "code": 1}
			} else {
				rep = f.command(name, doc)
			}
			b, err := bson.Marshal(rep)
			if err != nil {
				b, _ = bson.Marshal(bson.M{"ok": 0.0, "errmsg": err.Error(), "code": 1})
			}
			out := make([]byte, 21, 21+len(b))
			binary.LittleEndian.PutUint32(out[8:], reqID)
			binary.LittleEndian.PutUint32(out[12:], 2013)
			out = append(out, b...)
			binary.LittleEndian.PutUint32(out, uint32(len(out)))
			if _, err := c.Write(out); err != nil {
				return
			}
		default:
			return
		}
	}
}

func helloDoc() bson.M {
	return bson.M{"ok": 1.0, "ismaster": true, "isWritablePrimary": true, "msg": "isdbgrid", "helloOk": true,
		"maxBsonObjectSize": int32(16777216), "maxMessageSizeBytes": int32(48000000), "maxWriteBatchSize": int32(100000),
		"minWireVersion": int32(0), "maxWireVersion": int32(21)}
}

func parseMsg(b []byte) (mdoc, string, error) {
	flags := binary.LittleEndian.Uint32(b)
	end := len(b)
	if flags&1 != 0 {
		end -= 4
	}
	p := 4
	doc := mdoc{}
	name := ""
	for p < end {
		kind := b[p]
		p++
		if kind == 0 {
			n := int(binary.LittleEndian.Uint32(b[p:]))
			raw := bson.Raw(b[p : p+n])
			es, err := raw.Elements()
			if err != nil {
				return nil, "", err
			}
			for i, e := range es {
				if i == 0 {
					name = e.Key()
				}
				v, err := rawVal(e.Value())
				if err != nil {
					return nil, "", err
				}
				doc[e.Key()] = v
			}
			p += n
		} else {
			n := int(binary.LittleEndian.Uint32(b[p:]))
			q := p + 4
			e := q
			for b[e] != 0 {
				e++
			}
			key := string(b[q:e])
			e++
			arr := []any{}
			for e < p+n {
				l := int(binary.LittleEndian.Uint32(b[e:]))
				d, err := rawDoc(bson.Raw(b[e : e+l]))
				if err != nil {
					return nil, "", err
				}
				arr = append(arr, d)
				e += l
			}
			doc[key] = arr
			p += n
		}
	}
	return doc, name, nil
}

func rawDoc(r bson.Raw) (mdoc, error) {
	es, err := r.Elements()
	if err != nil {
		return nil, err
	}
	d := mdoc{}
	for _, e := range es {
		v, err := rawVal(e.Value())
		if err != nil {
			return nil, err
		}
		d[e.Key()] = v
		if strings.HasPrefix(e.Key(), "__order") {
			continue
		}
	}
	return d, nil
}

func rawVal(v bson.RawValue) (any, error) {
	switch v.Type {
	case bson.TypeEmbeddedDocument:
		return rawDoc(v.Document())
	case bson.TypeArray:
		vs, err := v.Array().Values()
		if err != nil {
			return nil, err
		}
		out := make([]any, len(vs))
		for i := range vs {
			if out[i], err = rawVal(vs[i]); err != nil {
				return nil, err
			}
		}
		return out, nil
	case bson.TypeNull, bson.TypeUndefined:
		return nil, nil
	case bson.TypeInt32:
		return v.Int32(), nil
	case bson.TypeInt64:
		return v.Int64(), nil
	case bson.TypeDouble:
		return v.Double(), nil
	case bson.TypeString:
		return v.StringValue(), nil
	case bson.TypeBoolean:
		return v.Boolean(), nil
	case bson.TypeObjectID:
		return v.ObjectID(), nil
	case bson.TypeDateTime:
		return bson.DateTime(v.DateTime()), nil
	case bson.TypeBinary:
		s, b := v.Binary()
		return bson.Binary{Subtype: s, Data: append([]byte{}, b...)}, nil
	}
	var x any
	if err := v.Unmarshal(&x); err != nil {
		return nil, err
	}
	return x, nil
}

func fail(msg string) bson.M {
	return bson.M{"ok": 0.0, "errmsg": msg, "code": int32(96), "codeName": "OperationFailed"}
}

func (f *FakeMongo) command(name string, d mdoc) any {
	switch name {
	case "hello", "isMaster", "ismaster":
		return helloDoc()
	case "ping":
		if f.Ping != nil && !f.Ping() {
			return fail("not ready")
		}
		return bson.M{"ok": 1.0}
	case "endSessions", "killCursors":
		return bson.M{"ok": 1.0}
	case "buildInfo":
		return bson.M{"ok": 1.0, "version": "7.0.0"}
	}
	f.hookMu.Lock()
	before, after := f.Hook, f.After
	f.hookMu.Unlock()
	if before != nil {
		if e := before(name, d); e != "" {
			return fail(e)
		}
	}
	f.mu.Lock()
	rep := f.exec(name, d)
	f.mu.Unlock()
	if after != nil {
		if e := after(name, d); e != "" {
			return fail(e)
		}
	}
	return rep
}

func (f *FakeMongo) coll(n string) *mcoll {
	c := f.colls[n]
	if c == nil {
		c = &mcoll{idx: map[string]mdoc{}}
		f.colls[n] = c
	}
	return c
}

func (f *FakeMongo) readColl(n string, d mdoc) *mcoll {
	if f.lagged != nil {
		if rp, ok := d["$readPreference"].(mdoc); ok {
			m, _ := rp["mode"].(string)
			if m == "secondary" || m == "secondaryPreferred" || m == "nearest" {
				if c := f.lagged[n]; c != nil {
					return c
				}
				return &mcoll{idx: map[string]mdoc{}}
			}
		}
	}
	return f.coll(n)
}

func (f *FakeMongo) newID() bson.ObjectID {
	f.ctr++
	var o bson.ObjectID
	binary.BigEndian.PutUint64(o[4:], f.ctr)
	o[0] = 0x65
	return o
}

func (f *FakeMongo) exec(name string, d mdoc) any {
	db, _ := d["$db"].(string)
	cn, _ := d[name].(string)
	ns := db + "." + cn
	bad := func(what string) any {
		f.Unsupported.Store("mongo " + name + ": " + what)
		return fail("fake: unsupported " + what)
	}
	switch name {
	case "insert":
		c := f.coll(ns)
		n := 0
		for _, x := range d["documents"].([]any) {
			m := x.(mdoc)
			if m["_id"] == nil {
				m["_id"] = f.newID()
			}
			c.docs = append(c.docs, m)
			c.index(m)
			n++
		}
		return bson.M{"ok": 1.0, "n": int32(n)}
	case "update":
		c := f.coll(ns)
		n, mod := 0, 0
		ups := bson.A{}
		for i, x := range d["updates"].([]any) {
			u := x.(mdoc)
			q, _ := u["q"].(mdoc)
			upd, ok := u["u"].(mdoc)
			if !ok {
				return bad("update form")
			}
			multi, _ := u["multi"].(bool)
			upsert, _ := u["upsert"].(bool)
			ms, err := c.match(q)
			if err != "" {
				return bad(err)
			}
			if !multi && len(ms) > 1 {
				ms = ms[:1]
			}
			for _, m := range ms {
				before := cloneDoc(m)
				if e := applyUpdate(m, upd, false); e != "" {
					return bad(e)
				}
				n++
				if !reflect.DeepEqual(before, m) {
					mod++
				}
			}
			if len(ms) == 0 && upsert {
				m := mdoc{}
				for k, v := range q {
					if vm, isM := v.(mdoc); isM {
						if eq, has := vm["$eq"]; has {
							m[k] = eq
						}
						continue
					}
					m[k] = v
				}
				if e := applyUpdate(m, upd, true); e != "" {
					return bad(e)
				}
				if m["_id"] == nil {
					m["_id"] = f.newID()
				}
				c.docs = append(c.docs, m)
				c.index(m)
				ups = append(ups, bson.M{"index": int32(i), "_id": m["_id"]})
				n++
			}
		}
		r := bson.M{"ok": 1.0, "n": int32(n), "nModified": int32(mod)}
		if len(ups) > 0 {
			r["upserted"] = ups
		}
		return r
	case "delete":
		c := f.coll(ns)
		n := 0
		for _, x := range d["deletes"].([]any) {
			u := x.(mdoc)
			q, _ := u["q"].(mdoc)
			ms, err := c.match(q)
			if err != "" {
				return bad(err)
			}
			if lim, _ := num(u["limit"]); lim == 1 && len(ms) > 1 {
				ms = ms[:1]
			}
			n += c.remove(ms)
		}
		return bson.M{"ok": 1.0, "n": int32(n)}
	case "find":
		c := f.readColl(ns, d)
		q, _ := d["filter"].(mdoc)
		ms, err := c.match(q)
		if err != "" {
			return bad(err)
		}
		if s, ok := d["sort"].(mdoc); ok && len(s) > 0 {
			if len(s) > 1 {
				return bad("compound sort")
			}
			for k, v := range s {
				dir, _ := num(v)
				sort.SliceStable(ms, func(i, j int) bool {
					r := cmpVal(getPath(ms[i], k), getPath(ms[j], k))
					if dir < 0 {
						return r > 0
					}
					return r < 0
				})
			}
		}
		if sk, ok := num(d["skip"]); ok && sk > 0 {
			if int(sk) > len(ms) {
				sk = float64(len(ms))
			}
			ms = ms[int(sk):]
		}
		if l, ok := num(d["limit"]); ok && l != 0 {
			if l < 0 {
				l = -l
			}
			if int(l) < len(ms) {
				ms = ms[:int(l)]
			}
		}
		out := make([]any, len(ms))
		for i, m := range ms {
			p, e := project(m, d["projection"])
			if e != "" {
				return bad(e)
			}
			out[i] = p
		}
		bs := 101
		if b, ok := num(d["batchSize"]); ok {
			bs = int(b)
		}
		if sb, _ := d["singleBatch"].(bool); sb {
			return f.cursor(ns, "firstBatch", out, bs, true)
		}
		return f.cursor(ns, "firstBatch", out, bs, false)
	case "getMore":
		id, _ := d["getMore"].(int64)
		rest, ok := f.curs[id]
		if !ok {
			return bson.M{"ok": 0.0, "errmsg": "cursor not found", "code": int32(43)}
		}
		delete(f.curs, id)
		bs := 1 << 30
		if b, ok := num(d["batchSize"]); ok && b > 0 {
			bs = int(b)
		}
		cl, _ := d["collection"].(string)
		return f.cursor(db+"."+cl, "nextBatch", rest, bs, false)
	case "count":
		c := f.readColl(ns, d)
		q, _ := d["query"].(mdoc)
		ms, err := c.match(q)
		if err != "" {
			return bad(err)
		}
		return bson.M{"ok": 1.0, "n": int32(len(ms))}
	case "aggregate":
		c := f.readColl(ns, d)
		ms := append([]mdoc{}, c.docs...)
		for _, st := range d["pipeline"].([]any) {
			for k, v := range st.(mdoc) {
				switch k {
				case "$match":
					var out []mdoc
					for _, m := range ms {
						ok, e := matches(m, v.(mdoc))
						if e != "" {
							return bad(e)
						}
						if ok {
							out = append(out, m)
						}
					}
					ms = out
				case "$skip", "$limit":
					n, _ := num(v)
					if int(n) > len(ms) {
						n = float64(len(ms))
					}
					if k == "$skip" {
						ms = ms[int(n):]
					} else {
						ms = ms[:int(n)]
					}
				case "$group":
					g := v.(mdoc)
					sum, _ := g["n"].(mdoc)
					if _, isConst := num(g["_id"]); !isConst && g["_id"] != nil || sum == nil || len(g) != 2 {
						return bad("$group")
					}
					if len(ms) > 0 {
						ms = []mdoc{{"_id": int32(1), "n": int32(len(ms))}}
					}
				default:
					return bad(k)
				}
			}
		}
		out := make([]any, len(ms))
		for i := range ms {
			out[i] = ms[i]
		}
		return f.cursor(ns, "firstBatch", out, 1<<30, false)
	case "distinct":
		c := f.readColl(ns, d)
		key, _ := d["key"].(string)
		q, _ := d["query"].(mdoc)
		ms, err := c.match(q)
		if err != "" {
			return bad(err)
		}
		vals := bson.A{}
	outer:
		for _, m := range ms {
			v := getPath(m, key)
			if v == nil {
				continue
			}
			for _, o := range vals {
				if reflect.DeepEqual(o, v) {
					continue outer
				}
			}
			vals = append(vals, v)
		}
		return bson.M{"ok": 1.0, "values": vals}
	}
	return bad("command")
}

func (f *FakeMongo) cursor(ns, field string, out []any, bs int, single bool) any {
	if bs > f.Batch {
		bs = f.Batch
	}
	id := int64(0)
	first := out
	if len(out) > bs && !single {
		f.ncur++
		id = f.ncur
		f.curs[id] = out[bs:]
		first = out[:bs]
	}
	if first == nil {
		first = []any{}
	}
	return bson.M{"ok": 1.0, "cursor": bson.M{"id": id, "ns": ns, field: first}}
}

func (c *mcoll) remove(ms []mdoc) int {
	if len(ms) == 0 {
		return 0
	}
	del := map[any]bool{}
	for _, m := range ms {
		del[m["_id"]] = true
	}
	var keep []mdoc
	n := 0
	c.idx = map[string]mdoc{}
	for _, m := range c.docs {
		if del[m["_id"]] {
			n++
		} else {
			keep = append(keep, m)
			c.index(m)
		}
	}
	c.docs = keep
	return n
}

func (c *mcoll) match(q mdoc) ([]mdoc, string) {
	if i, ok := q["id"].(string); ok {
		if qu, ok := q["queue"].(string); ok {
			m, ex := c.idx[qu+"\x00"+i]
			if !ex {
				return nil, ""
			}
			if m != nil {
				ok, e := matches(m, q)
				if e != "" || !ok {
					return nil, e
				}
				return []mdoc{m}, ""
			}
		}
	}
	var out []mdoc
	for _, m := range c.docs {
		ok, e := matches(m, q)
		if e != "" {
			return nil, e
		}
		if ok {
			out = append(out, m)
		}
	}
	return out, ""
}

func getPath(m mdoc, path string) any {
	if v, ok := m[path]; ok {
		return v
	}
	i := strings.IndexByte(path, '.')
	if i < 0 {
		return nil
	}
	sub, ok := m[path[:i]].(mdoc)
	if !ok {
		return nil
	}
	return getPath(sub, path[i+1:])
}

func matches(m mdoc, q mdoc) (bool, string) {
	for k, want := range q {
		if k == "$and" || k == "$or" {
			any1 := false
			for _, s := range want.([]any) {
				ok, e := matches(m, s.(mdoc))
				if e != "" {
					return false, e
				}
				if k == "$and" && !ok {
					return false, ""
				}
				any1 = any1 || ok
			}
			if k == "$or" && !any1 {
				return false, ""
			}
			continue
		}
		if strings.HasPrefix(k, "$") {
			return false, "query operator " + k
		}
		v := getPath(m, k)
		w, isM := want.(mdoc)
		ops := false
		if isM {
			for o := range w {
				ops = ops || strings.HasPrefix(o, "$")
			}
		}
		if !ops {
			if !eqVal(v, want) {
				return false, ""
			}
			continue
		}
		for o, x := range w {
			ok := false
			switch o {
			case "$eq":
				ok = eqVal(v, x)
			case "$ne":
				ok = !eqVal(v, x)
			case "$in", "$nin":
				arr, isA := x.([]any)
				if !isA {
					return false, o
				}
				for _, y := range arr {
					ok = ok || eqVal(v, y)
				}
				if o == "$nin" {
					ok = !ok
				}
			case "$gt":
				ok = sameType(v, x) && cmpVal(v, x) > 0
			case "$gte":
				ok = sameType(v, x) && cmpVal(v, x) >= 0
			case "$lt":
				ok = sameType(v, x) && cmpVal(v, x) < 0
			case "$lte":
				ok = sameType(v, x) && cmpVal(v, x) <= 0
			case "$exists":
				b, _ := x.(bool)
				ok = (v != nil) == b
			default:
				return false, "query operator " + o
			}
			if !ok {
				return false, ""
			}
		}
	}
	return true, ""
}

func num(v any) (float64, bool) {
	switch x := v.(type) {
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func rank(v any) int {
	if _, ok := num(v); ok {
		return 2
	}
	switch v.(type) {
	case nil:
		return 1
	case string:
		return 3
	case mdoc:
		return 4
	case []any:
		return 5
	case bson.Binary:
		return 6
	case bson.ObjectID:
		return 7
	case bool:
		return 8
	case bson.DateTime:
		return 9
	}
	return 10
}

func sameType(a, b any) bool { return rank(a) == rank(b) }
func eqVal(a, b any) bool {
	if x, ok := num(a); ok {
		y, ok2 := num(b)
		return ok2 && x == y
	}
	return reflect.DeepEqual(a, b)
}

func cmpVal(a, b any) int {
	ra, rb := rank(a), rank(b)
	if ra != rb {
		if ra < rb {
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case string:
		return strings.Compare(x, b.(string))
	case bson.ObjectID:
		y := b.(bson.ObjectID)
		return strings.Compare(string(x[:]), string(y[:]))
	case bson.DateTime:
		y := b.(bson.DateTime)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	if x, ok := num(a); ok {
		y, _ := num(b)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
	}
	return 0
}

func setPath(m mdoc, path string, v any) {
	i := strings.IndexByte(path, '.')
	if i < 0 {
		m[path] = v
		return
	}
	sub, ok := m[path[:i]].(mdoc)
	if !ok {
		sub = mdoc{}
	} else {
		sub = cloneDoc(sub)
	}
	setPath(sub, path[i+1:], v)
	m[path[:i]] = sub
}

func unsetPath(m mdoc, path string) {
	i := strings.IndexByte(path, '.')
	if i < 0 {
		delete(m, path)
		return
	}
	if sub, ok := m[path[:i]].(mdoc); ok {
		sub = cloneDoc(sub)
		unsetPath(sub, path[i+1:])
		m[path[:i]] = sub
	}
}

func applyUpdate(m mdoc, u mdoc, insert bool) string {
	for op, x := range u {
		fs, ok := x.(mdoc)
		if !ok {
			return "update operator " + op
		}
		for k, v := range fs {
			switch op {
			case "$set":
				setPath(m, k, v)
			case "$setOnInsert":
				if insert {
					setPath(m, k, v)
				}
			case "$unset":
				unsetPath(m, k)
			case "$inc":
				old := getPath(m, k)
				if old == nil {
					setPath(m, k, v)
					continue
				}
				a, ok1 := num(old)
				b, ok2 := num(v)
				if !ok1 || !ok2 {
					return "$inc type"
				}
				_, f1 := old.(float64)
				_, f2 := v.(float64)
				if f1 || f2 {
					setPath(m, k, a+b)
				} else {
					setPath(m, k, int64(a)+int64(b))
				}
			case "$max", "$min":
				old := getPath(m, k)
				c := cmpVal(v, old)
				if old == nil || op == "$max" && c > 0 || op == "$min" && c < 0 {
					setPath(m, k, v)
				}
			default:
				return "update operator " + op
			}
		}
	}
	return ""
}

func project(m mdoc, p any) (any, string) {
	pm, ok := p.(mdoc)
	if !ok || len(pm) == 0 {
		return m, ""
	}
	incl := false
	for k, v := range pm {
		n, isN := num(v)
		if b, isB := v.(bool); isB {
			isN = true
			if b {
				n = 1
			}
		}
		if !isN {
			return nil, "projection"
		}
		if k != "_id" && n != 0 || k == "_id" && n != 0 && len(pm) == 1 {
			incl = true
		}
	}
	out := mdoc{}
	if incl {
		for k, v := range pm {
			if n, _ := num(v); n == 0 {
				continue
			}
			if x := getPath(m, k); x != nil {
				setPath(out, k, x)
			}
		}
		if v, has := pm["_id"]; !has {
			out["_id"] = m["_id"]
		} else if n, _ := num(v); n != 0 {
			out["_id"] = m["_id"]
		}
		return out, ""
	}
	out = cloneDoc(m)
	for k := range pm {
		unsetPath(out, k)
	}
	return out, ""
}

var _ = fmt.Sprint

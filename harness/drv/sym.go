package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/takenet/deckard/internal/queue/message"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// The specification works on small symbolic integers; this file fixes what they stand for.
const (
	BASE    = 1000000    // score BASE+t stands for the timestamp of instant t
	MAXS    = 2000000000 // 2^53
	UNK     = -999999    // a value that stands for no symbol
	FAR     = 1500000000 // expiry beyond any instant
	HUGE    = 2000000000 // largest representable duration
	OVERMAX = 2000000001
)

type Conc struct {
	T0     int64             `json:"t0"`
	Scale  int64             `json:"scale"` // milliseconds per time unit
	SubUs  int64             `json:"subus"` // constant sub-millisecond part of every instant, in microseconds
	Grid   []float64         `json:"grid"`  // value of explicit scores 1..len
	Queues map[string]string `json:"queues"`
	Ids    map[string]string `json:"ids"`
	Cv     int               `json:"cv"` // content variant

	rq, ri map[string]string
}

func (c *Conc) init() {
	if c.T0 == 0 {
		c.T0 = 1700000000000
	}
	if c.Scale == 0 {
		c.Scale = 1000
	}
	if len(c.Grid) == 0 {
		for i := 1; i <= 20; i++ {
			c.Grid = append(c.Grid, float64(i))
		}
	}
	c.rq, c.ri = map[string]string{}, map[string]string{}
	for k, v := range c.Queues {
		c.rq[v] = k
	}
	for k, v := range c.Ids {
		c.ri[v] = k
	}
}

func (c *Conc) qn(s string) string {
	if v, ok := c.Queues[s]; ok {
		return v
	}
	return s
}
func (c *Conc) idn(s string) string {
	if v, ok := c.Ids[s]; ok {
		return v
	}
	return s
}
func (c *Conc) qs(n string) string {
	if v, ok := c.rq[n]; ok {
		return v
	}
	if _, taken := c.Queues[n]; taken {
		return "?" + n
	}
	return n
}
func (c *Conc) ids(n string) string {
	if v, ok := c.ri[n]; ok {
		return v
	}
	if _, taken := c.Ids[n]; taken {
		return "?" + n
	}
	return n
}

func (c *Conc) at(t int64) time.Time {
	return time.UnixMilli(c.T0 + t*c.Scale).Add(time.Duration(c.SubUs) * time.Microsecond)
}

// units converts a real instant to a symbolic one.
func (c *Conc) units(ms int64) int64 {
	d := ms - c.T0
	if d%c.Scale != 0 {
		return UNK
	}
	u := d / c.Scale
	if u > 1000000000 || u < -1000000 {
		return UNK
	}
	return u
}

func (c *Conc) dur(u int64) int64 {
	switch {
	case u >= HUGE:
		return math.MaxInt64
	case u <= -HUGE:
		return math.MinInt64
	}
	return u * c.Scale
}

func (c *Conc) score(s int64) float64 {
	switch {
	case s == 0:
		return 0
	case s > 0 && s <= int64(len(c.Grid)):
		return c.Grid[s-1]
	case s == MAXS:
		return 9007199254740992
	case s == OVERMAX:
		return 9007199254740994
	case s == OVERMAX+1:
		return math.Inf(1)
	case s == -1:
		return -1
	case s == -2:
		return -0.5
	case s == -3:
		return -1e300
	case s == -4:
		return math.Inf(-1)
	case s > 1000:
		return float64(c.T0 + (s-BASE)*c.Scale)
	}
	return float64(s)
}

func (c *Conc) sub(s int64) float64 {
	switch {
	case s >= HUGE:
		return 1e300
	case s <= -HUGE:
		return -1e300
	}
	return float64(s * c.Scale)
}

func (c *Conc) symDur(ms int64) int64 {
	switch {
	case ms == math.MaxInt64:
		return HUGE
	case ms == math.MinInt64:
		return -HUGE
	case ms%c.Scale != 0:
		return UNK
	}
	return ms / c.Scale
}

func (c *Conc) symSub(v float64) int64 {
	switch {
	case v == 1e300:
		return HUGE
	case v == -1e300:
		return -HUGE
	case v != math.Trunc(v) || math.Abs(v) > 1e15:
		return UNK
	}
	return c.symDur(int64(v))
}

func (c *Conc) symScore(v float64) int64 {
	switch {
	case v == 0:
		return 0
	case v == 9007199254740992:
		return MAXS
	case v == -1:
		return -1
	}
	for i, g := range c.Grid {
		if g == v {
			return int64(i + 1)
		}
	}
	if v != math.Trunc(v) || math.Abs(v) > 1e17 {
		return UNK
	}
	u := c.units(int64(v))
	if u == UNK {
		return UNK
	}
	return BASE + u
}

// Contents: four symbols (description, payload, string payload, metadata), 0 means absent.
func cstr(p string, n, v int) string {
	if n == 0 {
		return ""
	}
	switch v % 3 {
	case 1:
		return fmt.Sprintf("%s-%d {} %%s \u00e9\u4e16 \"quoted\"\n\x00end", p, n)
	case 2:
		return strings.Repeat(fmt.Sprintf("%s%d;", p, n), 300)
	}
	return fmt.Sprintf("%s%d", p, n)
}

func (c *Conc) payload(n int) map[string]*anypb.Any {
	if n == 0 {
		return nil
	}
	a, _ := anypb.New(wrapperspb.String(cstr("pay", n, c.Cv)))
	b, _ := anypb.New(wrapperspb.Int64(int64(n)))
	r := map[string]*anypb.Any{"k": a, "n": b}
	if c.Cv%3 == 1 {
		r["a.b$c"] = &anypb.Any{TypeUrl: "type.googleapis.com/x.Unknown", Value: []byte{0, 255, byte(n)}}
	}
	return r
}

func (c *Conc) meta(n int) map[string]string {
	if n == 0 {
		return nil
	}
	r := map[string]string{"m": cstr("meta", n, c.Cv), "empty": ""}
	if c.Cv%3 == 1 {
		r["dotted.key"] = fmt.Sprint(n)
	}
	return r
}

const maxContent = 12

func (c *Conc) symDesc(s string) int64 {
	for n := 0; n <= maxContent; n++ {
		if s == cstr("desc", n, c.Cv) {
			return int64(n)
		}
	}
	return UNK
}
func (c *Conc) symSp(s string) int64 {
	for n := 0; n <= maxContent; n++ {
		if s == cstr("sp", n, c.Cv) {
			return int64(n)
		}
	}
	return UNK
}
func (c *Conc) symPay(m map[string]*anypb.Any) int64 {
	if len(m) == 0 {
		return 0
	}
next:
	for n := 1; n <= maxContent; n++ {
		w := c.payload(n)
		if len(w) != len(m) {
			continue
		}
		for k, v := range w {
			x, ok := m[k]
			if !ok || x == nil || x.TypeUrl != v.TypeUrl || string(x.Value) != string(v.Value) {
				continue next
			}
		}
		return int64(n)
	}
	return UNK
}
func (c *Conc) symMeta(m map[string]string) int64 {
	if len(m) == 0 {
		return 0
	}
next:
	for n := 1; n <= maxContent; n++ {
		w := c.meta(n)
		if len(w) != len(m) {
			continue
		}
		for k, v := range w {
			if x, ok := m[k]; !ok || x != v {
				continue next
			}
		}
		return int64(n)
	}
	return UNK
}

func (c *Conc) bp(n int) string {
	if n == 0 {
		return ""
	}
	return cstr("bp", n, c.Cv)
}
func (c *Conc) symBp(s string) int64 {
	for n := 0; n <= maxContent; n++ {
		if s == c.bp(n) {
			return int64(n)
		}
	}
	return UNK
}

func (c *Conc) expiry(m *message.Message) (bool, int64) {
	ms := m.ExpiryDate.UnixMilli()
	if m.ExpiryDate.IsZero() {
		return false, UNK
	}
	if ms-c.T0 > 50*365*86400000 {
		e := m.ExpiryDate.In(time.Local).AddDate(-100, 0, 0)
		if e.UnixMilli()-c.T0 > 50*365*86400000 { // saturated time-to-live
			return true, FAR
		}
		return true, c.units(e.UnixMilli())
	}
	return false, c.units(ms)
}

func i64(p *int64) int64 {
	if p == nil {
		return 0
	}
	return *p
}

var _ = strconv.Itoa

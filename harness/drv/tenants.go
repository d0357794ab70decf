package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/takenet/deckard/internal/config"
	"go.opentelemetry.io/otel/verifrec"
)

// runTenants replays operations of several deployments which share one Redis with other applications, and records one
// execution per deployment: what happens in one must be explained by its own operations alone.
func (x *Runner) runTenants(t *Trace, emit func(R) error) error {
	if x.w.fr == nil {
		return fmt.Errorf("tenants need Redis")
	}
	fr := x.w.fr
	fr.SetHooks(nil, nil)
	fr.Reset()
	t.Conc.init()
	verifrec.Reset()
	var xs []*Runner
	for _, p := range t.Tenants {
		config.CachePrefix.Set(p)
		w := &World{cacheKind: x.w.cacheKind, storKind: "memory", fr: fr}
		if err := w.dialRedis(); err != nil {
			return err
		}
		defer w.redisCache.Close(bg)
		w.keep = true
		w.Fresh()
		xs = append(xs, &Runner{w: w, c: &t.Conc, ctr: map[string]int64{}})
	}
	config.CachePrefix.Set("")
	for _, k := range t.Foreign {
		fr.PutForeign(k, "foreign "+k)
	}
	x.c = &t.Conc
	x.setNow(0)
	evs := make([][]any, len(xs))
	for i, raw := range t.Ops {
		o, ev := decodeOp(raw)
		if o.Op == "adv" {
			x.setNow(x.now + o.D)
			for j, y := range xs {
				y.now = x.now
				_, e := decodeOp(raw)
				e["now"], e["r"], e["aud"] = x.now, R{"err": ""}, []any{}
				evs[j] = append(evs[j], e)
			}
			continue
		}
		d := t.Who[i]
		xs[d].event(t, o, ev)
		n := 0
		for _, k := range t.Foreign {
			if fr.Foreign(k) == "foreign "+k {
				n++
			}
		}
		ev["foreign"] = len(t.Foreign) - n
		evs[d] = append(evs[d], ev)
	}
	for d, y := range xs {
		hdr := t.Hdr
		var h map[string]any
		if json.Unmarshal(hdr, &h) == nil {
			h["prefix"] = t.Tenants[d]
			hdr, _ = json.Marshal(h)
		}
		r := y.record(t, fmt.Sprintf("%s~t%d", t.Id, d), evs[d])
		r["hdr"] = json.RawMessage(hdr)
		r["combo"] = strings.Split(x.w.cacheKind, "/")[0] + "/" + x.w.storKind
		if err := emit(r); err != nil {
			return err
		}
	}
	return nil
}

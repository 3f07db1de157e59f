package main

import (
	"fmt"
	"math"
	"strings"
)

func init() {
	reg(&Prop{ID: "P21", Title: "parent stations", Quick: 2000, Thorough: 50000,
		Rule: "seeded stop hierarchies run with --ensure-stop-parents (stops without parents, ids that collide with new ones), --fix-far-away-parents (stations around 100 m from their children) or --drop-platform-for-parentless; non-trivial: a station was added or moved or a stop merged, keyed by the stops",
		Case: func(c *Ctx) {
			switch c.R.Intn(8) {
			case 0, 1, 2:
				c.ensureParents()
			case 3:
				g := newG(c.R, stopOpt())
				g.All()
				for _, id := range sortedKeys(g.f.Stops) {
					if s := g.f.Stops[id]; s.Loc == 4 && g.p(0.4) || s.Loc == 0 && s.Parent != "" && g.p(0.2) {
						s.Platform = pick(g, []string{"1", "2", "2a"})
					}
				}
				raw := present(c.R, g.f.ToRaw())
				f, prob := ParseRaw(raw)
				if len(prob) > 0 {
					fatal("generator: %v", prob)
				}
				c.stopMerge(f, raw, "--drop-platform-for-parentless", c.R.Intn(3) == 0)
			default:
				c.farParents()
			}
		}})
}

func (c *Ctx) ensureParents() {
	o := stopOpt()
	o.Stations, o.Fares, o.Extra = pick(&G{r: c.R}, []float64{0, 0.2, 0.5}), 0.5, 0.6
	g := newG(c.R, o)
	g.All()
	if g.p(0.6) { // stops that bear the ids of new stations
		for _, p := range []string{"par::", "par1::", "par2::"} {
			for _, id := range sortedKeys(g.f.Stops) {
				if g.p(0.3) && g.f.Stops[p+id] == nil {
					s := *g.f.Stops[id]
					if s.Loc != 0 && s.Loc != 1 {
						continue
					}
					s.ID = p + id
					g.near(&s, 300)
					g.f.Stops[s.ID] = &s
				}
			}
		}
	}
	raw := present(c.R, g.f.ToRaw())
	f, prob := ParseRaw(raw)
	if len(prob) > 0 {
		fatal("generator: %v", prob)
	}
	fl := c.maybeF(f, []string{"--ensure-stop-parents"})
	fl = append(fl, c.idle(f, "l")...)
	r := c.Tidy(fl, c.Put("in", raw))
	if !c.Valid(r) {
		return
	}
	used := map[string]string{}
	key := ""
	for _, id := range sortedKeys(f.Stops) {
		s, u := f.Stops[id], r.F.Stops[id]
		if u == nil {
			c.Viol("stop-lost", "stop %s is gone", id)
			return
		}
		if s.Loc != 0 || s.Parent != "" {
			continue
		}
		p := u.Parent
		if p == "" {
			c.Viol("no-parent", "stop %s has no parent station", id)
			return
		}
		if f.Stops[p] != nil {
			c.Viol("parent-taken", "stop %s became a child of %s", id, p)
			return
		}
		if used[p] != "" {
			c.Viol("parent-shared", "stops %s and %s were given the same station %s", used[p], id, p)
			return
		}
		used[p] = id
		n := *r.F.Stops[p]
		w := *s
		w.Loc, w.X, n.X = 1, nil, nil
		if n.str() != w.str() {
			c.Viol("parent-content", "the station of stop %s is %s, should be %s", id, n.str(), w.str())
			return
		}
		s.Parent = p
		delete(r.F.Stops, p)
		key += id + " "
	}
	if !c.Frame("ensure", Canon(f, CanonOpt{}), Canon(r.F, CanonOpt{})) {
		return
	}
	c.Count("stations_added", len(used))
	if len(used) > 0 {
		c.Nontrivial("ensure " + key)
		c.Sample(map[string]any{"option": "ensure-stop-parents", "stations_added": len(used)})
	}
}

func (c *Ctx) farParents() {
	o := stopOpt()
	o.Stations, o.Extra, o.Dup = 0.8, 0.4, 0.2
	g := newG(c.R, o)
	g.All()
	kids := func(f *Feed, p string) []*Stop {
		var l []*Stop
		for _, id := range sortedKeys(f.Stops) {
			if s := f.Stops[id]; s.Parent == p && s.HasLL {
				l = append(l, s)
			}
		}
		return l
	}
	for _, id := range sortedKeys(g.f.Stops) {
		s := g.f.Stops[id]
		ks := kids(g.f, id)
		if len(ks) == 0 || !s.HasLL {
			continue
		}
		if g.p(0.5) { // more children
			for n := g.r.Intn(4); n > 0; n-- {
				k := *ks[0]
				if k.Loc > 0 && s.Loc == 1 {
					k.Loc = 2
				}
				k.ID = g.id("st")
				k.X = nil
				g.f.Stops[k.ID] = &k
				ks = append(ks, &k)
			}
		}
		spread := pick(g, []float64{5, 30, 60, 90, 100, 110, 200})
		la, lo := float64(s.Lat), float64(s.Lon)
		if g.p(0.7) { // the group lies elsewhere
			a, d := g.r.Float64()*2*math.Pi, pick(g, []float64{20, 90, 99, 101, 150, 1000, 100000})
			x, y := g.off(la, lo, math.Cos(a)*d, math.Sin(a)*d)
			la, lo = float64(x), float64(y)
		}
		for _, k := range ks {
			a, d := g.r.Float64()*2*math.Pi, spread*(0.5+0.5*g.r.Float64())
			k.Lat, k.Lon = g.off(la, lo, math.Cos(a)*d, math.Sin(a)*d)
		}
	}
	raw := present(c.R, g.f.ToRaw())
	f, prob := ParseRaw(raw)
	if len(prob) > 0 {
		c.Count("not_valid", 1)
		return
	}
	fl := c.maybeF(f, []string{"--fix-far-away-parents"})
	fl = append(fl, c.idle(f, "l")...)
	r := c.Tidy(fl, c.Put("in", raw))
	if !c.Valid(r) {
		return
	}
	key := ""
	n := 0
	type pos struct{ lat, lon float32 }
	moved := map[string]pos{}
	for _, id := range sortedKeys(f.Stops) {
		s, u := f.Stops[id], r.F.Stops[id]
		ks := kids(f, id)
		if len(ks) == 0 || !s.HasLL || u == nil {
			continue
		}
		var la, lo float64
		for _, k := range ks {
			la += float64(k.Lat) / float64(len(ks))
			lo += float64(k.Lon) / float64(len(ks))
		}
		far, farAvg, close := 0.0, 0.0, false
		for _, k := range ks {
			d := haversine(float64(s.Lat), float64(s.Lon), float64(k.Lat), float64(k.Lon))
			e := haversine(la, lo, float64(k.Lat), float64(k.Lon))
			far, farAvg = max(far, d), max(farAvg, e)
		}
		close = math.Abs(far-100) < 1 || math.Abs(farAvg-100) < 1
		want := far >= 100 && farAvg < 100
		same := s.Lat == u.Lat && s.Lon == u.Lon
		atAvg := math.Abs(float64(u.Lat)-la) < 1e-4 && math.Abs(float64(u.Lon)-lo) < 1e-4 && haversine(la, lo, float64(u.Lat), float64(u.Lon)) < 3
		c.Count("stations_decided", 1)
		switch {
		case close && (same || atAvg):
			c.Count("stations_at_the_limit", 1)
		case want && !atAvg:
			c.Viol("not-moved", "station %s is %.1f m from a child, its children are at most %.1f m from their centre %.6f,%.6f, but it is at %g,%g", id, far, farAvg, la, lo, u.Lat, u.Lon)
			return
		case !want && !same:
			c.Viol("moved", "station %s is at most %.1f m from its children, or they are spread (%.1f m), but it moved from %g,%g to %g,%g", id, far, farAvg, s.Lat, s.Lon, u.Lat, u.Lon)
			return
		}
		if !same {
			moved[id] = pos{u.Lat, u.Lon}
			key += fmt.Sprintf("%s %.0f %.0f;", id, far, farAvg)
			n++
		}
	}
	for id, p := range moved {
		f.Stops[id].Lat, f.Stops[id].Lon = p.lat, p.lon
	}
	if !c.Frame("far", Canon(f, CanonOpt{}), Canon(r.F, CanonOpt{})) {
		return
	}
	c.Count("stations_moved", n)
	if n > 0 {
		c.Nontrivial(key)
		c.Sample(map[string]any{"option": "fix-far-away-parents", "moved": strings.TrimSpace(key)})
	}
}

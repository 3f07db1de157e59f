package main

import (
	"fmt"
	"math"
)

var maxSpeed = map[int]float64{0: 100, 1: 150, 2: 500, 3: 150, 4: 80, 5: 30, 6: 50, 7: 50, 11: 50, 12: 150}

// tooFast: 1 yes, 0 no, -1 too close to a limit to tell.
func (f *Feed) tooFast(t *Trip) int {
	lim, ok := maxSpeed[extType(f.Routes[t.Route].Type)]
	if !ok {
		return 0
	}
	way := make([]float64, len(t.STs))
	for i := 1; i < len(t.STs); i++ {
		a, b := f.Stops[t.STs[i-1].Stop], f.Stops[t.STs[i].Stop]
		way[i] = way[i-1] + haversine(float64(a.Lat), float64(a.Lon), float64(b.Lat), float64(b.Lon))
	}
	res := 0
	test := func(i, j int, min float64) {
		d, s := way[j]-way[i], t.STs[j].Arr-t.STs[i].Dep
		if s == 0 {
			s = 60
		}
		v := d / float64(s) * 3.6
		if d > min*1.005 && v > lim*1.005 {
			res = 1
		} else if d > min*0.995 && v > lim*0.995 && res == 0 {
			res = -1
		}
	}
	last := -1
	for i := range t.STs {
		if t.STs[i].Arr < 0 {
			continue
		}
		if last >= 0 {
			test(last, i, 7000)
			if t.STs[i].Arr == t.STs[last].Dep {
				continue
			}
		}
		last = i
	}
	for i := range t.STs {
		for j := i + 1; j < len(t.STs); j++ {
			if t.STs[i].Arr >= 0 && t.STs[j].Arr >= 0 {
				test(i, j, 10000)
			}
		}
	}
	return res
}

// without returns a feed without some trips and what refers to them.
func (f *Feed) without(gone map[string]bool) *Feed {
	g := *f
	g.Trips = map[string]*Trip{}
	for id, t := range f.Trips {
		if !gone[id] {
			g.Trips[id] = t
		}
	}
	g.Transfers, g.Attributions = nil, nil
	for _, t := range f.Transfers {
		if !gone[t.FT] && !gone[t.TT] {
			g.Transfers = append(g.Transfers, t)
		}
	}
	for _, a := range f.Attributions {
		if !gone[a.Trip] {
			g.Attributions = append(g.Attributions, a)
		}
	}
	return &g
}

func init() {
	reg(&Prop{ID: "P18", Title: "trips that are too fast", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with trips of every means of transport around the speed limits run with --drop-too-fast-trips; non-trivial: a trip was dropped and one was kept, keyed by the trips' types, ways and times",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips, o.Routes, o.Stops, o.ST = [2]int{2, 14}, [2]int{2, 8}, [2]int{3, 9}, [2]int{2, 8}
			o.Transfers, o.Attrs, o.NoTimes = 0.7, 0.7, 0.15
			g := newG(c.R, o)
			g.All()
			types := []int{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 109, 702}
			for _, id := range sortedKeys(g.f.Routes) {
				g.f.Routes[id].Type = pick(g, types)
			}
			// spread the stops
			for _, id := range sortedKeys(g.f.Stops) {
				s := g.f.Stops[id]
				if s.Loc == 0 && g.p(0.8) {
					s.Lat, s.Lon = g.off(g.lat0, g.lon0, g.r.NormFloat64()*8000, g.r.NormFloat64()*8000)
				}
			}
			for _, id := range sortedKeys(g.f.Trips) {
				t := g.f.Trips[id]
				if g.p(0.2) {
					continue
				}
				lim := maxSpeed[extType(g.f.Routes[t.Route].Type)]
				now := t.STs[0].Dep
				k := pick(g, []float64{0.3, 0.7, 0.9, 0.97, 0.97})
				for i := 1; i < len(t.STs); i++ {
					a, b := g.f.Stops[t.STs[i-1].Stop], g.f.Stops[t.STs[i].Stop]
					d := haversine(float64(a.Lat), float64(a.Lon), float64(b.Lat), float64(b.Lon))
					kk := k
					if g.p(0.15) {
						kk = pick(g, []float64{1.03, 1.2, 3, 1000})
					}
					now += int(math.Round(d / (lim * kk / 3.6)))
					if t.STs[i].Arr < 0 {
						continue
					}
					t.STs[i].Arr = now
					if g.p(0.3) {
						now += pick(g, []int{1, 30, 120})
					}
					t.STs[i].Dep = now
				}
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				return
			}
			fl := c.maybeF(f, []string{"--drop-too-fast-trips"})
			fl = append(fl, c.idle(f, "l")...)
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			gone := map[string]bool{}
			key := ""
			for _, id := range sortedKeys(f.Trips) {
				t := f.Trips[id]
				v := f.tooFast(t)
				_, kept := r.F.Trips[id]
				gone[id] = !kept
				c.Count("trips_decided", 1)
				if v == 1 && kept {
					c.Viol("kept", "trip %s (type %d) is too fast, but is still there: %s", id, f.Routes[t.Route].Type, f.tripStr(t, &CanonOpt{}))
					return
				}
				if v == 0 && !kept {
					c.Viol("dropped", "trip %s (type %d) was dropped, but is not too fast: %s", id, f.Routes[t.Route].Type, f.tripStr(t, &CanonOpt{}))
					return
				}
				if v == -1 {
					c.Count("trips_at_the_limit", 1)
				}
				key += fmt.Sprint(id, f.Routes[t.Route].Type, v, " ")
			}
			if !c.Frame("frame", Canon(f.without(gone), CanonOpt{}), Canon(r.F, CanonOpt{})) {
				return
			}
			if len(r.F.Trips) > 0 && len(r.F.Trips) < len(f.Trips) {
				c.Nontrivial(key + fmt.Sprint(g.lat0, g.lon0))
				c.Sample(map[string]any{"trips": len(f.Trips), "dropped": len(f.Trips) - len(r.F.Trips)})
			}
		}})
}

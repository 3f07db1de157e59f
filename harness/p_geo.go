package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
)

type ring [][2]float64 // lat, lon

func (p ring) contains(lat, lon float64) bool {
	in := false
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		if (a[0] > lat) != (b[0] > lat) && lon < a[1]+(lat-a[0])/(b[0]-a[0])*(b[1]-a[1]) {
			in = !in
		}
	}
	return in
}

type area struct {
	outer ring
	inner []ring
}

func (a *area) contains(lat, lon float64) bool {
	if !a.outer.contains(lat, lon) {
		return false
	}
	for _, r := range a.inner {
		if r.contains(lat, lon) {
			return false
		}
	}
	return true
}

func star(g *G, lat, lon, radius float64) ring {
	n := 3 + g.r.Intn(6)
	var r ring
	as := make([]float64, n)
	for i := range as {
		as[i] = g.r.Float64() * 2 * math.Pi
	}
	sort.Float64s(as)
	for _, a := range as {
		d := radius * (0.3 + 0.7*g.r.Float64())
		r = append(r, [2]float64{lat + d*math.Sin(a), lon + d*math.Cos(a)})
	}
	return r
}

func (p ring) text(g *G, seps ...string) string {
	var b []string
	for _, v := range p {
		b = append(b, strconv.FormatFloat(v[0], 'f', -1, 64), strconv.FormatFloat(v[1], 'f', -1, 64))
	}
	sep := pick(g, append(seps, ",", ", ", ","))
	if i := strings.Index(sep, ";"); i >= 0 { // between pairs, and within one
		var l []string
		for j := 0; j < len(b); j += 2 {
			l = append(l, b[j]+sep[i+1:]+b[j+1])
		}
		return strings.Join(l, sep[:i])
	}
	return strings.Join(b, sep)
}

func (p ring) geo(alt []float64) [][]float64 {
	var l [][]float64
	for _, v := range append(append(ring(nil), p...), p[0]) {
		l = append(l, append([]float64{v[1], v[0]}, alt...))
	}
	return l
}

func (a *area) geo(g *G) [][][]float64 {
	var alt []float64
	if g.p(0.15) {
		alt = []float64{42}
	}
	l := [][][]float64{a.outer.geo(alt)}
	for _, r := range a.inner {
		l = append(l, r.geo(alt))
	}
	return l
}

// areas chooses filter areas and how they are given.
func (g *G) areas(c *Ctx) ([]*area, []string) {
	var l []*area
	var fl []string
	centre := func() (float64, float64, float64) {
		ids := sortedKeys(g.f.Stops)
		s := g.f.Stops[pick(g, ids)]
		lat, lon := g.lat0, g.lon0
		if s.HasLL {
			lat, lon = float64(s.Lat), float64(s.Lon)
		}
		r := pick(g, []float64{0.0003, 0.002, 0.01, 0.03, 0.05})
		return lat + g.r.NormFloat64()*r/2, lon + g.r.NormFloat64()*r/2, r
	}
	withHoles := func() *area {
		la, lo, r := centre()
		a := &area{outer: star(g, la, lo, r)}
		for k := []int{0, 0, 0, 1, 1, 2, 3}[g.r.Intn(7)]; k > 0; k-- {
			if len(a.inner) > 0 {
				la, lo, r = centre() // around another stop
				r /= 3
			}
			a.inner = append(a.inner, star(g, la, lo, r/2))
		}
		return a
	}
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		switch g.r.Intn(4) {
		case 0: // box by two corners in any order
			la, lo, r := centre()
			p, q := [2]float64{la - r*g.r.Float64(), lo - r*g.r.Float64()}, [2]float64{la + r*g.r.Float64(), lo + r*g.r.Float64()}
			l = append(l, &area{outer: ring{p, {p[0], q[1]}, q, {q[0], p[1]}}})
			if g.p(0.3) {
				p[0], q[0] = q[0], p[0]
			}
			if g.p(0.3) {
				p, q = q, p
			}
			fl = append(fl, "--bounding-box="+ring{p, q}.text(g))
		case 1, 2:
			la, lo, r := centre()
			p := star(g, la, lo, r)
			if g.p(0.3) { // first and last share a coordinate
				p[len(p)-1][g.r.Intn(2)] = p[0][g.r.Intn(2)*0]
				p[len(p)-1] = [2]float64{p[len(p)-1][0], p[0][1]}
				if g.p(0.5) {
					p[len(p)-1] = [2]float64{p[0][0], p[0][1] + r*0.3}
				} else {
					p[len(p)-1] = [2]float64{p[0][0] + r*0.3, p[0][1]}
				}
			}
			l = append(l, &area{outer: p})
			if g.p(0.3) {
				p = append(append(ring(nil), p...), p[0])
			}
			if g.p(0.5) {
				fl = append(fl, "--polygon="+p.text(g))
			} else {
				fn := c.tmp(fmt.Sprintf("poly%d.txt", n))
				os.WriteFile(fn, []byte(p.text(g, ",\n;,", ",\n;, ", "\n,;,", ",\n")+pick(g, []string{"", "\n"})), 0o644)
				fl = append(fl, "--polygon-file="+fn)
			}
		case 3:
			var feats []any
			for m := 1 + g.r.Intn(2); m > 0; m-- {
				a := withHoles()
				geom := map[string]any{"type": "Polygon", "coordinates": a.geo(g)}
				l = append(l, a)
				if g.p(0.4) {
					b := withHoles()
					l = append(l, b)
					geom = map[string]any{"type": "MultiPolygon", "coordinates": [][][][]float64{a.geo(g), b.geo(g)}}
				}
				feats = append(feats, map[string]any{"type": "Feature", "properties": map[string]any{}, "geometry": geom})
				if g.p(0.2) { // features that are no areas
					feats = append(feats, pick(g, []any{
						map[string]any{"type": "Feature", "properties": map[string]any{}, "geometry": nil},
						map[string]any{"type": "Feature", "properties": map[string]any{"name": "x"}, "geometry": map[string]any{"type": "Point", "coordinates": []float64{g.lon0, g.lat0}}},
						map[string]any{"type": "Feature", "properties": map[string]any{}, "geometry": map[string]any{"type": "LineString", "coordinates": a.outer.geo(nil)}}}))
				}
			}
			j, _ := json.Marshal(map[string]any{"type": "FeatureCollection", "features": feats})
			fn := c.tmp(fmt.Sprintf("poly%d%s", n, pick(g, []string{".json", ".geojson"})))
			os.WriteFile(fn, j, 0o644)
			fl = append(fl, "--polygon-file="+fn)
		}
	}
	return l, fl
}

func init() {
	reg(&Prop{ID: "P19", Title: "geographic filters", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds filtered by boxes, polygons, polygon files and GeoJSON files with holes, with and without --complete-filtered-trips; non-trivial: some but not all stops lie inside, keyed by areas and feed",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.NoBoard = 0.15
			o.Stations, o.Pathways, o.Transfers, o.Attrs, o.Fares = 0.6, 0.7, 0.7, 0.6, 0.6
			complete := c.R.Intn(4) > 0
			g := newG(c.R, o)
			g.All()
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			as, fl := g.areas(c)
			if g.p(0.04) { // no area, or a file without one
				as, fl = nil, nil
				if g.p(0.3) {
					fn := c.tmp("none.json")
					os.WriteFile(fn, []byte(`{"type": "FeatureCollection", "features": []}`), 0o644)
					fl = []string{"--polygon-file=" + fn}
				}
			}
			fl = c.maybeF(f, fl)
			fl = append(fl, c.idle(f, "lsg")...)
			if complete {
				fl = append(fl, "--complete-filtered-trips")
			}
			r := c.Tidy(fl, c.Put("in", raw))
			if len(as) == 0 {
				if c.Valid(r) {
					c.Frame("unfiltered", Canon(f, CanonOpt{}), Canon(r.F, CanonOpt{}))
					c.Count("feeds_without_an_area", 1)
				}
				return
			}
			in, edge := map[string]bool{}, false
			for _, id := range sortedKeys(f.Stops) {
				s := f.Stops[id]
				for s != nil && !s.HasLL {
					s = f.Stops[s.Parent]
				}
				if s == nil {
					continue
				}
				for _, a := range as {
					in[id] = in[id] || a.contains(float64(s.Lat), float64(s.Lon))
				}
				_ = edge
			}
			nin := 0
			for _, v := range in {
				if v {
					nin++
				}
			}
			c.Count("stops_located", len(f.Stops))
			if !complete {
				if r.Exit != 0 && strings.Contains(r.Stderr, "No station with id") {
					return // an entrance whose station lies outside
				}
				if !c.OK(r) {
					return
				}
				for _, id := range sortedKeys(f.Stops) {
					if f.Stops[id].HasLL && (r.F.Stops[id] != nil) != in[id] {
						c.Viol("stops", "stop %s at %g,%g inside %v: in the output %v", id, f.Stops[id].Lat, f.Stops[id].Lon, in[id], r.F.Stops[id] != nil)
						return
					}
				}
				for _, id := range sortedKeys(f.Trips) {
					u := r.F.Trips[id]
					if u == nil {
						c.Viol("trips", "trip %s is gone", id)
						return
					}
					t := *f.Trips[id]
					t.STs = nil
					for _, s := range f.Trips[id].STs {
						if in[s.Stop] {
							t.STs = append(t.STs, s)
						}
					}
					// points of shapes outside are not kept, nor are empty shapes
					op := CanonOpt{NoTripShp: true}
					c.Count("trips_compared", 1)
					if a, b := f.tripStr(&t, &op), r.F.tripStr(u, &op); a != b {
						c.Viol("stop-times", "trip %s should be %s, is %s", id, a, b)
						return
					}
				}
			} else {
				if !c.Valid(r) {
					return
				}
				used, gone := map[string]bool{}, map[string]bool{}
				use := func(id string) {
					for s := f.Stops[id]; s != nil; s = f.Stops[s.Parent] {
						used[s.ID] = true
					}
				}
				for id, v := range in {
					if v {
						use(id)
					}
				}
				for id, t := range f.Trips {
					gone[id] = true
					for _, s := range t.STs {
						if in[s.Stop] {
							gone[id] = false
						}
					}
					if !gone[id] {
						for _, s := range t.STs {
							use(s.Stop)
						}
					}
				}
				w := f.without(gone)
				w.Stops, w.Pathways = map[string]*Stop{}, map[string]*Pathway{}
				for id := range used {
					w.Stops[id] = f.Stops[id]
				}
				for id, p := range f.Pathways {
					if used[p.From] && used[p.To] {
						w.Pathways[id] = p
					}
				}
				tfs := w.Transfers
				w.Transfers = nil
				for _, t := range tfs {
					if (t.FS == "" || used[t.FS]) && (t.TS == "" || used[t.TS]) {
						w.Transfers = append(w.Transfers, t)
					}
				}
				if !c.Frame("complete", Canon(w, CanonOpt{}), Canon(r.F, CanonOpt{})) {
					return
				}
			}
			if nin > 0 && nin < len(f.Stops) {
				c.Count("filtered", 1)
				c.Nontrivial(fmt.Sprint(len(as), nin, len(f.Stops), as[0].outer))
				c.Sample(map[string]any{"flags": head(strings.Join(fl, " "), 300), "stops_inside": nin, "stops": len(f.Stops), "trips": len(f.Trips), "trips_after": len(r.F.Trips)})
			}
		}})
}

package main

import (
	"fmt"
	"math"
	"sort"
)

const earthR = 6378137.0

func hav(la1, lo1, la2, lo2 float32) float64 {
	d2r := math.Pi / 180
	a1, o1, a2, o2 := float64(la1)*d2r, float64(lo1)*d2r, float64(la2)*d2r, float64(lo2)*d2r
	a := math.Pow(math.Sin((a2-a1)/2), 2) + math.Cos(a1)*math.Cos(a2)*math.Pow(math.Sin((o2-o1)/2), 2)
	return 2 * earthR * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
}

// merc projects to web mercator (EPSG:3857)
func merc(la, lo float32) [2]float64 {
	d2r := math.Pi / 180
	return [2]float64{earthR * float64(lo) * d2r, earthR * math.Log(math.Tan(math.Pi/4+float64(la)*d2r/2))}
}

// mercNoise bounds the error of a single-precision projection at p
func mercNoise(la, lo float32) float64 {
	m := merc(la, lo)
	ex := math.Abs(m[0]) * 1.2e-7
	ey := math.Abs(m[1])*6e-8 + earthR*math.Abs(float64(la))*math.Pi/180*6e-8/math.Cos(float64(la)*math.Pi/180)
	return math.Hypot(ex, ey)
}

func segDist(p, a, b [2]float64) float64 {
	dx, dy := b[0]-a[0], b[1]-a[1]
	l := dx*dx + dy*dy
	t := 0.0
	if l > 0 {
		t = math.Max(0, math.Min(1, ((p[0]-a[0])*dx+(p[1]-a[1])*dy)/l))
	}
	return math.Hypot(p[0]-a[0]-t*dx, p[1]-a[1]-t*dy)
}

func polyDist(p [2]float64, l [][2]float64) float64 {
	if len(l) == 1 {
		return segDist(p, l[0], l[0])
	}
	d := math.Inf(1)
	for i := 1; i < len(l); i++ {
		d = math.Min(d, segDist(p, l[i-1], l[i]))
	}
	return d
}

func (s *Shape) merc() [][2]float64 {
	r := make([][2]float64, len(s.Pts))
	for i, p := range s.Pts {
		r[i] = merc(p.Lat, p.Lon)
	}
	return r
}

func (s *Shape) noise() float64 {
	n := 0.0
	for _, p := range s.Pts {
		n = math.Max(n, mercNoise(p.Lat, p.Lon))
	}
	return n + 0.01
}

// hausdorff distance from a to b, sampled every metre
func hausdorff(a, b [][2]float64) float64 {
	d := polyDist(a[0], b)
	for i := 1; i < len(a); i++ {
		l := math.Hypot(a[i][0]-a[i-1][0], a[i][1]-a[i-1][1])
		for x := 10.0; x < l; x += 10 {
			t := x / l
			d = math.Max(d, polyDist([2]float64{a[i-1][0] + t*(a[i][0]-a[i-1][0]), a[i-1][1] + t*(a[i][1]-a[i-1][1])}, b))
		}
		d = math.Max(d, polyDist(a[i], b))
	}
	return d
}

// expMeasure is the specification of shape remeasurement: known measurements
// stay, gaps are interpolated by distance, the ends are extrapolated at the
// average rate (but not beyond the first known measurement), an unmeasured
// shape is measured in metres, and a shape whose measurements give no rate
// loses them (or is measured in metres around them if force is set).
func expMeasure(s *Shape, force bool) {
	n := len(s.Pts)
	cum := make([]float64, n)
	for i := 1; i < n; i++ {
		cum[i] = cum[i-1] + hav(s.Pts[i-1].Lat, s.Pts[i-1].Lon, s.Pts[i].Lat, s.Pts[i].Lon)
	}
	known := []int{}
	for i, p := range s.Pts {
		if !isNaN(p.Dist) {
			known = append(known, i)
		}
	}
	rate, m := 0.0, 0
	for j := 1; j < len(known); j++ {
		a, b := known[j-1], known[j]
		if d := cum[b] - cum[a]; d > 0 {
			rate += (float64(s.Pts[b].Dist) - float64(s.Pts[a].Dist)) / d
			m++
		}
	}
	if m > 0 {
		rate /= float64(m)
	}
	switch {
	case len(known) == 0:
		rate = 1
	case rate == 0 && force:
		rate = 1
	case rate == 0:
		for i := range s.Pts {
			s.Pts[i].Dist = nan32
		}
		return
	}
	if len(known) == 0 {
		for i := range s.Pts {
			s.Pts[i].Dist = float32(cum[i])
		}
		return
	}
	f := known[0]
	r := rate
	if cum[f] > 0 {
		r = math.Min(r, float64(s.Pts[f].Dist)/cum[f])
	}
	for i := 0; i < f; i++ {
		s.Pts[i].Dist = float32(cum[i] * r)
	}
	for j := 1; j < len(known); j++ {
		a, b := known[j-1], known[j]
		va, vb := float64(s.Pts[a].Dist), float64(s.Pts[b].Dist)
		for i := a + 1; i < b; i++ {
			if cum[b] > cum[a] {
				s.Pts[i].Dist = float32(va + (vb-va)*(cum[i]-cum[a])/(cum[b]-cum[a]))
			} else {
				s.Pts[i].Dist = float32(va)
			}
		}
	}
	l := known[len(known)-1]
	for i := l + 1; i < n; i++ {
		s.Pts[i].Dist = float32(float64(s.Pts[l].Dist) + (cum[i]-cum[l])*rate)
	}
}

// expRemeasure applies expMeasure to a feed; measurements of stop times that
// lie beyond the end of their shape are moved to its end.
func expRemeasure(f *Feed, force bool) {
	for _, s := range f.Shapes {
		expMeasure(s, force)
	}
	for _, t := range f.Trips {
		s := f.Shapes[t.Shape]
		if s == nil {
			continue
		}
		end := s.Pts[len(s.Pts)-1].Dist
		for i := range t.STs {
			if t.STs[i].Dist > end {
				t.STs[i].Dist = end
			}
		}
	}
}

// near says that two measurements agree up to single-precision arithmetic
func nearM(a, b float32) bool {
	if isNaN(a) || isNaN(b) {
		return isNaN(a) == isNaN(b)
	}
	return math.Abs(float64(a)-float64(b)) <= 1e-3+2e-5*math.Max(math.Abs(float64(a)), math.Abs(float64(b)))
}

// roundDists replaces the measurements of got by those of want where they agree
// up to rounding, so that the canonical views can be compared literally.
func alignDists(want, got *Feed) {
	for id, t := range want.Trips {
		u := got.Trips[id]
		if u == nil || len(u.STs) != len(t.STs) {
			continue
		}
		for i := range t.STs {
			if nearM(t.STs[i].Dist, u.STs[i].Dist) {
				u.STs[i].Dist = t.STs[i].Dist
			}
		}
	}
	for id, s := range want.Shapes {
		u := got.Shapes[id]
		if u == nil || len(u.Pts) != len(s.Pts) {
			continue
		}
		for i := range s.Pts {
			if nearM(s.Pts[i].Dist, u.Pts[i].Dist) {
				u.Pts[i].Dist = s.Pts[i].Dist
			}
		}
	}
}

var nullIsland = [2]float64{0.02, 0.03}

func shapeOpt(c *Ctx) Opt {
	o := DefOpt()
	o.Shapes = [2]int{1, 10}
	o.Trips = [2]int{1, 8}
	o.Services = [2]int{1, 2}
	o.Dup = 0.45
	o.Measures = 0.6
	o.ShapePts = [2]int{2, 30}
	if c.R.Intn(3) > 0 {
		o.Base = &nullIsland
	}
	return o
}

// shapeKin adds variants of shapes that differ in few places, with measurements
// that do not tell them apart
func (g *G) shapeKin() {
	for k := 1 + g.r.Intn(3); k > 0 && len(g.shapes) > 0; k-- {
		s := pick(g, g.shapes)
		if len(s.Pts) < 2 {
			continue
		}
		if g.p(0.7) {
			for i := range s.Pts {
				s.Pts[i].Dist = float32(i * 100)
			}
		}
		for n := 1 + g.r.Intn(3); n > 0; n-- {
			c := &Shape{Pts: append([]Pt(nil), s.Pts...)}
			ins := func(i int, ps ...Pt) { c.Pts = append(c.Pts[:i:i], append(ps, c.Pts[i:]...)...) }
			i := g.r.Intn(len(s.Pts))
			p := s.Pts[i]
			w := pick(g, []float64{0.4, 0.8, 3, 8, 15, 60})
			q := p
			a := g.r.Float64() * 2 * math.Pi
			q.Lat, q.Lon = g.off(float64(p.Lat), float64(p.Lon), w*math.Cos(a), w*math.Sin(a))
			switch g.r.Intn(9) {
			case 0: // a spur
				ins(i+1, q, p)
			case 1: // a detour
				c.Pts[i] = q
			case 2: // a detour at a point of its own
				ins(i+1, q)
			case 3: // points given twice
				ins(i+1, p)
			case 4: // one end is off
				j := pick(g, []int{0, len(c.Pts) - 1})
				c.Pts[j].Lat, c.Pts[j].Lon = g.off(float64(s.Pts[j].Lat), float64(s.Pts[j].Lon), w, 0)
			case 5: // cut
				if len(c.Pts) > 2 {
					c.Pts = c.Pts[:len(c.Pts)-1]
				}
			case 6: // the other way
				for j := range c.Pts {
					d := c.Pts[j].Dist
					c.Pts[j] = s.Pts[len(s.Pts)-1-j]
					c.Pts[j].Dist = d
				}
			case 7: // other measurements
				f := pick(g, []float32{0.001, 0.5, 0.99, 1.01, 2, 1000})
				for j := range c.Pts {
					c.Pts[j].Dist *= f
				}
			case 8: // it goes back and forth at one end
				j, k := 0, 1
				if g.p(0.5) {
					j, k = len(c.Pts)-1, len(c.Pts)-2
				}
				h := g.r.Float64()
				q, d := c.Pts[j], c.Pts[j].Dist
				q.Lat, q.Lon = float32(float64(q.Lat)*(1-h)+float64(c.Pts[k].Lat)*h), float32(float64(q.Lon)*(1-h)+float64(c.Pts[k].Lon)*h)
				if j > 0 {
					q.Dist = d + 100*float32(h)
					c.Pts = append(c.Pts, q)
					break
				}
				ins(0, q)
				c.Pts[0].Dist *= 0
				for k := range c.Pts[1:] {
					c.Pts[k+1].Dist += 100 * float32(h)
				}
			}
			for j := range c.Pts {
				c.Pts[j].Seq = j
				c.Pts[j].X = nil
			}
			c.ID = g.id("sh")
			g.f.Shapes[c.ID] = c
			g.shapes = append(g.shapes, c)
			t := cloneTrip(pick(g, g.trips))
			t.Shape = c.ID
			g.addTrip(t)
		}
		t := cloneTrip(pick(g, g.trips))
		t.Shape = s.ID
		g.addTrip(t)
	}
}

func (c *Ctx) monotone(f *Feed) {
	for _, id := range sortedKeys(f.Shapes) {
		last := float32(math.Inf(-1))
		for i, p := range f.Shapes[id].Pts {
			if p.Dist < last {
				c.Viol("monotone", "shape %s: measurement %s of point %d is less than the one before (%s)", id, fstr(p.Dist), i, fstr(last))
				return
			}
			if !isNaN(p.Dist) {
				last = p.Dist
			}
		}
	}
}

// dp runs Douglas-Peucker on p; ok is false if some decision is within noise.
func dp(p [][2]float64, idx []int, eps, noise float64) (keep []int, ok bool) {
	n := len(idx)
	if n <= 2 {
		return idx, true
	}
	best, bi, second := -1.0, 0, -1.0
	for i := 1; i < n-1; i++ {
		d := segDist(p[idx[i]], p[idx[0]], p[idx[n-1]])
		if d > best {
			best, second, bi = d, best, i
		} else if d > second {
			second = d
		}
	}
	if math.Abs(best-eps) <= noise {
		return nil, false
	}
	if best < eps {
		return []int{idx[0], idx[n-1]}, true
	}
	if best-second <= noise {
		return nil, false
	}
	a, ok1 := dp(p, idx[:bi+1], eps, noise)
	b, ok2 := dp(p, idx[bi:], eps, noise)
	if !ok1 || !ok2 {
		return nil, false
	}
	return append(append([]int{}, a[:len(a)-1]...), b...), true
}

func samePt(a, b Pt) bool {
	return a.Lat == b.Lat && a.Lon == b.Lon && nearM(a.Dist, b.Dist) && xstr(a.X) == xstr(b.X)
}

func init() {
	reg(&Prop{ID: "P12", Title: "shape remeasurement", Quick: 1200, Thorough: 30000,
		Rule: "seeded shapes with measurement gaps run with -m; non-trivial: at least one measurement had to be computed, keyed by shape geometry",
		Case: func(c *Ctx) {
			f, raw := c.genRaw(shapeOpt(c))
			fl := append([]string{"-m", "-F"}, c.idle(f, "l")...)
			comp := c.company("--snap-stops", "--snap-stops", "-P", "-A", "-R", "-C", "-c", "-I", "-T", "-E", "--group-adj-stop-times", "--remove-cal-dates", "--non-overlapping-services", "--ensure-stop-parents", "--fix-far-away-parents")
			r := c.Tidy(append(fl, comp...), c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			f0, _ := ParseRaw(raw)
			expRemeasure(f, false)
			key := ""
			for _, id := range sortedKeys(f.Shapes) {
				s, u := f.Shapes[id], r.F.Shapes[id]
				for i, p := range s.Pts {
					q := f0.Shapes[id].Pts[i]
					if fstr(p.Dist) != fstr(q.Dist) {
						c.Count("measurements_computed", 1)
						key += fstr(p.Lat) + fstr(p.Dist)
					} else if !isNaN(q.Dist) && u != nil && i < len(u.Pts) && u.Pts[i].Dist != q.Dist {
						c.Viol("known-lost", "shape %s point %d had measurement %s, has %s", id, i, fstr(q.Dist), fstr(u.Pts[i].Dist))
					}
				}
			}
			c.monotone(r.F)
			alignDists(f, r.F)
			if comp != nil {
				c.Frame("measure-in-company", Canon(&Feed{Shapes: f.Shapes}, CanonOpt{}), Canon(&Feed{Shapes: r.F.Shapes}, CanonOpt{}))
			} else {
				c.Frame("measure", Canon(f, CanonOpt{}), Canon(r.F, CanonOpt{}))
			}
			if key != "" {
				c.Nontrivial(key)
				c.Sample(map[string]any{"shapes": len(f.Shapes), "computed": head(key, 120)})
			}
		}})

	reg(&Prop{ID: "P10", Title: "shape minimisation", Quick: 1200, Thorough: 30000,
		Rule: "seeded shapes run with -s; non-trivial: at least one point was dropped, keyed by the kept points",
		Case: func(c *Ctx) {
			f, raw := c.genRaw(shapeOpt(c))
			fl := append([]string{"-s", "-F"}, c.idle(f, "l")...)
			comp := c.company("-m", "--snap-stops", "--snap-stops", "-P", "-A", "-R", "-C", "-c", "-I", "-T", "-E", "--group-adj-stop-times", "--remove-cal-dates", "--non-overlapping-services", "--ensure-stop-parents", "--fix-far-away-parents")
			r := c.Tidy(append(fl, comp...), c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			expRemeasure(f, false)
			alignDists(f, r.F)
			if comp == nil {
				c.Frame("frame", Canon(f, CanonOpt{NoShapes: true}), Canon(r.F, CanonOpt{NoShapes: true}))
			}
			key := ""
			for _, id := range sortedKeys(f.Shapes) {
				s, u := f.Shapes[id], r.F.Shapes[id]
				if u == nil {
					c.Viol("lost", "shape %s is missing", id)
					continue
				}
				noise := 2 * s.noise()
				// align the kept points with the original ones
				kept := []int{}
				j := 0
				for i := range s.Pts {
					if j < len(u.Pts) && samePt(s.Pts[i], u.Pts[j]) && (j < len(u.Pts)-1 || i == len(s.Pts)-1) {
						kept = append(kept, i)
						j++
					}
				}
				if j < len(u.Pts) || len(kept) == 0 || kept[0] != 0 || kept[len(kept)-1] != len(s.Pts)-1 {
					c.Viol("not-subset", "shape %s: the %d points left are not a subsequence of the %d original ones with both ends (point %d: %+v)", id, len(u.Pts), len(s.Pts), j, u.Pts[min(j, len(u.Pts)-1)])
					continue
				}
				m := s.merc()
				for k := 1; k < len(kept); k++ {
					for i := kept[k-1] + 1; i < kept[k]; i++ {
						c.Count("points_dropped", 1)
						if d := segDist(m[i], m[kept[k-1]], m[kept[k]]); d > 1+noise {
							// the alignment is greedy: look for a better one only if points repeat
							c.Viol("too-far", "shape %s: dropped point %d lies %.2f m off the simplified line (allowed: 1 m, projection noise %.2f m)", id, i, d, noise)
						}
					}
				}
				all := make([]int, len(s.Pts))
				for i := range all {
					all[i] = i
				}
				if want, ok := dp(m, all, 1, noise); ok {
					c.Count("shapes_with_unambiguous_simplification", 1)
					if len(want) != len(u.Pts) && len(s.Pts) > 1 {
						c.Viol("not-minimal", "shape %s: Douglas-Peucker with 1 m keeps %d of %d points, the output has %d", id, len(want), len(s.Pts), len(u.Pts))
					}
				}
				if len(u.Pts) < len(s.Pts) {
					key += fmt.Sprint(id, len(s.Pts), kept)
				}
			}
			if key != "" {
				c.Nontrivial(key)
				c.Sample(map[string]any{"kept": head(key, 200)})
			}
		}})

	reg(&Prop{ID: "P11", Title: "shape duplicate removal", Quick: 1000, Thorough: 25000,
		Rule: "seeded shapes with (near-)copies run with -S; non-trivial: at least one shape was merged, keyed by the merged shapes",
		Case: func(c *Ctx) {
			o := shapeOpt(c)
			o.Shapes = [2]int{3, 14}
			o.Dup = 0.6
			o.ShapePts = [2]int{2, 14}
			g := newG(c.R, o)
			g.All()
			if g.p(0.6) {
				g.shapeKin()
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			r := c.Tidy(append([]string{"-S", "-F"}, c.idle(f, "l")...), c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			expRemeasure(f, false)
			alignDists(f, r.F)
			c.Frame("frame", Canon(f, CanonOpt{NoShapes: true, NoTripShp: true}), Canon(r.F, CanonOpt{NoShapes: true, NoTripShp: true}))
			// surviving shapes are unchanged
			for _, id := range sortedKeys(r.F.Shapes) {
				s, u := f.Shapes[id], r.F.Shapes[id]
				if s == nil {
					c.Viol("new", "shape %s appeared", id)
					return
				}
				if len(s.Pts) != len(u.Pts) {
					c.Viol("changed", "shape %s had %d points, has %d", id, len(s.Pts), len(u.Pts))
					return
				}
				for i := range s.Pts {
					if !samePt(s.Pts[i], u.Pts[i]) || s.Pts[i].Seq != u.Pts[i].Seq {
						c.Viol("changed", "shape %s point %d was %+v, is %+v", id, i, s.Pts[i], u.Pts[i])
						return
					}
				}
			}
			ids := sortedKeys(f.Shapes)
			ms := map[string][][2]float64{}
			noise := 0.0
			for _, id := range ids {
				ms[id] = f.Shapes[id].merc()
				noise = math.Max(noise, f.Shapes[id].noise())
			}
			lim := 1.05 + 2*noise + 0.1
			adj := map[[2]string]bool{}
			close := func(a, b string) bool {
				if a == b {
					return true
				}
				if b < a {
					a, b = b, a
				}
				if v, ok := adj[[2]string{a, b}]; ok {
					return v
				}
				x, y := ms[a], ms[b]
				ok := math.Hypot(x[0][0]-y[0][0], x[0][1]-y[0][1]) <= lim && math.Hypot(x[len(x)-1][0]-y[len(y)-1][0], x[len(x)-1][1]-y[len(y)-1][1]) <= lim &&
					hausdorff(x, y) <= lim && hausdorff(y, x) <= lim
				adj[[2]string{a, b}] = ok
				return ok
			}
			key := ""
			for _, id := range sortedKeys(f.Trips) {
				a, t := f.Trips[id].Shape, r.F.Trips[id]
				if t == nil || a == t.Shape {
					continue
				}
				b := t.Shape
				key += a + ">" + b + ";"
				c.Count("trips_moved_to_an_equal_shape", 1)
				if a == "" || b == "" || r.F.Shapes[b] == nil {
					c.Viol("trip-shape", "trip %s had shape %q, has %q", id, a, b)
					continue
				}
				// merging is by pairs, so a shape may be reached through a chain of close ones
				seen := map[string]bool{a: true}
				for q := []string{a}; len(q) > 0 && !seen[b]; q = q[1:] {
					for _, z := range ids {
						if !seen[z] && close(q[0], z) {
							seen[z] = true
							q = append(q, z)
						}
					}
				}
				if !seen[b] {
					c.Viol("not-equal", "trip %s was moved from shape %s to shape %s, which is up to %.2f m away", id, a, b, math.Max(hausdorff(ms[a], ms[b]), hausdorff(ms[b], ms[a])))
				}
				pa, pb := f.Shapes[a].Pts, f.Shapes[b].Pts
				ea, eb := pa[len(pa)-1].Dist, pb[len(pb)-1].Dist
				if !isNaN(ea) && !(eb >= ea) && !nearM(ea, eb) {
					c.Viol("shorter", "trip %s was moved from shape %s, measured up to %s, to shape %s, which is only measured up to %s", id, a, fstr(ea), b, fstr(eb))
				}
				if l := polyLen(ms[a]); l > 200 && ea > 0 && eb > 0 && float64(eb)/float64(ea) > 3 {
					c.Viol("unit", "trip %s was moved from shape %s (ends at %s) to shape %s (ends at %s)", id, a, fstr(ea), b, fstr(eb))
				}
			}
			// identical shapes must not both be left
			left := sortedKeys(r.F.Shapes)
			for i, a := range left {
				for _, b := range left[i+1:] {
					x, y := f.Shapes[a].Pts, f.Shapes[b].Pts
					if len(x) != len(y) || len(x) < 2 || !simpleLine(ms[a]) {
						continue
					}
					eq := true
					for j := range x {
						if x[j].Lat != y[j].Lat || x[j].Lon != y[j].Lon || fstr(x[j].Dist) != fstr(y[j].Dist) {
							eq = false
						}
					}
					if eq {
						c.Viol("dup-left", "shapes %s and %s have the same points and measurements, but both are left", a, b)
					}
				}
			}
			if d := len(f.Shapes) - len(r.F.Shapes); d > 0 {
				c.Count("shapes_merged", d)
				c.Nontrivial(fmt.Sprint(left, ids, key))
				c.Sample(map[string]any{"shapes": len(ids), "left": len(left), "moves": head(key, 200)})
			}
		}})

	reg(&Prop{ID: "P23", Title: "stop time remeasurement", Quick: 1200, Thorough: 30000,
		Rule: "seeded trips along their shapes run with -r; non-trivial: at least one trip got measurements, keyed by them",
		Case: func(c *Ctx) {
			o := shapeOpt(c)
			o.NoTimes = 0
			f := Gen(c.R, o)
			g := &G{r: c.R, o: o, f: f, idn: map[string]int{"sh": 1000}}
			alongShapes(g)
			raw := present(c.R, f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			r := c.Tidy(append([]string{"-r", "-F"}, c.idle(f, "l")...), c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			expRemeasure(f, true)
			alignDists(&Feed{Shapes: f.Shapes}, r.F)
			c.Frame("frame", Canon(f, CanonOpt{NoDist: true}), Canon(r.F, CanonOpt{NoDist: true}))
			c.monotone(r.F)
			key := ""
			for _, id := range sortedKeys(f.Trips) {
				t, u := f.Trips[id], r.F.Trips[id]
				if u == nil || len(u.STs) != len(t.STs) {
					continue
				}
				miss, same := false, true
				for i := range t.STs {
					if isNaN(t.STs[i].Dist) {
						miss = true
					}
					if !nearM(t.STs[i].Dist, u.STs[i].Dist) {
						same = false
					}
				}
				s := f.Shapes[t.Shape]
				if s == nil || !miss {
					if !same {
						c.Viol("touched", "trip %s has no gap in its measurements (or no shape), but they changed: %s => %s", id, f.tripStr(t, &CanonOpt{}), r.F.tripStr(u, &CanonOpt{}))
					}
					continue
				}
				lo, hi, feas := snapOptimum(f, t, s)
				if same && isNaN(u.STs[firstGap(t)].Dist) {
					c.Count("trips_without_arrangement", 1)
					if feas {
						c.Viol("not-measured", "trip %s has gaps and its stops can be placed on shape %s in order (total distance %.1f m), but it was not measured", id, t.Shape, hi)
					}
					continue
				}
				c.Count("trips_measured", 1)
				tot := 0.0
				last := float32(math.Inf(-1))
				for i := range u.STs {
					d := u.STs[i].Dist
					if isNaN(d) {
						c.Viol("gap-left", "trip %s: stop time %d still has no measurement, others have", id, i)
						break
					}
					if d < last {
						c.Viol("decreasing", "trip %s: measurement %s of stop time %d is less than the one before (%s)", id, fstr(d), i, fstr(last))
					}
					last = d
					st := f.Stops[u.STs[i].Stop]
					dd := distAtMeasure(s, d, st)
					tot += dd
					if dd > 251 {
						c.Viol("far", "trip %s: stop time %d (%s) is measured %s, but shape %s is %.1f m away from the stop there", id, i, st.ID, fstr(d), t.Shape, dd)
					}
					key += fstr(d) + " "
				}
				if o.Base != nil && feas && tot > lo+1+0.01*lo {
					c.Viol("not-optimal", "trip %s: the chosen positions on shape %s are %.1f m from the stops in total, %.1f m is possible (%s)", id, t.Shape, tot, lo, key)
				}
			}
			if key != "" {
				c.Nontrivial(key)
				c.Sample(map[string]any{"measurements": head(key, 150)})
			}
		}})

	reg(&Prop{ID: "P24", Title: "stop snapping", Quick: 1200, Thorough: 30000,
		Rule: "seeded trips near and far from their shapes run with --snap-stops; non-trivial: at least one stop had to be snapped, keyed by the new positions",
		Case: func(c *Ctx) {
			o := shapeOpt(c)
			f := Gen(c.R, o)
			g := &G{r: c.R, o: o, f: f, idn: map[string]int{"sh": 1000}}
			alongShapes(g)
			raw := present(c.R, f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			r := c.Tidy(append([]string{"--snap-stops", "-F"}, c.idle(f, "l")...), c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			key := ""
			// map new stops back
			owner := map[string]string{}
			for _, id := range sortedKeys(f.Trips) {
				t, u := f.Trips[id], r.F.Trips[id]
				if u == nil || len(u.STs) != len(t.STs) {
					c.Viol("trip", "trip %s is missing or has another number of stop times", id)
					return
				}
				s := f.Shapes[t.Shape]
				for i := range t.STs {
					a, b := f.Stops[t.STs[i].Stop], r.F.Stops[u.STs[i].Stop]
					near := math.Inf(-1)
					at := math.NaN()
					if s != nil && a.HasLL {
						near = groundDist(a.Lat, a.Lon, s)
						at = near
						if d := t.STs[i].Dist; !isNaN(d) {
							if lo, ok := posAtMeasure(s, d, a); ok {
								at = lo
							}
						}
					}
					tol := 1.0
					if s != nil {
						tol += 3*s.noise() + 0.01*100
					}
					if a.ID == b.ID {
						if s != nil && a.HasLL && near > 100+tol {
							c.Viol("not-snapped", "trip %s: stop %s is %.1f m away from shape %s and was not snapped", id, a.ID, near, t.Shape)
						}
						continue
					}
					c.Count("stop_times_snapped", 1)
					key += fstr(b.Lat) + "," + fstr(b.Lon) + " "
					if s == nil || !(at > 100-tol) {
						c.Viol("needless", "trip %s: stop %s is %.1f m from shape %q and was replaced by %s", id, a.ID, at, t.Shape, b.ID)
						continue
					}
					if d := groundDist(b.Lat, b.Lon, s); !(d < tol) {
						c.Viol("off", "trip %s: stop %s was snapped to %s at %s,%s, which is %.1f m off shape %s", id, a.ID, b.ID, fstr(b.Lat), fstr(b.Lon), d, t.Shape)
					}
					if d := hav(a.Lat, a.Lon, b.Lat, b.Lon); d > at*1.005+2*tol { // the projection's scale varies over long distances
						c.Viol("farther", "trip %s: stop %s was moved %.1f m, its position on shape %s is %.1f m away", id, a.ID, d, t.Shape, at)
					}
					if f.Stops[b.ID] != nil {
						c.Viol("reused", "trip %s: stop %s was replaced by the existing stop %s", id, a.ID, b.ID)
					}
					x, y := *a, *b
					y.ID, y.Lat, y.Lon = x.ID, x.Lat, x.Lon
					if x.str() != y.str() {
						c.Viol("attrs", "stop %s was snapped to stop %s with other attributes: %s / %s", a.ID, b.ID, x.str(), y.str())
					}
					owner[b.ID] = a.ID
					u.STs[i].Stop = a.ID
				}
			}
			for id := range owner {
				delete(r.F.Stops, id)
			}
			c.Frame("frame", Canon(f, CanonOpt{}), Canon(r.F, CanonOpt{}))
			if key != "" {
				c.Nontrivial(key)
				c.Sample(map[string]any{"new_positions": head(key, 150)})
			}
		}})
}

func firstGap(t *Trip) int {
	for i := range t.STs {
		if isNaN(t.STs[i].Dist) {
			return i
		}
	}
	return 0
}

func polyLen(l [][2]float64) float64 {
	d := 0.0
	for i := 1; i < len(l); i++ {
		d += math.Hypot(l[i][0]-l[i-1][0], l[i][1]-l[i-1][1])
	}
	return d
}

// simpleLine: every segment is longer than 5 m and the line never comes back near itself
func simpleLine(l [][2]float64) bool {
	dx, dy := l[len(l)-1][0]-l[0][0], l[len(l)-1][1]-l[0][1]
	last := math.Inf(-1)
	n := math.Hypot(dx, dy)
	for i, p := range l {
		t := (p[0]*dx + p[1]*dy) / n
		if i > 0 && !(t > last+5) {
			return false
		}
		last = t
	}
	return true
}

// alongShapes gives trips shapes that pass near their stops
func alongShapes(g *G) {
	for _, id := range sortedKeys(g.f.Trips) {
		t := g.f.Trips[id]
		if !g.p(0.75) {
			continue
		}
		ss := []*Stop{}
		unloc := false
		for i := range t.STs {
			s := g.f.Stops[t.STs[i].Stop]
			if !s.HasLL {
				unloc = true
				break
			}
			c := *s
			w := pick(g, []float64{0, 20, 80, 150, 240, 300})
			if g.p(0.5) {
				w = 30
			}
			c.Lat, c.Lon = g.off(float64(c.Lat), float64(c.Lon), (g.r.Float64()-.5)*w, (g.r.Float64()-.5)*w)
			ss = append(ss, &c)
		}
		if unloc || len(ss) == 0 {
			continue
		}
		if g.p(0.1) { // pass twice
			ss = append(ss, ss...)
		}
		sh := g.shapeFor(ss, g.in(g.o.ShapePts))
		if g.p(0.1) {
			sh.Pts = sh.Pts[:1]
		}
		if g.p(g.o.Measures) {
			g.measureShape(sh, pick(g, []float64{1, 1000}))
		}
		sh.ID = g.id("sh")
		for g.f.Shapes[sh.ID] != nil {
			sh.ID = g.id("sh")
		}
		g.f.Shapes[sh.ID] = sh
		t.Shape = sh.ID
		switch g.r.Intn(3) {
		case 0:
			for i := range t.STs {
				t.STs[i].Dist = nan32
			}
		case 1: // measured along the shape
			last := float32(0)
			for i := range t.STs {
				d := float32(0)
				k := i * len(sh.Pts) / len(t.STs)
				if !isNaN(sh.Pts[k].Dist) {
					d = sh.Pts[k].Dist
				}
				if d < last {
					d = last
				}
				last = d
				t.STs[i].Dist = d
				if g.p(0.3) {
					t.STs[i].Dist = nan32
				}
			}
		}
	}
}

// groundDist is the distance of a coordinate to a shape in metres
func groundDist(la, lo float32, s *Shape) float64 {
	k := math.Cos(float64(la) * math.Pi / 180)
	return polyDist(merc(la, lo), s.merc()) * k
}

type cand struct {
	seg     int
	pr, d   float64
	measure float64
}

// cands lists the segments of s within 250 m of the stop, in order.
func snapCands(st *Stop, s *Shape, rad float64) []cand {
	var r []cand
	for i := 0; i+1 < len(s.Pts); i++ {
		a, b := s.Pts[i], s.Pts[i+1]
		dx, dy := float64(b.Lon)-float64(a.Lon), float64(b.Lat)-float64(a.Lat)
		t := 0.0
		if l := dx*dx + dy*dy; l > 0 {
			t = math.Max(0, math.Min(1, ((float64(st.Lon)-float64(a.Lon))*dx+(float64(st.Lat)-float64(a.Lat))*dy)/l))
		}
		d := hav(st.Lat, st.Lon, float32(float64(a.Lat)+t*dy), float32(float64(a.Lon)+t*dx))
		if d <= rad {
			r = append(r, cand{seg: i, pr: t, d: d, measure: float64(a.Dist) + t*(float64(b.Dist)-float64(a.Dist))})
		}
	}
	return r
}

// snapOptimum finds the least total distance of an in-order placement of the
// stops of t on s; hi is the result for a slightly smaller radius and feas says
// whether a placement exists for that radius.
func snapOptimum(f *Feed, t *Trip, s *Shape) (lo, hi float64, feas bool) {
	solve := func(rad, eps float64) float64 {
		var prev []cand
		var cost []float64
		for i := range t.STs {
			st := f.Stops[t.STs[i].Stop]
			if !st.HasLL {
				return math.Inf(1)
			}
			cs := snapCands(st, s, rad)
			nc := make([]float64, len(cs))
			for j, x := range cs {
				nc[j] = math.Inf(1)
				if i == 0 {
					nc[j] = x.d
				}
				for k, p := range prev {
					if p.seg < x.seg || p.seg == x.seg && p.pr <= x.pr+eps {
						nc[j] = math.Min(nc[j], cost[k]+x.d)
					}
				}
			}
			prev, cost = cs, nc
			if len(cs) == 0 {
				return math.Inf(1)
			}
		}
		b := math.Inf(1)
		for _, x := range cost {
			b = math.Min(b, x)
		}
		return b
	}
	hi = solve(249, -1e-7)
	return solve(249, -1e-7), hi, !math.IsInf(hi, 1)
}

// distAtMeasure: least distance between the stop and the positions of s with measurement m
func distAtMeasure(s *Shape, m float32, st *Stop) float64 {
	d, _ := posAtMeasure(s, m, st)
	return d
}

func posAtMeasure(s *Shape, m float32, st *Stop) (float64, bool) {
	best := math.Inf(1)
	tol := 1e-5*math.Abs(float64(m)) + 1e-6
	for i := 0; i+1 < len(s.Pts); i++ {
		a, b := s.Pts[i], s.Pts[i+1]
		if isNaN(a.Dist) || isNaN(b.Dist) || float64(a.Dist) > float64(m)+tol || float64(b.Dist) < float64(m)-tol {
			continue
		}
		ts := []float64{}
		if w := float64(b.Dist) - float64(a.Dist); w > 4*tol {
			ts = append(ts, math.Max(0, math.Min(1, (float64(m)-float64(a.Dist))/w)))
		} else {
			for j := 0; j <= 50; j++ {
				ts = append(ts, float64(j)/50)
			}
		}
		for _, t := range ts {
			best = math.Min(best, hav(st.Lat, st.Lon, float32(float64(a.Lat)+t*(float64(b.Lat)-float64(a.Lat))), float32(float64(a.Lon)+t*(float64(b.Lon)-float64(a.Lon)))))
		}
	}
	return best, !math.IsInf(best, 1)
}

var _ = sort.Strings

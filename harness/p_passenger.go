package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// view selects what of a journey must be preserved by a set of options.
type view struct {
	I, fuzzyI, anyStop, anyZone, anySort bool
	tol                                  float64 // metres a stop may have moved
}

type journey struct {
	pos   string
	stops []*Stop
	attrs map[string]bool
	shape *Shape
}

func (f *Feed) unboardable(t *Trip) bool {
	r := f.Routes[t.Route]
	pu, do := false, false
	for _, s := range t.STs {
		pu = pu || s.PT != 1 || s.CP != 1 || r.CP != 1
		do = do || s.DT != 1 || s.CD != 1 || r.CD != 1
	}
	return !pu || !do
}

// journeys lists, per date and content, what a passenger can ride; ids do not show.
func (f *Feed) journeys(v view, orphans bool, into map[string]map[string]*journey, n map[string]int) {
	agency := func(id string) string {
		a := f.Agencies[id]
		if a == nil {
			if len(f.Agencies) == 1 {
				for _, b := range f.Agencies {
					a = b
				}
			} else {
				return "none"
			}
		}
		return fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s", a.Name, a.URL, a.TZ, a.Lang, a.Phone, a.FareURL, a.Email)
	}
	fares := map[string]map[string]bool{}
	for _, fa := range f.Fares {
		for _, u := range fa.Rules {
			if u.Route == "" {
				continue
			}
			if fares[u.Route] == nil {
				fares[u.Route] = map[string]bool{}
			}
			z := ""
			if !v.anyZone {
				z = fmt.Sprintf("%s/%s/%s", u.Orig, u.Dest, u.Cont)
			}
			// not the agency: a fare of one agency is a fare of the other equal one
			fares[u.Route][fmt.Sprintf("%s %s %d %d %d %s", fa.Price, fa.Cur, fa.PM, fa.Transfers, fa.Dur, z)] = true
		}
	}
	at := map[string][]string{}
	for _, a := range f.Attributions {
		x := *a
		x.ID, x.Agency, x.Route, x.Trip, x.X = "", "", "", "", nil
		for _, k := range []string{"a " + a.Agency, "r " + a.Route, "t " + a.Trip} {
			if len(k) > 2 {
				at[k] = append(at[k], x.str())
			}
		}
	}
	for _, id := range sortedKeys(f.Trips) {
		t := f.Trips[id]
		if len(t.STs) == 0 || orphans && f.unboardable(t) {
			continue
		}
		r := f.Routes[t.Route]
		j := &journey{attrs: map[string]bool{}}
		for _, k := range []string{"a " + r.Agency, "r " + t.Route, "t " + id} {
			for _, x := range at[k] {
				j.attrs[x] = true
			}
		}
		if t.Shape != "" {
			j.shape = f.Shapes[t.Shape]
		}
		key := ""
		if v.fuzzyI {
			key = fmt.Sprintf("type %d", extType(r.Type))
		} else {
			fs := sortedKeys(fares[t.Route])
			so := r.Sort
			if v.anySort {
				so = 0
			}
			key = fmt.Sprintf("%s|%s %s %s %d %s %s %s %d %d %d|%v|%s %s %d %d %d", agency(r.Agency), r.Short, r.Long, r.Desc, r.Type, r.URL, r.Color, r.Text, so, r.CP, r.CD, fs, t.Headsign, t.Short, t.Dir, t.WA, t.BA)
		}
		line := func(shift int) string {
			var b strings.Builder
			for i, s := range t.STs {
				st := f.Stops[s.Stop]
				root := f.Stops[f.station(s.Stop)]
				if root == nil {
					root = st
				}
				b.WriteString(" @")
				if !v.anyStop {
					b.WriteString(root.Name)
					if !v.I {
						b.WriteString("/" + st.Name + "/" + st.Platform)
					}
				}
				ar, dp := s.Arr, s.Dep
				if ar >= 0 {
					ar, dp = ar+shift, dp+shift
				}
				if i > 0 || !v.I || len(t.STs) == 1 {
					b.WriteString(" " + tstr(ar))
				}
				if i < len(t.STs)-1 || !v.I || len(t.STs) == 1 {
					b.WriteString("-" + tstr(dp))
				}
				if !v.I {
					fmt.Fprintf(&b, " %d%d%d%d%v", s.PT, s.DT, s.CP, s.CD, s.TP)
				}
			}
			return b.String()
		}
		for _, s := range t.STs {
			st := f.Stops[s.Stop]
			j.stops = append(j.stops, st)
			j.pos += fstr(st.Lat) + "," + fstr(st.Lon) + " "
		}
		if j.shape != nil {
			j.pos += "S" + t.Shape
		}
		var runs []string
		if len(t.Freqs) == 0 {
			runs = []string{line(0)}
		}
		for _, q := range t.Freqs {
			for a := q.Start; a < q.End && q.Headway > 0; a += q.Headway {
				s := line(a - t.STs[0].Dep)
				if !q.Exact {
					s += " ~"
				}
				runs = append(runs, s)
			}
		}
		for _, d := range f.Services[t.Service].Active() {
			for _, l := range runs {
				k := dstr(d) + " " + key + l
				if into[k] == nil {
					into[k] = map[string]*journey{}
				}
				o := into[k][j.pos]
				if o == nil {
					into[k][j.pos] = j
				} else if o != j {
					u := *j
					u.attrs = map[string]bool{}
					for x := range o.attrs {
						u.attrs[x] = true
					}
					for x := range j.attrs {
						u.attrs[x] = true
					}
					into[k][j.pos] = &u
				}
				n[k]++
			}
		}
	}
}

// apart is the largest distance of a vertex of a from the polyline b, in metres.
func apart(a, b *Shape) float64 {
	mx := 0.0
	for _, p := range a.Pts {
		k := math.Cos(float64(p.Lat) * math.Pi / 180)
		xy := func(q Pt) (float64, float64) {
			return float64(q.Lon-p.Lon) * k * 111319.49, float64(q.Lat-p.Lat) * 111319.49
		}
		best := math.Inf(1)
		for i, q := range b.Pts {
			x1, y1 := xy(q)
			best = min(best, math.Hypot(x1, y1))
			if i > 0 {
				x0, y0 := xy(b.Pts[i-1])
				dx, dy := x1-x0, y1-y0
				if l := dx*dx + dy*dy; l > 0 {
					u := math.Max(0, math.Min(1, -(x0*dx+y0*dy)/l))
					best = min(best, math.Hypot(x0+u*dx, y0+u*dy))
				}
			}
		}
		mx = max(mx, best)
	}
	return mx
}

func (a *journey) fits(b *journey, v view, f func(string, float64)) bool {
	for i := range a.stops {
		s, t := a.stops[i], b.stops[i]
		if d := haversine(float64(s.Lat), float64(s.Lon), float64(t.Lat), float64(t.Lon)); d > v.tol {
			f("stop", d)
			return false
		}
	}
	if v.I {
		return true
	}
	if (a.shape == nil) != (b.shape == nil) {
		f("shape", -1)
		return false
	}
	if a.shape != nil {
		if d := max(apart(a.shape, b.shape), apart(b.shape, a.shape)); d > 10 {
			f("shape", d)
			return false
		}
	}
	return true
}

func init() {
	reg(&Prop{ID: "P02", Title: "the timetable a passenger sees", Quick: 1500, Thorough: 40000,
		Rule: "one to three seeded feeds with many redundant entities run with --compress, --Compress, --merge, --Merge or random sets of the options that preserve journeys; non-trivial: the output has fewer trips, routes, stops, services or shapes, keyed by options and journeys",
		Case: func(c *Ctx) { c.passenger() }})
}

func (c *Ctx) passenger() {
	o := svcOpt(c.R)
	o.Dup = 0.5
	o.Trips, o.Routes, o.Agencies, o.Services, o.Stops, o.Shapes = [2]int{2, 12}, [2]int{1, 5}, [2]int{1, 3}, [2]int{1, 5}, [2]int{3, 10}, [2]int{0, 4}
	o.Stations, o.Fares, o.Attrs, o.Freqs, o.Transfers = 0.4, 0.6, 0.5, 0.2, 0.3
	o.Regular = 0.2
	g := newG(c.R, o)
	g.All()
	if g.p(0.5) {
		g.copies()
		c.R.Shuffle(len(g.trips), func(i, j int) { g.trips[i], g.trips[j] = g.trips[j], g.trips[i] })
	}
	regular := g.p(0.35)
	if regular { // a departure of a regular service that is not quite like the others
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			base, hw := pick(g, g.trips), pick(g, []int{60, 300, 600, 900})
			if len(base.Freqs) > 0 {
				continue
			}
			for j, m := 1, 1+g.r.Intn(4); j <= m; j++ {
				t := cloneTrip(base)
				t.shift(j * hw)
				if g.p(0.3) {
					i := g.r.Intn(len(t.STs))
					if g.p(0.4) {
						i = len(t.STs) - 1
					}
					switch g.r.Intn(5) {
					case 0:
						t.STs[i].PT = g.r.Intn(4)
					case 1:
						t.STs[i].DT = g.r.Intn(4)
					case 2:
						t.STs[i].CP = g.r.Intn(4)
					case 3:
						t.STs[i].CD = g.r.Intn(4)
					default:
						g.mutTrip(t)
					}
				}
				g.addTrip(t)
			}
		}
	}
	raw := present(c.R, g.f.ToRaw())
	f, prob := ParseRaw(raw)
	if len(prob) > 0 {
		fatal("generator: %v", prob)
	}
	// options
	has := map[string]bool{}
	var fl []string
	switch c.R.Intn(7) {
	case 0:
		fl = []string{"--compress"}
	case 1:
		fl = []string{"--Compress"}
	case 2:
		fl = []string{"--merge"}
	case 3:
		fl = []string{"--Merge"}
	default:
		for _, x := range []string{"-O", "-s", "-S", "-R", "-C", "-c", "-I", "-A", "-P", "-m"} {
			if g.p(0.45) {
				fl = append(fl, x)
			}
		}
	}
	if regular && g.p(0.5) {
		fl = []string{"-T"}
	}
	for _, x := range []string{"-T", "--remove-cal-dates", "--explicit-calendar", "-i", "-d", "--ensure-stop-parents", "--keep-col-order", "--fix-far-away-parents", "--non-overlapping-services", "-E", "--red-stops-fuzzy", "--red-trips-fuzzy", "--red-trips-aggressive", "-F", "--keep-ids"} {
		if g.p(0.12) {
			fl = append(fl, x)
		}
	}
	c.R.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	for _, x := range fl {
		has[x] = true
	}
	all := has["--compress"] || has["--Compress"] || has["--merge"] || has["--Merge"]
	v := view{I: has["-I"] || all, tol: 20}
	v.fuzzyI = v.I && (has["--red-trips-fuzzy"] || has["--Compress"] || has["--Merge"])
	P := has["-P"] || all
	v.anyStop = has["-E"] || has["--Merge"] || P && (has["--red-stops-fuzzy"] || has["--Compress"])
	if v.I {
		v.tol = 1500
	} else if P {
		v.tol = 100
	}
	v.anySort = has["-R"] || all // routes that differ in it only are duplicates
	orphans := has["-O"] || all
	// inputs: the feed, or several overlapping parts of it
	ins := []string{c.Put("in0", raw)}
	feeds := []*Feed{f}
	if c.R.Intn(3) == 0 {
		for i := 1 + c.R.Intn(2); i > 0; i-- {
			gone := map[string]bool{}
			for id := range g.f.Trips {
				gone[id] = g.p(0.3)
			}
			q := g.f.without(gone)
			r2 := present(c.R, q.ToRaw())
			f2, p2 := ParseRaw(r2)
			if len(p2) > 0 {
				fatal("generator: %v", p2)
			}
			feeds = append(feeds, f2)
			ins = append(ins, c.Put(fmt.Sprintf("in%d", i), r2))
		}
		v.anyZone = true
	}
	r := c.Tidy(fl, ins...)
	if !c.Valid(r) {
		return
	}
	in, nin := map[string]map[string]*journey{}, map[string]int{}
	trips, ents := 0, 0
	for _, x := range feeds {
		x.journeys(v, orphans, in, nin)
		trips += len(x.Trips)
		ents += len(x.Trips) + len(x.Routes) + len(x.Stops) + len(x.Services) + len(x.Shapes) + len(x.Agencies)
	}
	out, nout := map[string]map[string]*journey{}, map[string]int{}
	r.F.journeys(v, false, out, nout)
	c.Count("journey_dates_compared", len(in))
	for _, k := range sortedKeys(in) {
		if out[k] == nil {
			c.Viol("lost", "%s: nobody can ride this anymore: %s", strings.Join(fl, " "), head(k, 900))
			return
		}
		if !v.I && nin[k] != nout[k] {
			c.Viol("number", "%s: %d of this journey were %d: %s", strings.Join(fl, " "), nout[k], nin[k], head(k, 900))
			return
		}
	}
	for _, k := range sortedKeys(out) {
		if in[k] == nil {
			c.Viol("invented", "%s: nobody could ride this before: %s", strings.Join(fl, " "), head(k, 900))
			return
		}
	}
	// attributions stay with the journey, on any date
	attrs := map[string]map[string]bool{}
	for k, js := range out {
		if attrs[k[9:]] == nil {
			attrs[k[9:]] = map[string]bool{}
		}
		for _, b := range js {
			for x := range b.attrs {
				attrs[k[9:]][x] = true
			}
		}
	}
	for _, k := range sortedKeys(in) {
		match := func(x, y map[string]*journey, what string) bool {
			for _, p := range sortedKeys(x) {
				ok, why, by := false, "", math.Inf(1)
				for _, b := range y {
					if x[p].fits(b, v, func(w string, d float64) {
						if d < by {
							why, by = w, d
						}
					}) {
						ok = true
						break
					}
				}
				if !ok {
					c.Viol("place-"+why, "%s: %s with the same places: %s of the nearest is %.1f m off: %s %s", strings.Join(fl, " "), what, why, by, head(k, 700), head(p, 200))
					return false
				}
			}
			return true
		}
		if !match(in[k], out[k], "no journey is left") || !match(out[k], in[k], "there was no journey") {
			return
		}
		for _, a := range in[k] {
			for x := range a.attrs {
				if !attrs[k[9:]][x] && !v.fuzzyI {
					c.Viol("attribution", "%s: the attribution %s of this journey is lost: %s", strings.Join(fl, " "), x, head(k, 600))
					return
				}
			}
		}
	}
	c.Seen("option_sets", strings.Join(fl, " "))
	left := len(r.F.Trips) + len(r.F.Routes) + len(r.F.Stops) + len(r.F.Services) + len(r.F.Shapes) + len(r.F.Agencies)
	if left < ents && len(in) > 0 {
		ks := sortedKeys(in)
		sort.Strings(fl)
		c.Nontrivial(fmt.Sprint(fl, len(feeds), len(in), ks[0], ks[len(ks)-1]))
		c.Sample(map[string]any{"options": strings.Join(fl, " "), "feeds": len(feeds), "journeys": len(in), "trips": trips, "trips_after": len(r.F.Trips), "entities": ents, "entities_after": left})
	}
}

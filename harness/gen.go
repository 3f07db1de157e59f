package main

// Workload generation: seeded, valid GTFS feeds rich in near-duplicates.

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

type Opt struct {
	Agencies, Routes, Services, Trips, Stops, Shapes [2]int  // ranges
	Dup                                              float64 // probability that an entity is a (near-)copy of an earlier one
	Extra                                            float64 // probability of non-GTFS columns per table
	Fares, Transfers, Pathways, Levels, Attrs, Infos float64
	Freqs                                            float64 // share of frequency based trips
	Stations                                         float64
	Measures                                         float64 // share of shapes / trips with shape_dist_traveled
	Holes                                            float64 // share of missing measurements
	NoTimes                                          float64 // share of stop times without times (interior)
	Orphans                                          float64
	IDStyle                                          int // -1 random
	ST                                               [2]int
	EmptySvc                                         float64
	Horizon                                          int     // days
	Regular                                          float64 // share of trip groups at regular headway
	NoBoard                                          float64 // share of trips nobody, or hardly anybody, can board or alight from
	StAttr                                           float64 // share of non default stop time attributes
	ShapePts                                         [2]int
	Base                                             *[2]float64 // fixed centre of the feed
}

func DefOpt() Opt {
	return Opt{Agencies: [2]int{1, 3}, Routes: [2]int{1, 6}, Services: [2]int{1, 6}, Trips: [2]int{2, 25}, Stops: [2]int{3, 14}, Shapes: [2]int{0, 5},
		Dup: 0.35, Extra: 0.15, Fares: 0.5, Transfers: 0.5, Pathways: 0.4, Levels: 0.4, Attrs: 0.4, Infos: 0.3, Freqs: 0.12, Stations: 0.4, Measures: 0.5, Holes: 0.3, NoTimes: 0.08, Orphans: 0.3,
		IDStyle: -1, ST: [2]int{2, 6}, EmptySvc: 0.06, Horizon: 60, Regular: 0.4, StAttr: 0.08, ShapePts: [2]int{2, 14}}
}

type G struct {
	r      *rand.Rand
	o      Opt
	f      *Feed
	idn    map[string]int
	style  int
	day0   int
	lat0   float64
	lon0   float64
	span   float64
	stopsL []*Stop // usable (loc 0)
	routes []*Route
	svcs   []*Service
	shapes []*Shape
	trips  []*Trip
	ags    []*Agency
	zones  []string
}

func (g *G) p(x float64) bool { return g.r.Float64() < x }
func (g *G) in(a [2]int) int {
	if a[1] <= a[0] {
		return a[0]
	}
	return a[0] + g.r.Intn(a[1]-a[0]+1)
}
func pick[T any](g *G, v []T) T { return v[g.r.Intn(len(v))] }

func (g *G) id(kind string) string {
	g.idn[kind]++
	n := g.idn[kind]
	switch g.style {
	case 0:
		return strconv.Itoa(n)
	case 1:
		return fmt.Sprintf("%s-%d", kind, n)
	case 2: // numeric, descending and offset, so that fresh dense ids collide with old ones
		return strconv.Itoa(40 - n)
	case 3: // looks like base 36
		return strconv.FormatInt(int64(n+7), 36)
	case 4:
		return fmt.Sprintf("%s:%d::%d#x", kind, n*7%97, n)
	case 6: // looks like the ids of an earlier merge
		return [...]string{"", "0#", "1#", "x", "1#0#"}[n%5] + strconv.Itoa(n/5)
	case 7: // differ in case only
		return [...]string{"Id", "id", "iD", "ID"}[n%4] + strconv.Itoa(n/4)
	case 8: // common prefixes, leading zeros, non-ASCII letters
		return [...]string{"", "0", "00", "ü", "de:08311:30"}[n%5] + strconv.Itoa(n/5)
	default:
		return fmt.Sprintf("%s %d", kind[:1], n)
	}
}

func f32(x float64) float32 {
	v, _ := strconv.ParseFloat(strconv.FormatFloat(x, 'f', 6, 64), 64)
	return float32(v)
}

// offset a coordinate by metres
func (g *G) off(lat, lon, dx, dy float64) (float32, float32) {
	return f32(lat + dy/111320.0), f32(lon + dx/(111320.0*math.Cos(lat*math.Pi/180)))
}

func newG(r *rand.Rand, o Opt) *G {
	g := &G{r: r, o: o, f: NewFeed(), idn: map[string]int{}}
	g.style = o.IDStyle
	if g.style < 0 {
		g.style = []int{0, 1, 2, 3, 4, 5, 7, 8}[r.Intn(8)]
	}
	base := [][2]float64{{48.0, 7.85}, {52.5, 13.4}, {-33.9, 151.2}, {40.7, -74.0}, {-23.5, -46.6}, {0.4, 32.6}, {60.2, 24.9}, {48.0, 7.85}}
	b := pick(g, base)
	g.lat0, g.lon0 = b[0]+r.Float64()*0.2, b[1]+r.Float64()*0.2
	if o.Base != nil {
		g.lat0, g.lon0 = o.Base[0], o.Base[1]
	}
	g.span = 8000
	switch r.Intn(10) {
	case 0: // several cells of the spatial indices
		g.span = 40000
	case 1: // crowded
		g.span = 800
	}
	if r.Intn(250) == 0 { // a larger feed
		for _, x := range []*[2]int{&g.o.Agencies, &g.o.Routes, &g.o.Services, &g.o.Trips, &g.o.Stops, &g.o.Shapes} {
			x[1] *= 10
			x[0] = x[1] / 2
		}
	}
	starts := []int{civil(2024, 1, 1), civil(2023, 12, 20), civil(2024, 2, 20), civil(2025, 3, 1), civil(2021, 10, 15), civil(2026, 6, 1), civil(2019, 12, 28)}
	g.day0 = pick(g, starts) + r.Intn(14)
	return g
}

// tweak makes a text that is easily mistaken for s
func (g *G) tweak(s, add string) string {
	if s == "" {
		return add
	}
	switch g.r.Intn(7) {
	case 0:
		if u := strings.ToUpper(s); u != s {
			return u
		}
	case 1:
		if u := strings.ToLower(s); u != s {
			return u
		}
	case 2:
		return add + s
	case 3: // same length, differs in one place
		b := []byte(s)
		i := g.r.Intn(len(b))
		if b[i] >= 'a' && b[i] < 'z' {
			b[i]++
			return string(b)
		}
	case 4:
		if u := strings.Replace(s, "a", "ä", 1); u != s {
			return u
		}
	case 5:
		if len(s) > 4 && s[len(s)-1] != ' ' && s[len(s)-1] < 128 && s[len(s)-2] != ' ' && s[len(s)-2] < 128 {
			return s[:len(s)-1]
		}
	}
	return s + add
}

// resplit gives two texts which read the same one after the other: the first keeps at
// least one character
func (g *G) resplit(a, b *string) {
	t := *a + *b
	var at []int
	for i := range t {
		if i > 0 && i != len(*a) && t[i] != ' ' && t[i-1] != ' ' && t[i] != '\n' && t[i-1] != '\n' {
			at = append(at, i)
		}
	}
	if *b != "" {
		at = append(at, len(t))
	}
	if len(at) == 0 {
		return
	}
	i := pick(g, at)
	*a, *b = t[:i], t[i:]
}

func Gen(r *rand.Rand, o Opt) *Feed {
	g := newG(r, o)
	g.All()
	return g.f
}

func (g *G) All() {
	g.genAgencies()
	g.genLevels()
	g.genStops()
	g.genShapes()
	g.genRoutes()
	g.genServices()
	g.genTrips()
	g.genFares()
	g.genTransfers()
	g.genPathways()
	g.genAttrs()
	g.genInfos()
	g.genExtra()
}

func (g *G) genAgencies() {
	n := g.in(g.o.Agencies)
	for i := 0; i < n; i++ {
		var a *Agency
		if len(g.ags) > 0 && g.p(g.o.Dup) {
			c := *pick(g, g.ags)
			a = &c
			if g.p(0.4) { // near duplicate
				switch g.r.Intn(8) {
				case 7:
					if a.Phone == "" {
						a.Phone = "12"
					}
					g.resplit(&a.Name, &a.Phone)
				case 0:
					a.Name = g.tweak(a.Name, "X")
				case 1:
					a.URL = "http://other.example/" + strconv.Itoa(g.r.Intn(3))
				case 2:
					a.Phone = g.tweak(a.Phone, "1")
				case 3:
					a.Lang = pick(g, []string{"de", "en", "fr", ""})
				case 4:
					a.Phone = pick(g, []string{"", "+1", "+2"})
				case 5:
					a.FareURL = pick(g, []string{"", "http://fare.example/1"})
				case 6:
					a.Email = pick(g, []string{"", "x@y.example", "z@y.example"})
				}
			}
		} else {
			a = &Agency{Name: fmt.Sprintf("Agency %c", 'A'+g.r.Intn(4)), URL: fmt.Sprintf("http://ag.example/%d", g.r.Intn(2)), TZ: "Europe/Berlin", Lang: pick(g, []string{"", "de", "en"})}
			if g.p(0.3) {
				a.Phone = "+49 1"
			}
			if g.p(0.3) {
				a.FareURL = "http://fare.example/0"
			}
			if g.p(0.3) {
				a.Email = "x@y.example"
			}
		}
		a.ID = g.id("ag")
		a.X = nil
		g.f.Agencies[a.ID] = a
		g.ags = append(g.ags, a)
	}
}

func (g *G) genLevels() {
	if !g.p(g.o.Levels) {
		return
	}
	n := 1 + g.r.Intn(4)
	var last *Level
	for i := 0; i < n; i++ {
		l := &Level{Index: float32(g.r.Intn(3) - 1), Name: pick(g, []string{"", "Street", "Underground"})}
		if last != nil && g.p(g.o.Dup) {
			c := *last
			l = &c
			switch g.r.Intn(6) {
			case 0:
				l.Name = g.tweak(l.Name, "L")
			case 1:
				l.Index += pick(g, []float32{0.5, -0.5, 0.25, 1, -1})
			}
		}
		l.ID = g.id("lv")
		g.f.Levels[l.ID] = l
		last = l
	}
}

var stopNames = []string{"Hauptbahnhof", "Market Square", "Town Hall", "Museum", "Central Station", "Airport", "Main St", "Hbf", "Schloss", "Stadtgarten", "University", "Harbour", "Zoo", "Opera"}

func (g *G) newStop(loc int) *Stop {
	dx, dy := (g.r.Float64()-0.5)*g.span, (g.r.Float64()-0.5)*g.span
	la, lo := g.off(g.lat0, g.lon0, dx, dy)
	s := &Stop{Name: pick(g, stopNames), Lat: la, Lon: lo, HasLL: true, Loc: loc}
	if g.p(0.3) {
		s.Code = "C" + strconv.Itoa(g.r.Intn(4))
	}
	if g.p(0.2) {
		s.Desc = "desc " + strconv.Itoa(g.r.Intn(3))
	}
	if g.p(0.35) {
		s.Zone = "z" + strconv.Itoa(g.r.Intn(3))
	}
	if g.p(0.15) {
		s.URL = "http://stop.example/" + strconv.Itoa(g.r.Intn(2))
	}
	if g.p(0.2) {
		s.TZ = "Europe/Berlin"
	}
	if g.p(0.3) {
		s.WB = g.r.Intn(3)
	}
	if len(g.f.Levels) > 0 && g.p(0.4) {
		s.Level = pick(g, sortedKeys(g.f.Levels))
	}
	if loc == 0 && g.p(0.3) {
		s.Platform = strconv.Itoa(1 + g.r.Intn(3))
	}
	return s
}

// near moves s by up to m metres
func (g *G) near(s *Stop, m float64) {
	a, d := g.r.Float64()*2*math.Pi, g.r.Float64()*m
	s.Lat, s.Lon = g.off(float64(s.Lat), float64(s.Lon), math.Cos(a)*d, math.Sin(a)*d)
}

func (g *G) mutStop(s *Stop) {
	switch g.r.Intn(10) {
	case 9:
		g.resplit(pick(g, []*string{&s.Name, &s.Desc}), pick(g, []*string{&s.Code, &s.Platform}))
	case 0:
		s.Name = g.tweak(s.Name, "B")
	case 1:
		s.Code = g.tweak(s.Code, "9")
	case 2:
		s.Desc = g.tweak(s.Desc, "x")
	case 3:
		s.Zone = "z" + strconv.Itoa(g.r.Intn(3))
	case 4:
		s.URL = pick(g, []string{"", "http://stop.example/9"})
	case 5:
		s.TZ = pick(g, []string{"", "Europe/Berlin", "Europe/Paris"})
	case 6:
		s.WB = g.r.Intn(3)
	case 7:
		s.Platform = strconv.Itoa(g.r.Intn(4))
	case 8:
		if len(g.f.Levels) > 0 {
			s.Level = pick(g, sortedKeys(g.f.Levels))
		}
	}
}

func (g *G) genStops() {
	n := g.in(g.o.Stops)
	var stations, plats, others []*Stop
	kids := map[string][]*Stop{}
	add := func(s *Stop) {
		s.ID = g.id("st")
		s.X = nil
		g.f.Stops[s.ID] = s
		if s.Loc > 1 {
			others = append(others, s)
		}
		if s.Parent != "" {
			kids[s.Parent] = append(kids[s.Parent], s)
		}
		switch s.Loc {
		case 0:
			g.stopsL = append(g.stopsL, s)
			if s.Parent != "" {
				plats = append(plats, s)
			}
		case 1:
			stations = append(stations, s)
		}
	}
	for len(g.stopsL) < n {
		switch {
		case len(g.stopsL) > 0 && g.p(g.o.Dup):
			c := *pick(g, g.stopsL)
			s := &c
			g.near(s, pick(g, []float64{0, 3, 4.5, 8, 60}))
			if g.p(0.35) {
				g.mutStop(s)
			}
			add(s)
		case len(others) > 0 && g.p(g.o.Dup*0.3): // entrances, nodes, boarding areas
			c := *pick(g, others)
			s := &c
			if s.HasLL {
				g.near(s, pick(g, []float64{0, 3, 4.5, 20, 45}))
			}
			if g.p(0.3) {
				g.mutStop(s)
				s.Platform = ""
			}
			add(s)
		case len(stations) > 0 && g.p(g.o.Dup*0.35): // a station with everything in it
			var dup func(o *Stop, parent string)
			budget := 12
			dup = func(o *Stop, parent string) {
				if budget--; budget < 0 {
					return
				}
				c := *o
				s := &c
				if parent != "" {
					s.Parent = parent
				}
				if s.HasLL {
					g.near(s, pick(g, []float64{0, 0, 3, 4.5, 4.5}))
				}
				if g.p(0.1) {
					g.mutStop(s)
					if s.Loc > 0 {
						s.Platform = ""
					}
				}
				ks := append([]*Stop{}, kids[o.ID]...)
				add(s)
				for _, k := range ks {
					dup(k, s.ID)
				}
			}
			dup(pick(g, stations), "")
		case len(stations) > 0 && g.p(g.o.Dup*0.5):
			c := *pick(g, stations)
			s := &c
			g.near(s, pick(g, []float64{0, 10, 35, 45, 80}))
			if g.p(0.4) {
				g.mutStop(s)
				s.Platform = ""
			}
			add(s)
			k := g.newStop(0)
			k.Lat, k.Lon, k.Name, k.Parent = s.Lat, s.Lon, s.Name, s.ID
			g.near(k, 40)
			add(k)
		case g.p(g.o.Stations):
			s := g.newStop(1)
			s.Platform = ""
			add(s)
			m := 1 + g.r.Intn(3)
			for j := 0; j < m; j++ {
				k := g.newStop(0)
				k.Lat, k.Lon, k.Parent = s.Lat, s.Lon, s.ID
				if g.p(0.7) {
					k.Name = s.Name
				}
				g.near(k, 60)
				add(k)
			}
			if g.p(0.4) {
				k := g.newStop(2)
				k.Lat, k.Lon, k.Parent = s.Lat, s.Lon, s.ID
				g.near(k, 60)
				add(k)
			}
			if g.p(0.25) {
				k := g.newStop(3)
				k.Parent = s.ID
				if g.p(0.5) {
					k.HasLL = false
				} else {
					k.Lat, k.Lon = s.Lat, s.Lon
				}
				add(k)
			}
			if g.p(0.25) {
				k := g.newStop(4)
				k.Parent = g.stopsL[len(g.stopsL)-1].ID
				if g.p(0.5) {
					k.HasLL = false
				} else {
					k.Lat, k.Lon = s.Lat, s.Lon
				}
				add(k)
			}
		default:
			add(g.newStop(0))
		}
	}
}

// polyline through / near the given stops
func (g *G) shapeFor(stops []*Stop, npts int) *Shape {
	s := &Shape{}
	seq := 0
	addp := func(la, lo float32) {
		seq += 1 + g.r.Intn(3)
		s.Pts = append(s.Pts, Pt{Lat: la, Lon: lo, Seq: seq, Dist: nan32})
	}
	for i, st := range stops {
		la, lo := st.Lat, st.Lon
		if g.p(0.3) {
			la, lo = g.off(float64(la), float64(lo), (g.r.Float64()-.5)*60, (g.r.Float64()-.5)*60)
		}
		addp(la, lo)
		if i+1 < len(stops) {
			k := npts / len(stops)
			for j := 1; j <= k; j++ {
				t := float64(j) / float64(k+1)
				la := float64(st.Lat) + t*(float64(stops[i+1].Lat)-float64(st.Lat))
				lo := float64(st.Lon) + t*(float64(stops[i+1].Lon)-float64(st.Lon))
				w := pick(g, []float64{0, 0, 0.5, 1.5, 4, 60})
				a, b := g.off(la, lo, (g.r.Float64()-.5)*2*w, (g.r.Float64()-.5)*2*w)
				addp(a, b)
			}
		}
	}
	return s
}

func haversine(la1, lo1, la2, lo2 float64) float64 {
	d2r := math.Pi / 180
	a := math.Pow(math.Sin((la2-la1)*d2r/2), 2) + math.Cos(la1*d2r)*math.Cos(la2*d2r)*math.Pow(math.Sin((lo2-lo1)*d2r/2), 2)
	return 2 * 6371000 * math.Asin(math.Min(1, math.Sqrt(a)))
}

func (g *G) measureShape(s *Shape, unit float64) {
	d := 0.0
	for i := range s.Pts {
		if i > 0 {
			d += haversine(float64(s.Pts[i-1].Lat), float64(s.Pts[i-1].Lon), float64(s.Pts[i].Lat), float64(s.Pts[i].Lon)) / unit
		}
		v, _ := strconv.ParseFloat(strconv.FormatFloat(d, 'f', 3, 64), 64)
		s.Pts[i].Dist = float32(v)
	}
	if g.p(0.6) {
		for i := range s.Pts {
			if g.p(g.o.Holes) {
				s.Pts[i].Dist = nan32
			}
		}
	}
}

func (g *G) genShapes() {
	n := g.in(g.o.Shapes)
	for i := 0; i < n; i++ {
		var s *Shape
		if len(g.shapes) > 0 && g.p(g.o.Dup) {
			c := *pick(g, g.shapes)
			s = &c
			s.Pts = append([]Pt(nil), s.Pts...)
			w := pick(g, []float64{0, 0, 0.3, 0.8, 3})
			for j := range s.Pts {
				s.Pts[j].Lat, s.Pts[j].Lon = g.off(float64(s.Pts[j].Lat), float64(s.Pts[j].Lon), (g.r.Float64()-.5)*w, (g.r.Float64()-.5)*w)
			}
			switch g.r.Intn(5) {
			case 0:
				if len(s.Pts) > 3 {
					s.Pts = s.Pts[:len(s.Pts)-1]
				}
			case 1: // insert a point on a segment
				if len(s.Pts) >= 2 {
					j := g.r.Intn(len(s.Pts) - 1)
					m := Pt{Lat: (s.Pts[j].Lat + s.Pts[j+1].Lat) / 2, Lon: (s.Pts[j].Lon + s.Pts[j+1].Lon) / 2, Dist: nan32}
					s.Pts = append(s.Pts[:j+1], append([]Pt{m}, s.Pts[j+1:]...)...)
					for k := range s.Pts {
						s.Pts[k].Seq = k * 2
					}
				}
			case 2: // a detour
				j := g.r.Intn(len(s.Pts))
				s.Pts[j].Lat, s.Pts[j].Lon = g.off(float64(s.Pts[j].Lat), float64(s.Pts[j].Lon), 150*(g.r.Float64()-.5), 150*(g.r.Float64()-.5))
			}
		} else {
			k := 2 + g.r.Intn(4)
			st := []*Stop{}
			for j := 0; j < k; j++ {
				st = append(st, pick(g, g.stopsL))
			}
			s = g.shapeFor(st, g.in(g.o.ShapePts))
			if g.p(g.o.Measures) {
				g.measureShape(s, pick(g, []float64{1, 1000}))
			}
		}
		s.ID = g.id("sh")
		g.f.Shapes[s.ID] = s
		g.shapes = append(g.shapes, s)
	}
}

func (g *G) mutRoute(r *Route) {
	switch g.r.Intn(12) {
	case 11:
		g.resplit(&r.Short, pick(g, []*string{&r.Long, &r.Desc}))
	case 0:
		r.Short = g.tweak(r.Short, "a")
	case 1:
		r.Long = g.tweak(r.Long, "via X")
	case 2:
		r.Desc = g.tweak(r.Desc, "d")
	case 3:
		r.Type = pick(g, []int{0, 1, 2, 3})
	case 4:
		r.URL = pick(g, []string{"", "http://r.example/9"})
	case 5:
		r.Color = pick(g, []string{"FFFFFF", "00FF00"})
	case 6:
		r.Text = pick(g, []string{"000000", "111111"})
	case 7:
		r.Sort = pick(g, []int{-1, 0, 5})
	case 8:
		r.CP = g.r.Intn(4)
	case 9:
		r.CD = g.r.Intn(4)
	case 10:
		r.Agency = pick(g, g.ags).ID
	}
}

func (g *G) genRoutes() {
	n := g.in(g.o.Routes)
	for i := 0; i < n; i++ {
		var r *Route
		if len(g.routes) > 0 && g.p(g.o.Dup) {
			c := *pick(g, g.routes)
			r = &c
			if g.p(0.4) {
				g.mutRoute(r)
			}
		} else {
			r = &Route{Short: strconv.Itoa(1 + g.r.Intn(5)), Type: pick(g, []int{0, 1, 2, 3, 3, 109, 702}), Color: "FFFFFF", Text: "000000", Sort: -1, CP: 1, CD: 1, Agency: pick(g, g.ags).ID}
			if g.p(0.6) {
				r.Long = "Line " + strconv.Itoa(g.r.Intn(4))
			}
			if g.p(0.2) {
				r.Desc = "rd" + strconv.Itoa(g.r.Intn(2))
			}
			if g.p(0.2) {
				r.URL = "http://r.example/" + strconv.Itoa(g.r.Intn(2))
			}
			if g.p(0.3) {
				r.Color = pick(g, []string{"FF0000", "0000AA"})
			}
			if g.p(0.2) {
				r.Text = "EEEEEE"
			}
			if g.p(0.2) {
				r.Sort = g.r.Intn(4)
			}
			if g.p(0.15) {
				r.CP = g.r.Intn(4)
			}
			if g.p(0.15) {
				r.CD = g.r.Intn(4)
			}
		}
		if r.Short == r.Long {
			r.Long = ""
		}
		r.ID = g.id("rt")
		r.X = nil
		g.f.Routes[r.ID] = r
		g.routes = append(g.routes, r)
	}
}

// ---- services ----

func (g *G) randService() *Service {
	s := &Service{Exc: map[int]bool{}}
	h := g.o.Horizon
	switch g.r.Intn(8) {
	case 0: // calendar_dates only, irregular
		n := 1 + g.r.Intn(8)
		for i := 0; i < n; i++ {
			s.Exc[g.day0+g.r.Intn(h)] = true
		}
	case 1: // calendar_dates only, regular weekly pattern with disturbances
		a := g.day0 + g.r.Intn(h/2)
		b := a + 7 + g.r.Intn(h/2)
		var days [7]bool
		for i := range days {
			days[i] = g.p(0.5)
		}
		for d := a; d <= b; d++ {
			if days[wday(d)] != g.p(0.05) {
				s.Exc[d] = true
			}
		}
		if len(s.Exc) == 0 {
			s.Exc[a] = true
		}
	case 2: // single day
		s.Exc[g.day0+g.r.Intn(h)] = true
	default:
		s.HasCal = true
		s.Start = g.day0 + g.r.Intn(h/2)
		s.End = s.Start + g.r.Intn(h)
		switch g.r.Intn(4) {
		case 0:
			for i := range s.Days {
				s.Days[i] = true
			}
		case 1:
			for i := 0; i < 5; i++ {
				s.Days[i] = true
			}
		case 2:
			s.Days[5], s.Days[6] = true, true
		default:
			for i := range s.Days {
				s.Days[i] = g.p(0.4)
			}
		}
		if g.p(0.6) {
			n := g.r.Intn(8)
			for i := 0; i < n; i++ {
				d := s.Start - 5 + g.r.Intn(s.End-s.Start+11)
				s.Exc[d] = g.p(0.4)
			}
		}
		if g.p(0.12) { // a regular service beyond the calendar, as exceptions
			var days [7]bool
			for i := range days {
				days[i] = g.p(0.3)
			}
			n, from := 1+g.r.Intn(h), 0
			if g.p(0.5) {
				from = s.Start - n
			} else {
				from = s.End + 1
			}
			for d := from; d < from+n; d++ {
				if days[wday(d)] != g.p(0.03) {
					s.Exc[d] = true
				}
			}
		}
		if g.p(0.15) { // holiday block
			a := s.Start + g.r.Intn(s.End-s.Start+1)
			for d := a; d < a+g.r.Intn(20); d++ {
				s.Exc[d] = false
			}
		}
	}
	if len(s.Active()) == 0 && !g.p(g.o.EmptySvc*4) {
		s.Exc[g.day0+g.r.Intn(h)] = true
	}
	return s
}

// another representation of exactly the same date set
func (g *G) reprService(s *Service) *Service {
	act := s.Active()
	n := &Service{Exc: map[int]bool{}}
	if len(act) == 0 || g.p(0.4) {
		for _, d := range act {
			n.Exc[d] = true
		}
		if len(act) == 0 {
			n.HasCal, n.Start, n.End = true, g.day0, g.day0+g.r.Intn(3)
		}
		return n
	}
	n.HasCal = true
	n.Start = act[0] - g.r.Intn(4)
	n.End = act[len(act)-1] + g.r.Intn(4)
	if g.p(0.4) && len(act) > 3 {
		n.Start = act[g.r.Intn(len(act)/2)]
	}
	if n.End < n.Start {
		n.End = n.Start
	}
	in := map[int]bool{}
	var cnt, tot [7]int
	for _, d := range act {
		in[d] = true
	}
	for d := n.Start; d <= n.End; d++ {
		tot[wday(d)]++
		if in[d] {
			cnt[wday(d)]++
		}
	}
	for i := range n.Days {
		n.Days[i] = cnt[i]*2 > tot[i]
		if g.p(0.1) {
			n.Days[i] = !n.Days[i]
		}
	}
	for d := n.Start; d <= n.End; d++ {
		if n.Days[wday(d)] != in[d] {
			n.Exc[d] = in[d]
		}
	}
	for _, d := range act {
		if d < n.Start || d > n.End {
			n.Exc[d] = true
		}
	}
	if g.p(0.2) { // redundant exceptions
		d := n.Start - 1
		if _, ok := n.Exc[d]; !ok && !in[d] {
			n.Exc[d] = false
		}
		if _, ok := n.Exc[act[0]]; !ok {
			n.Exc[act[0]] = true
		}
	}
	return n
}

func (g *G) genServices() {
	n := g.in(g.o.Services)
	for i := 0; i < n; i++ {
		var s *Service
		switch {
		case len(g.svcs) > 0 && g.p(g.o.Dup):
			s = g.reprService(pick(g, g.svcs))
			if g.p(0.4) { // differ in exactly one date
				d := g.day0 + g.r.Intn(g.o.Horizon)
				if on, ok := s.Exc[d]; ok {
					s.Exc[d] = !on
				} else {
					s.Exc[d] = g.p(0.5)
				}
			}
		case g.p(g.o.EmptySvc):
			s = &Service{HasCal: true, Start: g.day0, End: g.day0 + g.r.Intn(10), Exc: map[int]bool{}}
		default:
			s = g.randService()
		}
		if !s.HasCal && len(s.Exc) == 0 {
			s.HasCal, s.Start, s.End = true, g.day0, g.day0
		}
		s.ID = g.id("sv")
		g.f.Services[s.ID] = s
		g.svcs = append(g.svcs, s)
	}
}

// ---- trips ----

func cloneTrip(t *Trip) *Trip {
	c := *t
	c.STs = append([]ST(nil), t.STs...)
	c.Freqs = append([]Freq(nil), t.Freqs...)
	return &c
}

func (g *G) pattern() *Trip {
	k := g.in(g.o.ST)
	t := &Trip{Route: pick(g, g.routes).ID, Service: pick(g, g.svcs).ID, Dir: g.r.Intn(3) - 1}
	if g.p(0.6) {
		t.Headsign = pick(g, stopNames)
	}
	if g.p(0.2) {
		t.Short = "N" + strconv.Itoa(g.r.Intn(3))
	}
	if g.p(0.2) {
		t.WA = g.r.Intn(3)
	}
	if g.p(0.2) {
		t.BA = g.r.Intn(3)
	}
	if len(g.shapes) > 0 && g.p(0.5) {
		t.Shape = pick(g, g.shapes).ID
	}
	now := 4*3600 + g.r.Intn(18*60)*60
	if g.p(0.12) { // around midnight, at either end of the day
		now = pick(g, []int{0, 0, 60, 3600, 86340, 86400, 26 * 3600, 47 * 3600})
	}
	if g.p(0.3) {
		now += g.r.Intn(60)
	}
	seq := g.r.Intn(3)
	dist := 0.0
	meas := g.p(g.o.Measures * 0.5)
	var last *Stop
	for i := 0; i < k; i++ {
		s := pick(g, g.stopsL)
		for tries := 0; tries < 5 && last != nil && s == last; tries++ {
			s = pick(g, g.stopsL)
		}
		gap := 0.0
		if last != nil {
			gap = haversine(float64(last.Lat), float64(last.Lon), float64(s.Lat), float64(s.Lon))
			now += 30 + int(gap/8) // < 30 km/h
			if g.p(0.7) {
				now = (now + 59) / 60 * 60
			}
		}
		dist += gap
		last = s
		dwell := 0
		if g.p(0.25) {
			dwell = g.r.Intn(4) * 30
		}
		st := ST{Seq: seq, Arr: now, Dep: now + dwell, Stop: s.ID, CP: 1, CD: 1, Dist: nan32, TP: true}
		now += dwell
		seq += 1 + g.r.Intn(2)
		if meas {
			v, _ := strconv.ParseFloat(strconv.FormatFloat(dist, 'f', 2, 64), 64)
			st.Dist = float32(v)
		}
		if g.p(g.o.StAttr) {
			st.PT = g.r.Intn(4)
		}
		if g.p(g.o.StAttr) {
			st.DT = g.r.Intn(4)
		}
		if g.p(g.o.StAttr * 0.5) {
			st.CP = g.r.Intn(4)
		}
		if g.p(g.o.StAttr * 0.5) {
			st.CD = g.r.Intn(4)
		}
		if g.p(g.o.StAttr * 0.5) {
			st.TP = false
		}
		if i > 0 && i < k-1 && g.p(g.o.NoTimes) {
			st.Arr, st.Dep, st.TP = -1, -1, false
		}
		t.STs = append(t.STs, st)
	}
	return t
}

func (t *Trip) shift(d int) {
	for i := range t.STs {
		if t.STs[i].Arr >= 0 {
			t.STs[i].Arr += d
			t.STs[i].Dep += d
		}
	}
}

func (g *G) mutTrip(t *Trip) {
	i := g.r.Intn(len(t.STs))
	switch g.r.Intn(17) {
	case 16:
		g.resplit(&t.Headsign, &t.Short)
	case 0:
		t.Headsign = g.tweak(t.Headsign, "!")
	case 1:
		t.Short = g.tweak(t.Short, "7")
	case 2:
		t.Dir = g.r.Intn(3) - 1
	case 3:
		t.WA = g.r.Intn(3)
	case 4:
		t.BA = g.r.Intn(3)
	case 5:
		t.Route = pick(g, g.routes).ID
	case 6:
		t.Service = pick(g, g.svcs).ID
	case 7:
		if len(g.shapes) > 0 {
			t.Shape = pick(g, g.shapes).ID
		}
	case 8:
		t.STs[i].PT = g.r.Intn(4)
	case 9:
		t.STs[i].DT = g.r.Intn(4)
	case 10:
		t.STs[i].Stop = pick(g, g.stopsL).ID
	case 11: // last stop later
		l := len(t.STs) - 1
		t.STs[l].Arr += 60
		t.STs[l].Dep += 60
	case 12: // dwell at the end
		l := len(t.STs) - 1
		t.STs[l].Dep += 60
	case 13:
		if len(t.STs) > 2 {
			t.STs = t.STs[:len(t.STs)-1]
			l := len(t.STs) - 1
			if t.STs[l].Arr < 0 {
				t.STs[l].Arr = t.STs[0].Dep + 3600
				for _, s := range t.STs[:l] {
					t.STs[l].Arr = max(t.STs[l].Arr, s.Dep)
				}
				t.STs[l].Dep = t.STs[l].Arr
			}
		}
	case 14:
		t.STs[i].CP = g.r.Intn(4)
	case 15:
		t.STs[i].CD = g.r.Intn(4)
	}
}

func (g *G) addTrip(t *Trip) {
	t.ID = g.id("tr")
	g.f.Trips[t.ID] = t
	g.trips = append(g.trips, t)
}

func (g *G) genTrips() {
	n := g.in(g.o.Trips)
	block := 0
	for len(g.trips) < n {
		switch {
		case len(g.trips) > 0 && g.p(g.o.Dup):
			t := cloneTrip(pick(g, g.trips))
			if g.p(0.5) {
				t.Service = pick(g, g.svcs).ID
			}
			if g.p(0.35) {
				g.mutTrip(t)
			}
			g.addTrip(t)
		case g.p(g.o.Regular):
			base := g.pattern()
			hw := pick(g, []int{60, 300, 600, 900, 1200, 1800, 3600})
			m := 2 + g.r.Intn(7)
			off := 0
			for j := 0; j < m; j++ {
				t := cloneTrip(base)
				t.shift(off)
				if g.p(0.07) {
					g.mutTrip(t)
				}
				g.addTrip(t)
				off += hw
				if g.p(0.12) {
					off += hw * g.r.Intn(3)
				}
				if g.p(0.06) {
					off += 60 * g.r.Intn(4)
				}
			}
		default:
			t := g.pattern()
			if g.p(g.o.Freqs) {
				m := 1 + g.r.Intn(3)
				a := 4*3600 + g.r.Intn(8)*1800
				for j := 0; j < m; j++ {
					hw := pick(g, []int{300, 600, 900, 420})
					b := a + hw*(1+g.r.Intn(10)) + pick(g, []int{0, 0, 100})
					t.Freqs = append(t.Freqs, Freq{Start: a, End: b, Headway: hw, Exact: g.p(0.5)})
					a = b + g.r.Intn(3)*600
				}
			}
			if g.p(0.2) {
				t.Block = fmt.Sprintf("blk%d", block/2)
				block++
			}
			g.addTrip(t)
		}
	}
	for _, t := range g.trips {
		if !g.p(g.o.NoBoard) {
			continue
		}
		// one place is left to board at or to alight at, if any
		board, at, where := g.p(0.5), g.r.Intn(len(t.STs)), g.r.Intn(5)
		r := g.f.Routes[t.Route]
		set := func(do, cont *int, way int) {
			*do, *cont = 1, 1
			if way == 0 {
				*do = pick(g, []int{0, 2, 3})
			} else if way == 1 {
				*cont = pick(g, []int{0, 2, 3})
			}
		}
		for i := range t.STs {
			way := -1
			if i == at {
				way = where
			}
			if board {
				set(&t.STs[i].PT, &t.STs[i].CP, way)
			} else {
				set(&t.STs[i].DT, &t.STs[i].CD, way)
			}
		}
		way := 1
		if where == 2 {
			way = pick(g, []int{0, 2, 3})
		}
		if board {
			r.CP = way
		} else {
			r.CD = way
		}
	}
}

func (g *G) genFares() {
	if !g.p(g.o.Fares) {
		return
	}
	n := 1 + g.r.Intn(4)
	var prev *Fare
	for i := 0; i < n; i++ {
		x := &Fare{ID: g.id("fa"), Price: pick(g, []string{"1.50", "2.00"}), Cur: "EUR", PM: g.r.Intn(2), Transfers: g.r.Intn(4) - 1, Agency: pick(g, g.ags).ID}
		if prev != nil && g.p(g.o.Dup) {
			c := *prev
			c.ID = x.ID
			c.Rules = append([]Rule(nil), prev.Rules...)
			x = &c
		} else {
			if g.p(0.3) {
				x.Dur = 3600
			}
			m := g.r.Intn(4)
			for j := 0; j < m; j++ {
				u := Rule{}
				if g.p(0.8) {
					u.Route = pick(g, g.routes).ID
				}
				if g.p(0.4) {
					u.Orig = "z" + strconv.Itoa(g.r.Intn(3))
				}
				if g.p(0.4) {
					u.Dest = "z" + strconv.Itoa(g.r.Intn(3))
				}
				if g.p(0.2) {
					u.Cont = "z" + strconv.Itoa(g.r.Intn(3))
				}
				x.Rules = append(x.Rules, u)
			}
		}
		prev = x
		g.f.Fares[x.ID] = x
	}
}

func (g *G) genTransfers() {
	if !g.p(g.o.Transfers) {
		return
	}
	seen := map[string]bool{}
	n := 1 + g.r.Intn(6)
	all := []string{}
	for _, k := range sortedKeys(g.f.Stops) {
		if g.f.Stops[k].Loc < 2 {
			all = append(all, k)
		}
	}
	for i := 0; i < n; i++ {
		t := &Transfer{Type: g.r.Intn(4), MinT: -1}
		if g.p(0.4) {
			t.MinT = 60 * g.r.Intn(5)
		}
		if g.p(0.85) {
			t.FS = pick(g, all)
		}
		if g.p(0.85) {
			t.TS = pick(g, all)
		}
		if t.FS == "" || g.p(0.2) {
			if g.p(0.5) {
				t.FR = pick(g, g.routes).ID
			} else {
				t.FT = pick(g, g.trips).ID
			}
		}
		if t.TS == "" || g.p(0.2) {
			if g.p(0.5) {
				t.TR = pick(g, g.routes).ID
			} else {
				t.TT = pick(g, g.trips).ID
			}
		}
		if seen[t.Key()] {
			continue
		}
		seen[t.Key()] = true
		g.f.Transfers = append(g.f.Transfers, t)
	}
}

func (g *G) genPathways() {
	if !g.p(g.o.Pathways) {
		return
	}
	var ok []string
	for _, k := range sortedKeys(g.f.Stops) {
		s := g.f.Stops[k]
		if s.Loc != 1 && (s.Parent != "" || s.Loc > 1) {
			ok = append(ok, k)
		}
	}
	if len(ok) < 2 {
		return
	}
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		p := &Pathway{ID: g.id("pw"), From: pick(g, ok), To: pick(g, ok), Mode: 1 + g.r.Intn(7), Bidi: g.p(0.5), Length: nan32, Time: -1, Width: nan32}
		if g.p(0.5) {
			p.Length = float32(g.r.Intn(100))
		}
		if g.p(0.5) {
			p.Time = g.r.Intn(300)
		}
		if g.p(0.3) {
			p.Stairs = g.r.Intn(40) - 20
		}
		if g.p(0.3) {
			p.Slope = 0.25
		}
		if g.p(0.3) {
			p.Width = 1.5
		}
		if g.p(0.3) {
			p.Sign, p.RSign = "To "+p.To, "Back"
		}
		g.f.Pathways[p.ID] = p
	}
}

func (g *G) genAttrs() {
	if !g.p(g.o.Attrs) {
		return
	}
	n := 1 + g.r.Intn(5)
	for i := 0; i < n; i++ {
		a := &Attribution{Org: fmt.Sprintf("Org %d", i), Prod: g.p(0.5), Op: g.p(0.5), Auth: g.p(0.5)}
		if g.p(0.6) {
			a.ID = g.id("at")
		}
		switch g.r.Intn(4) {
		case 0:
			a.Agency = pick(g, g.ags).ID
		case 1:
			a.Route = pick(g, g.routes).ID
		case 2:
			a.Trip = pick(g, g.trips).ID
		}
		if g.p(0.3) {
			a.URL = "http://attr.example/1"
		}
		if g.p(0.3) {
			a.Email = "at@y.example"
		}
		if g.p(0.3) {
			a.Phone = "+3"
		}
		g.f.Attributions = append(g.f.Attributions, a)
	}
}

func (g *G) genInfos() {
	if g.p(g.o.Infos) {
		i := &FeedInfo{Name: "Pub", URL: "http://pub.example/", Lang: "de", Version: "v1"}
		if g.p(0.5) {
			i.Start, i.End = dstr(g.day0), dstr(g.day0+g.o.Horizon)
		}
		if g.p(0.5) {
			i.Email, i.CURL = "i@y.example", "http://pub.example/c"
		}
		g.f.Infos = append(g.f.Infos, i)
	}
}

// non-GTFS columns, uniquely valued so that values identify their entity
func (g *G) genExtra() {
	e := g.o.Extra
	// either unique or shared values
	val := func(pre, id string) string {
		if g.style%2 == 0 {
			return pre + id
		}
		return pre + pick(g, []string{"1", "1", "1", "2"})
	}
	if g.p(e) {
		for _, k := range sortedKeys(g.f.Agencies) {
			g.f.Agencies[k].X = map[string]string{"x_agency": val("xa", k)}
		}
	}
	if g.p(e) {
		for _, k := range sortedKeys(g.f.Stops) {
			g.f.Stops[k].X = map[string]string{"x_stop": val("xs", k)}
		}
	}
	if g.p(e) {
		for _, k := range sortedKeys(g.f.Routes) {
			g.f.Routes[k].X = map[string]string{"x_route": val("xr", k)}
		}
	}
	if g.p(e) {
		for _, k := range sortedKeys(g.f.Trips) {
			g.f.Trips[k].X = map[string]string{"x_trip": val("xt", k)}
		}
	}
	// further columns
	more := func(x map[string]string, pre string) {
		for _, n := range []string{"a_" + pre, "z_" + pre} {
			if v := pick(g, []string{"", "1", "1", "1", "1", "2"}); v != "" {
				x[n] = v
			}
		}
	}
	if g.p(0.5) {
		for _, k := range sortedKeys(g.f.Agencies) {
			if x := g.f.Agencies[k].X; x != nil {
				more(x, "agency")
			}
		}
		for _, k := range sortedKeys(g.f.Stops) {
			if x := g.f.Stops[k].X; x != nil {
				more(x, "stop")
			}
		}
		for _, k := range sortedKeys(g.f.Routes) {
			if x := g.f.Routes[k].X; x != nil {
				more(x, "route")
			}
		}
		for _, k := range sortedKeys(g.f.Trips) {
			if x := g.f.Trips[k].X; x != nil {
				more(x, "trip")
			}
		}
	}
	if g.p(e) {
		for _, k := range sortedKeys(g.f.Trips) {
			for i := range g.f.Trips[k].STs {
				g.f.Trips[k].STs[i].X = map[string]string{"x_st": val("xst", k+"/"+strconv.Itoa(i))}
			}
		}
	}
	if g.p(e) {
		for _, a := range g.f.Trips {
			for i := range a.Freqs {
				a.Freqs[i].X = map[string]string{"x_freq": "xfq" + a.ID + "/" + strconv.Itoa(i)}
			}
		}
	}
	if g.p(e) {
		for _, a := range g.f.Shapes {
			for i := range a.Pts {
				a.Pts[i].X = map[string]string{"x_shp": "xsh" + a.ID + "/" + strconv.Itoa(i)}
			}
		}
	}
	if g.p(e) {
		for _, a := range g.f.Fares {
			a.X = map[string]string{"x_fare": "xf" + a.ID}
		}
	}
	if g.p(e) {
		for _, a := range g.f.Fares {
			for i := range a.Rules {
				a.Rules[i].X = map[string]string{"x_rule": "xfr" + a.ID + "/" + strconv.Itoa(i)}
			}
		}
	}
	if g.p(e) {
		for _, k := range sortedKeys(g.f.Levels) {
			g.f.Levels[k].X = map[string]string{"x_level": val("xl", k), "a_level": pick(g, []string{"1", "1", "2"})}
		}
	}
	if g.p(e) {
		for _, a := range g.f.Pathways {
			a.X = map[string]string{"x_pw": "xp" + a.ID}
		}
	}
	if g.p(e) {
		for i, a := range g.f.Transfers {
			a.X = map[string]string{"x_tf": "xtf" + strconv.Itoa(i)}
		}
	}
	if g.p(e) {
		for i, a := range g.f.Attributions {
			a.X = map[string]string{"x_at": "xat" + strconv.Itoa(i)}
		}
	}
}

// present varies how the tables are laid out: column order, omitted optional columns
func present(r *rand.Rand, raw Raw) Raw {
	if r.Intn(3) > 0 {
		keep := map[string]bool{}
		for _, c := range []string{"stop_name", "stop_id", "stop_lat", "stop_lon", "route_type", "route_id", "route_short_name", "trip_id", "service_id", "agency_name", "agency_url", "agency_timezone", "arrival_time", "departure_time", "stop_sequence", "shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "start_date", "end_date", "date", "exception_type", "fare_id", "price", "currency_type", "payment_method", "transfers", "from_stop_id", "to_stop_id", "transfer_type", "level_id", "level_index", "pathway_id", "pathway_mode", "is_bidirectional", "organization_name", "start_time", "end_time", "headway_secs", "feed_publisher_name", "feed_publisher_url", "feed_lang"} {
			keep[c] = true
		}
		raw.DropEmptyCols(keep)
	}
	if r.Intn(2) == 0 {
		for _, n := range sortedKeys(raw) {
			t := raw[n]
			t.project(r.Perm(len(t.Cols)))
		}
	}
	if r.Intn(2) == 0 {
		for _, n := range sortedKeys(raw) {
			t := raw[n]
			r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
		}
	}
	return raw
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

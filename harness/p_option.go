package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Every option acts exactly when it is given. The feed contains one gadget per
// option: a few entities, far from everything else, that the option changes in
// a way that can be seen whatever the other options do.

var optShort = map[string]string{"delete-orphans": "O", "min-shapes": "s", "remeasure-shapes": "m", "remeasure-stop-times": "r", "remove-red-shapes": "S", "remove-red-routes": "R",
	"remove-red-services": "C", "minimize-ids-num": "i", "minimize-ids-char": "d", "minimize-services": "c", "minimize-stoptimes": "T", "keep-additional-fields": "F", "remove-red-stops": "P",
	"remove-red-trips": "I", "remove-red-agencies": "A", "recluster-stops": "E", "default-on-errs": "e", "fix-zip": "z", "drop-errs": "D", "check-null-coords": "n", "show-warnings": "W"}

var optMain = []string{"delete-orphans", "min-shapes", "remeasure-shapes", "remeasure-stop-times", "remove-red-shapes", "remove-red-routes", "remove-red-services", "minimize-ids-num", "minimize-ids-char",
	"minimize-services", "minimize-stoptimes", "keep-additional-fields", "remove-red-stops", "remove-red-trips", "remove-red-agencies", "recluster-stops", "red-trips-fuzzy", "red-trips-aggressive",
	"red-stops-fuzzy", "snap-stops", "ensure-stop-parents", "fix-far-away-parents", "drop-platform-for-parentless", "group-adj-stop-times", "drop-too-fast-trips", "drop-single-stop-trips",
	"drop-shapes", "explicit-calendar", "standard-route-types", "google-supported-route-types"}

var optRare = []string{"remove-cal-dates", "non-overlapping-services"}

var optNoise = []string{"default-on-errs", "fix-zip", "drop-errs", "check-null-coords", "show-warnings", "assume-clean-csv", "keep-col-order", "unsorted-files", "fix"}

var optKeep = []string{"keep-ids", "keep-station-ids", "keep-block-ids", "keep-fare-ids", "keep-shape-ids", "keep-route-ids", "keep-trip-ids", "keep-level-ids", "keep-pathway-ids", "keep-attribution-ids", "keep-service-ids", "keep-agency-ids"}

var optShorthand = map[string]string{"compress": "OSRCcIAP", "Compress": "OSRCcIAPdT", "merge": "ARPICO", "Merge": "EARPICO"}

// kit builds gadgets. With two feeds, the halves of a pair are in different ones.
type kit struct {
	g    *G
	fs   [2]*Feed
	n    int
	spot int
	day  int // a Monday
	rt   map[string]string
}

func (k *kit) id() string { k.n++; return "GG" + strconv.Itoa(k.n) }

func (k *kit) place() (float64, float64) {
	k.spot++
	s := -1.0
	if k.g.lat0 < 0 {
		s = 1
	}
	return k.g.lat0 + s*(0.6+0.06*float64(k.spot%10)), k.g.lon0 + 0.1*float64(k.spot/10)
}

func (k *kit) stop(h int, name string, lat, lon, dx, dy float64) *Stop {
	la, lo := k.g.off(lat, lon, dx, dy)
	s := &Stop{ID: k.id(), Name: name, Lat: la, Lon: lo, HasLL: true}
	k.fs[h].Stops[s.ID] = s
	return s
}

func (k *kit) stops(h int, name string, lat, lon float64, n int) []*Stop {
	var l []*Stop
	for i := 0; i < n; i++ {
		l = append(l, k.stop(h, fmt.Sprint(name, " ", i), lat, lon, 0, 600*float64(i)))
	}
	return l
}

// once makes an entity that a feed has once.
func (k *kit) once(h int, key string, mk func() string) string {
	if k.fs[0] == k.fs[1] {
		h = 0
	}
	key = fmt.Sprint(h, key)
	if k.rt[key] == "" {
		k.rt[key] = mk()
	}
	return k.rt[key]
}

func (k *kit) agency(h int, name string) string {
	a := &Agency{ID: k.id(), Name: name, URL: "http://gadget.example", TZ: "Europe/Berlin"}
	for _, b := range k.fs[h].Agencies {
		a.TZ = b.TZ
	}
	k.fs[h].Agencies[a.ID] = a
	return a.ID
}

func (k *kit) newRoute(h int, agency, short string, typ int) string {
	r := &Route{ID: k.id(), Agency: agency, Short: short, Type: typ, Color: "FFFFFF", Text: "000000"}
	k.fs[h].Routes[r.ID] = r
	return r.ID
}

func (k *kit) route(h int, short string, typ int) string {
	return k.once(h, "route "+short, func() string {
		return k.newRoute(h, k.once(h, "agency", func() string { return k.agency(h, "Gadget Lines") }), short, typ)
	})
}

func (k *kit) service(h int, days string, from, to int) *Service {
	s := &Service{ID: k.id(), HasCal: true, Start: k.day + from, End: k.day + to, Exc: map[int]bool{}}
	for i, c := range days {
		s.Days[i] = c == '1'
	}
	k.fs[h].Services[s.ID] = s
	return s
}

func (k *kit) daily(h int) string {
	return k.once(h, "daily", func() string { return k.service(h, "1111111", 0, 27).ID })
}

func (k *kit) trip(h int, route, svc, head string, start int, stops ...*Stop) *Trip {
	t := &Trip{ID: k.id(), Route: route, Service: svc, Headsign: head, Dir: -1}
	for i, s := range stops {
		t.STs = append(t.STs, ST{Seq: i + 1, Arr: start + 600*i, Dep: start + 600*i, Stop: s.ID, TP: true, CP: 1, CD: 1, Dist: nan32})
	}
	k.fs[h].Trips[t.ID] = t
	return t
}

// line makes a straight shape to the north.
func (k *kit) line(h int, lat, lon float64, n int, step float64, measured bool) *Shape {
	s := &Shape{ID: k.id()}
	for i := 0; i < n; i++ {
		la, lo := k.g.off(lat, lon, 0, step*float64(i))
		p := Pt{Lat: la, Lon: lo, Seq: i + 1, Dist: nan32}
		if measured {
			p.Dist = f32(step * float64(i))
		}
		s.Pts = append(s.Pts, p)
	}
	k.fs[h].Shapes[s.ID] = s
	return s
}

func byHead(f *Feed, head string) []*Trip {
	var l []*Trip
	for _, id := range sortedKeys(f.Trips) {
		if f.Trips[id].Headsign == head {
			l = append(l, f.Trips[id])
		}
	}
	return l
}

func one(f *Feed, head string) *Trip {
	if l := byHead(f, head); len(l) > 0 {
		return l[0]
	}
	return nil
}

func yes(b bool) int {
	if b {
		return 1
	}
	return 0
}

type onFn func(string) bool

// gadget: seen tells whether the option has acted on the output (1), has not
// (0), or that the gadget is gone (-2); want tells what the options ask for (-1:
// either).
type gadget struct {
	name  string
	build func(k *kit)
	seen  func(o *Feed) int
	want  func(on onFn, two bool) int
}

// pair tells whether the trips a and b of a gadget have the same value.
func pair(name string, val func(o *Feed, t *Trip) string) func(o *Feed) int {
	return func(o *Feed) int {
		a, b := one(o, name+" a"), one(o, name+" b")
		if a == nil || b == nil {
			return -2
		}
		return yes(val(o, a) == val(o, b))
	}
}

func single(name string, f func(o *Feed, t *Trip) bool) func(o *Feed) int {
	return func(o *Feed) int {
		t := one(o, name)
		if t == nil {
			return -2
		}
		return yes(f(o, t))
	}
}

func when(opts ...string) func(on onFn, two bool) int {
	return func(on onFn, two bool) int {
		for _, o := range opts {
			if !on(o) {
				return 0
			}
		}
		return 1
	}
}

func stopsMerged(on onFn) bool { return on("remove-red-stops") || on("drop-platform-for-parentless") }

func services(on onFn) bool { return on("remove-cal-dates") || on("non-overlapping-services") }

// sameTrips: are the two trips of a pair given in two feeds comparable?
func comparable2(on onFn, two bool) bool {
	return !two || (stopsMerged(on) || on("recluster-stops")) && (on("red-trips-fuzzy") || on("remove-red-routes") && on("remove-red-agencies"))
}

var gadgets = []gadget{
	{"delete-orphans", func(k *kit) {
		la, lo := k.place()
		k.stop(0, "gadget O", la, lo, 0, 0)
	}, func(o *Feed) int {
		for _, s := range o.Stops {
			if s.Name == "gadget O" {
				return 0
			}
		}
		return 1
	}, when("delete-orphans")},
	{"min-shapes", func(k *kit) {
		la, lo := k.place()
		t := k.trip(0, k.route(0, "s", 3), k.daily(0), "gadget s", 30000, k.stops(0, "gadget s", la, lo, 2)...)
		t.Shape = k.line(0, la, lo, 7, 100, true).ID
	}, single("gadget s", func(o *Feed, t *Trip) bool { return o.Shapes[t.Shape] != nil && len(o.Shapes[t.Shape].Pts) == 2 }),
		func(on onFn, two bool) int {
			if on("drop-shapes") || !on("min-shapes") && (on("compress") || on("Compress")) {
				return -1
			}
			return yes(on("min-shapes"))
		}},
	{"remeasure-shapes", func(k *kit) {
		la, lo := k.place()
		t := k.trip(0, k.route(0, "m", 3), k.daily(0), "gadget m", 30000, k.stops(0, "gadget m", la, lo, 2)...)
		s := k.line(0, la, lo, 7, 100, true)
		s.Pts[3].Dist = nan32
		t.Shape = s.ID
	}, single("gadget m", func(o *Feed, t *Trip) bool {
		if o.Shapes[t.Shape] == nil {
			return false
		}
		for _, p := range o.Shapes[t.Shape].Pts {
			if isNaN(p.Dist) {
				return false
			}
		}
		return true
	}), func(on onFn, two bool) int {
		if on("drop-shapes") {
			return -1
		}
		if !on("remeasure-shapes") && (on("min-shapes") || on("remove-red-shapes") || on("remeasure-stop-times") || on("compress") || on("Compress")) {
			return -1
		}
		return yes(on("remeasure-shapes"))
	}},
	{"remeasure-stop-times", func(k *kit) {
		la, lo := k.place()
		t := k.trip(0, k.route(0, "r", 3), k.daily(0), "gadget r", 30000, k.stops(0, "gadget r", la, lo, 3)...)
		t.Shape = k.line(0, la, lo, 5, 400, false).ID
	}, single("gadget r", func(o *Feed, t *Trip) bool {
		for _, s := range t.STs {
			if isNaN(s.Dist) {
				return false
			}
		}
		return true
	}), func(on onFn, two bool) int { return yes(on("remeasure-stop-times") && !on("drop-shapes")) }},
	{"remove-red-shapes", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			t := k.trip(h, k.route(h, "S"+x, 3), k.daily(h), "gadget S "+x, 30000+3600*h, k.stops(h, "gadget S "+x, la, lo+0.002*float64(h), 2)...)
			t.Shape = k.line(h, la, lo, 5, 100, true).ID
		}
	}, pair("gadget S", func(o *Feed, t *Trip) string { return t.Shape }),
		func(on onFn, two bool) int {
			if on("drop-shapes") {
				return -1
			}
			return yes(on("remove-red-shapes"))
		}},
	{"remove-red-routes", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			ag := k.once(h, "agency", func() string { return k.agency(h, "Gadget Lines") })
			k.trip(h, k.newRoute(h, ag, "R", 3), k.daily(h), "gadget R "+x, 30000+3600*h, k.stops(h, "gadget R "+x, la, lo+0.002*float64(h), 2)...)
		}
	}, pair("gadget R", func(o *Feed, t *Trip) string { return t.Route }),
		func(on onFn, two bool) int {
			return yes(on("remove-red-routes") && (!two || on("remove-red-agencies")))
		}},
	{"remove-red-agencies", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			k.trip(h, k.newRoute(h, k.agency(h, "Gadget A"), "A"+x, 3), k.daily(h), "gadget A "+x, 30000+3600*h, k.stops(h, "gadget A "+x, la, lo+0.002*float64(h), 2)...)
		}
	}, pair("gadget A", func(o *Feed, t *Trip) string { return o.Routes[t.Route].Agency }), when("remove-red-agencies")},
	{"remove-red-services", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			s := k.service(h, "1111100", -2*h, 25+2*h)
			k.trip(h, k.route(h, "C"+x, 3), s.ID, "gadget C "+x, 30000+3600*h, k.stops(h, "gadget C "+x, la, lo+0.002*float64(h), 2)...)
		}
	}, pair("gadget C", func(o *Feed, t *Trip) string { return t.Service }),
		func(on onFn, two bool) int {
			if on("non-overlapping-services") {
				return -1
			}
			return yes(on("remove-red-services"))
		}},
	{"minimize-services", func(k *kit) {
		la, lo := k.place()
		s := k.service(0, "0000000", 0, 0)
		s.HasCal = false
		for i := 0; i < 28; i++ {
			if i%7 < 6 {
				s.Exc[k.day+i] = true
			}
		}
		k.trip(0, k.route(0, "c", 3), s.ID, "gadget c", 30000, k.stops(0, "gadget c", la, lo, 2)...)
	}, single("gadget c", func(o *Feed, t *Trip) bool { return len(o.Services[t.Service].Exc) == 0 }),
		func(on onFn, two bool) int {
			if services(on) || !on("minimize-services") && (on("merge") || on("Merge")) {
				return -1
			}
			return yes(on("minimize-services"))
		}},
	{"remove-red-trips", func(k *kit) {
		la, lo := k.place()
		var st []*Stop
		for h := range k.fs {
			if h == 0 || k.fs[0] != k.fs[1] {
				st = k.stops(h, "gadget I", la, lo, 3)
			}
			k.trip(h, k.route(h, "I", 3), k.daily(h), "gadget I", 30000, st...)
		}
	}, func(o *Feed) int {
		n := len(byHead(o, "gadget I"))
		if n == 0 {
			return -2
		}
		return yes(n == 1)
	}, func(on onFn, two bool) int {
		if services(on) || on("minimize-stoptimes") && !on("remove-red-trips") {
			return -1
		}
		return yes(on("remove-red-trips") && comparable2(on, two))
	}},
	{"red-trips-fuzzy", func(k *kit) {
		la, lo := k.place()
		var st []*Stop
		for h, x := range []string{"a", "b"} {
			if h == 0 || k.fs[0] != k.fs[1] {
				st = k.stops(h, "gadget IF", la, lo, 3)
			}
			k.trip(h, k.route(h, "IF"+x, 3), k.daily(h), "gadget IF "+x, 30000, st...)
		}
	}, func(o *Feed) int {
		a, b := one(o, "gadget IF a"), one(o, "gadget IF b")
		if a == nil && b == nil {
			return -2
		}
		return yes(a == nil || b == nil)
	}, func(on onFn, two bool) int {
		return yes(on("remove-red-trips") && on("red-trips-fuzzy") && comparable2(on, two))
	}},
	{"red-trips-aggressive", func(k *kit) {
		la, lo := k.place()
		var st []*Stop
		for h, d := range []string{"1000000", "0100000"} {
			if h == 0 || k.fs[0] != k.fs[1] {
				st = k.stops(h, "gadget IA", la, lo, 3)
			}
			k.trip(h, k.route(h, "IA", 3), k.service(h, d, 56*h, 56*h+13).ID, "gadget IA", 30000, st...)
		}
	}, func(o *Feed) int {
		n := len(byHead(o, "gadget IA"))
		if n == 0 {
			return -2
		}
		return yes(n == 1)
	}, func(on onFn, two bool) int {
		if services(on) {
			return -1
		}
		return yes(on("remove-red-trips") && on("red-trips-aggressive") && comparable2(on, two))
	}},
	{"remove-red-stops", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			s := k.stop(h, "gadget P", la, lo, float64(h), 0)
			z := k.stop(h, "gadget P "+x, la, lo, 1000*float64(h), 3000)
			k.trip(h, k.route(h, "P"+x, 3), k.daily(h), "gadget P "+x, 30000+3600*h, s, z)
		}
	}, pair("gadget P", func(o *Feed, t *Trip) string { return t.STs[0].Stop }),
		func(on onFn, two bool) int { return yes(stopsMerged(on)) }},
	{"remove-red-stops (levels)", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			l := &Level{ID: k.id(), Index: -7, Name: "gadget floor"}
			k.fs[h].Levels[l.ID] = l
			s := k.stop(h, "gadget L "+x, la, lo, 1000*float64(h), 0)
			z := k.stop(h, "gadget L "+x, la, lo, 1000*float64(h), 3000)
			s.Level = l.ID
			k.trip(h, k.route(h, "L"+x, 3), k.daily(h), "gadget L "+x, 30000+3600*h, s, z)
		}
	}, pair("gadget L", func(o *Feed, t *Trip) string { return o.Stops[t.STs[0].Stop].Level }),
		func(on onFn, two bool) int { return yes(stopsMerged(on)) }},
	{"red-stops-fuzzy", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			s := k.stop(h, "gadget PF", la, lo, float64(h), 0)
			if h == 1 {
				s.URL = "http://gadget.example/stop"
			}
			z := k.stop(h, "gadget PF "+x, la, lo, 1000*float64(h), 3000)
			k.trip(h, k.route(h, "PF"+x, 3), k.daily(h), "gadget PF "+x, 30000+3600*h, s, z)
		}
	}, pair("gadget PF", func(o *Feed, t *Trip) string { return t.STs[0].Stop }),
		func(on onFn, two bool) int { return yes(stopsMerged(on) && on("red-stops-fuzzy")) }},
	{"recluster-stops", func(k *kit) {
		la, lo := k.place()
		for h, x := range []string{"a", "b"} {
			p := k.stop(h, "gadget Reclustering Central", la, lo, 10*float64(h), 0)
			p.Loc, p.Code = 1, x
			s := k.stop(h, "gadget Reclustering Central", la, lo, 10*float64(h), 5)
			s.Parent, s.Code = p.ID, x
			z := k.stop(h, "gadget E "+x, la, lo, 1000*float64(h), 3000)
			k.trip(h, k.route(h, "E"+x, 3), k.daily(h), "gadget E "+x, 30000+3600*h, s, z)
		}
	}, pair("gadget E", func(o *Feed, t *Trip) string { return o.Stops[t.STs[0].Stop].Parent }), when("recluster-stops")},
	{"minimize-stoptimes", func(k *kit) {
		la, lo := k.place()
		st := k.stops(0, "gadget T", la, lo, 3)
		for i := 0; i < 6; i++ {
			k.trip(0, k.route(0, "T", 3), k.daily(0), "gadget T", 30000+600*i, st...)
		}
	}, func(o *Feed) int {
		l := byHead(o, "gadget T")
		if len(l) == 0 {
			return -2
		}
		for _, t := range l {
			if len(t.Freqs) > 0 {
				return 1
			}
		}
		return 0
	}, func(on onFn, two bool) int { return yes(on("minimize-stoptimes") && !on("headway")) }},
	{"snap-stops", func(k *kit) {
		la, lo := k.place()
		st := k.stops(0, "gadget snap", la, lo, 3)
		st[1].Lat, st[1].Lon = k.g.off(la, lo, 300, 600)
		k.trip(0, k.route(0, "snap", 3), k.daily(0), "gadget snap", 30000, st...).Shape = k.line(0, la, lo, 2, 1200, false).ID
	}, single("gadget snap", func(o *Feed, t *Trip) bool {
		a, b := o.Stops[t.STs[0].Stop], o.Stops[t.STs[1].Stop]
		return hav(a.Lat, a.Lon, b.Lat, b.Lon) < 630
	}), func(on onFn, two bool) int { return yes(on("snap-stops") && !on("drop-shapes")) }},
	{"ensure-stop-parents", func(k *kit) {
		la, lo := k.place()
		k.trip(0, k.route(0, "ep", 3), k.daily(0), "gadget ep", 30000, k.stops(0, "gadget ep", la, lo, 2)...)
	}, single("gadget ep", func(o *Feed, t *Trip) bool {
		return o.Stops[t.STs[0].Stop].Parent != "" && o.Stops[t.STs[1].Stop].Parent != ""
	}), when("ensure-stop-parents")},
	{"fix-far-away-parents", func(k *kit) {
		la, lo := k.place()
		p := k.stop(0, "gadget far", la, lo, 600, 0)
		p.Loc = 1
		a, b := k.stop(0, "gadget far north", la, lo, 0, 30), k.stop(0, "gadget far south", la, lo, 0, 0)
		a.Parent, b.Parent = p.ID, p.ID
		k.trip(0, k.route(0, "far", 3), k.daily(0), "gadget far", 30000, a, b)
	}, single("gadget far", func(o *Feed, t *Trip) bool {
		a := o.Stops[t.STs[0].Stop]
		p := o.Stops[a.Parent]
		return p != nil && hav(a.Lat, a.Lon, p.Lat, p.Lon) < 100
	}), when("fix-far-away-parents")},
	{"drop-platform-for-parentless", func(k *kit) {
		la, lo := k.place()
		st := k.stops(0, "gadget pl", la, lo, 2)
		st[0].Platform = "7"
		k.trip(0, k.route(0, "pl", 3), k.daily(0), "gadget pl", 30000, st...)
	}, single("gadget pl", func(o *Feed, t *Trip) bool { return o.Stops[t.STs[0].Stop].Platform == "" }), when("drop-platform-for-parentless")},
	{"group-adj-stop-times", func(k *kit) {
		la, lo := k.place()
		st := k.stops(0, "gadget adj", la, lo, 3)
		k.trip(0, k.route(0, "adj", 3), k.daily(0), "gadget adj", 30000, st[0], st[1], st[1], st[2])
	}, single("gadget adj", func(o *Feed, t *Trip) bool { return len(t.STs) == 3 }), when("group-adj-stop-times")},
	{"drop-too-fast-trips", func(k *kit) {
		la, lo := k.place()
		a, b := k.stop(0, "gadget fast a", la, lo, 0, 0), k.stop(0, "gadget fast b", la, lo+4, 0, 0)
		k.trip(0, k.route(0, "fast", 3), k.daily(0), "gadget fast", 30000, a, b)
	}, func(o *Feed) int { return yes(one(o, "gadget fast") == nil) }, when("drop-too-fast-trips")},
	{"drop-single-stop-trips", func(k *kit) {
		la, lo := k.place()
		k.trip(0, k.route(0, "one", 3), k.daily(0), "gadget one", 30000, k.stop(0, "gadget one", la, lo, 0, 0))
	}, func(o *Feed) int { return yes(one(o, "gadget one") == nil) },
		func(on onFn, two bool) int {
			if on("delete-orphans") {
				return -1
			}
			return yes(on("drop-single-stop-trips"))
		}},
	{"drop-shapes", func(k *kit) {
		la, lo := k.place()
		t := k.trip(0, k.route(0, "ds", 3), k.daily(0), "gadget ds", 30000, k.stops(0, "gadget ds", la, lo, 2)...)
		t.Shape = k.line(0, la, lo, 7, 100, true).ID
	}, single("gadget ds", func(o *Feed, t *Trip) bool { return t.Shape == "" && len(o.Shapes) == 0 }), when("drop-shapes")},
	{"keep-additional-fields", func(k *kit) {
		la, lo := k.place()
		t := k.trip(0, k.route(0, "F", 3), k.daily(0), "gadget F", 30000, k.stops(0, "gadget F", la, lo, 2)...)
		k.fs[0].Stops[t.STs[0].Stop].X = map[string]string{"gadget_field": "kept"}
	}, single("gadget F", func(o *Feed, t *Trip) bool { return o.Stops[t.STs[0].Stop].X["gadget_field"] == "kept" }), when("keep-additional-fields")},
	{"explicit-calendar", func(k *kit) {
		la, lo := k.place()
		s := k.service(0, "0000000", 0, 0)
		s.HasCal = false
		s.Exc[k.day+1], s.Exc[k.day+18] = true, true
		k.trip(0, k.route(0, "ec", 3), s.ID, "gadget ec", 30000, k.stops(0, "gadget ec", la, lo, 2)...)
	}, single("gadget ec", func(o *Feed, t *Trip) bool { return o.Services[t.Service].HasCal }),
		func(on onFn, two bool) int {
			if on("minimize-services") || services(on) {
				return -1
			}
			return yes(on("explicit-calendar"))
		}},
	{"remove-cal-dates", func(k *kit) {
		la, lo := k.place()
		s := k.service(0, "1111111", 0, 27)
		s.Exc[k.day+9] = false
		k.trip(0, k.route(0, "rc", 3), s.ID, "gadget rc", 30000, k.stops(0, "gadget rc", la, lo, 2)...)
	}, func(o *Feed) int {
		for _, s := range o.Services {
			if len(s.Exc) > 0 {
				return 0
			}
		}
		return 1
	}, when("remove-cal-dates")},
	{"non-overlapping-services", func(k *kit) {
		la, lo := k.place()
		k.trip(0, k.route(0, "no", 3), k.daily(0), "gadget no", 30000, k.stops(0, "gadget no", la, lo, 2)...)
	}, single("gadget no", func(o *Feed, t *Trip) bool {
		w := -1
		for _, d := range o.Services[t.Service].Active() {
			if w >= 0 && w != wday(d) {
				return false
			}
			w = wday(d)
		}
		return true
	}), func(on onFn, two bool) int {
		if on("remove-cal-dates") && !on("non-overlapping-services") {
			return 0
		}
		return yes(on("non-overlapping-services"))
	}},
}

func init() {
	reg(&Prop{ID: "P31", Title: "options act when given", Quick: 1000, Thorough: 30000,
		Rule: "a feed with one gadget per option (alone or within a seeded feed, or with the halves of each pair of duplicates in two feeds), run with random sets of options given by short, bundled, long and shorthand names in any position; non-trivial: every run, keyed by the set of options in effect and the number of feeds",
		Case: func(c *Ctx) { c.optionCase() }})
}

func (c *Ctx) optionCase() {
	o := DefOpt()
	o.Trips, o.Stops, o.Shapes, o.Infos = [2]int{1, 6}, [2]int{2, 6}, [2]int{0, 2}, 0
	g := newG(c.R, o)
	if g.p(0.5) {
		g.All()
	}
	two := g.p(0.35)
	k := &kit{g: g, rt: map[string]string{}, day: g.day0 + 400}
	for wday(k.day) != 0 {
		k.day++
	}
	k.fs = [2]*Feed{g.f, g.f}
	if two {
		k.fs[1] = NewFeed()
	}
	for _, i := range c.R.Perm(len(gadgets)) {
		gadgets[i].build(k)
	}
	la, lo := k.place()
	types := []int{109, 110, 1, 700}
	for _, t := range types {
		lo += 0.01
		k.trip(0, k.route(0, fmt.Sprint("type ", t), t), k.daily(0), fmt.Sprint("gadget type ", t), 30000, k.stops(0, "gadget type", la, lo, 2)...)
	}
	// options
	set, eff := map[string]bool{}, map[string]bool{}
	switch c.R.Intn(5) {
	case 0: // one
		set[pick(g, optMain)] = true
	case 1: // all but a few
		for _, x := range optMain {
			set[x] = g.p(0.85)
		}
	case 2: // a shorthand and little else
		set[pick(g, sortedKeys(optShorthand))] = true
		for i := c.R.Intn(3); i > 0; i-- {
			set[pick(g, optMain)] = true
		}
	default:
		for i := 1 + c.R.Intn(9); i > 0; i-- {
			set[pick(g, optMain)] = true
		}
		if g.p(0.2) {
			set[pick(g, sortedKeys(optShorthand))] = true
		}
	}
	if g.p(0.12) {
		set[pick(g, optRare)] = true
	}
	for i := c.R.Intn(3); i > 0; i-- {
		set[pick(g, optNoise)] = true
	}
	for i := c.R.Intn(4); i > 0; i-- {
		if x := pick(g, optKeep); !two || g.p(0.2) {
			set[x] = true
		}
	}
	long := map[string]string{}
	for l, s := range optShort {
		long[s] = l
	}
	for x := range set {
		if set[x] {
			eff[x] = true
			for _, s := range optShorthand[x] {
				eff[long[string(s)]] = true
			}
			if x == "Compress" || x == "Merge" {
				eff["red-stops-fuzzy"], eff["red-trips-fuzzy"] = true, true
			}
			if x == "keep-ids" {
				for _, y := range optKeep[1:] {
					if y != "keep-attribution-ids" {
						eff[y] = true
					}
				}
			}
		}
	}
	var fl []string
	if g.p(0.4) {
		switch c.R.Intn(3) {
		case 0:
			fl = append(fl, "--min-headway=4000")
			eff["headway"] = true
		case 1:
			fl = append(fl, "--max-headway=599")
			eff["headway"] = true
		case 2:
			fl = append(fl, "--min-headway", "600", "--max-headway", "600")
		}
	}
	fl = append(fl, renderOpts(c.R, set, eff)...)
	var ins []string
	for h, f := range k.fs {
		if h == 1 && !two {
			break
		}
		raw := present(c.R, f.ToRaw())
		if _, prob := ParseRaw(raw); len(prob) > 0 {
			if strings.Contains(prob[0], "GG") {
				fatal("gadgets: %s", prob[0])
			}
			return
		}
		ins = append(ins, c.Put(fmt.Sprintf("in%d%s", h, pick(g, []string{"", ".zip"})), raw))
	}
	// options behind the inputs
	cut := len(fl)
	if g.p(0.4) {
		for cut = c.R.Intn(len(fl) + 1); cut < len(fl) && !strings.HasPrefix(fl[cut], "-"); {
			cut++
		}
	}
	r := c.Exec(c.bin, fl[:cut], append(ins, fl[cut:]...), c.tmp("out"), 1+c.R.Intn(8))
	c.lastIn = ins
	c.LoadOut(r)
	if !c.Valid(r) {
		return
	}
	on := func(x string) bool { return eff[x] }
	var ops []string
	for x := range eff {
		ops = append(ops, x)
	}
	sort.Strings(ops)
	for _, q := range gadgets {
		w := q.want(on, two)
		s := q.seen(r.F)
		if s == -2 {
			c.Viol("gone:"+q.name, "%v: the trips of the gadget for --%s are gone", fl, q.name)
			continue
		}
		if w < 0 {
			continue
		}
		c.Count("gadgets_decided", 1)
		c.Seen("gadget_states", fmt.Sprint(q.name, w, two))
		if s != w {
			c.Viol(fmt.Sprintf("%s:%d", q.name, w), "%v (in effect: %v, %d feeds): --%s should%s have acted, but did%s", fl, ops, len(ins), q.name, not(w), not(s))
		}
	}
	for _, t := range types {
		x := one(r.F, fmt.Sprint("gadget type ", t))
		w := t
		switch {
		case eff["standard-route-types"]:
			w = map[int]int{109: 2, 110: 2, 1: 1, 700: 3}[t]
		case eff["google-supported-route-types"] && t == 110:
			w = 100
		}
		if x == nil || r.F.Routes[x.Route].Type != w {
			c.Viol("route-types", "%v: route type %d should be %d", fl, t, w)
		}
	}
	if !two {
		c.idKinds(fl, eff, r.F)
	}
	c.Nontrivial(fmt.Sprint(len(ins), ops))
	for _, x := range ops {
		c.Seen("options", x)
	}
	c.Sample(map[string]any{"arguments": fl, "in_effect": ops, "feeds": len(ins)})
}

func not(w int) string {
	if w == 1 {
		return ""
	}
	return " not"
}

// idKinds: the ids of the gadgets are kept or replaced.
func (c *Ctx) idKinds(fl []string, eff map[string]bool, f *Feed) {
	if services(func(x string) bool { return eff[x] }) {
		return
	}
	min := eff["minimize-ids-num"] || eff["minimize-ids-char"]
	left := map[string]int{}
	for id := range f.Stops {
		left["keep-station-ids"] += yes(strings.HasPrefix(id, "GG"))
	}
	for id := range f.Routes {
		left["keep-route-ids"] += yes(strings.HasPrefix(id, "GG"))
	}
	for id := range f.Trips {
		left["keep-trip-ids"] += yes(strings.HasPrefix(id, "GG"))
	}
	for id := range f.Services {
		left["keep-service-ids"] += yes(strings.HasPrefix(id, "GG"))
	}
	for id := range f.Agencies {
		left["keep-agency-ids"] += yes(strings.HasPrefix(id, "GG"))
	}
	for id := range f.Levels {
		left["keep-level-ids"] += yes(strings.HasPrefix(id, "GG"))
	}
	if !eff["drop-shapes"] {
		for id := range f.Shapes {
			left["keep-shape-ids"] += yes(strings.HasPrefix(id, "GG"))
		}
	}
	for k, n := range left {
		c.Count("kinds_of_ids_decided", 1)
		if gone := min && !eff[k]; gone != (n == 0) {
			c.Viol(fmt.Sprintf("ids:%s:%v", k, gone), "%v: %d original ids of the kind of --%s are left", fl, n, k)
		}
	}
}

// renderOpts writes the options down in one of the ways the command line allows.
func renderOpts(r *rand.Rand, set, eff map[string]bool) []string {
	var l []string
	bundle := ""
	ks := sortedKeys(set)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, x := range ks {
		if !set[x] {
			continue
		}
		s := optShort[x]
		switch {
		case s != "" && r.Intn(2) == 0:
			bundle += s
			if r.Intn(3) == 0 {
				l = append(l, "-"+bundle)
				bundle = ""
			}
		case r.Intn(5) == 0:
			l = append(l, "--"+x+"=true")
		default:
			l = append(l, "--"+x)
		}
	}
	if bundle != "" {
		l = append(l, "-"+bundle)
	}
	for i := r.Intn(3); i > 0; i-- {
		x := optMain[r.Intn(len(optMain))]
		if _, given := set[x]; !given && !eff[x] {
			l = append(l, "--"+x+"=false")
		}
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

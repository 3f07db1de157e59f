package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// splitGen generates a feed for options that split trips by their dates.
func (c *Ctx) splitGen() (*Feed, string, []string) {
	o := svcOpt(c.R)
	o.Transfers, o.Attrs, o.Freqs, o.Extra = 0.8, 0.7, 0.3, 0.4
	o.Services, o.Trips, o.Stops = [2]int{1, 6}, [2]int{1, 14}, [2]int{3, 6}
	g := newG(c.R, o)
	g.All()
	if c.R.Intn(2) == 0 { // trip-to-trip transfers
		for k := 0; k < 3; k++ {
			a, b := pick(g, g.trips), pick(g, g.trips)
			t := &Transfer{FT: a.ID, TT: b.ID, Type: 1}
			if g.p(0.4) {
				t.FS, t.TS = a.STs[len(a.STs)-1].Stop, b.STs[0].Stop
			}
			dup := false
			for _, u := range g.f.Transfers {
				dup = dup || u.Key() == t.Key()
			}
			if !dup {
				g.f.Transfers = append(g.f.Transfers, t)
			}
		}
	}
	if c.R.Intn(8) == 0 { // the same calendar weeks in several years
		d := g.day0 + c.R.Intn(7)
		for k, base := 0, pick(g, g.trips); k < 5; k++ {
			s := &Service{ID: g.id("sv"), Exc: map[int]bool{}}
			t := cloneTrip(base)
			for y := 0; y < 5; y++ {
				if g.p(0.6) {
					s.Exc[d+y*364] = true
				}
			}
			if len(s.Exc) == 0 {
				continue
			}
			t.Service, t.Headsign = s.ID, fmt.Sprintf("year %d", k)
			g.f.Services[s.ID] = s
			g.addTrip(t)
		}
	}
	if c.R.Intn(3) > 0 {
		g.f.unique(0)
	}
	raw := present(c.R, g.f.ToRaw())
	f, prob := ParseRaw(raw)
	if len(prob) > 0 {
		fatal("generator: %v", prob)
	}
	fl := c.maybeF(f, nil)
	return f, c.Put("in", raw), fl
}

// sameJourneys compares, for every date and every class of trips with equal
// content, the number of trips that run, and then all that refers to trips.
func (c *Ctx) sameJourneys(f, out *Feed, frame CanonOpt) bool {
	o := CanonOpt{NoSvc: true}
	runs := func(fd *Feed) (map[string]int, map[string]string) {
		m, cl := map[string]int{}, map[string]string{}
		for _, id := range sortedKeys(fd.Trips) {
			t := fd.Trips[id]
			k := fd.tripStr(t, &o)
			cl[id] = k
			for _, d := range fd.Services[t.Service].Active() {
				m[dstr(d)+"|"+k]++
			}
		}
		return m, cl
	}
	a, ca := runs(f)
	b, cb := runs(out)
	c.Count("trip_dates_compared", len(a))
	for k, n := range a {
		if b[k] != n {
			c.Viol("journeys", "%d trips ran on %s, now %d", n, head(k, 500), b[k])
			return false
		}
	}
	for k, n := range b {
		if a[k] != n {
			c.Viol("journeys", "%d trips run on %s, before %d", n, head(k, 500), a[k])
			return false
		}
	}
	// attributions: those of trips by class and date
	attr := func(fd *Feed, cl map[string]string) map[string]int {
		m := map[string]int{}
		for _, x := range fd.Attributions {
			y := *x
			if x.Trip == "" {
				m[y.str()]++
				continue
			}
			y.ID, y.Trip = "", ""
			for _, d := range fd.Services[fd.Trips[x.Trip].Service].Active() {
				m[dstr(d)+"|"+y.str()+"|"+cl[x.Trip]]++
			}
		}
		return m
	}
	at, bt := attr(f, ca), attr(out, cb)
	for k, n := range at {
		c.Count("attributions_compared", 1)
		if bt[k] != n {
			c.Viol("attribution", "%d attribution(s) %s, now %d", n, head(k, 400), bt[k])
			return false
		}
	}
	for k, n := range bt {
		if at[k] != n {
			c.Viol("attribution", "%d attribution(s) %s, before %d", n, head(k, 400), at[k])
			return false
		}
	}
	// transfers: those between trips by their classes and common dates
	tf := func(fd *Feed, cl map[string]string) (map[string]int, map[string]bool) {
		m, any := map[string]int{}, map[string]bool{}
		for _, t := range fd.Transfers {
			x := *t
			x.FT, x.TT = "", ""
			s := fmt.Sprintf("%s type=%d min=%d%s|%s|%s", x.Key(), t.Type, t.MinT, xstr(t.X), cl[t.FT], cl[t.TT])
			any[s] = true
			if t.FT == "" && t.TT == "" {
				m[s]++
				continue
			}
			on := map[int]int{}
			n := 0
			for _, id := range []string{t.FT, t.TT} {
				if id != "" {
					n++
					for _, d := range fd.Services[fd.Trips[id].Service].Active() {
						on[d]++
					}
				}
			}
			for d, k := range on {
				if k == n {
					m[dstr(d)+"|"+s]++
				}
			}
		}
		return m, any
	}
	a, aa := tf(f, ca)
	b, ba := tf(out, cb)
	for k, n := range a {
		c.Count("transfers_compared", 1)
		if b[k] != n {
			c.Viol("transfer", "%d transfer(s) %s, now %d", n, head(k, 600), b[k])
			return false
		}
	}
	for k, n := range b {
		if a[k] != n {
			c.Viol("transfer", "%d transfer(s) %s, before %d", n, head(k, 600), a[k])
			return false
		}
	}
	for k := range ba {
		if !aa[k] {
			c.Viol("transfer", "transfer %s appeared", head(k, 600))
			return false
		}
	}
	frame.NoTrips, frame.NoSvc, frame.NoAttr, frame.NoTransfer = true, true, true, true
	return c.Frame("frame", Canon(f, frame), Canon(out, frame))
}

func init() {
	reg(&Prop{ID: "P16", Title: "services without calendar_dates.txt", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with services of every encoding, trips with frequencies, attributions, transfers and additional fields run with --remove-cal-dates; non-trivial: a service had exceptions, keyed by the services",
		Case: func(c *Ctx) {
			f, in, fl := c.splitGen()
			r := c.Tidy(append(append(fl, "--remove-cal-dates"), c.idle(f, "lc")...), in)
			if !c.Valid(r) {
				return
			}
			if t := r.Raw["calendar_dates.txt"]; t != nil && len(t.Rows) > 0 {
				c.Viol("dates-left", "%d rows are left in calendar_dates.txt", len(t.Rows))
				return
			}
			if !c.sameJourneys(f, r.F, CanonOpt{}) {
				return
			}
			// what has no exceptions stays
			split, key := 0, ""
			for _, id := range sortedKeys(f.Services) {
				s := f.Services[id]
				if len(s.Exc) > 0 {
					split++
					key += s.String() + "|"
					continue
				}
				if out := r.F.Services[id]; out == nil || out.ActiveKey() != s.ActiveKey() {
					c.Viol("untouched", "service %s (%s) without exceptions became %s", id, s, out)
					return
				}
			}
			n := 0
			for _, id := range sortedKeys(f.Trips) {
				t, u := f.Trips[id], r.F.Trips[id]
				if u == nil {
					c.Viol("trip-id", "there is no trip %s anymore", id)
					return
				}
				if s := f.Services[t.Service]; len(s.Exc) == 0 && u.Service != t.Service {
					c.Viol("untouched", "trip %s moved from service %s to %s", id, t.Service, u.Service)
					return
				}
				n += max(1, len(f.Services[t.Service].Active()))
			}
			if len(r.F.Trips) > n {
				c.Viol("trips", "%d trips became %d, they run on %d dates", len(f.Trips), len(r.F.Trips), n)
				return
			}
			if split > 0 {
				c.Count("services_split", split)
				c.Nontrivial(key)
				c.Sample(map[string]any{"services": head(key, 300), "trips": len(f.Trips), "trips_after": len(r.F.Trips)})
			}
		}})

	reg(&Prop{ID: "P17", Title: "non-overlapping services", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with services of every encoding, trips with frequencies, attributions, transfers and additional fields run with --non-overlapping-services; non-trivial: at least two services resulted, keyed by them",
		Case: func(c *Ctx) {
			f, in, fl := c.splitGen()
			r := c.Tidy(append(append(fl, "--non-overlapping-services"), c.idle(f, "lc")...), in)
			if !c.Valid(r) {
				return
			}
			if !c.sameJourneys(f, r.F, CanonOpt{}) {
				return
			}
			// the services partition the dates by weekday and by the trips that run
			of := map[int]string{}
			for _, id := range sortedKeys(r.F.Services) {
				act := r.F.Services[id].Active()
				if len(act) == 0 {
					c.Viol("empty", "service %s never runs", id)
					return
				}
				for _, d := range act {
					c.Count("dates_compared", 1)
					if of[d] != "" {
						c.Viol("overlap", "services %q and %q both run on %s", of[d], id, dstr(d))
						return
					}
					of[d] = id
					if (d-act[0])%7 != 0 {
						c.Viol("weekday", "service %q runs on %s and %s", id, dstr(act[0]), dstr(d))
						return
					}
				}
			}
			sets := map[int][]string{}
			for _, id := range sortedKeys(f.Trips) {
				for _, d := range f.Services[f.Trips[id].Service].Active() {
					sets[d] = append(sets[d], id)
				}
			}
			kind := map[string]string{} // weekday and trips -> service
			back := map[string]string{}
			days := []int{}
			for d := range sets {
				days = append(days, d)
			}
			sort.Ints(days)
			key := ""
			for _, d := range days {
				k := fmt.Sprint(d%7, sets[d])
				if o, ok := kind[k]; ok && o != of[d] {
					c.Viol("type-split", "the same trips run on %s as on an earlier %s-day, but the service is %q, not %q", dstr(d), k[:1], of[d], o)
					return
				}
				if o, ok := back[of[d]]; ok && o != k {
					c.Viol("type-merged", "service %q holds dates with different trips", of[d])
					return
				}
				kind[k], back[of[d]] = of[d], k
				key += of[d] + k
			}
			types := map[int]int{}
			for _, k := range back {
				types[int(k[0])]++
			}
			for _, id := range sortedKeys(r.F.Services) {
				act := r.F.Services[id].Active()
				if why := nameFits(id, act, types[int(back[id][0])] == 1); why != "" {
					c.Viol("name", "service %q runs on %s: %s", id, r.F.Services[id].ActiveKey(), why)
					return
				}
			}
			if len(of) != len(days) {
				c.Viol("dates", "trips ran on %d dates, services on %d", len(days), len(of))
				return
			}
			// trips belong to one input trip each
			for _, id := range sortedKeys(r.F.Trips) {
				t := r.F.Trips[id]
				if !strings.HasSuffix(id, t.Service) || f.Trips[strings.TrimSuffix(id, ":"+t.Service)] == nil {
					c.Viol("trip-id", "trip %q of service %q has no trip of the input", id, t.Service)
					return
				}
			}
			if len(r.F.Services) > 1 {
				c.Nontrivial(key)
				c.Sample(map[string]any{"services": strings.Join(sortedKeys(r.F.Services), "; "), "dates": len(days), "trips": len(f.Trips), "trips_after": len(r.F.Trips)})
			}
		}})
}

// nameFits says what is wrong with the name of a service that holds the dates
// of one weekday; single: it holds all of them.
func nameFits(id string, act []int, single bool) string {
	names := []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}
	weeks := map[int]bool{}
	var wd string
	for _, d := range act {
		t := time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, d-civil(1970, 1, 1))
		_, w := t.ISOWeek()
		weeks[w] = true
		wd = names[t.Weekday()]
	}
	if !strings.HasPrefix(id, wd) {
		return "it is " + wd
	}
	i, j := strings.Index(id, "("), strings.Index(id, ")")
	if i < 0 || j < i {
		if single {
			return ""
		}
		return "no calendar weeks"
	}
	for _, p := range strings.Split(strings.TrimPrefix(id[i+1:j], "WW"), ",") {
		a, b, rng := strings.Cut(p, "-")
		x, e1 := strconv.Atoi(a)
		y := x
		var e2 error
		if rng {
			y, e2 = strconv.Atoi(b)
		}
		if e1 != nil || e2 != nil || y < x {
			return "broken list of calendar weeks"
		}
		for ; x <= y; x++ {
			if _, ok := weeks[x]; !ok {
				return fmt.Sprintf("it is not in calendar week %d", x)
			}
			weeks[x] = false
		}
	}
	for w, left := range weeks {
		if left {
			return fmt.Sprintf("calendar week %d is not named", w)
		}
	}
	return ""
}

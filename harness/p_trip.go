package main

import (
	"fmt"
	"strings"
)

// extType maps the extended route types the generator uses to the classic ones.
func extType(t int) int {
	switch t {
	case 109:
		return 2
	case 702:
		return 3
	}
	return t
}

// station is the station a stop belongs to, or the stop itself.
func (f *Feed) station(id string) string {
	s := f.Stops[id]
	if s == nil || s.Loc == 1 || s.Parent == "" {
		return id
	}
	if s.Loc == 4 {
		if p := f.Stops[s.Parent]; p != nil && p.Parent != "" {
			return p.Parent
		}
	}
	return s.Parent
}

// sameRide is equal for trips that serve the same stations at the same times
// and, if not fuzzy, look the same to the passenger.
func (f *Feed) sameRide(t *Trip, fuzzy bool) string {
	var b strings.Builder
	if fuzzy {
		fmt.Fprintf(&b, "type %d", extType(f.Routes[t.Route].Type))
	} else {
		fmt.Fprintf(&b, "rt=%s head=%s short=%s dir=%d blk=%s wa=%d ba=%d%s", t.Route, t.Headsign, t.Short, t.Dir, t.Block, t.WA, t.BA, xstr(t.X))
	}
	for i, s := range t.STs {
		b.WriteString(" @" + f.station(s.Stop))
		if i > 0 || len(t.STs) == 1 {
			b.WriteString(" " + tstr(s.Arr))
		}
		if i < len(t.STs)-1 || len(t.STs) == 1 {
			b.WriteString("-" + tstr(s.Dep))
		}
	}
	return b.String()
}

func distStr(t *Trip) string {
	var b strings.Builder
	for _, s := range t.STs {
		b.WriteString(fstr(s.Dist) + " ")
	}
	return b.String()
}

func stsNoDist(t *Trip) string {
	var b strings.Builder
	for i := range t.STs {
		b.WriteString(t.STs[i].str(&CanonOpt{NoDist: true}) + "; ")
	}
	return b.String()
}

func better(a, b int) int { // of two values of wheelchair_accessible, bikes_allowed
	if a == 1 || b == 1 {
		return 1
	}
	return max(a, b)
}

// copies adds trips that repeat or nearly repeat others, some on calendars that
// are contained in, overlap or adjoin each other.
func (g *G) copies() {
	// calendars cut out of one weekday pattern
	for n := g.r.Intn(3); n > 0; n-- {
		s := g.randService()
		if !s.HasCal {
			continue
		}
		a := s.Start
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			c := &Service{HasCal: true, Days: s.Days, Start: a, End: a + 2 + g.r.Intn(20), Exc: map[int]bool{}}
			plain := g.p(0.4)
			for d := range s.Exc {
				if d >= c.Start && d <= c.End && !plain {
					c.Exc[d] = s.Exc[d]
				}
			}
			if g.p(0.15) {
				d := c.Start + g.r.Intn(c.End-c.Start+1)
				c.Exc[d] = !c.Days[wday(d)]
			}
			if len(c.Active()) == 0 {
				c.Exc[c.Start] = true
			}
			a = c.End + pick(g, []int{-3, 1, 1, 2, 5, 9})
			switch g.r.Intn(4) {
			case 0: // the same start again
				a = c.Start
			case 1: // the same range with one exception
				e := &Service{HasCal: true, Days: c.Days, Start: c.Start, End: c.End, Exc: map[int]bool{}}
				d := c.Start + g.r.Intn(c.End-c.Start+1)
				e.Exc[d] = !c.Days[wday(d)]
				if len(e.Active()) > 0 {
					e.ID = g.id("sv")
					g.f.Services[e.ID] = e
					g.svcs = append(g.svcs, e)
				}
			}
			c.ID = g.id("sv")
			g.f.Services[c.ID] = c
			g.svcs = append(g.svcs, c)
		}
	}
	sib := map[string][]string{}
	for _, id := range sortedKeys(g.f.Stops) {
		if s := g.f.Stops[id]; s.Loc == 0 && s.Parent != "" {
			sib[s.Parent] = append(sib[s.Parent], id)
		}
	}
	for n := 1 + g.r.Intn(5); n > 0; n-- {
		base := pick(g, g.trips)
		if len(base.Freqs) > 0 && g.p(0.7) {
			continue
		}
		for k := 1 + g.r.Intn(6); k > 0; k-- {
			t := cloneTrip(base)
			if g.p(0.8) {
				t.Service = pick(g, g.svcs).ID
			}
			if g.p(0.25) {
				g.mutTrip(t)
			}
			if g.p(0.1) {
				t.Block = pick(g, []string{"", "b1", "b2"})
			}
			if g.p(0.3) {
				i := g.r.Intn(len(t.STs))
				if p := g.f.station(t.STs[i].Stop); len(sib[p]) > 0 {
					t.STs[i].Stop = pick(g, sib[p])
				}
			}
			if g.p(0.15) {
				t.STs[0].Arr = imax(0, t.STs[0].Arr-30)
			}
			if g.p(0.15) {
				t.STs[len(t.STs)-1].Dep += 30
			}
			if g.p(0.2) {
				t.Shape = ""
				for i := range t.STs {
					t.STs[i].Dist = nan32
				}
			}
			g.addTrip(t)
		}
	}
}

func init() {
	reg(&Prop{ID: "P06", Title: "redundant trip removal", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds in which trips are repeated on equal, contained, overlapping and adjoining calendars run with -I (also fuzzy and aggressive); non-trivial: at least one trip was removed, keyed by the classes of equal trips and their dates",
		Case: func(c *Ctx) {
			o := svcOpt(c.R)
			o.Dup = 0.4
			o.Services = [2]int{1, 6}
			o.Trips = [2]int{1, 10}
			o.Stations = 0.6
			o.Shapes = [2]int{0, 3}
			o.ST = [2]int{2, 4}
			o.Transfers, o.Attrs = 0.6, 0.6
			g := newG(c.R, o)
			g.genAgencies()
			g.genLevels()
			g.genStops()
			g.genShapes()
			g.genRoutes()
			g.genServices()
			g.genTrips()
			g.copies()
			c.R.Shuffle(len(g.trips), func(i, j int) { g.trips[i], g.trips[j] = g.trips[j], g.trips[i] })
			g.genFares()
			g.genTransfers()
			g.genTransfers()
			{ // drop repeated keys
				seen := map[string]bool{}
				var l []*Transfer
				for _, t := range g.f.Transfers {
					if !seen[t.Key()] {
						seen[t.Key()] = true
						l = append(l, t)
					}
				}
				g.f.Transfers = l
			}
			g.genPathways()
			g.genAttrs()
			g.genInfos()
			g.genExtra()
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			fl := c.maybeF(f, []string{"-I"})
			fl = append(fl, c.idle(f, "lcC")...)
			fuzzy, aggr := c.R.Intn(3) == 0, c.R.Intn(4) == 0
			if fuzzy {
				fl = append(fl, "--red-trips-fuzzy")
			}
			if aggr {
				fl = append(fl, "--red-trips-aggressive")
			}
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			c.sameRides(f, r.F, fuzzy, aggr)
		}})
}

func (c *Ctx) sameRides(f, out *Feed, fuzzy, aggr bool) {
	class := map[string]string{} // trip -> class
	mem := map[string][]*Trip{}
	for _, id := range sortedKeys(f.Trips) {
		t := f.Trips[id]
		k := "trip " + id
		if len(t.Freqs) == 0 && len(t.STs) > 0 {
			k = f.sameRide(t, fuzzy)
		}
		class[id] = k
		mem[k] = append(mem[k], t)
	}
	left := map[string][]*Trip{}
	for _, id := range sortedKeys(out.Trips) {
		if f.Trips[id] == nil {
			c.Viol("new-trip", "trip %s appeared", id)
			return
		}
		left[class[id]] = append(left[class[id]], out.Trips[id])
	}
	removed, key := 0, ""
	for _, k := range sortedKeys(mem) {
		in, res := mem[k], left[k]
		c.Count("trip_classes", 1)
		if len(in) == 1 {
			if len(res) != 1 {
				c.Viol("lost-trip", "trip %s, which no other trip equals, is missing", in[0].ID)
				return
			}
			o := CanonOpt{SvcByDates: true}
			if a, b := f.tripStr(in[0], &o), out.tripStr(res[0], &o); a != b || in[0].Service != res[0].Service {
				c.Viol("touched", "trip %s, which no other trip equals, was [%s] %s, is [%s] %s", in[0].ID, in[0].Service, a, res[0].Service, b)
				return
			}
			continue
		}
		c.Count("classes_of_equal_trips", 1)
		want := map[int]bool{}
		ds := ""
		for _, t := range in {
			for _, d := range f.Services[t.Service].Active() {
				want[d] = true
			}
			ds += f.Services[t.Service].ActiveKey() + "|"
		}
		got := map[int]string{}
		for _, t := range res {
			for _, d := range out.Services[t.Service].Active() {
				if !want[d] {
					c.Viol("extra-date", "trip %s now also runs on %s, none of the equal trips did (%s)", t.ID, dstr(d), k)
					return
				}
				if o, ok := got[d]; ok {
					c.Viol("dup-left", "the equal trips %s and %s both still run on %s (%s)", o, t.ID, dstr(d), k)
					return
				}
				got[d] = t.ID
			}
		}
		for d := range want {
			c.Count("dates_compared", 1)
			if got[d] == "" {
				c.Viol("lost-date", "none of the equal trips runs on %s anymore, %v of %v are left (%s)", dstr(d), len(res), len(in), k)
				return
			}
		}
		if len(res) == 0 {
			c.Viol("lost-trip", "all of the equal trips (%s) are gone", k)
			return
		}
		if aggr && len(res) > 1 {
			c.Viol("aggressive", "%d equal trips are left with --red-trips-aggressive (%s)", len(res), k)
			return
		}
		if len(res) < len(in) {
			removed += len(in) - len(res)
			key += k + ds
		}
		for i, a := range res {
			for j, b := range res {
				sa, sb := out.Services[a.Service], out.Services[b.Service]
				aa, ab := sa.Active(), sb.Active()
				if i == j {
					continue
				}
				if len(ab) == 0 {
					c.Viol("empty-left", "trip %s never runs, but its equal %s was kept apart (%s)", b.ID, a.ID, k)
					return
				}
				if !sa.HasCal || !sb.HasCal || sa.Days == [7]bool{} || sa.Days != sb.Days || len(aa) == 0 || len(ab) == 0 {
					continue
				}
				if gap := ab[0] - aa[len(aa)-1]; gap > 0 && gap <= 7 {
					c.Viol("adjacent", "trips %s (%s) and %s (%s) are equal and their calendars adjoin, but both are left", a.ID, sa, b.ID, sb)
					return
				}
			}
		}
		// what is left looks as before
		shapes, wa, ba := false, 0, 0
		for _, t := range in {
			shapes = shapes || t.Shape != ""
			wa, ba = better(wa, t.WA), better(ba, t.BA)
		}
		for _, t := range res {
			o := f.Trips[t.ID]
			if a, b := stsNoDist(o), stsNoDist(t); a != b {
				c.Viol("times", "the stop times of trip %s were %s, are %s", t.ID, a, b)
				return
			}
			same := t.Route == o.Route && t.Dir == o.Dir && t.Block == o.Block && len(t.Freqs) == 0
			own := func(got, was string, of func(*Trip) string) bool {
				if got == was {
					return true
				}
				if was != "" {
					return false
				}
				for _, u := range in {
					if of(u) == got {
						return true
					}
				}
				return false
			}
			same = same && own(t.Headsign, o.Headsign, func(u *Trip) string { return u.Headsign })
			same = same && own(t.Short, o.Short, func(u *Trip) string { return u.Short })
			same = same && own(xstr(t.X), xstr(o.X), func(u *Trip) string { return xstr(u.X) })
			same = same && (t.WA == o.WA || t.WA == better(o.WA, t.WA) && better(wa, t.WA) == wa)
			same = same && (t.BA == o.BA || t.BA == better(o.BA, t.BA) && better(ba, t.BA) == ba)
			if !same {
				op := CanonOpt{NoSvc: true}
				c.Viol("attributes", "trip %s was %s, is %s", t.ID, f.tripStr(o, &op), out.tripStr(t, &op))
				return
			}
			ok := t.Shape == o.Shape && distStr(t) == distStr(o)
			if o.Shape == "" && t.Shape != "" {
				for _, u := range in {
					ok = ok || u.Shape == t.Shape && distStr(u) == distStr(t)
				}
			}
			if !ok {
				c.Viol("shape", "trip %s had shape %q (%s), has %q (%s)", t.ID, o.Shape, distStr(o), t.Shape, distStr(t))
				return
			}
		}
		if len(res) == 1 && shapes && res[0].Shape == "" {
			c.Viol("shape-lost", "of the equal trips %s some had a shape, the remaining one has none", k)
			return
		}
	}
	// attributions
	attr := func(fd *Feed) (map[string]int, map[string]map[string]int) {
		m, own := map[string]int{}, map[string]map[string]int{}
		for _, a := range fd.Attributions {
			x := *a
			if a.Trip != "" {
				x.Trip = "class " + class[a.Trip]
				if own[a.Trip] == nil {
					own[a.Trip] = map[string]int{}
				}
				own[a.Trip][x.str()]++
			}
			m[x.str()]++
		}
		return m, own
	}
	wa, wo := attr(f)
	ga, go_ := attr(out)
	for k, n := range wa {
		c.Count("attributions_compared", n)
		if ga[k] != n {
			c.Viol("attribution", "%d attribution(s) %s became %d", n, k, ga[k])
			return
		}
	}
	for k, n := range ga {
		if wa[k] != n {
			c.Viol("attribution", "%d attribution(s) %s appeared", n, k)
			return
		}
	}
	for id, m := range wo {
		for k, n := range m {
			if out.Trips[id] != nil && go_[id][k] < n {
				c.Viol("attribution-moved", "trip %s lost its attribution %s", id, k)
				return
			}
		}
	}
	// transfers
	tk := func(t *Transfer) (string, string) {
		x := *t
		if x.FT != "" {
			x.FT = "class " + class[x.FT]
		}
		if x.TT != "" {
			x.TT = "class " + class[x.TT]
		}
		return x.Key(), fmt.Sprintf("type=%d min=%d%s", t.Type, t.MinT, xstr(t.X))
	}
	wt := map[string]map[string]bool{}
	for _, t := range f.Transfers {
		k, v := tk(t)
		if wt[k] == nil {
			wt[k] = map[string]bool{}
		}
		wt[k][v] = true
	}
	gt, full := map[string]bool{}, map[string]string{}
	for _, t := range out.Transfers {
		k, v := tk(t)
		if !wt[k][v] {
			c.Viol("transfer-new", "transfer %s %s appeared", t.Key(), v)
			return
		}
		gt[k] = true
		full[t.Key()] = v
	}
	for _, t := range f.Transfers {
		c.Count("transfers_compared", 1)
		k, v := tk(t)
		fl, tl := t.FT == "" || out.Trips[t.FT] != nil, t.TT == "" || out.Trips[t.TT] != nil
		switch {
		case fl && tl:
			if full[t.Key()] == "" {
				c.Viol("transfer-lost", "transfer %s between trips that are still there is gone", t.Key())
				return
			}
		case t.FT != "" && t.TT != "" && t.FT != t.TT && class[t.FT] == class[t.TT]:
		case !gt[k]:
			c.Viol("transfer-lost", "transfer %s (%s) is gone with a trip whose equal is still there", t.Key(), v)
			return
		}
	}
	// calendars
	used := map[string]bool{}
	for _, k := range sortedKeys(mem) {
		for _, t := range mem[k] {
			if len(mem[k]) == 1 {
				used[t.Service] = true
			}
		}
	}
	for _, id := range sortedKeys(f.Services) {
		if out.Services[id] == nil {
			c.Viol("service-lost", "service %s is gone", id)
			return
		}
		if a, b := f.Services[id].ActiveKey(), out.Services[id].ActiveKey(); a != b && used[id] {
			c.Viol("service-touched", "service %s ran on [%s], now on [%s]", id, a, b)
			return
		}
	}
	a, b := Canon(f, CanonOpt{NoTrips: true, NoSvc: true, NoTransfer: true, NoAttr: true}), Canon(out, CanonOpt{NoTrips: true, NoSvc: true, NoTransfer: true, NoAttr: true})
	c.Frame("frame", a, b)
	if removed > 0 {
		c.Count("trips_removed", removed)
		c.Nontrivial(key)
		c.Sample(map[string]any{"fuzzy": fuzzy, "aggressive": aggr, "removed": removed, "classes": head(key, 400)})
	}
}

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// relKey is everything a passenger sees of a trip except when it departs: times
// are relative to the departure from the first stop.
func (f *Feed) relKey(t *Trip) string {
	c := *t
	c.STs = append([]ST(nil), t.STs...)
	c.Freqs = nil
	z := t.STs[0].Dep
	for i := range c.STs {
		c.STs[i].Seq = i
	}
	k := ""
	for i := range c.STs {
		if c.STs[i].Arr >= 0 {
			k += fmt.Sprintf("%d/%d ", c.STs[i].Arr-z, c.STs[i].Dep-z)
		} else {
			k += "- "
		}
		c.STs[i].Arr, c.STs[i].Dep = 0, 0
	}
	return f.tripStr(&c, &CanonOpt{NoFreq: true}) + " REL " + k
}

// deps lists the departures of a trip from its first stop; approximate ones are marked.
func (t *Trip) deps() []string {
	var d []string
	if len(t.Freqs) == 0 {
		return []string{tstr(t.STs[0].Dep)}
	}
	for _, q := range t.Freqs {
		for s := q.Start; s < q.End && q.Headway > 0; s += q.Headway {
			m := ""
			if !q.Exact {
				m = "~"
			}
			d = append(d, tstr(s)+m)
		}
	}
	return d
}

func depClasses(f *Feed) (map[string][]string, map[string][]*Trip) {
	m, tr := map[string][]string{}, map[string][]*Trip{}
	for _, id := range sortedKeys(f.Trips) {
		t := f.Trips[id]
		if len(t.STs) == 0 {
			continue
		}
		k := f.relKey(t)
		m[k] = append(m[k], t.deps()...)
		tr[k] = append(tr[k], t)
	}
	for _, v := range m {
		sort.Strings(v)
	}
	return m, tr
}

// progressions adds groups of trips that leave at one or several headways.
func (g *G) progressions() {
	for n := 1 + g.r.Intn(4); n > 0; n-- {
		base := g.pattern()
		if g.p(0.6) {
			base.Short = ""
		}
		if g.p(0.15) {
			base.Block = "blkA"
		}
		last := g.trips
		for m := 1 + g.r.Intn(3); m > 0; m-- {
			hw := pick(g, []int{1, 45, 60, 240, 299, 300, 300, 301, 600, 600, 900, 900, 1200, 3599, 5400})
			t := cloneTrip(base)
			t.shift(pick(g, []int{0, 300, 600, 1800, 90, 3600}))
			if g.p(0.25) {
				a := t.STs[0].Dep
				t.Freqs = nil
				for k := 1 + g.r.Intn(2); k > 0; k-- {
					b := a + hw*(1+g.r.Intn(6)) + pick(g, []int{0, 0, 1 + hw/3})
					t.Freqs = append(t.Freqs, Freq{Start: a, End: b, Headway: hw, Exact: g.p(0.6)})
					a = b + pick(g, []int{0, hw})
				}
				if g.p(0.5) { // the template's own times do not matter
					t.shift(600)
				}
				g.addTrip(t)
				continue
			}
			for k := 2 + g.r.Intn(6); k > 0; k-- {
				u := cloneTrip(t)
				if g.p(0.06) {
					g.mutTrip(u)
				}
				if g.p(0.05) {
					u.Block = pick(g, []string{"", "blkA", "blkB"})
				}
				if g.p(0.04) { // another dwell at the first stop
					u.STs[0].Arr = imax(0, u.STs[0].Arr-30)
				}
				if g.p(0.04) {
					u.STs[g.r.Intn(len(u.STs))].TP = g.p(0.5)
				}
				if g.p(0.04) {
					i := g.r.Intn(len(u.STs))
					if !isNaN(u.STs[i].Dist) && i == len(u.STs)-1 {
						u.STs[i].Dist += 1
					}
				}
				if g.p(0.05) {
					for i := range u.STs {
						u.STs[i].Seq = i*10 + 1
					}
				}
				if !g.p(0.08) {
					g.addTrip(u)
				}
				t.shift(hw)
			}
		}
		_ = last
	}
}

func init() {
	reg(&Prop{ID: "P05", Title: "frequency minimisation", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with regular, interleaved and perturbed departures run with -T; non-trivial: at least one group of trips was rewritten, keyed by its departures",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips = [2]int{0, 10}
			o.Services = [2]int{1, 3}
			o.Routes = [2]int{1, 3}
			o.Shapes = [2]int{0, 2}
			o.Freqs = 0.3
			o.Transfers, o.Attrs = 0.25, 0.25
			g := newG(c.R, o)
			g.genAgencies()
			g.genLevels()
			g.genStops()
			g.genShapes()
			g.genRoutes()
			g.genServices()
			g.genTrips()
			g.progressions()
			c.R.Shuffle(len(g.trips), func(i, j int) { g.trips[i], g.trips[j] = g.trips[j], g.trips[i] })
			if g.p(0.3) { // ids as the tool makes them for further trips
				b, n := pick(g, g.trips), 2
				for _, t := range g.trips {
					if id := b.ID + "_" + strconv.Itoa(n); t != b && g.f.Trips[id] == nil && g.p(0.3) {
						delete(g.f.Trips, t.ID)
						t.ID = id
						g.f.Trips[id] = t
						n++
					}
				}
			}
			g.genFares()
			g.genTransfers()
			g.genPathways()
			g.genAttrs()
			g.genInfos()
			g.genExtra()
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			fl := c.maybeF(f, []string{"-T"})
			fl = append(fl, c.idle(f, "l")...)
			minH, maxH := 1, 24*3600
			if c.R.Intn(3) == 0 {
				minH = pick(g, []int{2, 45, 240, 300, 301, 600})
				fl = append(fl, fmt.Sprintf("--min-headway=%d", minH))
			}
			if c.R.Intn(3) == 0 {
				maxH = pick(g, []int{45, 299, 300, 600, 900, 3599, 3600})
				fl = append(fl, fmt.Sprintf("--max-headway=%d", maxH))
			}
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			want, wt := depClasses(f)
			got, gt := depClasses(r.F)
			c.Count("trip_groups_compared", len(want))
			key := ""
			inTf, inAt := map[string]bool{}, map[string]bool{}
			for _, t := range f.Transfers {
				inTf[t.FT], inTf[t.TT] = true, true
			}
			for _, a := range f.Attributions {
				inAt[a.Trip] = true
			}
			for _, k := range sortedKeys(want) {
				w, h := strings.Join(want[k], " "), strings.Join(got[k], " ")
				c.Count("departures_compared", len(want[k]))
				if w != h {
					if strings.ReplaceAll(w, "~", "") == strings.ReplaceAll(h, "~", "") {
						c.Viol("exactness", "trips [%s] departed at [%s], now at [%s] (~: approximately)", k, w, h)
					} else {
						c.Viol("departures", "trips [%s] departed at [%s], now at [%s]", k, w, h)
					}
					return
				}
				if len(gt[k]) > len(wt[k]) {
					c.Viol("more-trips", "trips [%s]: %d trips became %d", k, len(wt[k]), len(gt[k]))
				}
				old := map[string]bool{}
				free := true
				for _, t := range wt[k] {
					old[fmt.Sprint(t.ID, t.STs[0].Dep, t.Freqs)] = true
					for _, q := range t.Freqs {
						old[fmt.Sprint(q.Start, q.End, q.Headway, q.Exact)] = true
					}
					if len(t.Freqs) > 0 || t.Block != "" || inTf[t.ID] || inAt[t.ID] {
						free = false
					}
				}
				for _, t := range gt[k] {
					if old[fmt.Sprint(t.ID, t.STs[0].Dep, t.Freqs)] {
						continue
					}
					key += fmt.Sprint(t.STs[0].Dep, t.Freqs)
					c.Count("trips_rewritten", 1)
					qs := append([]Freq(nil), t.Freqs...)
					sort.Slice(qs, func(i, j int) bool { return qs[i].Start < qs[j].Start })
					for i, q := range qs {
						if old[fmt.Sprint(q.Start, q.End, q.Headway, q.Exact)] {
							continue
						}
						c.Count("frequencies_found", 1)
						if q.End-q.Start > q.Headway && (q.Headway < minH || q.Headway > maxH) {
							c.Viol("headway", "trip %s: found a headway of %d s, allowed are %d to %d", t.ID, q.Headway, minH, maxH)
						}
						if i > 0 {
							p := qs[i-1]
							if lastDep := p.Start + (p.End-p.Start-1)/p.Headway*p.Headway; lastDep >= q.Start {
								c.Viol("interleaved", "trip %s: the departures of frequency %v go beyond the start of %v", t.ID, p, q)
							}
						}
					}
				}
				// one regular progression has to become one frequency
				ds := []int{}
				for _, t := range wt[k] {
					ds = append(ds, t.STs[0].Dep)
				}
				sort.Ints(ds)
				reg := len(ds) > 1 && free
				for i := 1; i < len(ds); i++ {
					if h := ds[i] - ds[i-1]; h != ds[1]-ds[0] || h < minH || h > maxH {
						reg = false
					}
				}
				if reg {
					c.Count("regular_groups", 1)
					if len(gt[k]) != 1 || len(gt[k][0].Freqs) != 1 {
						c.Viol("not-found", "trips [%s] depart regularly at [%s], but %d trips are left", k, w, len(gt[k]))
					}
				}
			}
			for _, k := range sortedKeys(got) {
				if want[k] == nil {
					c.Viol("new-trips", "trips [%s] at %v appeared", k, got[k])
					return
				}
			}
			// transfers and attributions still find their trips
			for _, id := range sortedKeys(f.Trips) {
				if t, u := f.Trips[id], r.F.Trips[id]; inTf[id] || inAt[id] {
					if u == nil || f.tripStr(t, &CanonOpt{}) != r.F.tripStr(u, &CanonOpt{}) {
						c.Viol("referenced", "trip %s, which a transfer or attribution refers to, was rewritten", id)
						return
					}
				}
			}
			c.Frame("frame", Canon(f, CanonOpt{NoTrips: true}), Canon(r.F, CanonOpt{NoTrips: true}))
			if key != "" {
				c.Nontrivial(key)
				c.Sample(map[string]any{"flags": fl, "rewritten": head(key, 200)})
			}
		}})
}

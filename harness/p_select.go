package main

import (
	"fmt"
	"regexp"
	"strings"
)

// Date and means-of-transport filters.

var classicType = map[int]int{100: 2, 109: 2, 200: 3, 400: 1, 700: 3, 702: 3, 715: 3, 900: 0, 1000: 4, 1300: 6, 1501: 3, 1400: 7}

var refusedTransfer = regexp.MustCompile(`transfers\.txt:\d+ - No (route|trip) with id`)

func classic(t int) int {
	if u, ok := classicType[t]; ok {
		return u
	}
	return t
}

func init() {
	reg(&Prop{ID: "P29", Title: "date and MOT filters", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds filtered by date ranges and means of transport in all combinations; non-trivial: the filter removed a trip and kept one, keyed by filter and calendars",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips, o.Routes, o.Services = [2]int{2, 14}, [2]int{2, 8}, [2]int{1, 8}
			o.Transfers, o.Attrs, o.Fares, o.Freqs = 0.7, 0.7, 0.6, 0.2
			g := newG(c.R, o)
			g.All()
			types := []int{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 100, 109, 200, 400, 700, 702, 715, 900, 1000, 1300, 1400, 1501}
			pool := []int{pick(g, types), pick(g, types), pick(g, types), 3}
			for _, id := range sortedKeys(g.f.Routes) {
				g.f.Routes[id].Type = pick(g, pool)
			}
			what := g.r.Intn(3)
			if what != 0 && !g.p(0.02) {
				// the parser refuses transfers between routes and trips that are filtered out
				for _, t := range g.f.Transfers {
					t.FR, t.TR, t.FT, t.TT = "", "", "", ""
				}
				seen := map[string]bool{}
				var l []*Transfer
				for _, t := range g.f.Transfers {
					if !seen[t.Key()] && t.FS != "" && t.TS != "" {
						seen[t.Key()] = true
						l = append(l, t)
					}
				}
				g.f.Transfers = l
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				return
			}
			var fl []string
			lo, hi := -1<<30, 1<<30
			if what != 1 {
				var days []int
				for _, s := range f.Services {
					days = append(days, s.Active()...)
				}
				date := func() int {
					if len(days) > 0 && g.p(0.7) {
						return days[g.r.Intn(len(days))] + pick(g, []int{0, 0, -1, 1})
					}
					return g.day0 + g.r.Intn(80) - 10
				}
				if g.p(0.1) { // all of the dates that a feed can have
					lo, hi = civil(1900, 1, 1), civil(2155, 12, 31)
					if g.p(0.5) {
						lo = date()
					}
					fl = append(fl, "--date-start="+dstr(lo), "--date-end="+dstr(hi))
				} else if g.p(0.75) {
					lo = date()
					fl = append(fl, pick(g, []string{"--date-start=" + dstr(lo)}))
				}
				if hi > 1<<29 && (lo < -1<<29 || g.p(0.7)) {
					hi = date()
					if hi < lo {
						hi = lo + g.r.Intn(20)
					}
					fl = append(fl, "--date-end="+dstr(hi))
				}
			}
			std := g.p(0.25)
			if std {
				fl = append(fl, "--standard-route-types")
			}
			keep, drop := map[int]bool{}, map[int]bool{}
			if what != 0 {
				list := func(m map[int]bool) string {
					var l []string
					for n := 1 + g.r.Intn(3); n > 0; n-- {
						t := pick(g, pool)
						if std && g.p(0.8) {
							t = classic(t)
						}
						if g.p(0.2) {
							t = pick(g, types)
						}
						m[t] = true
						l = append(l, fmt.Sprint(t))
					}
					return strings.Join(l, pick(g, []string{",", ",", ", ", " , ", ",,"})) + pick(g, []string{"", "", ","})
				}
				if g.p(0.6) {
					fl = append(fl, pick(g, []string{"-M=", "-M", "--keep-mots="})+list(keep))
				}
				if len(keep) == 0 || g.p(0.3) {
					fl = append(fl, pick(g, []string{"-N=", "-N", "--drop-mots="})+list(drop))
				}
			}
			fl = c.maybeF(f, fl)
			fl = append(fl, c.idle(f, "lCRNrA")...)
			r := c.Tidy(fl, c.Put([]string{"in", "in.zip"}[c.R.Intn(2)], raw))
			if r.Exit == 1 && what != 0 && refusedTransfer.MatchString(r.Stderr) {
				c.Viol("filtered-transfer", "a transfer between routes or trips that are filtered out ends the run: %s", head(r.Stderr, 300))
				return
			}
			if !c.Valid(r) {
				return
			}
			// the model
			goneR, goneT := map[string]bool{}, map[string]bool{}
			routes := map[string]*Route{}
			for id, rt := range f.Routes {
				if std {
					rt.Type = classic(rt.Type)
				}
				if len(keep) > 0 && !keep[rt.Type] || drop[rt.Type] {
					goneR[id] = true
				} else {
					routes[id] = rt
				}
			}
			ranged := lo > -1<<29 || hi < 1<<29
			clip := func(s *Service) (ds []int) {
				for _, d := range s.Active() {
					if d >= lo && d <= hi {
						ds = append(ds, d)
					}
				}
				return
			}
			for id, t := range f.Trips {
				if goneR[t.Route] || ranged && len(clip(f.Services[t.Service])) == 0 {
					goneT[id] = true
				}
			}
			w := f.without(goneT)
			w.Routes = routes
			w.Fares = map[string]*Fare{}
			for id, fa := range f.Fares {
				n := *fa
				n.Rules = nil
				for _, u := range fa.Rules {
					if !goneR[u.Route] {
						n.Rules = append(n.Rules, u)
					}
				}
				w.Fares[id] = &n
			}
			ts, as := w.Transfers, w.Attributions
			w.Transfers, w.Attributions = nil, nil
			for _, t := range ts {
				if !goneR[t.FR] && !goneR[t.TR] {
					w.Transfers = append(w.Transfers, t)
				}
			}
			for _, a := range as {
				if !goneR[a.Route] {
					w.Attributions = append(w.Attributions, a)
				}
			}
			// services: dates within the range stay, others go
			w.Services = map[string]*Service{}
			for id, s := range f.Services {
				w.Services[id] = s
				q := r.F.Services[id]
				if !ranged {
					continue
				}
				ds := clip(s)
				w.Services[id] = q
				if q == nil && len(ds) > 0 {
					c.Viol("service-lost", "service %s runs within the range, but is gone", id)
					return
				}
				if q != nil && dayKey(q.Active()) != dayKey(ds) {
					c.Viol("dates", "service %s (%v) should run on %s, but runs on %s (%v)", id, s, dayKey(ds), dayKey(q.Active()), q)
					return
				}
				if q == nil {
					delete(w.Services, id)
				}
				c.Count("services_decided", 1)
			}
			c.Count("trips_decided", len(f.Trips))
			if !c.Frame("frame", Canon(w, CanonOpt{}), Canon(r.F, CanonOpt{})) {
				return
			}
			if len(r.F.Trips) > 0 && len(goneT) > 0 {
				c.Nontrivial(fmt.Sprint(fl, goneT, g.lat0))
				c.Sample(map[string]any{"options": fl, "trips": len(f.Trips), "removed": len(goneT), "routes_removed": len(goneR)})
			}
		}})
}

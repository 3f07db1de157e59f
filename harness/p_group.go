package main

import "fmt"

func init() {
	reg(&Prop{ID: "P20", Title: "grouped stop times", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with repeated stop times at one stop that differ in single attributes run with --group-adj-stop-times; non-trivial: stop times were grouped, keyed by the trips",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips, o.ST, o.StAttr = [2]int{1, 10}, [2]int{2, 7}, 0.3
			o.NoTimes, o.Extra = pick(&G{r: c.R}, []float64{0, 0.2, 0.5}), 0.5
			g := newG(c.R, o)
			g.All()
			for _, id := range sortedKeys(g.f.Trips) {
				t := g.f.Trips[id]
				if g.p(0.2) || len(t.STs) == 0 {
					continue
				}
				var l []ST
				shift, seq := 0, t.STs[0].Seq
				for i, s := range t.STs {
					if s.Arr >= 0 {
						s.Arr += shift
						s.Dep += shift
						if g.p(0.4) {
							s.Dep = s.Arr
						}
					}
					s.Seq = seq
					seq += 1 + g.r.Intn(2)
					l = append(l, s)
					if !g.p(0.4) {
						continue
					}
					for n := 1 + g.r.Intn(3); n > 0; n-- {
						x := s
						x.Seq = seq
						seq += 1 + g.r.Intn(2)
						if x.Arr >= 0 {
							k := pick(g, []int{0, 0, 30, 60, 300})
							shift += k
							x.Arr += k + s.Dep - s.Arr
							x.Dep = x.Arr
						}
						if g.p(0.5) {
							x.PT = g.r.Intn(4)
						}
						if g.p(0.5) {
							x.DT = g.r.Intn(4)
						}
						switch g.r.Intn(16) {
						case 0:
							x.CP = g.r.Intn(4)
						case 1:
							x.CD = g.r.Intn(4)
						case 2:
							if x.Dist == x.Dist {
								x.Dist += pick(g, []float32{0.5, 1, 100})
							}
						case 3:
							if x.Arr >= 0 {
								x.Dep += 30
								shift += 30
							}
						case 4:
							if i < len(t.STs)-1 {
								x.Arr, x.Dep, x.TP = -1, -1, false
							}
						case 5:
							x.TP = !x.TP && x.Arr >= 0
						case 6:
							x.Stop = pick(g, g.stopsL).ID
						case 7:
							x.Dist = nan32
						}
						l = append(l, x)
						if x.Arr >= 0 {
							s = x
						}
					}
				}
				// measurements and times stay ordered
				d := float32(-1)
				for i := range l {
					if l[i].Dist == l[i].Dist {
						l[i].Dist = max(l[i].Dist, d)
						d = l[i].Dist
					}
				}
				if g.p(0.15) {
					l = l[:1+g.r.Intn(len(l))]
				}
				if l[len(l)-1].Arr < 0 {
					l = l[:len(l)-1]
				}
				if len(l) > 0 && l[len(l)-1].Arr >= 0 {
					t.STs = l
				}
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				c.Count("not_valid", 1)
				return
			}
			fl := c.maybeF(f, []string{"--group-adj-stop-times"})
			fl = append(fl, c.idle(f, "lg")...)
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			w := *f
			w.Trips = map[string]*Trip{}
			n, key := 0, ""
			for _, id := range sortedKeys(f.Trips) {
				t := *f.Trips[id]
				t.STs = nil
				for i, b := range f.Trips[id].STs {
					if i > 0 {
						a := f.Trips[id].STs[i-1]
						if a.Stop == b.Stop && a.Arr == a.Dep && b.Arr == b.Dep && (a.Arr < 0) == (b.Arr < 0) && a.CP == b.CP && a.CD == b.CD && fstr(a.Dist) == fstr(b.Dist) {
							m := &t.STs[len(t.STs)-1]
							m.Dep, m.PT = b.Dep, b.PT
							n++
							key += fmt.Sprint(a.Stop, a.Arr, b.Dep, a.DT, b.PT, "|")
							continue
						}
					}
					t.STs = append(t.STs, b)
				}
				w.Trips[id] = &t
			}
			c.Count("stop_times_grouped", n)
			if !c.Frame("group", Canon(&w, CanonOpt{}), Canon(r.F, CanonOpt{})) {
				return
			}
			if n > 0 {
				c.Nontrivial(key)
				c.Sample(map[string]any{"grouped": head(key, 200), "trips": len(f.Trips)})
			}
		}})
}

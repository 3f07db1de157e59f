package main

import (
	"fmt"
	"math/rand"
)

// feeds whose weight lies on calendars
func svcOpt(r *rand.Rand) Opt {
	o := DefOpt()
	o.Services = [2]int{2, 14}
	o.Trips = [2]int{2, 12}
	o.Routes = [2]int{1, 3}
	o.Stops = [2]int{2, 5}
	o.Shapes = [2]int{0, 1}
	o.ST = [2]int{2, 3}
	o.Horizon = []int{9, 14, 20, 60, 60, 150, 420}[r.Intn(7)]
	if o.Horizon <= 20 || r.Intn(4) == 0 {
		o.Services[1] = 50
	}
	o.EmptySvc = 0.08
	o.Dup = 0.5
	return o
}

// dateKeys: every service's active dates
func dateKeys(f *Feed) map[string]string {
	m := map[string]string{}
	for k, s := range f.Services {
		m[k] = s.ActiveKey()
	}
	return m
}

func (c *Ctx) countDays(f *Feed) {
	n := 0
	for _, s := range f.Services {
		n += len(s.Active())
	}
	c.Count("active_service_days_observed", n)
	c.Count("services_observed", len(f.Services))
}

// Rows is the number of calendar.txt and calendar_dates.txt rows.
func (s *Service) Rows() int {
	n := len(s.Exc)
	for _, d := range s.Days {
		if d {
			return n + 1
		}
	}
	return n
}

// optWeek is the least number of exceptions with which some weekday pattern
// over whole weeks (Sunday to Saturday) describes the dates of s between the
// first and the last of them.
func optWeek(s *Service) int {
	act := s.Active()
	if len(act) == 0 {
		return 0
	}
	first, last := act[0], act[len(act)-1]
	in := map[int]bool{}
	for _, d := range act {
		in[d] = true
	}
	best := len(act)
	for a := first - (wday(first)+1)%7; a <= last; a += 7 {
		var cnt, tot [7]int
		inside := 0
		for b := a; b <= last; b += 7 {
			for d := b; d < b+7; d++ {
				if d < first || d > last {
					continue
				}
				tot[wday(d)]++
				if in[d] {
					cnt[wday(d)]++
					inside++
				}
			}
			exc := len(act) - inside
			for w := range cnt {
				exc += min(tot[w]-cnt[w], cnt[w])
			}
			best = min(best, exc)
		}
	}
	return best
}

// norm is String without calendar rows that select no weekday
func (s *Service) norm() string {
	c := *s
	if c.Days == [7]bool{} {
		c.HasCal = false
	}
	return c.String()
}

func init() {
	reg(&Prop{ID: "P03", Title: "service minimisation keeps dates", Quick: 1500, Thorough: 40000,
		Rule: "calendar-heavy seeded feeds run with -c; non-trivial: the run rewrote at least one calendar, keyed by the rewritten calendars",
		Case: func(c *Ctx) {
			f, raw := c.genRaw(svcOpt(c.R))
			in := c.Put("in", raw)
			fl := append([]string{"-c", "-F"}, c.idle(f, "lc")...)
			if c.R.Intn(3) == 0 {
				fl = append(fl, "--explicit-calendar")
			}
			comp := c.company("-P", "-A", "-R", "--snap-stops", "-E", "-s", "-S", "-m", "-r", "-T", "--group-adj-stop-times", "--ensure-stop-parents", "--fix-far-away-parents")
			r := c.Tidy(append(fl, comp...), in)
			if !c.Valid(r) {
				return
			}
			c.countDays(f)
			changed := ""
			for _, k := range sortedKeys(f.Services) {
				s, t := f.Services[k], r.F.Services[k]
				if t == nil {
					c.Viol("lost-service", "service %s (%s) is missing from the output", k, s)
					continue
				}
				if a, b := s.ActiveKey(), t.ActiveKey(); a != b {
					c.Viol("dates", "service %s ran on [%s], after minimisation on [%s] (input %s, output %s)", k, a, b, s, t)
				}
				if len(s.Exc) > 0 {
					if best := optWeek(s); len(t.Exc) > best && !(len(t.Exc) == best+1 && t.norm()[:5] == "nocal") {
						c.Viol("opt", "service %s has %d exceptions after minimisation, a week-aligned search finds %d (input %s, output %s)", k, len(t.Exc), best, s, t)
					}
				} else if s.norm() != t.norm() {
					c.Viol("touched", "service %s had no exceptions, was %s, is %s", k, s, t)
				}
				if s.String() != t.String() {
					changed += s.String() + "=>" + t.String()
					c.Count("calendars_rewritten", 1)
				}
			}
			if comp == nil {
				c.Frame("frame", Canon(f, CanonOpt{NoSvc: false, SvcByDates: true}), Canon(r.F, CanonOpt{SvcByDates: true}))
			}
			if changed != "" {
				c.Nontrivial(changed)
				c.Sample(map[string]any{"flags": fl, "rewrites": head(changed, 600)})
			}
		}})

	reg(&Prop{ID: "P04", Title: "service duplicate removal", Quick: 1500, Thorough: 40000,
		Rule: "calendar-heavy seeded feeds in which several services denote the same dates in different encodings, run with -C; non-trivial: at least two services were equal, keyed by the date sets",
		Case: func(c *Ctx) {
			f, raw := c.genRaw(svcOpt(c.R))
			in := c.Put("in", raw)
			fl := append([]string{"-C", "-F"}, c.idle(f, "lC")...)
			comp := c.company("-P", "-A", "-R", "--snap-stops", "-E", "-s", "-S", "-m", "-r", "-T", "--group-adj-stop-times", "--ensure-stop-parents", "--fix-far-away-parents")
			r := c.Tidy(append(fl, comp...), in)
			if !c.Valid(r) {
				return
			}
			c.countDays(f)
			if comp == nil {
				c.Frame("frame", Canon(f, CanonOpt{SvcByDates: true}), Canon(r.F, CanonOpt{SvcByDates: true}))
			}
			want := map[string]int{}
			for _, s := range f.Services {
				want[s.ActiveKey()]++
			}
			got := map[string]string{}
			for k, s := range r.F.Services {
				key := s.ActiveKey()
				if o, ok := got[key]; ok {
					c.Viol("dup-left", "services %s and %s both run on exactly [%s]", o, k, key)
				}
				got[key] = k
				if want[key] == 0 {
					c.Viol("new-dates", "service %s runs on [%s], which no input service does", k, key)
				}
				if in := f.Services[k]; in == nil || in.norm() != s.norm() {
					c.Viol("rewritten", "service %s was %s, is %s", k, in, s)
				}
			}
			for k := range want {
				if got[k] == "" {
					c.Viol("lost-dates", "no service with dates [%s] is left", k)
				}
			}
			if len(want) < len(f.Services) {
				c.Nontrivial(fmt.Sprint(sortedKeys(want)))
				c.Count("duplicates_merged", len(f.Services)-len(want))
				c.Sample(map[string]any{"services_before": len(f.Services), "distinct_date_sets": len(want)})
			}
		}})
}

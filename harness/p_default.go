package main

import (
	"fmt"
	"strings"
)

// Falling back to default values. Only optional fields are broken, so the feed
// has to come out as if the broken fields had been empty.

var optFaults = []struct {
	tab, col string
	val      []string
}{
	{"agency.txt", "agency_lang", []string{"klingon!", "1"}},
	{"agency.txt", "agency_fare_url", []string{"not a url"}},
	{"agency.txt", "agency_email", []string{"nobody", "@x"}},
	{"feed_info.txt", "feed_start_date", []string{"soon", "20241301", "2024", "20240100"}},
	{"feed_info.txt", "feed_end_date", []string{"later", "20240132", "x0240101"}},
	{"feed_info.txt", "feed_contact_email", []string{"nobody"}},
	{"feed_info.txt", "feed_contact_url", []string{"not a url"}},
	{"frequencies.txt", "exact_times", []string{"2", "x", "-1"}},
	{"routes.txt", "route_url", []string{"not a url"}},
	{"routes.txt", "route_color", []string{"green", "12345", "GGGGGG", "#FF0000"}},
	{"routes.txt", "route_text_color", []string{"white", "0", "ZZZZZZ"}},
	{"routes.txt", "route_sort_order", []string{"first", "-2"}},
	{"routes.txt", "continuous_pickup", []string{"4", "x"}},
	{"routes.txt", "continuous_drop_off", []string{"-1", "x"}},
	{"stops.txt", "stop_url", []string{"not a url"}},
	{"stops.txt", "stop_timezone", []string{"Mars/Olympus"}},
	{"stops.txt", "wheelchair_boarding", []string{"7", "yes"}},
	{"stop_times.txt", "continuous_pickup", []string{"4", "x"}},
	{"stop_times.txt", "continuous_drop_off", []string{"9", "x"}},
	{"stop_times.txt", "shape_dist_traveled", []string{"far", "1.2.3"}},
	{"trips.txt", "direction_id", []string{"2", "north"}},
	{"trips.txt", "shape_id", []string{"no-such-shape"}},
	{"trips.txt", "wheelchair_accessible", []string{"3", "x"}},
	{"trips.txt", "bikes_allowed", []string{"3", "x"}},
	{"shapes.txt", "shape_dist_traveled", []string{"far"}},
	{"fare_attributes.txt", "transfers", []string{"3", "x"}},
	{"transfers.txt", "min_transfer_time", []string{"long", "-1"}},
	{"pathways.txt", "length", []string{"x"}},
	{"pathways.txt", "traversal_time", []string{"x", "-3"}},
	{"pathways.txt", "stair_count", []string{"x"}},
	{"pathways.txt", "max_slope", []string{"steep"}},
	{"pathways.txt", "min_width", []string{"x", "-1"}},
	{"levels.txt", "level_index", []string{"x"}},
	{"attributions.txt", "is_producer", []string{"2", "yes"}},
	{"attributions.txt", "is_operator", []string{"2", "yes"}},
	{"attributions.txt", "is_authority", []string{"2", "yes"}},
	{"attributions.txt", "attribution_url", []string{"not a url"}},
	{"attributions.txt", "attribution_email", []string{"nobody"}},
}

// names that must not be empty, but are replaced by the string of -p
var mandatoryNames = [][2]string{{"agency.txt", "agency_name"}, {"stops.txt", "stop_name"}, {"feed_info.txt", "feed_publisher_name"}, {"feed_info.txt", "feed_lang"}, {"attributions.txt", "organization_name"}}

func init() {
	reg(&Prop{ID: "P30", Title: "default values", Quick: 1500, Thorough: 40000,
		Rule: "valid feeds in which values of optional fields are broken and mandatory names are emptied, run with -e, --fix and -p; non-trivial: the strict run refuses the feed, keyed by faults and options",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips = [2]int{1, 10}
			o.Infos, o.Attrs, o.Pathways, o.Transfers, o.Fares, o.Levels = 0.7, 0.7, 0.6, 0.6, 0.6, 0.6
			g := newG(c.R, o)
			g.All()
			raw := present(c.R, g.f.ToRaw())
			if _, prob := ParseRaw(raw); len(prob) > 0 {
				return
			}
			good := raw.clone()
			fl := pick(g, [][]string{{"-e"}, {"-e"}, {"-e", "-D"}, {"-e", "-W"}, {"--fix"}, {"--fix", "-W"}, {"-e", "-D", "-n"}, {}})
			e := len(fl) > 0
			fix := e && fl[0] == "--fix"
			fl = append([]string(nil), fl...)
			repl := ""
			if fix {
				repl = "-"
			} else if !e || g.p(0.5) {
				repl = pick(g, []string{"unknown", "-", "n/a", "Ohne Namen", "x,y"})
				fl = append(fl, "-p", repl)
			}
			fl = append(fl, "-F")
			var what []string
			badYear := false
			put := func(tab, col string, i int, bad, ok string) {
				raw[tab].Rows[i][raw[tab].col(col)] = bad
				good[tab].Rows[i][good[tab].col(col)] = ok
				what = append(what, fmt.Sprintf("%s.%s=%q", tab, col, bad))
			}
			row := func(tab, col string) int {
				t := raw[tab]
				if t == nil || len(t.Rows) == 0 || t.col(col) < 0 {
					return -1
				}
				return g.r.Intn(len(t.Rows))
			}
			cell := func(tab, col string, i int) string {
				if j := raw[tab].col(col); j >= 0 {
					return raw[tab].Rows[i][j]
				}
				return ""
			}
			for n, tries := 1+g.r.Intn(6), 0; n > 0 && tries < 60; tries++ {
				k := g.r.Intn(12)
				if !e || repl != "" && k > 9 {
					nm := pick(g, mandatoryNames)
					i := row(nm[0], nm[1])
					if i < 0 {
						continue
					}
					if nm[0] == "stops.txt" {
						if lt := strings.TrimSpace(cell(nm[0], "location_type", i)); lt == "3" || lt == "4" {
							continue // these need no name
						}
					}
					put(nm[0], nm[1], i, "", repl)
					n--
					continue
				}
				switch k {
				case 0: // an arrival or departure time alone stands for both
					i := row("stop_times.txt", "arrival_time")
					if i < 0 || row("stop_times.txt", "departure_time") < 0 {
						continue
					}
					a, d := cell("stop_times.txt", "arrival_time", i), cell("stop_times.txt", "departure_time", i)
					if strings.TrimSpace(a) == "" || a != d {
						continue
					}
					put("stop_times.txt", pick(g, []string{"arrival_time", "departure_time"}), i, "", a)
				case 1: // a time point needs times
					i := row("stop_times.txt", "timepoint")
					if i < 0 {
						continue
					}
					if strings.TrimSpace(cell("stop_times.txt", "arrival_time", i)+cell("stop_times.txt", "departure_time", i)) == "" {
						put("stop_times.txt", "timepoint", i, "1", "0")
					} else {
						put("stop_times.txt", "timepoint", i, pick(g, []string{"2", "x"}), "")
					}
				case 2: // routes need a name
					i := row("routes.txt", "route_short_name")
					if i < 0 || row("routes.txt", "route_long_name") < 0 {
						continue
					}
					put("routes.txt", "route_short_name", i, "", "-")
					put("routes.txt", "route_long_name", i, "", "")
				case 3: // the only agency
					i := row("routes.txt", "agency_id")
					if i < 0 || len(raw["agency.txt"].Rows) != 1 {
						continue
					}
					put("routes.txt", "agency_id", i, "no-such-agency", "")
				case 4:
					i := row("stops.txt", "location_type")
					if i < 0 {
						continue
					}
					if lt := strings.TrimSpace(cell("stops.txt", "location_type", i)); lt != "" && lt != "0" {
						continue
					}
					put("stops.txt", "location_type", i, pick(g, []string{"5", "-1", "stop"}), "")
				case 5:
					i := row("fare_attributes.txt", "currency_type")
					if i < 0 {
						continue
					}
					put("fare_attributes.txt", "currency_type", i, "", "XXX")
				default:
					f := pick(g, optFaults)
					i := row(f.tab, f.col)
					if i < 0 {
						continue
					}
					v := pick(g, f.val)
					badYear = badYear || strings.HasPrefix(v, "x0")
					put(f.tab, f.col, i, v, "")
				}
				n--
			}
			w, prob := ParseRaw(good)
			if len(prob) > 0 || len(what) == 0 {
				return
			}
			in := c.Put(pick(g, []string{"in", "in.zip"}), raw)
			strict := c.Exec(c.bin, []string{"-v"}, []string{in}, "", 2)
			r := c.Tidy(fl, in)
			if r.Exit != 0 {
				c.Viol("not-processed", "%v %v: exit status %d: %s", fl, what, r.Exit, head(r.Stderr, 500))
				return
			}
			if !c.Valid(r) {
				return
			}
			want, got := Canon(w, CanonOpt{}), Canon(r.F, CanonOpt{})
			if badYear {
				// recorded: the broken year comes out as 2048
				off := good.clone()
				for _, col := range []string{"feed_start_date", "feed_end_date"} {
					if j := raw["feed_info.txt"].col(col); j >= 0 && strings.HasPrefix(raw["feed_info.txt"].Rows[0][j], "x") {
						off["feed_info.txt"].Rows[0][j] = "2048" + raw["feed_info.txt"].Rows[0][j][4:]
					}
				}
				if x, prob := ParseRaw(off); len(prob) == 0 && len(DiffMaps(Canon(x, CanonOpt{}), got)) == 0 {
					c.Viol("feed-date-with-a-broken-year", "%v: comes out as a date of the year 2048", what)
					return
				}
			}
			if !c.Frame("frame", want, got) {
				return
			}
			if strict.Exit != 0 {
				c.Nontrivial(fmt.Sprint(what, fl))
				for _, x := range what {
					c.Seen("faults", x)
				}
				c.Sample(map[string]any{"faults": what, "options": fl})
			}
		}})
}

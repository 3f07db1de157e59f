package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Failures: bad options, broken feeds, unwritable outputs and garbage. What
// counts is the exit status, that there is a message, and what happened to the
// files around.

// tree returns the hashes of all files below the case's scratch directory.
func (c *Ctx) tree(skip ...string) map[string]string {
	m := map[string]string{}
	filepath.Walk(c.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		for _, s := range skip {
			if p == s || strings.HasPrefix(p, s+"/") {
				return nil
			}
		}
		switch {
		case fi.IsDir():
			m[p] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[p] = "-> " + l
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			m[p] = fmt.Sprintf("%x", sha256.Sum256(b))
		}
		return nil
	})
	return m
}

func (c *Ctx) crashed(r *Res) bool {
	if r.TimedOut {
		c.OK(r)
		return true
	}
	if panicRe.MatchString(r.Stderr) || r.Exit < 0 || r.Exit > 1 && strings.Contains(r.Stderr, "goroutine ") {
		c.Viol("crash:"+crashSite(r.Stderr), "the tool crashed (%s): %s", strings.Join(r.Args, " "), head(r.Stderr, 2500))
		return true
	}
	return false
}

// fails checks that the run was refused: status, message, no trace of it in the file system.
func (c *Ctx) fails(what string, before map[string]string, r *Res) bool {
	if c.crashed(r) {
		return false
	}
	if r.Exit == 0 {
		c.Viol("accepted:"+strings.SplitN(what, ":", 2)[0], "%s: exit status 0 (%s): stderr %q", what, strings.Join(r.Args, " "), head(r.Stderr, 300))
		return false
	}
	if strings.TrimSpace(r.Stderr) == "" {
		c.Viol("silent:"+strings.SplitN(what, ":", 2)[0], "%s: exit status %d but nothing on stderr", what, r.Exit)
		return false
	}
	return c.untouched(what, before)
}

func (c *Ctx) untouched(what string, before map[string]string, skip ...string) bool {
	after := c.tree(skip...)
	if d := DiffMaps(before, after); len(d) > 0 {
		c.Viol("touched:"+strings.SplitN(what, ":", 2)[0], "%s: files changed: %s", what, strings.Join(d, "; "))
		return false
	}
	return true
}

func (raw Raw) clone() Raw {
	n := Raw{}
	for k, t := range raw {
		u := &Table{Cols: append([]string(nil), t.Cols...)}
		for _, r := range t.Rows {
			u.Rows = append(u.Rows, append([]string(nil), r...))
		}
		n[k] = u
	}
	return n
}

func (t *Table) col(name string) int {
	if t == nil {
		return -1
	}
	for i, c := range t.Cols {
		if c == name {
			return i
		}
	}
	return -1
}

// fieldFaults are values no GTFS reader may accept in the given field.
var fieldFaults = []struct {
	tab, col string
	val      []string
}{
	{"stops.txt", "stop_lat", []string{"north", "91.5", "1,5x", "-200"}},
	{"stops.txt", "stop_lon", []string{"east", "361", "--3"}},
	{"stops.txt", "location_type", []string{"9", "x", "-1"}},
	{"stops.txt", "wheelchair_boarding", []string{"7", "yes"}},
	{"stops.txt", "parent_station", []string{"no-such-station"}},
	{"stops.txt", "level_id", []string{"no-such-level"}},
	{"routes.txt", "route_type", []string{"", "tram", "-1", "99999"}},
	{"routes.txt", "agency_id", []string{"no-such-agency"}},
	{"routes.txt", "route_color", []string{"green", "12345", "GGGGGG"}},
	{"trips.txt", "route_id", []string{"", "no-such-route"}},
	{"trips.txt", "service_id", []string{"", "no-such-service"}},
	{"trips.txt", "shape_id", []string{"no-such-shape"}},
	{"trips.txt", "trip_id", []string{""}},
	{"trips.txt", "direction_id", []string{"2", "north"}},
	{"trips.txt", "wheelchair_accessible", []string{"3", "x"}},
	{"stop_times.txt", "trip_id", []string{"no-such-trip"}},
	{"stop_times.txt", "stop_id", []string{"", "no-such-stop"}},
	{"stop_times.txt", "arrival_time", []string{"noon", "10:6:00", "10:00"}},
	{"stop_times.txt", "departure_time", []string{"noon", "10:6:00", "1000", "1x:00:00"}},
	{"stop_times.txt", "stop_sequence", []string{"", "first", "-3"}},
	{"stop_times.txt", "pickup_type", []string{"4", "x"}},
	{"stop_times.txt", "drop_off_type", []string{"4", "x"}},
	{"calendar.txt", "monday", []string{"2", "yes"}},
	{"calendar.txt", "sunday", []string{"2", "no"}},
	{"calendar.txt", "start_date", []string{"today", "2020", "20201301", "20200132"}},
	{"calendar.txt", "end_date", []string{"", "2020-1-1", "20200001"}},
	{"calendar_dates.txt", "date", []string{"", "tomorrow", "20201399"}},
	{"calendar_dates.txt", "exception_type", []string{"", "3", "x"}},
	{"shapes.txt", "shape_pt_lat", []string{"", "x", "99"}},
	{"shapes.txt", "shape_pt_lon", []string{"", "x"}},
	{"shapes.txt", "shape_pt_sequence", []string{"", "x", "-1"}},
	{"frequencies.txt", "trip_id", []string{"no-such-trip"}},
	{"frequencies.txt", "start_time", []string{"x"}},
	{"frequencies.txt", "headway_secs", []string{"x", "", "-5"}},
	{"frequencies.txt", "exact_times", []string{"2"}},
	{"fare_attributes.txt", "payment_method", []string{"2", "x"}},
	{"fare_rules.txt", "fare_id", []string{"no-such-fare"}},
	{"fare_rules.txt", "route_id", []string{"no-such-route"}},
	{"transfers.txt", "transfer_type", []string{"9", "x"}},
	{"pathways.txt", "from_stop_id", []string{"no-such-stop"}},
	{"pathways.txt", "pathway_mode", []string{"", "9", "x"}},
	{"agency.txt", "agency_timezone", []string{"", "Mars/Olympus"}},
	{"agency.txt", "agency_url", []string{"not a url"}},
	{"levels.txt", "level_index", []string{"x"}},
	{"attributions.txt", "route_id", []string{"no-such-route"}},
}

// breakFeed makes the feed invalid in one way that is beyond doubt.
func breakFeed(g *G, raw Raw) string {
	for {
		switch g.r.Intn(8) {
		case 0:
			n := pick(g, []string{"agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"})
			delete(raw, n)
			return "missing file: " + n
		case 1:
			k := pick(g, [][2]string{{"stops.txt", "stop_id"}, {"trips.txt", "route_id"}, {"trips.txt", "service_id"}, {"trips.txt", "trip_id"}, {"routes.txt", "route_id"}, {"routes.txt", "route_type"}, {"stop_times.txt", "stop_id"}, {"stop_times.txt", "trip_id"}, {"stop_times.txt", "stop_sequence"}, {"calendar.txt", "service_id"}, {"calendar.txt", "start_date"}, {"calendar_dates.txt", "date"}, {"shapes.txt", "shape_id"}, {"frequencies.txt", "headway_secs"}})
			t := raw[k[0]]
			if j := t.col(k[1]); j >= 0 && len(t.Rows) > 0 {
				t.Cols[j] = "x_" + k[1]
				return "missing column: " + k[1]
			}
		case 2:
			k := pick(g, [][2]string{{"stops.txt", "stop_id"}, {"routes.txt", "route_id"}, {"agency.txt", "agency_id"}, {"levels.txt", "level_id"}, {"pathways.txt", "pathway_id"}})
			t := raw[k[0]]
			j := t.col(k[1])
			if j >= 0 && len(t.Rows) > 0 {
				row := append([]string(nil), pick(g, t.Rows)...)
				if row[j] != "" {
					t.Rows = append(t.Rows, row)
					return "duplicate key: " + k[1]
				}
			}
		case 3: // two stop times in one place of a trip
			t := raw["stop_times.txt"]
			if len(t.Rows) > 0 {
				t.Rows = append(t.Rows, append([]string(nil), pick(g, t.Rows)...))
				return "duplicate stop_sequence"
			}
		default:
			ff := pick(g, fieldFaults)
			t := raw[ff.tab]
			j := t.col(ff.col)
			if j < 0 || len(t.Rows) == 0 {
				continue
			}
			row := pick(g, t.Rows)
			v := pick(g, ff.val)
			if v == row[j] {
				continue
			}
			row[j] = v
			return fmt.Sprintf("bad value: %s = %q", ff.col, v)
		}
	}
}

// nullStop puts a stop to 0, 0.
func nullStop(g *G, raw Raw) []string {
	t := raw["stops.txt"]
	row := pick(g, t.Rows)
	row[t.col("stop_lat")], row[t.col("stop_lon")] = pick(g, []string{"0", "0.0", "-0.00001"}), pick(g, []string{"0", "0.0", "0.000001"})
	return row
}

var badArgs = [][]string{
	{"--date-start=tomorrow"}, {"--date-start=2020"}, {"--date-end=20201301"}, {"--date-end=20200132"}, {"--date-start=18991231"}, {"--date-end=2020-1-1"}, {"--date-end=20200100"}, {"--date-start=20240301", "--date-end=20240229"},
	{"-M", "bus"}, {"-M", "3,x"}, {"--drop-mots=70000"}, {"-N", "3.5"}, {"--keep-mots=99999999999"},
	{"--polygon=1,2,3"}, {"--polygon=1,2,3,x"}, {"--polygon=a"}, {"--bounding-box=1,2,3"}, {"--bounding-box=1,2"}, {"--bounding-box=1,2,3,4,5,6"}, {"--bounding-box=47,7,48,east"},
	{"--polygon-file=DIR/none.txt"}, {"--polygon-file=DIR/none.geojson"}, {"--polygon-file=DIR/garbage.json"}, {"--polygon-file=DIR/garbage.txt"}, {"--polygon-file=DIR"},
	{"--polygon-file=DIR/short.geojson"}, {"--polygon-file=DIR/ring.geojson"},
	{"--no-such-option"}, {"-Y"}, {"--min-headway=soon"}, {"--max-headway="}, {"--zip-compression-level=best"},
}

// hostile values for random fields
var hostile = []string{"", " ", "\"", "-", "0", "-1", "1", "2", "99999999999999999999", "-99999999999", "NaN", "Inf", "1e400", "1e-400", "00000000", "19000101", "21551231", "20200230", "99:59:59", "127:59:59", "200:00:00", "24:00:00", "0:0:0", "é漢\U0001F687", "a\x00b", "a,b", "\n", "x\ny", "\ufeff", strings.Repeat("y", 3000), "../../x", "%s%d", "FFFFFF", "http://", "UTC", "EUR"}

func mutateBytes(g *G, b []byte) []byte {
	for n := 1 + g.r.Intn(4); n > 0 && len(b) > 0; n-- {
		i := g.r.Intn(len(b))
		switch g.r.Intn(7) {
		case 0:
			b[i] ^= 1 << uint(g.r.Intn(8))
		case 1:
			b = append(b[:i:i], append([]byte(pick(g, []string{"\"", ",", "\n", "\r\n", "\x00", "\xff\xfe", "\"\"", ",,,,,,,,,,,,,,,,,,,,,,,,,"})), b[i:]...)...)
		case 2:
			b = b[:i]
		case 3:
			j := min(len(b), i+1+g.r.Intn(20))
			b = append(b[:i:i], b[j:]...)
		case 4: // a line again
			ls := bytes.SplitAfter(b, []byte("\n"))
			k := g.r.Intn(len(ls))
			b = append(append([]byte(nil), b...), ls[k]...)
		case 5: // lines in another order
			ls := bytes.SplitAfter(b, []byte("\n"))
			g.r.Shuffle(len(ls), func(x, y int) { ls[x], ls[y] = ls[y], ls[x] })
			b = bytes.Join(ls, nil)
		case 6:
			b = append([]byte("\xef\xbb\xbf"), b...)
		}
	}
	return b
}

func (c *Ctx) hostileFeed(g *G, raw Raw) []string {
	var what []string
	names := sortedKeys(raw)
	for n := 1 + g.r.Intn(6); n > 0; n-- {
		nm := pick(g, names)
		t := raw[nm]
		switch k := g.r.Intn(8); {
		case k < 5 && len(t.Rows) > 0:
			row := pick(g, t.Rows)
			j := g.r.Intn(len(row))
			v := pick(g, hostile)
			if g.p(0.3) { // the value of another row
				v = pick(g, t.Rows)[j]
			}
			row[j] = v
			what = append(what, fmt.Sprintf("%s.%s=%q", nm, t.Cols[j], head(v, 20)))
		case k == 5:
			t.Rows = nil
			what = append(what, nm+" emptied")
		case k == 6 && len(t.Rows) > 0:
			i := g.r.Intn(len(t.Rows))
			t.Rows = append(t.Rows[:i:i], t.Rows[i+1:]...)
			what = append(what, nm+" row removed")
		case k == 7 && len(t.Rows) > 0:
			t.Rows = append(t.Rows, append([]string(nil), pick(g, t.Rows)...))
			what = append(what, nm+" row repeated")
		}
	}
	return what
}

func init() {
	reg(&Prop{ID: "P26", Title: "failures", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds run with unusable options, broken in one known way, corrupted at random, or written to places that cannot be written; non-trivial: the run was refused, keyed by fault",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips = [2]int{1, 8}
			g := newG(c.R, o)
			g.All()
			good := g.f.ToRaw()
			zipped := func(n string) string {
				if c.R.Intn(2) == 0 {
					return n + ".zip"
				}
				return n
			}
			out := c.tmp("out")
			if c.R.Intn(2) == 0 {
				out += ".zip"
			}
			// something of the user's that must survive a failure
			old := func() {
				switch c.R.Intn(3) {
				case 0:
					os.WriteFile(c.tmp("out.zip"), []byte("precious"), 0o644)
				case 1:
					os.MkdirAll(c.tmp("out"), 0o755)
					os.WriteFile(c.tmp("out/stops.txt"), []byte("precious"), 0o644)
					os.WriteFile(c.tmp("out/transfers.txt"), []byte("precious"), 0o644)
				}
			}
			flags := func() []string {
				var fl []string
				for n := c.R.Intn(5); n > 0; n-- {
					fl = append(fl, allFlags[c.R.Intn(len(allFlags))])
				}
				return fl
			}
			switch kind := c.R.Intn(10); kind {
			case 0, 1: // unusable options
				in := c.Put(zipped("in"), good)
				a := append([]string(nil), pick(g, badArgs)...)
				for i := range a {
					a[i] = strings.ReplaceAll(a[i], "DIR", c.dir)
				}
				os.WriteFile(c.tmp("garbage.json"), []byte(pick(g, []string{"", "{", "[1,2", "47.1,7.2,48,8"})), 0o644)
				os.WriteFile(c.tmp("garbage.txt"), []byte(pick(g, []string{"x", "1,2,3", "{}", "1;2;3;4"})), 0o644)
				os.WriteFile(c.tmp("short.geojson"), []byte(`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[7.0],[8,48],[9,47]]]}}]}`), 0o644)
				os.WriteFile(c.tmp("ring.geojson"), []byte(`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[7.0,47.0],[8,48]]}}]}`), 0o644)
				old()
				fl := append(flags(), a...)
				if g.p(0.5) {
					fl = append(a, flags()...)
				}
				ins := []string{in}
				if g.p(0.05) {
					fl, ins = flags(), nil
					a = []string{"no input"}
				} else if g.p(0.12) {
					fl = flags()
					a = []string{"input does not exist"}
					ins = []string{c.tmp(pick(g, []string{"none", "none.zip", "in/none"}))}
					switch g.r.Intn(3) {
					case 0:
						ins = append([]string{in}, ins...)
					case 1:
						ins = append(ins, in)
					}
					if g.p(0.4) { // there is no repairing what is not there
						fl = append(fl, pick(g, []string{"-D", "-e", "--fix", "-n"}))
					}
				}
				before := c.tree()
				r := c.Exec(c.bin, fl, ins, out, 2)
				if c.fails("option: "+strings.ReplaceAll(strings.Join(a, " "), c.dir, "DIR"), before, r) {
					c.Nontrivial(strings.ReplaceAll(strings.Join(a, " "), c.dir, "DIR"))
				}
			case 2, 3, 4: // feeds broken in a known way
				bad := good.clone()
				null := g.p(0.04)
				what := "stop at 0, 0"
				if null {
					nullStop(g, bad)
				} else {
					what = breakFeed(g, bad)
				}
				in := c.Put(zipped("in"), bad)
				ins := []string{in}
				if g.p(0.3) {
					h := newG(c.R, o)
					h.All()
					other := c.Put(zipped("other"), h.f.ToRaw())
					if ins = []string{other, in}; g.p(0.5) {
						ins = []string{in, other}
					}
				}
				old()
				before := c.tree()
				fl := flags()
				if g.p(0.3) {
					fl = append(fl, "-v")
				}
				if null {
					fl = append(fl, "-n")
				}
				if strings.Contains(what, "shape") {
					for i, f := range fl {
						if f == "--drop-shapes" {
							fl[i] = "-O"
						}
					}
				}
				r := c.Exec(c.bin, fl, ins, out, 2)
				if c.fails(what, before, r) {
					c.Nontrivial(what)
					c.Seen("faults_refused", what)
				}
			case 5: // validation agrees with processing
				raw := good.clone()
				var what []string
				if g.p(0.8) {
					what = c.hostileFeed(g, raw)
				}
				in := c.Put(zipped("in"), raw)
				var po []string
				for _, f := range []string{"-n", "-W", "--remove-fillers", "--assume-clean-csv", "-p=x", "--drop-shapes"} {
					if g.p(0.2) {
						po = append(po, f)
					}
				}
				before := c.tree()
				vo := append(append([]string(nil), po...), pick(g, []string{"-v", "--validation-mode"}))
				if g.p(0.25) { // a feed that only repairs make valid is none
					vo = append(vo, pick(g, []string{"-D", "-e", "-eD"}))
				}
				ins := []string{in}
				if g.p(0.3) { // next to a valid feed with the same ids
					ins = append(ins, c.Put(zipped("other"), good))
					if g.p(0.5) {
						ins[0], ins[1] = ins[1], ins[0]
					}
					before = c.tree()
				}
				v := c.Exec(c.bin, vo, ins, out, 2)
				if c.crashed(v) || !c.untouched("validation", before) {
					return
				}
				n := c.Exec(c.bin, po, []string{in}, out, 2)
				if c.crashed(n) {
					return
				}
				if v.Exit != n.Exit {
					k := "validation"
					if strings.Contains(n.Stderr, "Date exception for service id") {
						k += ":date-exception-twice"
					}
					c.Viol(k, "validation exits with %d, processing with %d (%v): %s | %s", v.Exit, n.Exit, what, head(v.Stderr, 300), head(n.Stderr, 300))
				}
				c.Count(fmt.Sprintf("validated_exit_%d", v.Exit), 1)
				c.Nontrivial(fmt.Sprint(what))
			case 6: // places that cannot be written
				in := c.Put(zipped("in"), good)
				os.WriteFile(c.tmp("file"), []byte("precious"), 0o644)
				var fl []string
				what := ""
				switch g.r.Intn(7) {
				case 0:
					what, out = "parent is missing", c.tmp(pick(g, []string{"no/out", "no/out.zip"}))
				case 1:
					what, out = "parent is a file", c.tmp(pick(g, []string{"file/out", "file/out.zip"}))
				case 2:
					os.MkdirAll(c.tmp("o"), 0o755)
					n := pick(g, []string{"agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"})
					os.MkdirAll(c.tmp("o/"+n+"/x"), 0o755)
					what, out = "a directory is in the way of "+n, c.tmp("o")
				case 3:
					os.Symlink("/dev/full", c.tmp("full.zip"))
					what, out = "no space for the archive", c.tmp("full.zip")
				case 4:
					what, out = "impossible compression", c.tmp("lvl.zip")
					fl = []string{"--zip-compression-level=" + pick(g, []string{"10", "99", "123456"})}
				case 5:
					os.MkdirAll(c.tmp("o"), 0o755)
					n := pick(g, []string{"agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"})
					os.Symlink("/dev/full", c.tmp("o/"+n))
					what, out = "no space in the directory for "+n, c.tmp("o")
				case 6:
					what, out = "empty name", ""
					fl = []string{"-o", ""}
				}
				fl = append(fl, flags()...)
				before := c.tree(out, c.tmp("o"))
				r := c.Exec(c.bin, fl, []string{in}, out, 2)
				if c.crashed(r) {
					return
				}
				if r.Exit == 0 || strings.TrimSpace(r.Stderr) == "" {
					c.Viol("unwritable:"+strings.ReplaceAll(strings.SplitN(what, " for ", 2)[0], " ", "-"), "%s: exit status %d, stderr %q", what, r.Exit, head(r.Stderr, 200))
					return
				}
				if c.untouched("output: "+what, before, out, c.tmp("o")) {
					c.Nontrivial("output: " + what)
				}
			default: // anything at all
				raw := good.clone()
				what := c.hostileFeed(g, raw)
				in := c.Put("in", raw)
				if g.p(0.5) {
					n := pick(g, sortedKeys(raw))
					b, _ := os.ReadFile(filepath.Join(in, n))
					os.WriteFile(filepath.Join(in, n), mutateBytes(g, b), 0o644)
					what = append(what, n+" corrupted")
				}
				if g.p(0.15) {
					z := c.Put("in.zip", raw)
					b, _ := os.ReadFile(z)
					os.WriteFile(z, mutateBytes(g, b), 0o644)
					in = z
					what = append(what, "archive corrupted")
				}
				fl := flags()
				fix := g.p(0.7)
				if fix {
					fl = append(fl, pick(g, []string{"--fix", "-eD", "-D", "-e", "-Dn", "-eDnz"}))
				}
				if g.p(0.15) {
					fl = append(fl, pick(g, []string{"--compress", "--Compress", "--merge", "--Merge"}))
				}
				before := c.tree()
				r := c.Exec(c.bin, fl, []string{in}, out, 2)
				if c.crashed(r) {
					return
				}
				c.Count(fmt.Sprintf("garbage_exit_%d", r.Exit), 1)
				if r.Exit != 0 {
					if c.fails("garbage", before, r) {
						c.Nontrivial(fmt.Sprint(what))
					}
					return
				}
				if !c.untouched("garbage", before, out) {
					return
				}
				if _, err := LoadRaw(out); err != nil {
					c.Viol("garbage-unreadable", "exit status 0 but the output cannot be read: %v (%v)", err, what)
					return
				}
				if fix {
					return
				}
				v := c.Exec(c.bin, []string{"-v"}, []string{out}, "", 2)
				if v.Exit != 0 {
					c.Viol("garbage-invalid", "exit status 0, but the tool does not accept what it wrote (%v, %v): %s", fl, what, head(v.Stderr, 600))
				}
			}
		}})
}

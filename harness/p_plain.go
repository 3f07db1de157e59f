package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Reading and writing without processors: nothing is lost or changed, whatever
// the container, the layout of the files and the options that only concern them.

type layout struct {
	bom, crlf, quote, pad, blank, noEnd bool
}

func (g *G) layout(clean bool) layout {
	l := layout{noEnd: g.p(0.2)}
	if !clean {
		l.bom, l.crlf = g.p(0.2), g.p(0.3)
		l.quote, l.pad, l.blank = g.p(0.3), g.p(0.3), g.p(0.2)
	}
	return l
}

// bytes writes a table in the given layout.
func (l layout) bytes(g *G, t *Table) []byte {
	var b bytes.Buffer
	if l.bom {
		b.WriteString("\xef\xbb\xbf")
	}
	nl := "\n"
	if l.crlf {
		nl = "\r\n"
	}
	rows := append([][]string{t.Cols}, t.Rows...)
	for i, r := range rows {
		for j, v := range r {
			if j > 0 {
				b.WriteByte(',')
			}
			if l.pad && g.p(0.2) {
				b.WriteString(" ")
			}
			if strings.ContainsAny(v, ",\"\n") || l.quote && g.p(0.5) && (i > 0 || !l.bom) {
				b.WriteString("\"" + strings.ReplaceAll(v, "\"", "\"\"") + "\"")
			} else {
				b.WriteString(v)
			}
		}
		if i < len(rows)-1 || !l.noEnd {
			b.WriteString(nl)
		}
		if l.blank && i > 0 && i < len(rows)-1 && g.p(0.2) {
			b.WriteString(nl)
		}
	}
	return b.Bytes()
}

// putAs writes a feed as a directory or an archive in some layout.
func (c *Ctx) putAs(g *G, name string, raw Raw, clean bool, sub string) string {
	p := c.tmp(name)
	files := map[string][]byte{}
	for _, n := range sortedKeys(raw) {
		files[n] = g.layout(clean).bytes(g, raw[n])
	}
	if !strings.HasSuffix(name, ".zip") {
		os.MkdirAll(p, 0o755)
		for n, b := range files {
			if os.WriteFile(filepath.Join(p, n), b, 0o644) != nil {
				fatal("scratch write")
			}
		}
		return p
	}
	f, err := os.Create(p)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	zw := zip.NewWriter(f)
	names := sortedKeys(files)
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if g.p(0.3) {
		w, _ := zw.Create("README.md")
		w.Write([]byte("a,b,c\n"))
	}
	if sub != "" && g.p(0.5) {
		zw.Create(sub)
	}
	for _, n := range names {
		m := zip.Deflate
		if g.p(0.3) {
			m = zip.Store
		}
		w, err := zw.CreateHeader(&zip.FileHeader{Name: sub + n, Method: m})
		if err != nil {
			fatal("%v", err)
		}
		w.Write(files[n])
	}
	zw.Close()
	return p
}

var awkward = []string{"Foo, Bar", "say \"hi\"", "Zürich HB—漢字", "a;b|c\td", "  x", "O'Neil & Söhne <i>", "#7", "NULL", "1e5", "007", "true", "\"", "a,\"b\",c", "100%s", "-"}

func init() {
	reg(&Prop{ID: "P28", Title: "reading and writing", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds in every container and CSV layout passed through with options that concern files, columns, shapes, fillers and calendars only; non-trivial: distinct feed and options",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Extra, o.Infos = 0.4, 0.6
			o.Trips = [2]int{1, 12}
			if c.R.Intn(3) == 0 {
				o.ST = [2]int{1, 4}
			}
			g := newG(c.R, o)
			g.All()
			clean := g.p(0.2)
			text := func(s *string) {
				if g.p(0.15) {
					*s = strings.TrimSpace(pick(g, awkward))
				}
			}
			for _, k := range sortedKeys(g.f.Agencies) {
				text(&g.f.Agencies[k].Name)
			}
			for _, k := range sortedKeys(g.f.Stops) {
				s := g.f.Stops[k]
				if s.Name != "" {
					text(&s.Name)
				}
				text(&s.Desc)
				text(&s.Code)
			}
			for _, k := range sortedKeys(g.f.Routes) {
				r := g.f.Routes[k]
				text(&r.Short)
				if r.Short == "-" && r.Long == "" {
					r.Long = "Line"
				}
				text(&r.Desc)
				if r.Short == r.Long {
					r.Short += "x"
				}
			}
			for _, k := range sortedKeys(g.f.Trips) {
				t := g.f.Trips[k]
				text(&t.Headsign)
				text(&t.Short)
				for i := range t.STs {
					for x := range t.STs[i].X {
						if g.p(0.1) && !clean {
							t.STs[i].X[x] = strings.TrimSpace(pick(g, awkward))
						}
					}
				}
				if g.p(0.1) && o.ST[0] == 1 {
					t.STs = t.STs[:1]
					if t.STs[0].Arr < 0 {
						t.STs[0].Arr, t.STs[0].Dep = 36000, 36000
					}
				}
			}
			// null island is a place like any other if -n is not given
			null := g.p(0.2)
			if null {
				for _, k := range sortedKeys(g.f.Stops) {
					if s := g.f.Stops[k]; s.HasLL && g.p(0.3) {
						s.Lat, s.Lon = 0, 0
					}
				}
				for _, k := range sortedKeys(g.f.Shapes) {
					if s := g.f.Shapes[k]; g.p(0.3) {
						i := g.r.Intn(len(s.Pts))
						s.Pts[i].Lat, s.Pts[i].Lon = 0, 0
					}
				}
				c.Count("feeds_with_null_coordinates", 1)
			}
			signs := g.p(0.02)
			if signs {
				for _, t := range g.trips {
					for i := range t.STs {
						if g.p(0.3) {
							t.STs[i].Headsign = pick(g, stopNames)
						}
					}
				}
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				return
			}
			var fl []string
			has := map[string]bool{}
			for _, x := range []string{"-F", "--keep-col-order", "--unsorted-files", "--explicit-calendar", "--drop-shapes", "--drop-single-stop-trips", "--remove-fillers", "-W", "-e", "-D", "-n", "-z", "-p=none", "--fix"} {
				if g.p(0.22) && !(null && (x == "-n" || x == "--fix")) {
					fl = append(fl, x)
					has[x] = true
				}
			}
			if clean {
				fl = append(fl, "--assume-clean-csv")
			}
			if g.p(0.3) {
				fl = append(fl, fmt.Sprintf("--zip-compression-level=%d", g.r.Intn(10)))
			}
			c.R.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
			sub, name := "", "in"
			if g.p(0.5) {
				name = "in.zip"
				if (has["-z"] || has["--fix"]) && g.p(0.6) {
					sub = pick(g, []string{"gtfs/", "a/b/", "feed 2024/"})
				}
			}
			in := c.putAs(g, name, raw, clean, sub)
			out := c.tmp(pick(g, []string{"out", "out.zip", "o.d", "o.x.zip"}))
			exists := false
			switch g.r.Intn(5) {
			case 0: // in place
				if sub == "" {
					out = in
					exists = name == "in"
				}
			case 1: // over an older feed
				h := newG(c.R, o)
				h.All()
				out = c.Put(pick(g, []string{"old", "old.zip"}), h.f.ToRaw())
			case 2: // the default place
				out = ""
			}
			_ = exists
			r := c.Exec(c.bin, fl, []string{in}, out, []int{1, 2, 8}[c.R.Intn(3)])
			if out == "" {
				r.OutPath = c.tmp("gtfs-out")
			}
			c.LoadOut(r)
			if !c.Valid(r) {
				return
			}
			if st, err := os.Stat(r.OutPath); err == nil && st.IsDir() == strings.HasSuffix(r.OutPath, ".zip") {
				c.Viol("container", "output %s: directory=%v", r.OutPath, st.IsDir())
				return
			}
			// the model
			w := f
			if !has["-F"] {
				w.stripExtra()
			}
			if has["--drop-single-stop-trips"] {
				gone := map[string]bool{}
				for id, t := range w.Trips {
					gone[id] = len(t.STs) < 2
				}
				w = w.without(gone)
			}
			if has["--drop-shapes"] {
				w.Shapes = map[string]*Shape{}
				for _, t := range w.Trips {
					t.Shape = ""
				}
			}
			if has["--remove-fillers"] {
				rm := func(s *string) {
					switch *s {
					case ".", "..", "...", "-", "?":
						*s = ""
					}
				}
				for _, s := range w.Stops {
					rm(&s.Desc)
					rm(&s.Code)
				}
				for _, rt := range w.Routes {
					rm(&rt.Short)
					rm(&rt.Desc)
				}
			}
			if has["--explicit-calendar"] {
				for id, s := range w.Services {
					q := r.F.Services[id]
					if q == nil {
						continue // the frame comparison reports it
					}
					if !q.HasCal {
						c.Viol("explicit-calendar", "service %s has no row in calendar.txt", id)
						return
					}
					if s.ActiveKey() != q.ActiveKey() || s.HasCal && s.norm() != q.norm() {
						c.Viol("dates", "service %s: %v became %v", id, s, q)
						return
					}
					w.Services[id] = q
				}
			}
			if signs { // recorded: they all become those of the trips
				n := 0
				for _, t := range w.Trips {
					for i := range t.STs {
						if t.STs[i].Headsign != "" {
							t.STs[i].Headsign = ""
							n++
						}
					}
				}
				if n > 0 && len(DiffMaps(Canon(w, CanonOpt{}), Canon(r.F, CanonOpt{}))) == 0 {
					c.Viol("stop-headsign", "%d stop times lose the stop_headsign they had", n)
					return
				}
			}
			if !c.Frame("frame", Canon(w, CanonOpt{}), Canon(r.F, CanonOpt{})) {
				return
			}
			if has["--keep-col-order"] {
				for _, n := range sortedKeys(r.Raw) {
					if raw[n] == nil || len(r.Raw[n].Rows) == 0 {
						continue
					}
					last, lastCol := -1, ""
					for _, col := range r.Raw[n].Cols {
						j := raw[n].col(col)
						if j < 0 {
							continue
						}
						if j < last {
							c.Viol("column-order", "%s: columns %s and %s changed places (%v, was %v)", n, lastCol, col, r.Raw[n].Cols, raw[n].Cols)
							return
						}
						last, lastCol = j, col
					}
					c.Count("column_orders_checked", 1)
				}
			}
			c.Nontrivial(fmt.Sprint(fl, g.lat0, g.lon0, len(raw)))
			c.Sample(map[string]any{"options": fl, "input": filepath.Base(in), "output": filepath.Base(r.OutPath), "files": sortedKeys(raw)})
		}})
}

package main

// An independent GTFS model: it shares no code with gtfsparser / gtfswriter.

import (
	"archive/zip"
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Table struct {
	Cols []string
	Rows [][]string
}

type Raw map[string]*Table

type Agency struct {
	ID, Name, URL, TZ, Lang, Phone, FareURL, Email string
	X                                              map[string]string
}

type Stop struct {
	ID, Code, Name, Desc string
	Lat, Lon             float32
	HasLL                bool
	Zone, URL            string
	Loc                  int
	Parent, TZ           string
	WB                   int
	Level, Platform      string
	X                    map[string]string
}

type Route struct {
	ID, Agency, Short, Long, Desc string
	Type                          int
	URL, Color, Text              string
	Sort, CP, CD                  int
	X                             map[string]string
}

type Service struct {
	ID         string
	HasCal     bool
	Days       [7]bool // Monday=0
	Start, End int     // day numbers
	Exc        map[int]bool
}

type ST struct {
	Seq            int
	Arr, Dep       int // -1: empty
	Stop           string
	PT, DT, CP, CD int
	Dist           float32 // NaN: unset
	TP             bool
	Headsign       string // where it differs from that of the trip
	X              map[string]string
}

type Freq struct {
	Start, End, Headway int
	Exact               bool
	X                   map[string]string
}

type Trip struct {
	ID, Route, Service, Headsign, Short string
	Dir                                 int // -1 unset
	Block, Shape                        string
	WA, BA                              int
	STs                                 []ST
	Freqs                               []Freq
	X                                   map[string]string
}

type Pt struct {
	Lat, Lon float32
	Seq      int
	Dist     float32
	X        map[string]string
}

type Shape struct {
	ID  string
	Pts []Pt
}

type Rule struct {
	Route, Orig, Dest, Cont string
	X                       map[string]string
}

type Fare struct {
	ID, Price, Cur     string
	PM, Transfers, Dur int
	Agency             string
	Rules              []Rule
	X                  map[string]string
}

type Transfer struct {
	FS, TS, FR, TR, FT, TT string
	Type, MinT             int
	X                      map[string]string
}

type Level struct {
	ID    string
	Index float32
	Name  string
	X     map[string]string
}

type Pathway struct {
	ID, From, To string
	Mode         int
	Bidi         bool
	Length       float32 // NaN unset
	Time, Stairs int
	Slope, Width float32
	Sign, RSign  string
	X            map[string]string
}

type Attribution struct {
	ID, Agency, Route, Trip, Org string
	Prod, Op, Auth               bool
	URL, Email, Phone            string
	X                            map[string]string
}

type FeedInfo struct {
	Name, URL, Lang, Start, End, Version, Email, CURL string
	X                                                 map[string]string
}

type Feed struct {
	Agencies     map[string]*Agency
	Stops        map[string]*Stop
	Routes       map[string]*Route
	Services     map[string]*Service
	Trips        map[string]*Trip
	Shapes       map[string]*Shape
	Fares        map[string]*Fare
	Transfers    []*Transfer
	Levels       map[string]*Level
	Pathways     map[string]*Pathway
	Attributions []*Attribution
	Infos        []*FeedInfo
	// insertion order of trips etc. for writing
	Translations [][]string
}

func NewFeed() *Feed {
	return &Feed{Agencies: map[string]*Agency{}, Stops: map[string]*Stop{}, Routes: map[string]*Route{}, Services: map[string]*Service{},
		Trips: map[string]*Trip{}, Shapes: map[string]*Shape{}, Fares: map[string]*Fare{}, Levels: map[string]*Level{}, Pathways: map[string]*Pathway{}}
}

var nan32 = float32(math.NaN())

func isNaN(f float32) bool { return f != f }

// ---- dates: day numbers (days since 1970-01-01) ----

func civil(y, m, d int) int {
	if m <= 2 {
		y--
	}
	var era int
	if y >= 0 {
		era = y / 400
	} else {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mm := m + 9
	if m > 2 {
		mm = m - 3
	}
	doy := (153*mm+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func civilInv(z int) (y, m, d int) {
	z += 719468
	var era int
	if z >= 0 {
		era = z / 146097
	} else {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	if mp < 10 {
		m = mp + 3
	} else {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	return
}

// weekday, Monday = 0
func wday(day int) int { return ((day+3)%7 + 7) % 7 }

func dstr(day int) string {
	y, m, d := civilInv(day)
	return fmt.Sprintf("%04d%02d%02d", y, m, d)
}

func parseDay(s string) (int, error) {
	if len(s) != 8 {
		return 0, fmt.Errorf("bad date %q", s)
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return 0, fmt.Errorf("bad date %q", s)
	}
	y, m, d := n/10000, n/100%100, n%100
	if m < 1 || m > 12 || d < 1 || d > 31 {
		return 0, fmt.Errorf("bad date %q", s)
	}
	r := civil(y, m, d)
	if dstr(r) != s {
		return 0, fmt.Errorf("no such calendar day %q", s)
	}
	return r, nil
}

func tstr(t int) string {
	if t < 0 {
		return ""
	}
	return fmt.Sprintf("%02d:%02d:%02d", t/3600, t/60%60, t%60)
}

func parseTime(s string) (int, error) {
	if s == "" {
		return -1, nil
	}
	p := strings.Split(s, ":")
	if len(p) != 3 {
		return 0, fmt.Errorf("bad time %q", s)
	}
	v := [3]int{}
	for i := range p {
		if len(p[i]) < 2 {
			return 0, fmt.Errorf("bad time %q", s)
		}
		n, err := strconv.ParseUint(p[i], 10, 16)
		if err != nil {
			return 0, fmt.Errorf("bad time %q", s)
		}
		v[i] = int(n)
	}
	if v[1] > 59 || v[2] > 59 {
		return 0, fmt.Errorf("bad time %q", s)
	}
	return v[0]*3600 + v[1]*60 + v[2], nil
}

// Active returns the sorted active days of a service.
func (s *Service) Active() []int {
	set := map[int]bool{}
	if s.HasCal {
		for d := s.Start; d <= s.End; d++ {
			if s.Days[wday(d)] {
				set[d] = true
			}
		}
	}
	for d, on := range s.Exc {
		if on {
			set[d] = true
		} else {
			delete(set, d)
		}
	}
	r := make([]int, 0, len(set))
	for d := range set {
		r = append(r, d)
	}
	sort.Ints(r)
	return r
}

func (s *Service) ActiveKey() string { return dayKey(s.Active()) }

func dayKey(ds []int) string {
	var b strings.Builder
	for i, d := range ds {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(dstr(d))
	}
	return b.String()
}

// ---- raw tables ----

func LoadRaw(path string) (Raw, error) {
	fi, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	raw := Raw{}
	add := func(name string, b []byte) error {
		r := csv.NewReader(bytes.NewReader(b))
		r.FieldsPerRecord = -1
		r.TrimLeadingSpace = true
		recs, err := r.ReadAll()
		if err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		if len(recs) == 0 {
			return fmt.Errorf("%s: empty file", name)
		}
		if _, dup := raw[name]; dup {
			return fmt.Errorf("%s: occurs twice in the archive", name)
		}
		for i := range recs {
			for j := range recs[i] {
				recs[i][j] = strings.TrimSpace(recs[i][j])
			}
		}
		raw[name] = &Table{Cols: recs[0], Rows: recs[1:]}
		return nil
	}
	if fi.IsDir() {
		ents, err := os.ReadDir(path)
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".txt") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(path, e.Name()))
			if err != nil {
				return nil, err
			}
			if err := add(e.Name(), b); err != nil {
				return nil, err
			}
		}
		return raw, nil
	}
	zr, err := zip.OpenReader(path)
	if err != nil {
		return nil, err
	}
	defer zr.Close()
	for _, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil, err
		}
		if err := add(f.Name, b); err != nil {
			return nil, err
		}
	}
	return raw, nil
}

func csvBytes(t *Table) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write(t.Cols)
	for _, r := range t.Rows {
		w.Write(r)
	}
	w.Flush()
	return b.Bytes()
}

func (raw Raw) WriteDir(dir string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for n, t := range raw {
		if err := os.WriteFile(filepath.Join(dir, n), csvBytes(t), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (raw Raw) WriteZip(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	zw := zip.NewWriter(f)
	names := make([]string, 0)
	for n := range raw {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w, err := zw.Create(n)
		if err != nil {
			return err
		}
		if _, err := w.Write(csvBytes(raw[n])); err != nil {
			return err
		}
	}
	return zw.Close()
}

// ---- raw -> typed, collecting integrity problems ----

var stdCols = map[string][]string{
	"agency.txt":          {"agency_id", "agency_name", "agency_url", "agency_timezone", "agency_lang", "agency_phone", "agency_fare_url", "agency_email"},
	"stops.txt":           {"stop_name", "parent_station", "stop_code", "zone_id", "stop_id", "stop_desc", "stop_lat", "stop_lon", "stop_url", "location_type", "stop_timezone", "wheelchair_boarding", "level_id", "platform_code"},
	"routes.txt":          {"route_long_name", "route_short_name", "agency_id", "route_desc", "route_type", "route_id", "route_url", "route_color", "route_text_color", "route_sort_order", "continuous_pickup", "continuous_drop_off"},
	"trips.txt":           {"route_id", "service_id", "trip_headsign", "trip_short_name", "direction_id", "block_id", "shape_id", "trip_id", "wheelchair_accessible", "bikes_allowed"},
	"stop_times.txt":      {"trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence", "stop_headsign", "pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off", "shape_dist_traveled", "timepoint"},
	"calendar.txt":        {"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "start_date", "end_date", "service_id"},
	"calendar_dates.txt":  {"service_id", "exception_type", "date"},
	"shapes.txt":          {"shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence", "shape_dist_traveled"},
	"fare_attributes.txt": {"fare_id", "price", "currency_type", "payment_method", "transfers", "transfer_duration", "agency_id"},
	"fare_rules.txt":      {"fare_id", "route_id", "origin_id", "destination_id", "contains_id"},
	"frequencies.txt":     {"trip_id", "start_time", "end_time", "headway_secs", "exact_times"},
	"transfers.txt":       {"from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id", "transfer_type", "min_transfer_time"},
	"levels.txt":          {"level_id", "level_index", "level_name"},
	"pathways.txt":        {"pathway_id", "from_stop_id", "to_stop_id", "pathway_mode", "is_bidirectional", "length", "traversal_time", "stair_count", "max_slope", "min_width", "signposted_as", "reversed_signposted_as"},
	"attributions.txt":    {"attribution_id", "agency_id", "route_id", "trip_id", "organization_name", "is_producer", "is_operator", "is_authority", "attribution_url", "attribution_email", "attribution_phone"},
	"feed_info.txt":       {"feed_publisher_name", "feed_publisher_url", "feed_lang", "feed_start_date", "feed_end_date", "feed_version", "feed_contact_email", "feed_contact_url"},
}

type rd struct {
	tab  string
	idx  map[string]int
	row  []string
	prob *[]string
	std  map[string]bool
	cols []string
}

func (r *rd) s(c string) string {
	if i, ok := r.idx[c]; ok && i < len(r.row) {
		return r.row[i]
	}
	return ""
}

func (r *rd) bad(f string, a ...any) {
	*r.prob = append(*r.prob, r.tab+": "+fmt.Sprintf(f, a...))
}

func (r *rd) i(c string, def int) int {
	s := r.s(c)
	if s == "" {
		return def
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		r.bad("field %s: bad integer %q", c, s)
		return def
	}
	return n
}

func (r *rd) rng(c string, def, lo, hi int) int {
	v := r.i(c, def)
	if v != def && (v < lo || v > hi) {
		r.bad("field %s: value %d out of range", c, v)
	}
	return v
}

func (r *rd) f(c string) float32 {
	s := r.s(c)
	if s == "" {
		return nan32
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || f != f || math.IsInf(f, 0) {
		r.bad("field %s: bad number %q", c, s)
		return nan32
	}
	return float32(f)
}

func (r *rd) b(c string) bool {
	s := r.s(c)
	if s != "" && s != "0" && s != "1" {
		r.bad("field %s: bad flag %q", c, s)
	}
	return s == "1"
}

func (r *rd) t(c string) int {
	v, err := parseTime(r.s(c))
	if err != nil {
		r.bad("field %s: %v", c, err)
		return -1
	}
	return v
}

func (r *rd) d(c string) int {
	v, err := parseDay(r.s(c))
	if err != nil {
		r.bad("field %s: %v", c, err)
	}
	return v
}

func (r *rd) x() map[string]string {
	var m map[string]string
	for i, c := range r.cols {
		if !r.std[c] && i < len(r.row) && r.row[i] != "" {
			if m == nil {
				m = map[string]string{}
			}
			m[c] = r.row[i]
		}
	}
	return m
}

func each(raw Raw, tab string, prob *[]string, f func(*rd)) {
	t := raw[tab]
	if t == nil {
		return
	}
	r := &rd{tab: tab, idx: map[string]int{}, prob: prob, std: map[string]bool{}, cols: t.Cols}
	for i, c := range t.Cols {
		if _, dup := r.idx[c]; dup {
			r.bad("duplicate column %q", c)
		}
		r.idx[c] = i
	}
	for _, c := range stdCols[tab] {
		r.std[c] = true
	}
	for _, row := range t.Rows {
		if len(row) != len(t.Cols) {
			r.bad("row with %d fields, header has %d", len(row), len(t.Cols))
		}
		r.row = row
		f(r)
	}
}

func dupl[T any](r *rd, m map[string]T, id string) bool {
	if id == "" && r.tab != "agency.txt" {
		r.bad("empty id")
	}
	if _, ok := m[id]; ok {
		r.bad("duplicate id %q", id)
		return true
	}
	return false
}

// ParseRaw parses tables into the typed model and reports every structural
// problem (malformed fields, duplicate keys, dangling references).
func ParseRaw(raw Raw) (*Feed, []string) {
	f := NewFeed()
	var prob []string
	for _, n := range []string{"agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"} {
		if raw[n] == nil {
			prob = append(prob, n+": missing")
		}
	}
	if raw["calendar.txt"] == nil && raw["calendar_dates.txt"] == nil {
		if t := raw["trips.txt"]; t != nil && len(t.Rows) > 0 {
			prob = append(prob, "neither calendar.txt nor calendar_dates.txt present")
		}
	}
	each(raw, "agency.txt", &prob, func(r *rd) {
		a := &Agency{ID: r.s("agency_id"), Name: r.s("agency_name"), URL: r.s("agency_url"), TZ: r.s("agency_timezone"), Lang: r.s("agency_lang"), Phone: r.s("agency_phone"), FareURL: r.s("agency_fare_url"), Email: normMail(r.s("agency_email")), X: r.x()}
		if a.Name == "" || a.URL == "" || a.TZ == "" {
			r.bad("required field empty")
		}
		dupl(r, f.Agencies, a.ID)
		f.Agencies[a.ID] = a
	})
	if t := raw["routes.txt"]; len(f.Agencies) == 0 && t != nil && len(t.Rows) > 0 {
		prob = append(prob, "agency.txt: no agency")
	}
	each(raw, "feed_info.txt", &prob, func(r *rd) {
		f.Infos = append(f.Infos, &FeedInfo{Name: r.s("feed_publisher_name"), URL: r.s("feed_publisher_url"), Lang: r.s("feed_lang"), Start: r.s("feed_start_date"), End: r.s("feed_end_date"), Version: r.s("feed_version"), Email: normMail(r.s("feed_contact_email")), CURL: r.s("feed_contact_url"), X: r.x()})
	})
	each(raw, "levels.txt", &prob, func(r *rd) {
		l := &Level{ID: r.s("level_id"), Index: r.f("level_index"), Name: r.s("level_name"), X: r.x()}
		if isNaN(l.Index) {
			l.Index = 0
		}
		dupl(r, f.Levels, l.ID)
		f.Levels[l.ID] = l
	})
	each(raw, "stops.txt", &prob, func(r *rd) {
		s := &Stop{ID: r.s("stop_id"), Code: r.s("stop_code"), Name: r.s("stop_name"), Desc: r.s("stop_desc"), Lat: r.f("stop_lat"), Lon: r.f("stop_lon"), Zone: r.s("zone_id"), URL: r.s("stop_url"), Loc: r.rng("location_type", 0, 0, 4), Parent: r.s("parent_station"), TZ: r.s("stop_timezone"), WB: r.rng("wheelchair_boarding", 0, 0, 2), Level: r.s("level_id"), Platform: r.s("platform_code"), X: r.x()}
		s.HasLL = !isNaN(s.Lat) && !isNaN(s.Lon)
		if !s.HasLL && (s.Loc < 3 || isNaN(s.Lat) != isNaN(s.Lon)) {
			r.bad("stop %q without coordinate", s.ID)
		}
		if s.HasLL && (math.Abs(float64(s.Lat)) > 90 || math.Abs(float64(s.Lon)) > 180) {
			r.bad("stop %q: coordinate out of range", s.ID)
		}
		if s.Name == "" && s.Loc < 3 {
			r.bad("stop %q: empty name", s.ID)
		}
		dupl(r, f.Stops, s.ID)
		f.Stops[s.ID] = s
		if s.Level != "" && f.Levels[s.Level] == nil {
			r.bad("stop %q: dangling level_id %q", s.ID, s.Level)
		}
	})
	for _, s := range f.Stops {
		if s.Parent == "" {
			if s.Loc >= 2 {
				prob = append(prob, fmt.Sprintf("stops.txt: stop %q (location_type %d) without parent_station", s.ID, s.Loc))
			}
			continue
		}
		p := f.Stops[s.Parent]
		switch {
		case p == nil:
			prob = append(prob, fmt.Sprintf("stops.txt: stop %q: dangling parent_station %q", s.ID, s.Parent))
		case s.Loc == 1:
			prob = append(prob, fmt.Sprintf("stops.txt: station %q has parent", s.ID))
		case s.Loc == 4 && p.Loc != 0:
			prob = append(prob, fmt.Sprintf("stops.txt: boarding area %q: parent %q is not a platform", s.ID, p.ID))
		case s.Loc != 4 && p.Loc != 1:
			prob = append(prob, fmt.Sprintf("stops.txt: stop %q: parent %q is not a station", s.ID, p.ID))
		}
	}
	each(raw, "shapes.txt", &prob, func(r *rd) {
		id := r.s("shape_id")
		if id == "" {
			r.bad("empty shape_id")
		}
		s := f.Shapes[id]
		if s == nil {
			s = &Shape{ID: id}
			f.Shapes[id] = s
		}
		p := Pt{Lat: r.f("shape_pt_lat"), Lon: r.f("shape_pt_lon"), Seq: r.i("shape_pt_sequence", -1), Dist: r.f("shape_dist_traveled"), X: r.x()}
		if isNaN(p.Lat) || isNaN(p.Lon) || math.Abs(float64(p.Lat)) > 90 || math.Abs(float64(p.Lon)) > 180 {
			r.bad("shape %q: bad coordinate", id)
		}
		s.Pts = append(s.Pts, p)
	})
	for _, s := range f.Shapes {
		sort.SliceStable(s.Pts, func(i, j int) bool { return s.Pts[i].Seq < s.Pts[j].Seq })
		for i := 1; i < len(s.Pts); i++ {
			if s.Pts[i].Seq == s.Pts[i-1].Seq {
				prob = append(prob, fmt.Sprintf("shapes.txt: shape %q: duplicate sequence %d", s.ID, s.Pts[i].Seq))
			}
		}
		last := float32(math.Inf(-1))
		for _, p := range s.Pts {
			if !isNaN(p.Dist) {
				if p.Dist < last {
					prob = append(prob, fmt.Sprintf("shapes.txt: shape %q: shape_dist_traveled decreases at sequence %d", s.ID, p.Seq))
				}
				last = p.Dist
			}
		}
	}
	each(raw, "routes.txt", &prob, func(r *rd) {
		x := &Route{ID: r.s("route_id"), Agency: r.s("agency_id"), Short: r.s("route_short_name"), Long: r.s("route_long_name"), Desc: r.s("route_desc"), Type: r.rng("route_type", -1, 0, 1702), URL: r.s("route_url"), Color: strings.ToUpper(r.s("route_color")), Text: strings.ToUpper(r.s("route_text_color")), Sort: r.i("route_sort_order", -1), CP: r.rng("continuous_pickup", 1, 0, 3), CD: r.rng("continuous_drop_off", 1, 0, 3), X: r.x()}
		if x.Color == "" {
			x.Color = "FFFFFF"
		}
		if x.Text == "" {
			x.Text = "000000"
		}
		if x.Short == x.Long {
			x.Long = ""
		}
		if x.Short == "" && x.Long == "" {
			r.bad("route %q without name", x.ID)
		}
		if x.Type < 0 {
			r.bad("route %q without type", x.ID)
		}
		if x.Agency == "" {
			if len(f.Agencies) == 1 {
				for id := range f.Agencies {
					x.Agency = id
				}
			} else {
				r.bad("route %q without agency", x.ID)
			}
		} else if f.Agencies[x.Agency] == nil {
			r.bad("route %q: dangling agency_id %q", x.ID, x.Agency)
		}
		dupl(r, f.Routes, x.ID)
		f.Routes[x.ID] = x
	})
	each(raw, "calendar.txt", &prob, func(r *rd) {
		s := &Service{ID: r.s("service_id"), HasCal: true, Start: r.d("start_date"), End: r.d("end_date"), Exc: map[int]bool{}}
		for i, n := range []string{"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"} {
			if r.s(n) == "" {
				r.bad("service %q: empty %s", s.ID, n)
			}
			s.Days[i] = r.b(n)
		}
		if s.End < s.Start {
			r.bad("service %q: end before start", s.ID)
		}
		dupl(r, f.Services, s.ID)
		f.Services[s.ID] = s
	})
	each(raw, "calendar_dates.txt", &prob, func(r *rd) {
		id := r.s("service_id")
		if id == "" {
			r.bad("empty service_id")
		}
		s := f.Services[id]
		if s == nil {
			s = &Service{ID: id, Exc: map[int]bool{}}
			f.Services[id] = s
		}
		d := r.d("date")
		if _, ok := s.Exc[d]; ok {
			r.bad("service %q: two exceptions for %s", id, dstr(d))
		}
		switch r.s("exception_type") {
		case "1":
			s.Exc[d] = true
		case "2":
			s.Exc[d] = false
		default:
			r.bad("service %q: bad exception_type", id)
		}
	})
	each(raw, "trips.txt", &prob, func(r *rd) {
		t := &Trip{ID: r.s("trip_id"), Route: r.s("route_id"), Service: r.s("service_id"), Headsign: r.s("trip_headsign"), Short: r.s("trip_short_name"), Dir: r.rng("direction_id", -1, 0, 1), Block: r.s("block_id"), Shape: r.s("shape_id"), WA: r.rng("wheelchair_accessible", 0, 0, 2), BA: r.rng("bikes_allowed", 0, 0, 2), X: r.x()}
		if f.Routes[t.Route] == nil {
			r.bad("trip %q: dangling route_id %q", t.ID, t.Route)
		}
		if f.Services[t.Service] == nil {
			r.bad("trip %q: dangling service_id %q", t.ID, t.Service)
		}
		if t.Shape != "" && f.Shapes[t.Shape] == nil {
			r.bad("trip %q: dangling shape_id %q", t.ID, t.Shape)
		}
		dupl(r, f.Trips, t.ID)
		f.Trips[t.ID] = t
	})
	each(raw, "stop_times.txt", &prob, func(r *rd) {
		t := f.Trips[r.s("trip_id")]
		if t == nil {
			r.bad("dangling trip_id %q", r.s("trip_id"))
			return
		}
		s := ST{Seq: r.i("stop_sequence", -1), Arr: r.t("arrival_time"), Dep: r.t("departure_time"), Stop: r.s("stop_id"), PT: r.rng("pickup_type", 0, 0, 3), DT: r.rng("drop_off_type", 0, 0, 3), CP: r.rng("continuous_pickup", 1, 0, 3), CD: r.rng("continuous_drop_off", 1, 0, 3), Dist: r.f("shape_dist_traveled"), X: r.x()}
		if h := strings.ReplaceAll(r.s("stop_headsign"), "\n", " "); h != strings.ReplaceAll(t.Headsign, "\n", " ") {
			s.Headsign = h
		}
		s.TP = s.Arr >= 0 && s.Dep >= 0
		if v := r.s("timepoint"); v != "" {
			s.TP = r.b("timepoint")
		}
		if (s.Arr < 0) != (s.Dep < 0) {
			r.bad("trip %q seq %d: only one of arrival and departure", t.ID, s.Seq)
		}
		if s.Seq < 0 {
			r.bad("trip %q: bad stop_sequence", t.ID)
		}
		st := f.Stops[s.Stop]
		if st == nil {
			r.bad("trip %q: dangling stop_id %q", t.ID, s.Stop)
		} else if st.Loc != 0 {
			r.bad("trip %q: stop %q has location_type %d", t.ID, s.Stop, st.Loc)
		}
		t.STs = append(t.STs, s)
	})
	for _, t := range f.Trips {
		sort.SliceStable(t.STs, func(i, j int) bool { return t.STs[i].Seq < t.STs[j].Seq })
		last := -1
		lastd := float32(math.Inf(-1))
		for i, s := range t.STs {
			if i > 0 && s.Seq == t.STs[i-1].Seq {
				prob = append(prob, fmt.Sprintf("stop_times.txt: trip %q: duplicate stop_sequence %d", t.ID, s.Seq))
			}
			if s.Arr >= 0 {
				if s.Arr < last || s.Dep < s.Arr {
					prob = append(prob, fmt.Sprintf("stop_times.txt: trip %q: times go back at sequence %d", t.ID, s.Seq))
				}
				last = s.Dep
			} else if i == 0 || i == len(t.STs)-1 {
				prob = append(prob, fmt.Sprintf("stop_times.txt: trip %q: no time at first/last stop", t.ID))
			}
			if !isNaN(s.Dist) {
				if s.Dist < lastd {
					prob = append(prob, fmt.Sprintf("stop_times.txt: trip %q: shape_dist_traveled decreases at sequence %d", t.ID, s.Seq))
				}
				lastd = s.Dist
			}
		}
	}
	each(raw, "frequencies.txt", &prob, func(r *rd) {
		t := f.Trips[r.s("trip_id")]
		if t == nil {
			r.bad("dangling trip_id %q", r.s("trip_id"))
			return
		}
		q := Freq{Start: r.t("start_time"), End: r.t("end_time"), Headway: r.i("headway_secs", -1), Exact: r.b("exact_times"), X: r.x()}
		if q.Start < 0 || q.End < 0 || q.Headway < 0 || q.Start > q.End {
			r.bad("trip %q: bad frequency %v", t.ID, q)
		}
		t.Freqs = append(t.Freqs, q)
	})
	each(raw, "fare_attributes.txt", &prob, func(r *rd) {
		x := &Fare{ID: r.s("fare_id"), Price: r.s("price"), Cur: r.s("currency_type"), PM: r.rng("payment_method", 0, 0, 1), Transfers: r.rng("transfers", -1, 0, 2), Dur: r.i("transfer_duration", 0), Agency: r.s("agency_id"), X: r.x()}
		if x.Agency != "" && f.Agencies[x.Agency] == nil {
			r.bad("fare %q: dangling agency_id %q", x.ID, x.Agency)
		}
		if x.Agency == "" && len(f.Agencies) == 1 {
			for id := range f.Agencies {
				x.Agency = id
			}
		} else if x.Agency == "" {
			r.bad("fare %q: no agency_id with several agencies", x.ID)
		}
		dupl(r, f.Fares, x.ID)
		f.Fares[x.ID] = x
	})
	each(raw, "fare_rules.txt", &prob, func(r *rd) {
		x := f.Fares[r.s("fare_id")]
		if x == nil {
			r.bad("dangling fare_id %q", r.s("fare_id"))
			return
		}
		u := Rule{Route: r.s("route_id"), Orig: r.s("origin_id"), Dest: r.s("destination_id"), Cont: r.s("contains_id"), X: r.x()}
		if u.Route != "" && f.Routes[u.Route] == nil {
			r.bad("fare %q: dangling route_id %q", x.ID, u.Route)
		}
		x.Rules = append(x.Rules, u)
	})
	seenTr := map[string]bool{}
	each(raw, "transfers.txt", &prob, func(r *rd) {
		t := &Transfer{FS: r.s("from_stop_id"), TS: r.s("to_stop_id"), FR: r.s("from_route_id"), TR: r.s("to_route_id"), FT: r.s("from_trip_id"), TT: r.s("to_trip_id"), Type: r.rng("transfer_type", 0, 0, 5), MinT: r.i("min_transfer_time", -1), X: r.x()}
		for _, s := range []string{t.FS, t.TS} {
			if s != "" && f.Stops[s] == nil {
				r.bad("dangling stop_id %q", s)
			}
		}
		for _, s := range []string{t.FR, t.TR} {
			if s != "" && f.Routes[s] == nil {
				r.bad("dangling route_id %q", s)
			}
		}
		for _, s := range []string{t.FT, t.TT} {
			if s != "" && f.Trips[s] == nil {
				r.bad("dangling trip_id %q", s)
			}
		}
		if t.FS+t.FR+t.FT == "" || t.TS+t.TR+t.TT == "" {
			r.bad("transfer without an end")
		}
		k := t.Key()
		if seenTr[k] {
			r.bad("duplicate transfer %q", k)
		}
		seenTr[k] = true
		f.Transfers = append(f.Transfers, t)
	})
	each(raw, "pathways.txt", &prob, func(r *rd) {
		p := &Pathway{ID: r.s("pathway_id"), From: r.s("from_stop_id"), To: r.s("to_stop_id"), Mode: r.rng("pathway_mode", -1, 1, 7), Bidi: r.b("is_bidirectional"), Length: r.f("length"), Time: r.i("traversal_time", -1), Stairs: r.i("stair_count", 0), Slope: r.f("max_slope"), Width: r.f("min_width"), Sign: r.s("signposted_as"), RSign: r.s("reversed_signposted_as"), X: r.x()}
		if isNaN(p.Slope) {
			p.Slope = 0
		}
		for _, s := range []string{p.From, p.To} {
			if f.Stops[s] == nil {
				r.bad("pathway %q: dangling stop_id %q", p.ID, s)
			} else if f.Stops[s].Loc == 1 {
				r.bad("pathway %q: end %q is a station", p.ID, s)
			}
		}
		dupl(r, f.Pathways, p.ID)
		f.Pathways[p.ID] = p
	})
	each(raw, "attributions.txt", &prob, func(r *rd) {
		a := &Attribution{ID: r.s("attribution_id"), Agency: r.s("agency_id"), Route: r.s("route_id"), Trip: r.s("trip_id"), Org: r.s("organization_name"), Prod: r.b("is_producer"), Op: r.b("is_operator"), Auth: r.b("is_authority"), URL: r.s("attribution_url"), Email: normMail(r.s("attribution_email")), Phone: r.s("attribution_phone"), X: r.x()}
		if a.Org == "" {
			r.bad("empty organization_name")
		}
		if a.Agency != "" && f.Agencies[a.Agency] == nil {
			r.bad("dangling agency_id %q", a.Agency)
		}
		if a.Route != "" && f.Routes[a.Route] == nil {
			r.bad("dangling route_id %q", a.Route)
		}
		if a.Trip != "" && f.Trips[a.Trip] == nil {
			r.bad("dangling trip_id %q", a.Trip)
		}
		if a.ID != "" {
			for _, b := range f.Attributions {
				if a.ID == b.ID {
					prob = append(prob, fmt.Sprintf("attributions.txt: duplicate id %q", a.ID))
				}
			}
		}
		f.Attributions = append(f.Attributions, a)
	})
	sort.Strings(prob)
	return f, prob
}

func (t *Transfer) Key() string {
	return strings.Join([]string{t.FS, t.TS, t.FR, t.TR, t.FT, t.TT}, "|")
}

func normMail(s string) string { return strings.Trim(s, "<>") }

// ---- typed -> raw ----

func fstr(f float32) string {
	if isNaN(f) {
		return ""
	}
	return strconv.FormatFloat(float64(f), 'f', -1, 32)
}

func istr(v, def int) string {
	if v == def {
		return ""
	}
	return strconv.Itoa(v)
}

func bstr(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func sortedKeys[T any](m map[string]T) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func addRow(t *Table, xcols []string, x map[string]string, v ...string) {
	for _, c := range xcols {
		v = append(v, x[c])
	}
	t.Rows = append(t.Rows, v)
}

func xcolsOf(it func(func(map[string]string))) []string {
	set := map[string]bool{}
	it(func(m map[string]string) {
		for k := range m {
			set[k] = true
		}
	})
	return sortedKeys(set)
}

func mk(name string, xc []string) *Table {
	return &Table{Cols: append(append([]string(nil), stdCols[name]...), xc...)}
}

func (f *Feed) ToRaw() Raw {
	raw := Raw{}
	xc := xcolsOf(func(g func(map[string]string)) {
		for _, a := range f.Agencies {
			g(a.X)
		}
	})
	t := mk("agency.txt", xc)
	for _, k := range sortedKeys(f.Agencies) {
		a := f.Agencies[k]
		addRow(t, xc, a.X, a.ID, a.Name, a.URL, a.TZ, a.Lang, a.Phone, a.FareURL, a.Email)
	}
	raw["agency.txt"] = t
	if len(f.Infos) > 0 {
		xc := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Infos {
				g(a.X)
			}
		})
		t := mk("feed_info.txt", xc)
		for _, i := range f.Infos {
			addRow(t, xc, i.X, i.Name, i.URL, i.Lang, i.Start, i.End, i.Version, i.Email, i.CURL)
		}
		raw["feed_info.txt"] = t
	}
	if len(f.Levels) > 0 {
		xc := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Levels {
				g(a.X)
			}
		})
		t := mk("levels.txt", xc)
		for _, k := range sortedKeys(f.Levels) {
			l := f.Levels[k]
			addRow(t, xc, l.X, l.ID, fstr(l.Index), l.Name)
		}
		raw["levels.txt"] = t
	}
	xc = xcolsOf(func(g func(map[string]string)) {
		for _, a := range f.Stops {
			g(a.X)
		}
	})
	t = mk("stops.txt", xc)
	for _, k := range sortedKeys(f.Stops) {
		s := f.Stops[k]
		la, lo := "", ""
		if s.HasLL {
			la, lo = fstr(s.Lat), fstr(s.Lon)
		}
		addRow(t, xc, s.X, s.Name, s.Parent, s.Code, s.Zone, s.ID, s.Desc, la, lo, s.URL, istr(s.Loc, 0), s.TZ, istr(s.WB, 0), s.Level, s.Platform)
	}
	raw["stops.txt"] = t
	if len(f.Shapes) > 0 {
		xc := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Shapes {
				for _, p := range a.Pts {
					g(p.X)
				}
			}
		})
		t := mk("shapes.txt", xc)
		for _, k := range sortedKeys(f.Shapes) {
			for _, p := range f.Shapes[k].Pts {
				addRow(t, xc, p.X, k, fstr(p.Lat), fstr(p.Lon), strconv.Itoa(p.Seq), fstr(p.Dist))
			}
		}
		raw["shapes.txt"] = t
	}
	xc = xcolsOf(func(g func(map[string]string)) {
		for _, a := range f.Routes {
			g(a.X)
		}
	})
	t = mk("routes.txt", xc)
	for _, k := range sortedKeys(f.Routes) {
		r := f.Routes[k]
		c, tc := r.Color, r.Text
		if c == "FFFFFF" {
			c = ""
		}
		if tc == "000000" {
			tc = ""
		}
		addRow(t, xc, r.X, r.Long, r.Short, r.Agency, r.Desc, strconv.Itoa(r.Type), r.ID, r.URL, c, tc, istr(r.Sort, -1), istr(r.CP, 1), istr(r.CD, 1))
	}
	raw["routes.txt"] = t
	cal, cd := mk("calendar.txt", nil), mk("calendar_dates.txt", nil)
	for _, k := range sortedKeys(f.Services) {
		s := f.Services[k]
		if s.HasCal {
			v := []string{}
			for i := 0; i < 7; i++ {
				v = append(v, bstr(s.Days[i]))
			}
			cal.Rows = append(cal.Rows, append(v, dstr(s.Start), dstr(s.End), s.ID))
		}
		ds := []int{}
		for d := range s.Exc {
			ds = append(ds, d)
		}
		sort.Ints(ds)
		for _, d := range ds {
			ty := "2"
			if s.Exc[d] {
				ty = "1"
			}
			cd.Rows = append(cd.Rows, []string{s.ID, ty, dstr(d)})
		}
	}
	if len(cal.Rows) > 0 || len(cd.Rows) == 0 {
		raw["calendar.txt"] = cal
	}
	if len(cd.Rows) > 0 {
		raw["calendar_dates.txt"] = cd
	}
	xc = xcolsOf(func(g func(map[string]string)) {
		for _, a := range f.Trips {
			g(a.X)
		}
	})
	t = mk("trips.txt", xc)
	xs := xcolsOf(func(g func(map[string]string)) {
		for _, a := range f.Trips {
			for _, s := range a.STs {
				g(s.X)
			}
		}
	})
	st := mk("stop_times.txt", xs)
	xf := xcolsOf(func(g func(map[string]string)) {
		for _, a := range f.Trips {
			for _, s := range a.Freqs {
				g(s.X)
			}
		}
	})
	fr := mk("frequencies.txt", xf)
	for _, k := range sortedKeys(f.Trips) {
		x := f.Trips[k]
		addRow(t, xc, x.X, x.Route, x.Service, x.Headsign, x.Short, istr(x.Dir, -1), x.Block, x.Shape, x.ID, istr(x.WA, 0), istr(x.BA, 0))
		for _, s := range x.STs {
			tp := ""
			if !s.TP && s.Arr >= 0 {
				tp = "0"
			}
			addRow(st, xs, s.X, x.ID, tstr(s.Arr), tstr(s.Dep), s.Stop, strconv.Itoa(s.Seq), s.Headsign, istr(s.PT, 0), istr(s.DT, 0), istr(s.CP, 1), istr(s.CD, 1), fstr(s.Dist), tp)
		}
		for _, q := range x.Freqs {
			e := ""
			if q.Exact {
				e = "1"
			}
			addRow(fr, xf, q.X, x.ID, tstr(q.Start), tstr(q.End), strconv.Itoa(q.Headway), e)
		}
	}
	raw["trips.txt"] = t
	raw["stop_times.txt"] = st
	if len(fr.Rows) > 0 {
		raw["frequencies.txt"] = fr
	}
	if len(f.Fares) > 0 {
		xc := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Fares {
				g(a.X)
			}
		})
		t := mk("fare_attributes.txt", xc)
		xr := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Fares {
				for _, u := range a.Rules {
					g(u.X)
				}
			}
		})
		u := mk("fare_rules.txt", xr)
		for _, k := range sortedKeys(f.Fares) {
			x := f.Fares[k]
			addRow(t, xc, x.X, x.ID, x.Price, x.Cur, strconv.Itoa(x.PM), istr(x.Transfers, -1), istr(x.Dur, 0), x.Agency)
			for _, y := range x.Rules {
				addRow(u, xr, y.X, x.ID, y.Route, y.Orig, y.Dest, y.Cont)
			}
		}
		raw["fare_attributes.txt"] = t
		if len(u.Rows) > 0 {
			raw["fare_rules.txt"] = u
		}
	}
	if len(f.Transfers) > 0 {
		xc := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Transfers {
				g(a.X)
			}
		})
		t := mk("transfers.txt", xc)
		for _, x := range f.Transfers {
			addRow(t, xc, x.X, x.FS, x.TS, x.FR, x.TR, x.FT, x.TT, istr(x.Type, 0), istr(x.MinT, -1))
		}
		raw["transfers.txt"] = t
	}
	if len(f.Pathways) > 0 {
		xc := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Pathways {
				g(a.X)
			}
		})
		t := mk("pathways.txt", xc)
		for _, k := range sortedKeys(f.Pathways) {
			p := f.Pathways[k]
			sl := fstr(p.Slope)
			if p.Slope == 0 {
				sl = ""
			}
			addRow(t, xc, p.X, p.ID, p.From, p.To, strconv.Itoa(p.Mode), bstr(p.Bidi), fstr(p.Length), istr(p.Time, -1), istr(p.Stairs, 0), sl, fstr(p.Width), p.Sign, p.RSign)
		}
		raw["pathways.txt"] = t
	}
	if len(f.Attributions) > 0 {
		xc := xcolsOf(func(g func(map[string]string)) {
			for _, a := range f.Attributions {
				g(a.X)
			}
		})
		t := mk("attributions.txt", xc)
		for _, a := range f.Attributions {
			addRow(t, xc, a.X, a.ID, a.Agency, a.Route, a.Trip, a.Org, bstr(a.Prod), bstr(a.Op), bstr(a.Auth), a.URL, a.Email, a.Phone)
		}
		raw["attributions.txt"] = t
	}
	return raw
}

// DropEmptyCols removes optional columns that are empty in every row.
func (raw Raw) DropEmptyCols(keep map[string]bool) {
	for _, t := range raw {
		idx := []int{}
		for i, c := range t.Cols {
			used := keep[c]
			for _, r := range t.Rows {
				if r[i] != "" {
					used = true
					break
				}
			}
			if used {
				idx = append(idx, i)
			}
		}
		t.project(idx)
	}
}

func (t *Table) project(idx []int) {
	pick := func(r []string) []string {
		n := make([]string, len(idx))
		for j, i := range idx {
			n[j] = r[i]
		}
		return n
	}
	t.Cols = pick(t.Cols)
	for i := range t.Rows {
		t.Rows[i] = pick(t.Rows[i])
	}
}

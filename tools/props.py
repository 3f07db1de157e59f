IN = ["inputs"]
INC = ["inputs", "configurations"]
EXP = "Held on the seeded executions that were observed, not proved; trusts the harness's own GTFS reader, generator and oracle."

PROPS = []
NA = {}


def P(id, title, statement, over, qtext, why, files, mech, note=EXP, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, note=note, **kw))


P("P01", "Processed feeds are valid feeds",
  "For every valid input feed and every combination of processing options, the tool finishes normally and the feed it writes is again valid: "
  "keys are unique, every reference to an agency, stop, parent station, route, service, shape, trip, level, zone or fare resolves, every mandatory value is present and in its domain, and the stop times of each trip are ordered and timed at both ends.",
  INC, "every valid feed and every combination of processing options",
  "The eight existing tests call six processors on single hand-made feeds and never look at the written feed; validity quantifies over all feeds and 2^30 option sets.",
  ["gtfstidy.go", "processors/*.go"],
  [("processor pipeline", "gtfstidy.go main()"), ("reference maintenance when entities are merged or deleted", "processors/*duplicateremover.go, processors/orphanminimizer.go")])

P("P02", "Compressing and merging leave passengers the same timetable",
  "With --compress, --Compress, --merge, --Merge or any set of the minimizing options (-O -s -m -S -R -C -c -I -A -P -E -T, id minimization, calendar rewriting, station options), on one feed or several, exactly the same journeys can be ridden on every date as before: same agency, route attributes, fares, headsign, names of the stops, times, accessibility and pickup and drop-off rules, every departure of a frequency counted. "
  "Only trips nobody can board or alight from may vanish and only as far as an option says may details differ (with -I repeated trips collapse and stop time attributes other than times are not compared, fuzzy options compare the means of transport and times only). "
  "Stops stay in place, shapes within metres, and attributions stay with their journey.",
  INC, "every feed, or set of overlapping feeds, and every combination of options that compress or merge",
  "This is the tool's central promise ('equivalent from a passenger's perspective') and no test looks at a timetable as a whole; the processors rewrite what others have rewritten before.",
  ["gtfstidy.go", "processors/*.go"],
  [("option expansion and processor order", "gtfstidy.go main()"), ("merging of duplicates", "processors/*duplicateremover.go"), ("rewriting of calendars and frequencies", "processors/serviceminimizer.go, processors/frequencyminizer.go")])

P("P03", "Service minimization keeps dates and never adds exceptions",
  "With -c, every service is active on exactly the same dates as before, and everything else in the feed stays as it was. "
  "A service that had exceptions never ends up with more exceptions than the best whole-week-aligned weekday pattern and date range between its first and last active date needs, and a service without exceptions is left alone.",
  IN, "every service calendar: weekday patterns, ranges and exceptions over any span",
  "The tests minimize three calendars; the search over all ranges and weekday masks has to keep the active dates for every calendar.",
  ["processors/serviceminimizer.go"],
  [("coverage search", "processors/serviceminimizer.go perfectMinimize, findOptimalRange"), ("write back", "processors/serviceminimizer.go updateService")])

P("P04", "Duplicate services are merged by their active dates only",
  "With -C, two services end up as one exactly if they are active on the same dates, however those are encoded in calendar.txt and calendar_dates.txt; the remaining service keeps its encoding. "
  "Every trip keeps the dates it runs on, and nothing else in the feed changes.",
  IN, "every set of services, including empty ones, in every encoding",
  "The tests compare a handful of calendars pairwise and in one order; merging is a closure over all services, hashed and in random map order.",
  ["processors/serviceduplicateremover.go"],
  [("hash chunks and comparison", "processors/serviceduplicateremover.go getServiceChunks, getEquivalentServices"), ("merge", "processors/serviceduplicateremover.go combineServices")])

P("P05", "Frequencies stand for exactly the departures they replace",
  "With -T, trips that differ in nothing but their departure times keep exactly the departures they had, as single trips or as frequencies, with exact ones staying exact, and there are never more trips than before. "
  "Departures at one regular headway within --min-headway and --max-headway do become one frequency, new frequencies respect these limits and do not interleave, and trips that a transfer or attribution refers to and everything else in the feed stay as they were.",
  INC, "every set of trips with regular, overlapping, interrupted and irregular departures and every headway limit",
  "One existing test runs the search on fixed departures and counts the trips.",
  ["processors/frequencyminizer.go"],
  [("progression cover", "processors/frequencyminizer.go getCover, packCovers"), ("rewrite", "processors/frequencyminizer.go Run")])

P("P06", "Redundant trips are merged without gaining or losing a journey",
  "With -I, for all trips without frequencies that look the same to the passenger (same route, headsign, names, direction, block, accessibility and additional fields; with --red-trips-fuzzy only the same means of transport) and serve the same stations at the same times, each date on which any of them ran is afterwards served by exactly one of them, no other date is, and trips on adjoining calendars (with --red-trips-aggressive, all of them) become one. "
  "The remaining trips keep their stop times, shapes and attributes, attributions and transfers of removed trips move to a remaining equal trip, and nothing else in the feed changes.",
  INC, "every set of trips repeated on equal, contained, overlapping and adjoining calendars, shared services included",
  "The existing test merges a few fixed trips; the guarantee is a closure over services that are rewritten while the search runs on shuffled chunks.",
  ["processors/tripduplicateremover.go"],
  [("equality", "processors/tripduplicateremover.go tripAttrEq, tripStEq"), ("calendars", "processors/tripduplicateremover.go tripCalContained, excludeTrips, combineServices")])

P("P07", "Duplicate routes are merged, and only those",
  "With -R, two routes end up as one exactly if all their attributes (route_sort_order aside) and the fare rules given for them are equal, and of the merged routes one with a shortest id remains. "
  "All trips, fare rules, transfers and attributions of a merged route are found at the remaining one, and nothing else in the feed changes.",
  IN, "every set of equal and nearly equal routes with fare rules, transfers and attributions",
  "Two existing tests merge fixed routes; no test has transfers or attributions on a route, nor near-duplicates that differ in one attribute.",
  ["processors/routeduplicateremover.go"],
  [("equality of routes and fare rules", "processors/routeduplicateremover.go routeEquals, checkFareEquality"), ("merge", "processors/routeduplicateremover.go combineRoutes")])

P("P08", "Duplicate agencies are merged, and only those",
  "With -A, two agencies end up as one exactly if all their attributes other than the id are equal, and of the merged agencies one with a shortest id remains. "
  "All routes, fares and attributions of a merged agency are found at the remaining one, and nothing else in the feed changes.",
  IN, "every set of equal and nearly equal agencies",
  "No existing test runs the agency merger.",
  ["processors/agencyduplicateremover.go"],
  [("hash chunks and equality", "processors/agencyduplicateremover.go getAgencyChunks, agencyEquals"), ("merge", "processors/agencyduplicateremover.go combineAgencies")])

P("P09", "Duplicate stops and levels are merged, and only those",
  "With -P, levels with equal attributes end up as one, and stops are merged only if, directly or through other merged stops, they have equal attributes (with --red-stops-fuzzy, an attribute that one of them lacks may differ) and the same parent station and lie at most 5 m apart, 50 m for stations; stops that all pairwise satisfy this do end up as one. "
  "All stop times, child stops, transfers and pathways of a merged stop are found at the remaining one, and nothing else in the feed changes.",
  INC, "every stop hierarchy with equal and nearly equal stops at all distances, with and without fuzzy matching",
  "The one existing test merges the stops of one fixed feed and checks their number.",
  ["processors/stopduplicateremover.go"],
  [("equality", "processors/stopduplicateremover.go stopEquals, levelEquals"), ("merge", "processors/stopduplicateremover.go combineStops, combineLevels")])

P("P10", "Shape minimization stays within one meter",
  "With -s, every shape keeps its first and last point and a subsequence of its points in their order, with their (remeasured) measurements and additional fields, such that no dropped point is more than 1 m (in web mercator) away from the segment that replaces it. "
  "As many points are dropped as the Douglas-Peucker algorithm drops with that tolerance, and nothing else in the feed changes.",
  IN, "every shape: straight, winding, self-overlapping, closed, tiny, with and without measurements",
  "The existing test minimizes one line; the error bound has to hold for every geometry.",
  ["processors/shapeminimizer.go", "processors/util.go"],
  [("Douglas-Peucker", "processors/shapeminimizer.go minimizeShape"), ("segment distance", "processors/util.go perpendicularDist")])

P("P11", "Only shapes within one meter of each other are merged",
  "With -S, a shape is replaced by another one only if, directly or through other merged shapes, their lines start, end and, at each of their points and every ten meters in between, stay within 1 m (in web mercator) of each other, and never by one that is measured over a shorter length; straight-running shapes with identical points and measurements do end up as one. "
  "Trips keep a shape if they had one, the remaining shapes keep their points, and nothing else in the feed changes.",
  IN, "every set of identical, nearly identical, shifted, reversed, nested and partially overlapping shapes",
  "The existing test compares two fixed shapes; the guarantee is over all pairs of curves and the grid index that preselects them.",
  ["processors/shapeduplicateremover.go", "processors/shapeidx.go"],
  [("curve distance", "processors/shapeduplicateremover.go inDistTo"), ("preselection", "processors/shapeidx.go GetNeighbors")])

P("P12", "Shape remeasurement fills gaps and keeps known measurements",
  "With -m, every point of a shape with at least two different measurements gets one: those present and in order stay as they are, and missing ones are interpolated along the line between their known neighbours, so that measurements never decrease. "
  "A shape without any measurements is measured along its line, one whose measurements give no rate (a single one, or all equal) loses them, and nothing else in the feed changes.",
  IN, "every shape with any pattern of missing measurements, including leading, trailing, repeated points and a single known value",
  "No existing test runs the remeasurer.",
  ["processors/shaperemeasurer.go"],
  [("interpolation", "processors/shaperemeasurer.go remeasure, remeasureUnknown, remeasureBetween")])

P("P13", "Orphan removal removes exactly the unreferenced entities",
  "With -O, trips that have no stop times or that nobody can board or alight from are removed, then transfers that involve a stop, route or trip no remaining trip uses (a station is used if one of its stops is), and then every stop, shape, service, route, agency and attribution that nothing remaining refers to, until no such entity is left. "
  "Fares, fare rules, pathways, levels and entrances count as users and stay, and the remaining entities with their additional fields are unchanged.",
  IN, "every feed with chains and cycles of unused agencies, routes, services, shapes, trips, stops, stations, levels, fares, pathways and transfers",
  "No existing test runs the orphan remover; a missed or surplus removal depends on reference chains.",
  ["processors/orphanminimizer.go"],
  [("reference counting", "processors/orphanminimizer.go remove*Orphans")])

P("P14", "Id minimization only changes ids",
  "With -i or -d, the n entities of each kind (attributions: over the whole feed) get the ids 1 to n in base 10 or base 36 (after the --prefix, if any), while kinds named by a --keep-*-ids option, block ids and zone ids stay as they are. "
  "Apart from its ids the feed is unchanged: every reference and every additional field still belongs to the entity it belonged to.",
  INC, "every set of ids, including ones that collide with the new ids, and every set of kinds to keep",
  "No existing test minimizes ids; kinds are renamed concurrently and new ids collide with old ones in the same maps.",
  ["processors/idminimizer.go"],
  [("concurrent renaming", "processors/idminimizer.go Run"), ("additional fields", "processors/idminimizer.go renameAddFlds")])

P("P15", "Several feeds are merged side by side and kept ids are restored",
  "Reading several feeds, or one with --prefix, yields exactly the union of their contents, all ids and references prefixed per feed, so that no two feeds' entities are confused. "
  "With a --keep-*-ids option every entity of that kind has either its original or its prefixed id, and each original id is borne by one entity of the output; references and additional fields follow.",
  INC, "every set of feeds with equal, colliding and prefix-like ids (as left by an earlier merge) and every set of kinds to keep",
  "The one existing test of the main package reads a single feed without a prefix; restoring depends on map order and on collisions between feeds.",
  ["gtfstidy.go"],
  [("prefixes", "gtfstidy.go main() PrefixParse"), ("restoring ids", "gtfstidy.go main() after processing")])

P("P16", "--remove-cal-dates keeps every journey on every date",
  "With --remove-cal-dates no exception is left in calendar_dates.txt, and on every date exactly the same trips run as before, with their stop times, frequencies, attributes and additional fields. "
  "Attributions and transfers of a split trip are found at all of its parts, services without exceptions and their trips stay as they were, and nothing else in the feed changes.",
  IN, "every service calendar and every set of trips with frequencies, transfers, attributions and additional fields",
  "No existing test runs this option; splitting has to be exact on every date for every encoding of a calendar, and new ids must never collide.",
  ["processors/servicecaldatesremover.go"],
  [("splitting into blocks", "processors/servicecaldatesremover.go getBlocks"), ("copies of trips", "processors/servicecaldatesremover.go Run, copyTransfers, freeTripId")])

P("P17", "--non-overlapping-services keeps every journey and partitions the dates",
  "With --non-overlapping-services exactly the same trips run on every date as before, with their stop times, frequencies, attributes, additional fields, attributions and transfers. "
  "Every date with service belongs to exactly one service, and two dates share a service exactly if they are the same weekday and the same trips run on both. "
  "The name of a service tells its weekday and, if the weekday has several services, the ISO calendar weeks of its dates.",
  IN, "every service calendar over any span, also over several years",
  "No existing test runs this option; the partition is a statement about all pairs of dates.",
  ["processors/servicenonoverlapper.go"],
  [("day types", "processors/servicenonoverlapper.go Run"), ("transfers", "processors/servicenonoverlapper.go updateTransfers")])

P("P18", "Too fast trips are dropped, and only those",
  "With --drop-too-fast-trips exactly those trips are removed that, between two of their timed stop times, cover at least 10 km (7 km between successive ones) faster than their route type allows (tram 100, subway 150, rail 500, bus 150, ferry 80, cable tram 30, gondola 50, funicular 50, trolleybus 50, monorail 150 km/h). "
  "The way is measured along all stops in between, whether timed or not, and equal times count as one minute. "
  "The trips that are kept and everything else in the feed, except frequencies, transfers and attributions of removed trips, do not change.",
  IN, "every trip of every route type, with untimed stops, equal times and long pauses",
  "No existing test runs this filter; a lost trip disappears silently.",
  ["processors/toofasttripremover.go"],
  [("speed between timed stops", "processors/toofasttripremover.go Run")])

P("P19", "Geographic filters keep exactly what lies in the area",
  "With --bounding-box, --polygon or --polygon-file exactly the stops inside one of the areas (holes excluded) and the stop times at them are kept, in any of the ways of giving an area, and without an area nothing is filtered. "
  "With --complete-filtered-trips, exactly the trips with a stop time inside (for a stop without coordinates, its parent's position counts) are kept, completely, with all stops they use and those inside, the parents of these, the pathways and transfers among these, and everything else stays unchanged.",
  INC, "every feed and every set of boxes, polygons, polygon files and GeoJSON geometries with holes",
  "No existing test uses an area; a missed parent station, pathway or fare depends on the place of each stop in the station hierarchy.",
  ["gtfstidy.go", "processors/completegeotripsfilter.go"],
  [("areas from options", "gtfstidy.go main() getGtfsPoly, parseCoords"), ("complete trips", "processors/completegeotripsfilter.go Run")])

P("P20", "Adjacent stop times at a stop are grouped without losing times",
  "With --group-adj-stop-times, successive stop times of a trip become one exactly if they are at the same stop, both untimed or both timed with arrival equal to departure, and equal in their measurement and continuous pickup and drop-off. "
  "The one stop time left has the arrival, drop-off type, sequence and additional fields of the first and the departure and pickup type of the last of them; all other stop times and the rest of the feed do not change.",
  IN, "every trip with runs of stop times at one stop, timed and untimed",
  "No existing test runs this option; runs of three and more and mixes of timed and untimed stop times need a general oracle.",
  ["processors/adjstoptimegrouper.go"],
  [("grouping", "processors/adjstoptimegrouper.go Run, adjacentMergeable, mergeStopTimes")])

P("P21", "Parent stations are added and repaired without touching anything else",
  "With --ensure-stop-parents every stop without a parent gets a station of its own, a copy of the stop with a new id that no other stop bears. "
  "With --fix-far-away-parents a stop moves to the centre of its children exactly if a child is 100 m or more away from it and all children are less than 100 m from that centre; children without coordinates are ignored and all positions are those of the input. "
  "With --drop-platform-for-parentless stops without a parent lose their platform codes, then duplicate stops are merged as with -P; nothing else in the feed changes.",
  IN, "every stop hierarchy, also with three levels, ids like the new ones and children without coordinates",
  "No existing test runs these options.",
  ["processors/stopparentenforcer.go", "processors/parentaverager.go", "processors/platformcodedropper.go"],
  [("new stations", "processors/stopparentenforcer.go Run"), ("centres", "processors/parentaverager.go Run"), ("platform codes", "processors/platformcodedropper.go Run")])

P("P22", "Reclustering joins only close stops with similar names",
  "With -E, a group of stops (a station with everything in it, or a single stop) is never torn apart, groups are only joined if stops of them lie about 75 m or less apart and their names are similar (by TF-IDF weighted words), and no two groups are left whose stops are, on average, that close and similar. "
  "Joined groups keep one of their stations, or get a new one in their centre if they have none, which bears the name of one of its stops and only a URL, timezone or accessibility they agree on, and transfers and pathways of removed stations move to the one that is kept. "
  "Nothing but parent stations, stations and these references changes.",
  IN, "every stop hierarchy, over one or many grid cells, with stations without stops and stops without coordinates or names",
  "No existing test reclusters; the result depends on the similarity of all pairs and on a priority queue that must stay consistent through every merge.",
  ["processors/stopreclusterer.go", "processors/stopclusteridx.go", "processors/priorityqueue.go"],
  [("agglomerative clustering", "processors/stopreclusterer.go Run, clusterSimi, updateNeighs"), ("write back", "processors/stopreclusterer.go writeCluster, createParent"), ("candidates", "processors/stopclusteridx.go")])

P("P23", "Remeasured stop times match the shape and never decrease",
  "With -r, if a trip with a shape lacks a measurement and its stops can be placed in order on the segments of the shape at most 250 m away, all its stop times get the measurements of such a placement with the least total distance between stops and shape, and these never decrease along the trip. "
  "All other trips keep their measurements, and nothing but measurements changes in the feed.",
  IN, "every trip and shape: loops, out-and-back lines, stops off the shape, repeated stops, missing coordinates",
  "No existing test runs the stop time remeasurer.",
  ["processors/stoptimeremeasurer.go", "processors/shaperemeasurer.go"],
  [("map matching", "processors/stoptimeremeasurer.go remeasure"), ("shape measurement", "processors/shaperemeasurer.go")])

P("P24", "Stops are snapped only if they are over 100 m from a shape",
  "With --snap-stops, a stop time keeps its stop if the stop is within 100 m of the position on the trip's shape it belongs to (given by its measurement, or else the nearest one), and gets a new copy of its stop that lies on the shape if the whole shape is farther away than that. "
  "A copy differs from the original in its id and coordinates only and lies no farther away than that position, and nothing else in the feed changes.",
  IN, "every trip and shape: with and without measurements, single-point shapes, stops near and far",
  "No existing test runs the snapper.",
  ["processors/shapesnapper.go", "processors/util.go"],
  [("snapping", "processors/shapesnapper.go Run")])

P("P26", "Failures are reported and leave everything else alone",
  "If an option cannot be used, an input is missing or is not a valid feed and no option to repair it is given, or the output cannot be written, the tool says so on stderr and exits with a non-zero status, and unless it was already writing, nothing in the file system has changed. "
  "With -v nothing is written, and the exit status is 0 exactly if each of the feeds would be processed without options to repair it. "
  "Whatever the bytes of the input, the tool never crashes, never modifies its inputs or any file but the output, and exits with 0 only if the output is there and can be read again.",
  INC, "every input, valid or not, every option value and every output location",
  "Scripts rely on the exit status; the existing tests never run the program, let alone with broken inputs, bad options or unwritable outputs.",
  ["gtfstidy.go", "processors/*.go"],
  [("option parsing and error exits", "gtfstidy.go main(), parseDate, parseCoords"), ("panic recovery", "gtfstidy.go main() deferred recover"), ("output creation", "gtfstidy.go main(), gtfswriter.Writer")],
  note="Held on the seeded executions that were observed, apart from two known findings in the pinned parser and writer modules; not proved. Trusts the harness's list of invalid values, which is limited to what the pinned parser is meant to refuse.")

P("P25", "Parallel processing is race free and does not show in the result",
  "On every schedule and with any number of processors, no two goroutines of the tool access the same data without synchronization while one of them writes. "
  "Options that leave no choice (all that neither merge duplicates nor give new ids) give the same feed in every run, those that give new ids (-i, -d, --snap-stops, --remove-cal-dates) the same up to these ids, and -A and -C leave the same number of entities of each kind.",
  ["inputs", "configurations", "schedules"], "every schedule, number of processors and map order",
  "The tests run each processor once on feeds so small that all work falls into one chunk, without the race detector.",
  ["processors/*.go"],
  [("chunked workers", "processors/*duplicateremover.go, serviceminimizer.go, shapeminimizer.go, shaperemeasurer.go, stoptimeremeasurer.go"), ("shared state", "processors/frequencyminizer.go, idminimizer.go, shapeminimizer.go")],
  technique="runtime monitoring: Go race detector, and comparison of repeated runs with 1 to 8 processors")

P("P27", "Repaired feeds are valid and only lose what was broken",
  "With --fix, or -D with or without -e, -n and -z, a feed with any number of wrong values, dangling references, repeated keys and missing rows is processed without an error, and the feed written is valid, so that the tool itself accepts it without any of these options. "
  "Everything the faults do not concern, neither directly nor through references, is in the output unchanged, and nothing new appears.",
  INC, "every feed with faults in any rows and columns",
  "No existing test repairs a feed; whether the leftovers still fit together depends on which of the rows refer to which others.",
  ["gtfstidy.go"],
  [("--fix options", "gtfstidy.go main()"), ("clean-up after parsing", "gtfstidy.go main(), dropOrphanedStops")])

P("P28", "Reading and writing loses and changes nothing",
  "Without options that process it, a feed comes out as it went in, whatever the container (directory, archive, archive with a folder), output location (new, in place, over an older feed, the default one), CSV layout (BOM, CRLF, quotes, padding, blank lines, any columns in any order) and options for repairing, compression and sorting. "
  "--drop-shapes, --drop-single-stop-trips, --remove-fillers and --explicit-calendar do just what they say and nothing else, without -F only additional fields are lost, and with --keep-col-order the columns stay in the order of the input.",
  INC, "every feed, container, layout and set of these options",
  "No existing test writes a feed or reads it in another layout; every other guarantee rests on this one.",
  ["gtfstidy.go"],
  [("options, parsing and writing", "gtfstidy.go main()"), ], note="Held on the seeded executions that were observed, not proved; trusts the harness's own GTFS reader and generator. Values the pinned parser or writer is documented to normalize (zero defaults, default colours, line breaks in names) are compared as normalized; translations.txt is outside, as the pinned writer does not write it, and the loss of stop_headsign is a known finding in the pinned parser.")

P("P29", "Date and MOT filters keep exactly what is in range",
  "With --date-start and --date-end, each service keeps exactly its dates within the range (both ends included), and exactly the trips with a date left are kept. "
  "With -M and -N exactly the routes whose type (after --standard-route-types) is kept and not dropped, their trips and the fare rules that do not name others are kept. "
  "Transfers and attributions of removed routes and trips go with them, and everything else, in particular stops, shapes and the remaining trips, stays as it was.",
  INC, "every feed, date range and set of route types",
  "No existing test filters a feed; off-by-one dates and dangling references depend on calendars, exceptions and references of each feed.",
  ["gtfstidy.go"],
  [("filter options", "gtfstidy.go main(), parseDate"), ("clean-up after parsing", "gtfstidy.go main()")],
  note="Held on the seeded executions that were observed, apart from one known finding in the pinned parser module; not proved. Trusts the harness's own GTFS reader, generator and oracle.")

P("P30", "Defaults stand in for wrong optional and empty values",
  "With -e (or --fix), a feed in which optional fields have unusable values is processed as if these fields were empty: the default stands in for them, and nothing else in the feed changes or is lost. "
  "A lone arrival or departure time stands for both, a time point without times is none, a reference of a trip to an unknown shape and of a route to an unknown agency, where there is only one, is dropped. "
  "With -p, its string replaces empty mandatory names (of agencies, stops, the publisher, the feed's language and attributed organizations), with --fix a \"-\", and only these.",
  INC, "every feed with unusable optional values and empty names in any rows and columns",
  "No existing test reads a feed with a wrong value in it; a default that is no valid value, or a row lost because of it, shows in the output of the particular feed only.",
  ["gtfstidy.go"],
  [("-e, --fix and -p options", "gtfstidy.go main()"), ("clean-up after parsing", "gtfstidy.go main()")],
  note="Held on the seeded executions that were observed, apart from one known finding in the pinned parser module; not proved. Trusts the harness's own GTFS reader, generator and oracle. Values in which the parser finds something usable (times such as 8:00, an address within a text) are not taken for unusable ones.")

P("P31", "Every option acts exactly when it is given",
  "A processing option has its documented effect exactly if it is given, by its long or short name, bundled with others, anywhere among the arguments, or by a shorthand that stands for it (--compress, --Compress, --merge, --Merge, --keep-ids), no matter which other options are given and how many feeds are read. "
  "Options that only qualify others (--red-trips-fuzzy, --red-trips-aggressive, --red-stops-fuzzy, the headway limits, --keep-*-ids) have no effect without them. "
  "--standard-route-types and --google-supported-route-types give each route the basic type, or the extended type known to Google, that its type belongs to, and otherwise types stay as they are.",
  INC, "every set of options in every notation, with one or several feeds",
  "No existing test passes options to the tool; a shorthand that lacks an option, a processor that runs too early or not at all, or options that switch each other off show only in the combination concerned.",
  ["gtfstidy.go", "processors/"],
  [("options and shorthands", "gtfstidy.go main()"), ("order of the processors", "gtfstidy.go main()")],
  note="Held on the seeded executions that were observed, not proved. Whether an option acts is judged by one constellation per option that it certainly changes and nothing else does; where the help text and the shorthand disagree (--compress also minimizes shapes, --merge also services) either is accepted.")

P("P32", "What an option clears away stays away, whatever else runs",
  "Whichever other options are given, the output has nothing unused with -O, no two equal agencies with -A, no two equal routes with -R, no two services active on the same dates with -C (unless --remove-cal-dates splits services), no calendar exceptions with --remove-cal-dates, no platform without a parent with --ensure-stop-parents, no platform code at a stop without a parent with --drop-platform-for-parentless, and ids 1 to n with -i or -d. "
  "What unused, equal and the same dates mean is what the option does when it is given alone.",
  INC, "every set of options, in which a later step may undo what an earlier one has done (new duplicates, new orphans, new stations)",
  "The steps run in a fixed order and some create what an earlier one has cleared away; no existing test runs two of them.",
  ["gtfstidy.go", "processors/"],
  [("order and repetition of the processors", "gtfstidy.go main()")])

P("P33", "Options given together do what they do one after the other",
  "A run with several options that filter, clean, measure, snap, merge, group and minimize gives the feed that the same options give in two runs, the second on the output of the first, split anywhere in the fixed order of the steps (filters, too fast trips, complete trips, unused entities, agencies, far-away stations, shapes, snapping, routes, services, grouping, service splitting and minimization, parents). "
  "Feeds are the same if they differ only in which of several equal entities stands for them; nothing a step needs is held back, changed or doubled because another option is given.",
  INC, "every feed, every set of these options and every place to split them",
  "No existing test compares runs with different options; a step that looks at the options of another, or leaves state behind that is not in the feed, shows only in the pair concerned.",
  ["gtfstidy.go", "processors/"],
  [("order of the processors", "gtfstidy.go main()"), ("filter options", "gtfstidy.go main()")],
  note="Held on the seeded executions that were observed, not proved. Left out are options that choose among similar things or number them (-P, -E, -S, -I, -T, -i, -d, --remove-cal-dates), and splits that part -O from snapping or splitting services, after which it acts again, or -m from -s, which measures, too.")

From 5808a95fbcdb2c923502744f1bcc73be4701ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 01/33] fix: keep the week alignment when writing back a
 minimized service

The search finds its range as offsets into the active map, which starts on
the Sunday before the first active day, but the range was written back
relative to the first active day. The resulting calendar needed more
exceptions than the search had found.
---
 processors/serviceminimizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 0edc9f2..920559a 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -179,7 +179,8 @@ out:
 		}
 	}
 
-	sm.updateService(service, bestMap, bestA, bestB, startTime, endTime, start, end)
+	// bestA and bestB are offsets into the week-aligned active map
+	sm.updateService(service, bestMap, bestA, bestB, startTimeAm, endTime, start, end)
 }
 
 func (sm ServiceMinimizer) countExceptions(s *gtfs.Service, actmap []bool, bm uint, startDiff int, endDiff int, a int, b int, max uint) uint {
-- 
2.43.0


From 3c33bac685242b1495e5256f6472cb92cf890e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 02/33] fix: keep transfers intact when merging duplicate stops

A transfer between two merged stops was looked up under a stale key and
written back as an empty transfer from a deleted stop, and a transfer whose
new key already existed kept pointing to the deleted stop.
---
 processors/stopduplicateremover.go | 15 ++++++++++-----
 processors/util.go                 | 22 ++++++++++++++++++++++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 78c90ff..306d8a3 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -199,6 +199,11 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 		}
 
 		for _, tk := range transfers[s] {
+			if _, ok := feed.Transfers[tk]; !ok {
+				// already updated via its other stop
+				continue
+			}
+
 			// update the  key
 			tk_new := tk
 
@@ -211,12 +216,12 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 				tk_new.To_stop = ref
 			}
 
-			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = feed.Transfers[tk]
-				delete(feed.Transfers, tk)
+			rekeyTransfer(feed, tk, tk_new)
 
-				// add new transfer to transfer refs
-				transfers[ref] = append(transfers[ref], tk_new)
+			// add new transfer to transfer refs
+			transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
+			if tk_new.From_stop != tk_new.To_stop {
+				transfers[tk_new.To_stop] = append(transfers[tk_new.To_stop], tk_new)
 			}
 		}
 
diff --git a/processors/util.go b/processors/util.go
index f2899d8..fccaa27 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -7,6 +7,7 @@
 package processors
 
 import (
+	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
 	"math"
 )
@@ -308,3 +309,24 @@ func boolsToBytes(t []bool) []byte {
 	}
 	return b
 }
+
+// rekeyTransfer moves the transfer stored under tk (and its additional fields)
+// to the key tkNew. If there already is a transfer with that key, the transfer
+// under tk is dropped.
+func rekeyTransfer(feed *gtfsparser.Feed, tk gtfs.TransferKey, tkNew gtfs.TransferKey) {
+	if tk == tkNew {
+		return
+	}
+
+	if _, ok := feed.Transfers[tkNew]; !ok {
+		feed.Transfers[tkNew] = feed.Transfers[tk]
+
+		for k := range feed.TransfersAddFlds {
+			if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+				feed.TransfersAddFlds[k][tkNew] = v
+			}
+		}
+	}
+
+	feed.DeleteTransfer(tk)
+}
-- 
2.43.0


From 61c9c7cbbecd92b5ceca1cbbfbe07f90d80b8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 03/33] fix: recluster stops without losing stations or
 transfers

Stations without children were deleted, stops without a position made the
grid index panic and their NaN similarities were merged, transfers between
merged stations stayed behind, the extent of the grid depended on the
iteration order, stops in its first and last cells were never found as
neighbors, and the merge priority was not updated with the similarities.
---
 processors/stopclusteridx.go  | 30 +++++++++++-----
 processors/stopreclusterer.go | 66 ++++++++++++++++++++++-------------
 processors/util.go            |  9 +++++
 3 files changed, 72 insertions(+), 33 deletions(-)

diff --git a/processors/stopclusteridx.go b/processors/stopclusteridx.go
index 8653ac2..76a7c32 100755
--- a/processors/stopclusteridx.go
+++ b/processors/stopclusteridx.go
@@ -34,13 +34,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -49,13 +51,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -72,8 +76,9 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	// the stops on the upper right border belong to a cell, too
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[int]bool, idx.xWidth)
@@ -96,6 +101,11 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 }
 
 func (gi *StopClusterIdx) Add(lat float64, lon float64, obj int) {
+	if math.IsNaN(lat) || math.IsNaN(lon) {
+		// no position
+		return
+	}
+
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
 	x := gi.getCellXFromX(lx)
@@ -143,14 +153,18 @@ func (gi *StopClusterIdx) GetNeighbors(excludeCid int, c *StopCluster, d float64
 func (gi *StopClusterIdx) GetNeighborsByLatLon(lat float64, lon float64, d float64) map[int]bool {
 	ret := make(map[int]bool)
 
+	if math.IsNaN(lat) || math.IsNaN(lon) || len(gi.grid) == 0 {
+		return ret
+	}
+
 	// surrounding cells
 	xPerm := uint(math.Ceil(d / gi.cellWidth))
 	yPerm := uint(math.Ceil(d / gi.cellHeight))
 
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
-	swX := max(0, gi.getCellXFromX(lx)-xPerm)
-	swY := max(0, gi.getCellYFromY(ly)-yPerm)
+	swX := gi.getCellXFromX(lx)
+	swY := gi.getCellYFromY(ly)
 
 	neX := min(gi.xWidth-1, gi.getCellXFromX(lx)+xPerm)
 	neY := min(gi.yHeight-1, gi.getCellYFromY(ly)+yPerm)
diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e4fcef..f3e8f4e 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -163,7 +163,9 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 
 	// take the top merge candidate from the PQ and merge it until the top candidate
 	// has priority < 0.5
-	for top := heap.Pop(&pq).(*Item); len(pq.Items) > 0; top = heap.Pop(&pq).(*Item) {
+	for len(pq.Items) > 1 {
+		top := heap.Pop(&pq).(*Item)
+
 		// we can break, there will only be merge candidates below the threshold from now on
 		if top.priority < 0.5 {
 			break
@@ -232,9 +234,13 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 		for _, p := range cl.Parents {
 			cursimi := float32(0.0)
 			for _, c := range cl.Childs {
-				cursimi += m.stopSimi(p, c)
+				if hasCoords(c) {
+					cursimi += m.stopSimi(p, c)
+				}
+			}
+			if len(cl.Childs) > 0 {
+				cursimi = cursimi / float32(len(cl.Childs))
 			}
-			cursimi = cursimi / float32(len(cl.Childs))
 			if cursimi >= bestsimi {
 				parent = p
 				bestsimi = cursimi
@@ -253,7 +259,7 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for tk, tv := range feed.Transfers {
+		for tk := range feed.Transfers {
 			tk_new := tk
 			if tk.From_stop == st {
 				tk_new.From_stop = parent
@@ -262,10 +268,7 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 				tk_new.To_stop = parent
 			}
 
-			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = tv
-				delete(feed.Transfers, tk)
-			}
+			rekeyTransfer(feed, tk, tk_new)
 		}
 
 		for _, p := range feed.Pathways {
@@ -288,6 +291,7 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	}
 	avgLat := float32(0)
 	avgLon := float32(0)
+	numCoords := float32(0)
 
 	ret := &gtfs.Stop{}
 	ret.Wheelchair_boarding = 0
@@ -295,8 +299,11 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	ret.Url = nil
 
 	for _, st := range stops {
-		avgLat += st.Lat
-		avgLon += st.Lon
+		if hasCoords(st) {
+			avgLat += st.Lat
+			avgLon += st.Lon
+			numCoords++
+		}
 
 		if ret.Wheelchair_boarding == 0 && st.Wheelchair_boarding != 0 {
 			ret.Wheelchair_boarding = st.Wheelchair_boarding
@@ -331,8 +338,8 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	}
 
 	ret.Desc = ""
-	ret.Lat = avgLat / float32(len(stops))
-	ret.Lon = avgLon / float32(len(stops))
+	ret.Lat = avgLat / numCoords
+	ret.Lon = avgLon / numCoords
 	ret.Location_type = 1
 	ret.Parent_station = nil
 	ret.Level = nil
@@ -366,11 +373,9 @@ func (m *StopReclusterer) updateNeighIn(cId int, nId int, clusters []*StopCluste
 				sort.Sort(BySimi(neighs[cId]))
 			}
 
-			// we only have to update the PQ if the highest simi neighbor has changed
-			// this is the case if the new simi is bigger, or if we have changed the last element and it is now
-			// smaller
-			if neigh.simi > oldbestsimi || (i == len(neighs[cId])-1 && neigh.simi < oldbestsimi) {
-				pq.Items[pq.Pqids[cId]].priority = neighs[cId][len(neighs[cId])-1].simi
+			// we only have to update the PQ if the highest simi has changed
+			if newbestsimi := neighs[cId][len(neighs[cId])-1].simi; newbestsimi != oldbestsimi {
+				pq.Items[pq.Pqids[cId]].priority = newbestsimi
 				heap.Fix(pq, pq.Pqids[cId])
 			}
 			return
@@ -422,27 +427,33 @@ func (m *StopReclusterer) getNearestClusters(cId int, clusters []*StopCluster) [
 func (m *StopReclusterer) clusterSimi(a *StopCluster, b *StopCluster) float32 {
 	ret := float32(0.0)
 	c := 0
-	for _, stA := range a.Childs {
-		for _, stB := range b.Childs {
+
+	add := func(stA *gtfs.Stop, stB *gtfs.Stop) {
+		// stops without a position (some generic nodes and boarding areas)
+		// have no similarity
+		if hasCoords(stA) && hasCoords(stB) {
 			ret += m.stopSimi(stA, stB)
 			c++
 		}
+	}
+
+	for _, stA := range a.Childs {
+		for _, stB := range b.Childs {
+			add(stA, stB)
+		}
 
 		for _, stB := range b.Parents {
-			ret += m.stopSimi(stA, stB)
-			c++
+			add(stA, stB)
 		}
 	}
 
 	for _, stA := range a.Parents {
 		for _, stB := range b.Childs {
-			ret += m.stopSimi(stA, stB)
-			c++
+			add(stA, stB)
 		}
 
 		for _, stB := range b.Parents {
-			ret += m.stopSimi(stA, stB)
-			c++
+			add(stA, stB)
 		}
 	}
 
@@ -453,6 +464,11 @@ func (m *StopReclusterer) clusterSimi(a *StopCluster, b *StopCluster) float32 {
 	return ret / float32(c)
 }
 
+// hasCoords tells whether a stop has a position
+func hasCoords(s *gtfs.Stop) bool {
+	return s.Lat == s.Lat && s.Lon == s.Lon
+}
+
 func (m *StopReclusterer) stopSimi(a *gtfs.Stop, b *gtfs.Stop) float32 {
 	geosimi := 0.5 - 0.5*math.Tanh((distSApprox(a, b)-m.DistThreshold)/(m.DistThreshold*0.25))
 
diff --git a/processors/util.go b/processors/util.go
index fccaa27..ab8afa2 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -149,6 +149,15 @@ func cosSimi(a map[int]float64, b map[int]float64) float64 {
 		}
 	}
 
+	if s1 == 0 && s2 == 0 {
+		// nothing to tell them apart by
+		return 1
+	}
+
+	if s1 == 0 || s2 == 0 {
+		return 0
+	}
+
 	return sumA / (math.Sqrt(s1) * math.Sqrt(s2))
 }
 
-- 
2.43.0


From 27adca788306c070e3ddd9c6b2f01ee07be08119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 04/33] fix: group adjacent stop times without losing times or
 pickups

A timed and an untimed visit were merged into an untimed one, the distances
of the two visits were not compared, and as the setters of a stop time only
add bits, the merged visit did not allow the pickup of the second one.
---
 processors/adjstoptimegrouper.go | 39 ++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..228fef0 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,12 +31,9 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
-
+			if adjacentMergeable(&t.StopTimes[i-1], &t.StopTimes[i]) {
 				// update previous stop
-				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+				newSt[len(newSt)-1] = mergeStopTimes(&newSt[len(newSt)-1], &t.StopTimes[i])
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
@@ -50,3 +47,35 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 	grouped,
 	100.0*float64(grouped)/(float64(total)))
 }
+
+// adjacentMergeable checks whether b, following a, is the same stop event
+func adjacentMergeable(a *gtfs.StopTime, b *gtfs.StopTime) bool {
+	return a.Stop() == b.Stop() &&
+		a.Arrival_time().Empty() == b.Arrival_time().Empty() &&
+		a.Arrival_time().Equals(a.Departure_time()) &&
+		b.Arrival_time().Equals(b.Departure_time()) &&
+		a.HasDistanceTraveled() == b.HasDistanceTraveled() &&
+		(!a.HasDistanceTraveled() || a.Shape_dist_traveled() == b.Shape_dist_traveled()) &&
+		a.Headsign() == b.Headsign() &&
+		a.Continuous_pickup() == b.Continuous_pickup() &&
+		a.Continuous_drop_off() == b.Continuous_drop_off()
+}
+
+// mergeStopTimes returns a stop time which arrives (and drops off) like a and
+// departs (and picks up) like b. The setters of gtfs.StopTime only ever add
+// pickup and drop off bits, so this starts from an empty stop time.
+func mergeStopTimes(a *gtfs.StopTime, b *gtfs.StopTime) gtfs.StopTime {
+	ret := gtfs.StopTime{}
+	ret.SetStop(a.Stop())
+	ret.SetHeadsign(a.Headsign())
+	ret.SetSequence(a.Sequence())
+	ret.SetTimepoint(a.Timepoint())
+	ret.SetShape_dist_traveled(a.Shape_dist_traveled())
+	ret.SetArrival_time(a.Arrival_time())
+	ret.SetDrop_off_type(a.Drop_off_type())
+	ret.SetContinuous_drop_off(a.Continuous_drop_off())
+	ret.SetDeparture_time(b.Departure_time())
+	ret.SetPickup_type(b.Pickup_type())
+	ret.SetContinuous_pickup(b.Continuous_pickup())
+	return ret
+}
-- 
2.43.0


From 54981ff58742c25def93c0571fbf7dd598cd8253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 05/33] fix: keep runs, fields and transfers in
 --non-overlapping-services

Day types of the same calendar weeks in different years got the same service
ID and overwrote each other, the additional fields of all trips were dropped,
and transfers kept referencing the replaced trips.
---
 processors/servicenonoverlapper.go | 94 +++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 2 deletions(-)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 7d6c19a..464adef 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -89,10 +89,13 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	oldTrips := feed.Trips
+
+	// the new trips created for each old trip
+	newTrips := make(map[*gtfs.Trip][]*gtfs.Trip, len(feed.Trips))
+
 	feed.Services = make(map[string]*gtfs.Service, 0)
 	feed.Trips = make(map[string]*gtfs.Trip, 0)
-	feed.TripsAddFlds = make(map[string]map[string]string)
-	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
 
 	// write services
 	for wd, _ := range days {
@@ -134,6 +137,12 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 			}
 
+			// the same calendar weeks may occur in several years
+			baseId := id
+			for n := 2; feed.Services[id] != nil; n++ {
+				id = baseId + " " + strconv.Itoa(n)
+			}
+
 			exceptions := make(map[gtfs.Date]bool)
 			for _, d := range t.Dates {
 				exceptions[d] = true
@@ -149,9 +158,90 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				newt.Service = feed.Services[id]
 				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
 				feed.Trips[newt.Id] = &newt
+				newTrips[trip] = append(newTrips[trip], &newt)
+
+				sm.copyAddFlds(feed, trip, &newt)
 			}
 		}
 	}
 
+	sm.updateTransfers(feed, newTrips)
+
+	// this also drops the additional fields of the old trips
+	for id, t := range oldTrips {
+		if feed.Trips[id] == nil {
+			feed.NumStopTimes += len(t.StopTimes) * (len(newTrips[t]) - 1)
+			feed.DeleteTrip(id)
+		}
+	}
+
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
+
+// copyAddFlds copies the additional fields of a trip to its copy
+func (sm ServiceNonOverlapper) copyAddFlds(feed *gtfsparser.Feed, trip *gtfs.Trip, newt *gtfs.Trip) {
+	for k := range feed.TripsAddFlds {
+		if v, ok := feed.TripsAddFlds[k][trip.Id]; ok {
+			feed.TripsAddFlds[k][newt.Id] = v
+		}
+	}
+
+	for k := range feed.StopTimesAddFlds {
+		if v, ok := feed.StopTimesAddFlds[k][trip.Id]; ok {
+			feed.StopTimesAddFlds[k][newt.Id] = v
+		}
+	}
+
+	for k := range feed.FrequenciesAddFlds {
+		if v, ok := feed.FrequenciesAddFlds[k][trip.Id]; ok {
+			feed.FrequenciesAddFlds[k][newt.Id] = v
+		}
+	}
+}
+
+// updateTransfers replaces transfers which reference old trips by transfers
+// which reference the new trips. As the new services do not overlap, transfers
+// between two trips are only possible between trips of the same new service.
+func (sm ServiceNonOverlapper) updateTransfers(feed *gtfsparser.Feed, newTrips map[*gtfs.Trip][]*gtfs.Trip) {
+	tks := make([]gtfs.TransferKey, 0)
+
+	for tk := range feed.Transfers {
+		if tk.From_trip != nil || tk.To_trip != nil {
+			tks = append(tks, tk)
+		}
+	}
+
+	for _, tk := range tks {
+		froms := []*gtfs.Trip{nil}
+		tos := []*gtfs.Trip{nil}
+
+		if tk.From_trip != nil {
+			froms = newTrips[tk.From_trip]
+		}
+
+		if tk.To_trip != nil {
+			tos = newTrips[tk.To_trip]
+		}
+
+		for _, from := range froms {
+			for _, to := range tos {
+				if from != nil && to != nil && from.Service != to.Service {
+					continue
+				}
+
+				tkNew := tk
+				tkNew.From_trip = from
+				tkNew.To_trip = to
+				feed.Transfers[tkNew] = feed.Transfers[tk]
+
+				for k := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tkNew] = v
+					}
+				}
+			}
+		}
+
+		feed.DeleteTransfer(tk)
+	}
+}
-- 
2.43.0


From f773d6b5e52b4326ef31d9dbae6128002b5b71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 06/33] fix: wait for all ID minimizations and keep additional
 fields apart

Ten minimizations were started but only nine awaited, so the feed could be
written while IDs were still being replaced, and keeping all IDs made the
semaphore size negative. Attribution IDs were collected while the maps they
are collected from were being replaced. Additional fields were lost or
overwritten if a new ID equalled an old one, and those of frequencies and
fare rules stayed under the old ID.
---
 processors/idminimizer.go | 118 +++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 54 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..3de916c 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -61,9 +61,6 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	if minimizer.KeepPathways {
 		j = j - 1
 	}
-	if minimizer.KeepAttributions {
-		j = j - 1
-	}
 	fmt.Fprintf(os.Stdout, "Minimizing ids... ")
 	sem := make(chan empty, j)
 
@@ -121,17 +118,16 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 			sem <- empty{}
 		}()
 	}
-	if !minimizer.KeepAttributions {
-		go func() {
-			minimizer.minimizeAttributionIds(feed)
-			sem <- empty{}
-		}()
-	}
 
 	for i := 0; i < j; i++ {
 		<-sem
 	}
 
+	// visits agencies, routes and trips, so wait until they have been updated
+	if !minimizer.KeepAttributions {
+		minimizer.minimizeAttributionIds(feed)
+	}
+
 	fmt.Fprintf(os.Stdout, "done.\n")
 }
 
@@ -140,6 +136,7 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Trip)
+	newIds := make(map[string]string)
 	for _, t := range feed.Trips {
 		oldId := t.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -147,18 +144,14 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[t.Id] = t
 
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
-
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.TripsAddFlds, newIds)
+	renameAddFlds(feed.StopTimesAddFlds, newIds)
+	renameAddFlds(feed.FrequenciesAddFlds, newIds)
+
 	feed.Trips = newMap
 }
 
@@ -167,6 +160,7 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Shape)
+	newIds := make(map[string]string)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -174,13 +168,12 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[s.Id] = s
 
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.ShapesAddFlds, newIds)
+
 	feed.Shapes = newMap
 }
 
@@ -189,6 +182,7 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Route)
+	newIds := make(map[string]string)
 	for _, r := range feed.Routes {
 		oldId := r.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -196,13 +190,12 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[r.Id] = r
 
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.RoutesAddFlds, newIds)
+
 	feed.Routes = newMap
 }
 
@@ -225,6 +218,7 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Stop)
+	newIds := make(map[string]string)
 	for _, s := range feed.Stops {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -232,13 +226,12 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[s.Id] = s
 
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.StopsAddFlds, newIds)
+
 	feed.Stops = newMap
 }
 
@@ -285,6 +278,7 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Agency)
+	newIds := make(map[string]string)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -292,13 +286,12 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.AgenciesAddFlds, newIds)
+
 	feed.Agencies = newMap
 }
 
@@ -307,6 +300,7 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.FareAttribute)
+	newIds := make(map[string]string)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -314,13 +308,13 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.FareAttributesAddFlds, newIds)
+	renameAddFlds(feed.FareRulesAddFlds, newIds)
+
 	feed.FareAttributes = newMap
 }
 
@@ -329,6 +323,7 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Pathway)
+	newIds := make(map[string]string)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -336,13 +331,12 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.PathwaysAddFlds, newIds)
+
 	feed.Pathways = newMap
 }
 
@@ -351,6 +345,7 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Level)
+	newIds := make(map[string]string)
 	for _, a := range feed.Levels {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
@@ -358,12 +353,27 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 		idCount = idCount + 1
 		newMap[a.Id] = a
 
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
+	// update additional fields
+	renameAddFlds(feed.LevelsAddFlds, newIds)
+
 	feed.Levels = newMap
 }
+
+// Rename the entities in a set of additional fields. The new IDs may collide
+// with old IDs of other entities.
+func renameAddFlds[V any](addFlds map[string]map[string]V, newIds map[string]string) {
+	for k, vals := range addFlds {
+		renamed := make(map[string]V, len(vals))
+
+		for oldId, val := range vals {
+			if newId, ok := newIds[oldId]; ok {
+				renamed[newId] = val
+			}
+		}
+
+		addFlds[k] = renamed
+	}
+}
-- 
2.43.0


From 48b20f6409cb59110aa7008b44c1b61ed616e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 07/33] fix: remove orphans completely and keep transfers at
 stations

---
 processors/orphanminimizer.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 997f838..13436a1 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -33,10 +33,9 @@ func (or OrphanRemover) Run(feed *gtfsparser.Feed) {
 
 	or.removeTransferOrphans(feed)
 
-	or.removeStopOrphans(feed)
-
-	// do this 2 times, because stop deletion can create new stop orphans (parent_station)
-	or.removeStopOrphans(feed)
+	// do this repeatedly, because stop deletion can create new stop orphans (parent_station)
+	for or.removeStopOrphans(feed) {
+	}
 
 	or.removeShapeOrphans(feed)
 
@@ -73,7 +72,10 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 	for _, t := range feed.Trips {
 		referenced_routes[t.Route] = empty{}
 		for _, st := range t.StopTimes {
-			referenced[st.Stop()] = empty{}
+			// transfers may also be given for the station of a stop
+			for s := st.Stop(); s != nil; s = s.Parent_station {
+				referenced[s] = empty{}
+			}
 		}
 	}
 
@@ -98,10 +100,13 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		}
 
 		if tk.To_route != nil {
-			_, inFromRoute = referenced_routes[tk.To_route]
+			_, inToRoute = referenced_routes[tk.To_route]
 		}
 
-		if inFrom && inTo && inFromRoute && inToRoute {
+		inFromTrip := tk.From_trip == nil || feed.Trips[tk.From_trip.Id] == tk.From_trip
+		inToTrip := tk.To_trip == nil || feed.Trips[tk.To_trip.Id] == tk.To_trip
+
+		if inFrom && inTo && inFromRoute && inToRoute && inFromTrip && inToTrip {
 			referenced_trans[tk] = empty{}
 		}
 	}
@@ -114,8 +119,9 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 	}
 }
 
-// Remove stop orphans
-func (or OrphanRemover) removeStopOrphans(feed *gtfsparser.Feed) {
+// Remove stop orphans, returns true if there were any
+func (or OrphanRemover) removeStopOrphans(feed *gtfsparser.Feed) bool {
+	bef := len(feed.Stops)
 	referenced := make(map[*gtfs.Stop]empty, 0)
 	for _, t := range feed.Trips {
 		for _, st := range t.StopTimes {
@@ -154,6 +160,8 @@ func (or OrphanRemover) removeStopOrphans(feed *gtfsparser.Feed) {
 			feed.DeleteStop(id)
 		}
 	}
+
+	return len(feed.Stops) < bef
 }
 
 // Remove shape orphans
-- 
2.43.0


From 8e33532e3ad33fb1fcbec385a2556c9196bca838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 08/33] fix: keep transfers of merged duplicate routes

---
 processors/routeduplicateremover.go | 30 ++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/processors/routeduplicateremover.go b/processors/routeduplicateremover.go
index 634690e..7b46594 100755
--- a/processors/routeduplicateremover.go
+++ b/processors/routeduplicateremover.go
@@ -28,6 +28,9 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 
 	trips := make(map[*gtfs.Route][]*gtfs.Trip, len(feed.Routes))
 
+	// maps merged routes to the route they have been merged into
+	refs := make(map[*gtfs.Route]*gtfs.Route)
+
 	for _, t := range feed.Trips {
 		trips[t.Route] = append(trips[t.Route], t)
 	}
@@ -45,7 +48,13 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		eqRoutes := rdr.getEquivalentRoutes(r, feed, chunks[hash])
 
 		if len(eqRoutes) > 0 {
-			rdr.combineRoutes(feed, append(eqRoutes, r), trips)
+			ref := rdr.combineRoutes(feed, append(eqRoutes, r), trips)
+
+			for _, eq := range append(eqRoutes, r) {
+				if eq != ref {
+					refs[eq] = ref
+				}
+			}
 
 			for _, r := range eqRoutes {
 				proced[r] = true
@@ -55,8 +64,17 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
-	// delete transfers
-	feed.CleanTransfers()
+	// update transfers between merged routes
+	for tk := range feed.Transfers {
+		tkNew := tk
+		if ref, ok := refs[tk.From_route]; ok {
+			tkNew.From_route = ref
+		}
+		if ref, ok := refs[tk.To_route]; ok {
+			tkNew.To_route = ref
+		}
+		rekeyTransfer(feed, tk, tkNew)
+	}
 
 	fmt.Fprintf(os.Stdout, "done. (-%d routes [-%.2f%%])\n",
 		(bef - len(feed.Routes)),
@@ -165,8 +183,8 @@ func (rdr RouteDuplicateRemover) fareRulesEqual(attr *gtfs.FareAttribute, a *gtf
 	return len(rulesA) == 0 && len(rulesB) == 0
 }
 
-// Combine a slice of equal routes into a single route
-func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip) {
+// Combine a slice of equal routes into a single route, which is returned
+func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*gtfs.Route, trips map[*gtfs.Route][]*gtfs.Trip) *gtfs.Route {
 	// heuristic: use the route with the shortest ID as 'reference'
 	ref := routes[0]
 
@@ -213,6 +231,8 @@ func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*
 
 		feed.DeleteRoute(r.Id)
 	}
+
+	return ref
 }
 
 func (rdr RouteDuplicateRemover) getRouteChunks(feed *gtfsparser.Feed) map[uint32][][]*gtfs.Route {
-- 
2.43.0


From c59bf49349d116841e4428b8d5cbd31a6f27de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 09/33] fix: keep remeasured shapes non-decreasing before the
 first measurement

---
 processors/shaperemeasurer.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/processors/shaperemeasurer.go b/processors/shaperemeasurer.go
index dd1508f..57e619d 100755
--- a/processors/shaperemeasurer.go
+++ b/processors/shaperemeasurer.go
@@ -91,7 +91,12 @@ func (s ShapeRemeasurer) remeasureUnknown(shape *gtfs.Shape, avgMeasure float64)
 	for i := 0; i <= len(shape.Points); i++ {
 		if i == len(shape.Points) || shape.Points[i].HasDistanceTraveled() {
 			if lastUMIndex > -1 {
-				s.remeasureBetween(lastUMIndex, i, avgMeasure, lastM, shape)
+				measure := avgMeasure
+				if lastUMIndex == 0 && i < len(shape.Points) {
+					// the measurements before the first known one must not exceed it
+					measure = math.Min(measure, s.maxMeasure(i, shape))
+				}
+				s.remeasureBetween(lastUMIndex, i, measure, lastM, shape)
 				lastUMIndex = -1
 			}
 			if i < len(shape.Points) {
@@ -143,6 +148,22 @@ func (s ShapeRemeasurer) remeasureKnown(shape *gtfs.Shape) (float64, bool) {
 	return m / float64(c), cc == 0
 }
 
+// The greatest measure per unit which does not exceed the known measurement of point i
+// if the shape is measured from its first point on
+func (s ShapeRemeasurer) maxMeasure(i int, shape *gtfs.Shape) float64 {
+	d := 0.0
+
+	for j := 1; j <= i; j++ {
+		d = d + distP(&shape.Points[j-1], &shape.Points[j])
+	}
+
+	if d == 0 {
+		return math.Inf(1)
+	}
+
+	return float64(shape.Points[i].Dist_traveled) / d
+}
+
 // Remeasure between points i and end
 func (s ShapeRemeasurer) remeasureBetween(i int, end int, mPUnit float64, lastMeasure float64, shape *gtfs.Shape) {
 	d := 0.0
-- 
2.43.0


From 8f9f1ca68b5ae2ced333b22db77b7b344bcf4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 10/33] fix: keep single-point shapes and additional point
 fields when minimizing

---
 processors/shapeminimizer.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..07c9aab 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -41,7 +41,10 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 			for _, s := range chunk {
 				bef := len(s.Points)
 				chunknum[a] += len(s.Points)
-				s.Points = sm.minimizeShape(s.Points, sm.Epsilon)
+				if len(s.Points) > 1 {
+					s.Points = sm.minimizeShape(s.Points, sm.Epsilon)
+				}
+				sm.moveAddFlds(feed, s)
 				for i := 0; i < len(s.Points); i++ {
 					s.Points[i].Sequence = uint32(i)
 				}
@@ -69,6 +72,29 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 		100.0*float64(n)/(float64(orign)+0.001))
 }
 
+// Move the additional fields of the points of a shape to their new sequence
+func (sm *ShapeMinimizer) moveAddFlds(feed *gtfsparser.Feed, s *gtfs.Shape) {
+	for k := range feed.ShapesAddFlds {
+		// note: this may run in parallel, but only the inner map of shape s is written
+		vals := feed.ShapesAddFlds[k][s.Id]
+		if len(vals) == 0 {
+			continue
+		}
+		kept := make(map[int]string)
+		for i := 0; i < len(s.Points); i++ {
+			if v, ok := vals[int(s.Points[i].Sequence)]; ok {
+				kept[i] = v
+			}
+		}
+		for seq := range vals {
+			delete(vals, seq)
+		}
+		for seq, v := range kept {
+			vals[seq] = v
+		}
+	}
+}
+
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
 	var maxD float64
-- 
2.43.0


From 9cad275c2179e63a09bc5c8f71add95c075c0c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 11/33] fix: find duplicates of shapes running west, south or
 across grid cells

---
 processors/shapeidx.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/processors/shapeidx.go b/processors/shapeidx.go
index 19c7843..6ed2b59 100755
--- a/processors/shapeidx.go
+++ b/processors/shapeidx.go
@@ -37,13 +37,15 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 			x, y := p[0], p[1]
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -60,8 +62,8 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[*gtfs.Shape]bool, idx.xWidth)
@@ -81,7 +83,7 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 func (gi *ShapeIdx) Add(origShp *gtfs.Shape, shp [][]float64) {
 	for i := 1; i < len(shp); i++ {
 		ax, ay := shp[i-1][0], shp[i-1][1]
-		bx, by := shp[i][0], shp[0][1]
+		bx, by := shp[i][0], shp[i][1]
 		llx := math.Min(ax, bx)
 		lly := math.Min(ay, by)
 		urx := math.Max(ax, bx)
-- 
2.43.0


From dbf29d2565e7f6d8994190ec355ec8a7c03444b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 12/33] fix: snap to the first segment, to single points and
 zero-length measures

---
 processors/shapesnapper.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 33b7f26..3517223 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -74,6 +74,12 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 					Timezone:            st.Stop().Timezone,
 				}
 
+				for k := range feed.StopsAddFlds {
+					if v, ok := feed.StopsAddFlds[k][st.Stop().Id]; ok {
+						feed.StopsAddFlds[k][newId] = v
+					}
+				}
+
 				feed.Stops[newId] = &newStop
 				t.StopTimes[i].SetStop(&newStop)
 			}
@@ -88,10 +94,17 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape) (float64, float64) {
 	shp := sm.mercs[shape]
 
-	if float64(distT) != math.NaN() {
-		for i := 1; i < len(shape.Points); i++ {
+	if len(shp) == 1 {
+		return shp[0][0], shp[0][1]
+	}
+
+	if !math.IsNaN(float64(distT)) {
+		for i := 0; i < len(shape.Points); i++ {
 			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT {
-				d := (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
+				d := float32(0)
+				if shape.Points[i+1].Dist_traveled > shape.Points[i].Dist_traveled {
+					d = (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
+				}
 
 				dx := shp[i+1][0] - shp[i][0]
 				dy := shp[i+1][1] - shp[i][1]
-- 
2.43.0


From 61bb4f637327e126d1d3b7a98fcce2d5dc3f55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 13/33] fix: ignore children without coordinates when averaging
 stations

---
 processors/parentaverager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/parentaverager.go b/processors/parentaverager.go
index a00ee93..0d5cf13 100644
--- a/processors/parentaverager.go
+++ b/processors/parentaverager.go
@@ -32,7 +32,7 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 
 	// collect childs
 	for _, s := range feed.Stops {
-		if s.Parent_station != nil {
+		if s.Parent_station != nil && s.HasLatLon() {
 			parentChilds[s.Parent_station] = append(parentChilds[s.Parent_station], s)
 		}
 	}
-- 
2.43.0


From e8b28dab1d36a4bd8c776ef093230471396982f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 14/33] fix: keep remeasured stop times non-decreasing

---
 processors/stoptimeremeasurer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/processors/stoptimeremeasurer.go b/processors/stoptimeremeasurer.go
index 1c7e45b..ac7477e 100644
--- a/processors/stoptimeremeasurer.go
+++ b/processors/stoptimeremeasurer.go
@@ -364,7 +364,11 @@ func (s *StopTimeRemeasurer) remeasure(trip *gtfs.Trip) bool {
 
 		c := cands[i][chosen]
 
-		newDist := trip.Shape.Points[c.Seg].Dist_traveled + float32(float64(trip.Shape.Points[c.Seg + 1].Dist_traveled - trip.Shape.Points[c.Seg].Dist_traveled) * c.Progr)
+		segStart := float64(trip.Shape.Points[c.Seg].Dist_traveled)
+		segEnd := float64(trip.Shape.Points[c.Seg + 1].Dist_traveled)
+
+		// round only once, so that the measurements of subsequent stop times never decrease
+		newDist := float32(segStart + (segEnd - segStart) * c.Progr)
 		trip.StopTimes[i].SetShape_dist_traveled(newDist)
 
 		// if i != len(trip.StopTimes) -1 && trip.StopTimes[i].Shape_dist_traveled() > trip.StopTimes[i+1].Shape_dist_traveled() {
-- 
2.43.0


From b541d5ed0fcb649ecb8152fcb8f053fbf49cbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 15/33] fix: merge duplicate stops with equal URLs

---
 processors/stopduplicateremover.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 306d8a3..7116bdb 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -399,7 +399,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 			((distSApprox(a, b) <= sdr.DistThresholdStop/2 && parentsEqual) || a.Name == b.Name) &&
 			a.Desc == b.Desc &&
 			a.Zone_id == b.Zone_id &&
-			(a.Url == b.Url || a.Url == nil || b.Url == nil) &&
+			(a.Url == nil || b.Url == nil || a.Url.String() == b.Url.String()) &&
 			a.Location_type == b.Location_type &&
 			a.Parent_station == b.Parent_station &&
 			a.Timezone.Equals(b.Timezone) &&
@@ -413,7 +413,7 @@ func (sdr StopDuplicateRemover) stopEquals(a *gtfs.Stop, b *gtfs.Stop, feed *gtf
 		a.Name == b.Name &&
 		a.Desc == b.Desc &&
 		a.Zone_id == b.Zone_id &&
-		a.Url == b.Url &&
+		(a.Url == b.Url || (a.Url != nil && b.Url != nil && a.Url.String() == b.Url.String())) &&
 		a.Location_type == b.Location_type &&
 		a.Parent_station == b.Parent_station &&
 		a.Timezone.Equals(b.Timezone) &&
-- 
2.43.0


From 145f570ea7d65b672d7a1e7f48872050c8b9415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 16/33] fix: keep all departures and references when searching
 for frequencies

---
 processors/frequencyminizer.go | 103 +++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 30 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 4dcfbf0..05d80b7 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -73,6 +73,17 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 		tripsSl[t.Route][t.Service] = append(tripsSl[t.Route][t.Service], t)
 	}
 
+	// trips used in transfers must keep their ID
+	transferTrips := make(map[*gtfs.Trip]empty, 0)
+	for tk := range feed.Transfers {
+		if tk.From_trip != nil {
+			transferTrips[tk.From_trip] = empty{}
+		}
+		if tk.To_trip != nil {
+			transferTrips[tk.To_trip] = empty{}
+		}
+	}
+
 	curAt := 0
 	for _, t := range feed.Trips {
 		curAt++
@@ -84,8 +95,12 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
+		if _, contained := transferTrips[t]; contained {
+			continue
+		}
+
 		// trips time-independent equal to the current trip
-		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], feed)
+		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], processed, transferTrips, feed)
 		for _, t := range eqs.trips {
 			processed[t.Trip] = empty{}
 		}
@@ -173,6 +188,14 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 					* we can assume that progressions with 1 match are only
 					* contained in single-progression-packs
 					 */
+					if f := eqs.trips[p.matches[0]].sourceFreq; f != nil && !f.Exact_times {
+						// keep the information that the times are not exact
+						a := new(gtfs.Frequency)
+						a.Start_time = eqs.trips[p.matches[0]].t
+						a.End_time = m.getGtfsTimeFromSec(a.Start_time.SecondsSinceMidnight() + f.Headway_secs)
+						a.Headway_secs = f.Headway_secs
+						*curTrip.Frequencies = append(*curTrip.Frequencies, a)
+					}
 					continue
 				}
 				if smallestStartTime.SecondsSinceMidnight() > eqs.trips[p.matches[0]].t.SecondsSinceMidnight() {
@@ -386,7 +409,7 @@ func (m FrequencyMinimizer) getPossibleFreqs(tws tripWrappers) map[int]empty {
 }
 
 // Get trips that are equal to trip without considering the absolute time values
-func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, feed *gtfsparser.Feed) tripWrappers {
+func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, processed map[*gtfs.Trip]empty, transferTrips map[*gtfs.Trip]empty, feed *gtfsparser.Feed) tripWrappers {
 	ret := tripWrappers{make([]tripWrapper, 0), make(map[*gtfs.Trip]empty, 0)}
 
 	chunks := MaxParallelism()
@@ -399,10 +422,18 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 			for i := workload * j; i < workload*(j+1) && i < len(trips); i++ {
 				t := trips[i]
 
+				if _, in := processed[t]; in {
+					continue
+				}
+
+				if _, in := transferTrips[t]; in {
+					continue
+				}
+
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Arrival_time(), false, nil})
+						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Departure_time(), false, nil})
 						ret.coveredTrips[t] = empty{}
 						mutex.Unlock()
 					} else {
@@ -413,6 +444,10 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 								ret.trips = append(ret.trips, tripWrapper{t, m.getGtfsTimeFromSec(s), false, f})
 								ret.coveredTrips[t] = empty{}
 								mutex.Unlock()
+
+								if f.Headway_secs <= 0 {
+									break
+								}
 							}
 						}
 					}
@@ -443,27 +478,34 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 			break
 		}
 	}
-	return addFldsEq && a.Route == b.Route && a.Service == b.Service && a.Headsign == b.Headsign &&
-		a.Short_name == b.Short_name && a.Direction_id == b.Direction_id && a.Block_id == b.Block_id &&
+	return addFldsEq && m.hasNoAttributions(a) && m.hasNoAttributions(b) && a.Route == b.Route && a.Service == b.Service &&
+		m.stringEquals(a.Headsign, b.Headsign) && m.stringEquals(a.Short_name, b.Short_name) && a.Direction_id == b.Direction_id && a.Block_id == b.Block_id &&
 		a.Shape == b.Shape && a.Wheelchair_accessible == b.Wheelchair_accessible &&
 		a.Bikes_allowed == b.Bikes_allowed && m.hasSameRelStopTimes(a, b, feed)
 }
 
+// Check if two optional strings are equal
+func (m FrequencyMinimizer) stringEquals(a *string, b *string) bool {
+	return a == b || (a != nil && b != nil && *a == *b)
+}
+
+// Check if a trip has no attributions
+func (m FrequencyMinimizer) hasNoAttributions(t *gtfs.Trip) bool {
+	return t.Attributions == nil || len(*t.Attributions) == 0
+}
+
 // Remeasure a trips stop times by taking their relative values and changing the sequence to
-// start with time
+// depart from the first stop at time
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
-	diff := 0
-	curArrDepDiff := 0
-	for i := 0; i < len(t.StopTimes); i++ {
-		curArrDepDiff = t.StopTimes[i].Departure_time().SecondsSinceMidnight() - t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
-		oldArrT := t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
+	diff := time.SecondsSinceMidnight() - t.StopTimes[0].Departure_time().SecondsSinceMidnight()
 
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff))
-		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff + curArrDepDiff))
-
-		if i < len(t.StopTimes)-1 {
-			diff += t.StopTimes[i+1].Arrival_time().SecondsSinceMidnight() - oldArrT
+	for i := 0; i < len(t.StopTimes); i++ {
+		if t.StopTimes[i].Arrival_time().Empty() || t.StopTimes[i].Departure_time().Empty() {
+			continue
 		}
+
+		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(imax(0, t.StopTimes[i].Arrival_time().SecondsSinceMidnight()+diff)))
+		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(t.StopTimes[i].Departure_time().SecondsSinceMidnight() + diff))
 	}
 }
 
@@ -479,36 +521,37 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		return true
 	}
 
-	var aPrev *gtfs.StopTime
-	var bPrev *gtfs.StopTime
+	aStart := a.StopTimes[0].Departure_time()
+	bStart := b.StopTimes[0].Departure_time()
 
 	for i := range a.StopTimes {
 		addFldsEq := true
 
 		for _, v := range feed.StopTimesAddFlds {
-			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][a.StopTimes[i].Sequence()] {
+			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][b.StopTimes[i].Sequence()] {
 				addFldsEq = false
 				break
 			}
 		}
 
 		if !(addFldsEq && a.StopTimes[i].Stop() == b.StopTimes[i].Stop() &&
-			a.StopTimes[i].Headsign() == b.StopTimes[i].Headsign() &&
+			m.stringEquals(a.StopTimes[i].Headsign(), b.StopTimes[i].Headsign()) &&
 			a.StopTimes[i].Pickup_type() == b.StopTimes[i].Pickup_type() && a.StopTimes[i].Drop_off_type() == b.StopTimes[i].Drop_off_type() && a.StopTimes[i].Continuous_drop_off() == b.StopTimes[i].Continuous_drop_off() && a.StopTimes[i].Continuous_pickup() == b.StopTimes[i].Continuous_pickup() &&
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
 		}
-		if i != 0 {
-			if a.StopTimes[i].Arrival_time().SecondsSinceMidnight()-aPrev.Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Arrival_time().SecondsSinceMidnight()-bPrev.Arrival_time().SecondsSinceMidnight() {
-				return false
-			}
-			if a.StopTimes[i].Departure_time().SecondsSinceMidnight()-aPrev.Departure_time().SecondsSinceMidnight() != b.StopTimes[i].Departure_time().SecondsSinceMidnight()-bPrev.Departure_time().SecondsSinceMidnight() {
-				return false
-			}
+		if !m.relTimeEquals(a.StopTimes[i].Arrival_time(), aStart, b.StopTimes[i].Arrival_time(), bStart) ||
+			!m.relTimeEquals(a.StopTimes[i].Departure_time(), aStart, b.StopTimes[i].Departure_time(), bStart) {
+			return false
 		}
-
-		aPrev = &a.StopTimes[i]
-		bPrev = &b.StopTimes[i]
 	}
 	return true
 }
+
+// true if time a relative to aStart is equal to time b relative to bStart
+func (m FrequencyMinimizer) relTimeEquals(a gtfs.Time, aStart gtfs.Time, b gtfs.Time, bStart gtfs.Time) bool {
+	if a.Empty() || b.Empty() {
+		return a.Empty() && b.Empty()
+	}
+	return a.Minus(aStart) == b.Minus(bStart)
+}
-- 
2.43.0


From 366d6bfe0623453dbd17917b20ddf2d60e10a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 17/33] fix: keep transfers, attributions and directions when
 merging trips

Transfers of merged trips were dropped, the attributions of trips whose
service was emptied by overlaps got lost, trips of opposite directions were
merged, and comparing empty services in fuzzy mode panicked.
---
 processors/tripduplicateremover.go | 51 ++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a62ecaa..c268058 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -28,6 +28,7 @@ type TripDuplicateRemover struct {
 	serviceList map[*gtfs.Service][]uint64
 	refDate     time.Time
 	serviceRefs map[*gtfs.Service]int
+	mergedInto  map[*gtfs.Trip]*gtfs.Trip
 }
 
 type Overlap struct {
@@ -77,6 +78,7 @@ func (m TripDuplicateRemover) Run(feed *gtfsparser.Feed) {
 	}
 
 	m.serviceList = make(map[*gtfs.Service][]uint64)
+	m.mergedInto = make(map[*gtfs.Trip]*gtfs.Trip)
 
 	// infinity time
 	m.refDate = time.Unix(1<<63-62135596801, 999999999)
@@ -106,6 +108,9 @@ func (m TripDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	// move transfers of merged trips
+	m.moveTransfers(feed)
+
 	// delete transfers
 	feed.CleanTransfers()
 
@@ -114,6 +119,37 @@ func (m TripDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		100.0*float64(bef-len(feed.Trips))/(float64(bef)+0.001))
 }
 
+// Move the transfers of merged trips to the trips they were merged into
+func (m *TripDuplicateRemover) moveTransfers(feed *gtfsparser.Feed) {
+	tks := make([]gtfs.TransferKey, 0)
+
+	for tk := range feed.Transfers {
+		if m.mergedInto[tk.From_trip] != nil || m.mergedInto[tk.To_trip] != nil {
+			tks = append(tks, tk)
+		}
+	}
+
+	for _, tk := range tks {
+		tkNew := tk
+
+		for m.mergedInto[tkNew.From_trip] != nil {
+			tkNew.From_trip = m.mergedInto[tkNew.From_trip]
+		}
+
+		for m.mergedInto[tkNew.To_trip] != nil {
+			tkNew.To_trip = m.mergedInto[tkNew.To_trip]
+		}
+
+		if tkNew.From_trip != nil && tkNew.From_trip == tkNew.To_trip && tk.From_trip != tk.To_trip {
+			// was a transfer between two merged trips
+			feed.DeleteTransfer(tk)
+			continue
+		}
+
+		rekeyTransfer(feed, tk, tkNew)
+	}
+}
+
 func (m *TripDuplicateRemover) getParent(stop *gtfs.Stop) *gtfs.Stop {
 	if stop.Location_type == 1 {
 		return stop
@@ -201,6 +237,7 @@ func (m *TripDuplicateRemover) combineAdjTrips(feed *gtfsparser.Feed, ref *gtfs.
 			}
 		}
 
+		m.mergedInto[t] = ref
 		feed.DeleteTrip(t.Id)
 		m.serviceRefs[t.Service]--
 	}
@@ -232,6 +269,7 @@ func (m *TripDuplicateRemover) combineContTrips(feed *gtfsparser.Feed, ref *gtfs
 			}
 		}
 
+		m.mergedInto[t] = ref
 		feed.DeleteTrip(t.Id)
 		m.serviceRefs[t.Service]--
 	}
@@ -287,6 +325,7 @@ func (m *TripDuplicateRemover) combineEqTrips(feed *gtfsparser.Feed, ref *gtfs.T
 			ref.Short_name = t.Short_name
 		}
 
+		m.mergedInto[t] = ref
 		feed.DeleteTrip(t.Id)
 		m.serviceRefs[t.Service]--
 	}
@@ -320,8 +359,7 @@ func (m *TripDuplicateRemover) excludeTrips(feed *gtfsparser.Feed, ref *gtfs.Tri
 
 		// the service is now empty
 		if len(m.serviceList[ref.Service]) == 0 {
-			feed.DeleteTrip(ref.Id)
-			m.serviceRefs[ref.Service]--
+			m.combineContTrips(feed, overlaps[0].Trip, []*gtfs.Trip{ref})
 		}
 	} else {
 		newService := new(gtfs.Service)
@@ -352,8 +390,7 @@ func (m *TripDuplicateRemover) excludeTrips(feed *gtfsparser.Feed, ref *gtfs.Tri
 
 		// the service is empty
 		if len(m.serviceList[newService]) == 0 {
-			feed.DeleteTrip(ref.Id)
-			m.serviceRefs[ref.Service]--
+			m.combineContTrips(feed, overlaps[0].Trip, []*gtfs.Trip{ref})
 			return
 		}
 
@@ -435,7 +472,7 @@ func (m *TripDuplicateRemover) tripAttrEq(a *gtfs.Trip, b *gtfs.Trip, feed *gtfs
 	}
 
 	return addFldsEq && a.Wheelchair_accessible == b.Wheelchair_accessible &&
-		a.Bikes_allowed == b.Bikes_allowed &&
+		a.Bikes_allowed == b.Bikes_allowed && a.Direction_id == b.Direction_id &&
 		(a.Short_name == b.Short_name || (a.Short_name != nil && b.Short_name != nil && *a.Short_name == *b.Short_name)) &&
 		(a.Headsign == b.Headsign || (m.Fuzzy && (a.Headsign == nil || b.Headsign == nil)) || (a.Headsign != nil && b.Headsign != nil && *a.Headsign == *b.Headsign || (m.Fuzzy && (strings.Contains(*b.Headsign, *a.Headsign) || strings.Contains(*a.Headsign, *b.Headsign))))) &&
 		(a.Block_id == b.Block_id || (a.Block_id != nil && b.Block_id != nil && *a.Block_id == *b.Block_id))
@@ -465,10 +502,6 @@ func (m *TripDuplicateRemover) tripCalEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 		return false
 	}
 
-	if aDList[len(aDList)-1] != bDList[len(bDList)-1] {
-		return false
-	}
-
 	for i, v := range aDList {
 		if v != bDList[i] {
 			return false
-- 
2.43.0


From add0a549d348ccb3d41ba8fe23046ebc61308ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 18/33] fix: restore original IDs of all entities exactly once

Also do not turn empty zones in fare rules into zones named like the prefix.
---
 gtfstidy.go | 130 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 110 insertions(+), 20 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index ec0cce0..12485e5 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -18,10 +18,27 @@ import (
 	"io/ioutil"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 )
 
+// sortedIds returns the keys of a map, the shorter ones first. If prefixes are
+// removed in this order, an ID is already free again if its entity got a shorter one.
+func sortedIds[V any](m map[string]V) []string {
+	ids := make([]string, 0, len(m))
+	for id := range m {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(i, j int) bool {
+		if len(ids[i]) != len(ids[j]) {
+			return len(ids[i]) < len(ids[j])
+		}
+		return ids[i] < ids[j]
+	})
+	return ids
+}
+
 func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
 	outer := make([][2]float64, len(poly[0]))
 	inners := make([][][2]float64, 0)
@@ -530,6 +547,21 @@ func main() {
 		fmt.Fprintln(os.Stdout, "\nYou may want to try running gtfstidy with --fix for error fixing / skipping. See --help for details.")
 		os.Exit(1)
 	} else {
+		// the parser prefixes empty zones in fare rules, too
+		for _, fare := range feed.FareAttributes {
+			for _, rule := range fare.Rules {
+				if prefixes[rule.Origin_id] {
+					rule.Origin_id = ""
+				}
+				if prefixes[rule.Destination_id] {
+					rule.Destination_id = ""
+				}
+				if prefixes[rule.Contains_id] {
+					rule.Contains_id = ""
+				}
+			}
+		}
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
@@ -678,7 +710,8 @@ func main() {
 
 		// restore stop IDs, if requested
 		if *keepStationIds && len(prefixes) > 0 {
-			for id, s := range feed.Stops {
+			for _, id := range sortedIds(feed.Stops) {
+				s := feed.Stops[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -711,31 +744,41 @@ func main() {
 				}
 			}
 
-			for _, s := range feed.Trips {
+			for _, id := range sortedIds(existingBlockIds) {
 				for prefix := range prefixes {
-					if s.Block_id != nil && strings.HasPrefix(*s.Block_id, prefix) {
-						oldId := strings.TrimPrefix(*s.Block_id, prefix)
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
 						if _, ok := existingBlockIds[oldId]; !ok {
-							oldToNewBlockIds[*s.Block_id] = oldId
-							*s.Block_id = oldId
-
-							existingBlockIds[*s.Block_id] = true
-
-						} else if newId, ok := oldToNewBlockIds[*s.Block_id]; ok && newId == oldId {
-							*s.Block_id = oldId
+							oldToNewBlockIds[id] = oldId
+							existingBlockIds[oldId] = true
+							delete(existingBlockIds, id)
 						}
 						break
 					}
 				}
 			}
+
+			for _, t := range feed.Trips {
+				if t.Block_id == nil {
+					continue
+				}
+				if newId, ok := oldToNewBlockIds[*t.Block_id]; ok {
+					t.Block_id = &newId
+				}
+			}
 		}
 
 		// restore agency IDs, if requested
 		if *keepAgencyIds && len(prefixes) > 0 {
-			for id, s := range feed.Agencies {
+			for _, id := range sortedIds(feed.Agencies) {
+				s := feed.Agencies[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
+						if len(oldId) == 0 && len(feed.Agencies) > 1 {
+							// agency IDs are only optional for single agencies
+							break
+						}
 						if _, ok := feed.Agencies[oldId]; !ok {
 							feed.Agencies[oldId] = s
 							feed.Agencies[oldId].Id = oldId
@@ -756,7 +799,8 @@ func main() {
 
 		// restore fare attribute IDs, if requested
 		if *keepFareIds && len(prefixes) > 0 {
-			for id, s := range feed.FareAttributes {
+			for _, id := range sortedIds(feed.FareAttributes) {
+				s := feed.FareAttributes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -785,7 +829,8 @@ func main() {
 
 		// restore service IDs, if requested
 		if *keepServiceIds && len(prefixes) > 0 {
-			for id, s := range feed.Services {
+			for _, id := range sortedIds(feed.Services) {
+				s := feed.Services[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -803,7 +848,8 @@ func main() {
 
 		// restore route IDs, if requested
 		if *keepRouteIds && len(prefixes) > 0 {
-			for id, s := range feed.Routes {
+			for _, id := range sortedIds(feed.Routes) {
+				s := feed.Routes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -827,7 +873,8 @@ func main() {
 
 		// restore shape IDs, if requested
 		if *keepShapeIds && len(prefixes) > 0 {
-			for id, s := range feed.Shapes {
+			for _, id := range sortedIds(feed.Shapes) {
+				s := feed.Shapes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -851,7 +898,8 @@ func main() {
 
 		// restore trip IDs, if requested
 		if *keepTripIds && len(prefixes) > 0 {
-			for id, s := range feed.Trips {
+			for _, id := range sortedIds(feed.Trips) {
+				s := feed.Trips[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -885,7 +933,8 @@ func main() {
 
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
-			for id, s := range feed.Levels {
+			for _, id := range sortedIds(feed.Levels) {
+				s := feed.Levels[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -909,7 +958,8 @@ func main() {
 
 		// restore pathway IDs, if requested
 		if *keepPathwayIds && len(prefixes) > 0 {
-			for id, s := range feed.Pathways {
+			for _, id := range sortedIds(feed.Pathways) {
+				s := feed.Pathways[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -923,7 +973,47 @@ func main() {
 								delete(feed.PathwaysAddFlds[k], id)
 							}
 
-							feed.DeletePathway(id)
+							delete(feed.Pathways, id)
+						}
+						break
+					}
+				}
+			}
+		}
+
+		// restore attribution IDs, if requested
+		if *keepAttributionIds && len(prefixes) > 0 {
+			attrs := make(map[string][]*gtfs.Attribution)
+			collect := func(as []*gtfs.Attribution) {
+				for _, a := range as {
+					if len(a.Id) > 0 {
+						attrs[a.Id] = append(attrs[a.Id], a)
+					}
+				}
+			}
+			collect(feed.Attributions)
+			for _, a := range feed.Agencies {
+				collect(a.Attributions)
+			}
+			for _, r := range feed.Routes {
+				collect(r.Attributions)
+			}
+			for _, t := range feed.Trips {
+				if t.Attributions != nil {
+					collect(*t.Attributions)
+				}
+			}
+
+			for _, id := range sortedIds(attrs) {
+				for prefix := range prefixes {
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
+						if _, ok := attrs[oldId]; !ok {
+							for _, a := range attrs[id] {
+								a.Id = oldId
+							}
+							attrs[oldId] = attrs[id]
+							delete(attrs, id)
 						}
 						break
 					}
-- 
2.43.0


From b1c4f6b2596d4dede4851ac99d245fb900b73037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:05 +0000
Subject: [PATCH 19/33] fix: keep frequencies, attributions and transfers of
 trips split by their dates

Copies of a trip also no longer repeat attribution IDs, and new trips and
services cannot get the same ID anymore.
---
 processors/servicecaldatesremover.go | 64 ++++++++++++++++++++++------
 processors/servicenonoverlapper.go   | 27 +++---------
 processors/util.go                   | 45 +++++++++++++++++++
 3 files changed, 101 insertions(+), 35 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..08916d2 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -20,11 +20,17 @@ type ServiceCalDatesRem struct {
 	ServiceMinimizer
 	tidc uint
 	sidc uint
+	// the ids given to new trips and services
+	tids map[string]bool
+	sids map[string]bool
 }
 
 // Run this ServiceMinimizer on some feed
 func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "Removing calendar_dates.txt entries... ")
+	sm.tids = make(map[string]bool)
+	sm.sids = make(map[string]bool)
+
 	calBefore, datesBefore := sm.countServices(feed)
 
 	newServices := make(map[*gtfs.Service][]*gtfs.Service, 0)
@@ -51,6 +57,7 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 	}
 
 	newTrips := make([]*gtfs.Trip, 0)
+	copies := make(map[*gtfs.Trip][]*gtfs.Trip)
 
 	for _, trip := range feed.Trips {
 		if val, ok := newServices[trip.Service]; ok {
@@ -59,21 +66,16 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 
 			for i := 1; i < len(val); i++ {
 				newTrip := new(gtfs.Trip)
+				*newTrip = *trip
 
 				newTrip.Service = val[i]
-				newTrip.Bikes_allowed = trip.Bikes_allowed
-				newTrip.Block_id = trip.Block_id
-				newTrip.Direction_id = trip.Direction_id
-				newTrip.Headsign = trip.Headsign
-
 				newTrip.Id = sm.freeTripId(feed, trip.Id)
-
-				newTrip.Route = trip.Route
-				newTrip.Shape = trip.Shape
-				newTrip.Short_name = trip.Short_name
-				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
 				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
 
+				copyTripAddFlds(feed, trip.Id, newTrip.Id)
+				copyTripAttributions(feed, newTrip)
+
+				copies[trip] = append(copies[trip], newTrip)
 				newTrips = append(newTrips, newTrip)
 			}
 		}
@@ -81,8 +83,11 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 
 	for _, trip := range newTrips {
 		feed.Trips[trip.Id] = trip
+		feed.NumStopTimes += len(trip.StopTimes)
 	}
 
+	sm.copyTransfers(feed, copies)
+
 	calAfter, datesAfter := sm.countServices(feed)
 
 	datesSign := ""
@@ -204,18 +209,50 @@ func (sm *ServiceCalDatesRem) getBlocks(feed *gtfsparser.Feed, s *gtfs.Service)
 		service.SetStart_date(s.GetFirstDefinedDate())
 		service.SetEnd_date(s.GetLastDefinedDate())
 
-		ret2 = append(ret, service)
+		ret2 = append(ret2, service)
 	}
 
 	return ret2
 }
 
+// copy transfers which reference a trip for the copies of the trip
+func (sm *ServiceCalDatesRem) copyTransfers(feed *gtfsparser.Feed, copies map[*gtfs.Trip][]*gtfs.Trip) {
+	tks := make([]gtfs.TransferKey, 0)
+
+	for tk := range feed.Transfers {
+		if len(copies[tk.From_trip]) > 0 || len(copies[tk.To_trip]) > 0 {
+			tks = append(tks, tk)
+		}
+	}
+
+	for _, tk := range tks {
+		froms := append([]*gtfs.Trip{tk.From_trip}, copies[tk.From_trip]...)
+		tos := append([]*gtfs.Trip{tk.To_trip}, copies[tk.To_trip]...)
+
+		for _, from := range froms {
+			for _, to := range tos {
+				tkNew := tk
+				tkNew.From_trip = from
+				tkNew.To_trip = to
+				feed.Transfers[tkNew] = feed.Transfers[tk]
+
+				for k := range feed.TransfersAddFlds {
+					if v, ok := feed.TransfersAddFlds[k][tk]; ok {
+						feed.TransfersAddFlds[k][tkNew] = v
+					}
+				}
+			}
+		}
+	}
+}
+
 // get a free trip id with the given prefix
 func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) string {
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
 		tid := prefix + fmt.Sprint(sm.tidc)
-		if _, ok := feed.Trips[tid]; !ok {
+		if _, ok := feed.Trips[tid]; !ok && !sm.tids[tid] {
+			sm.tids[tid] = true
 			return tid
 		}
 	}
@@ -227,7 +264,8 @@ func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
 		sid := prefix + fmt.Sprint(sm.sidc)
-		if _, ok := feed.Services[sid]; !ok {
+		if _, ok := feed.Services[sid]; !ok && !sm.sids[sid] {
+			sm.sids[sid] = true
 			return sid
 		}
 	}
diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 464adef..53244b0 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -160,7 +160,11 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				feed.Trips[newt.Id] = &newt
 				newTrips[trip] = append(newTrips[trip], &newt)
 
-				sm.copyAddFlds(feed, trip, &newt)
+				copyTripAddFlds(feed, trip.Id, newt.Id)
+
+				if len(newTrips[trip]) > 1 {
+					copyTripAttributions(feed, &newt)
+				}
 			}
 		}
 	}
@@ -178,27 +182,6 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
 
-// copyAddFlds copies the additional fields of a trip to its copy
-func (sm ServiceNonOverlapper) copyAddFlds(feed *gtfsparser.Feed, trip *gtfs.Trip, newt *gtfs.Trip) {
-	for k := range feed.TripsAddFlds {
-		if v, ok := feed.TripsAddFlds[k][trip.Id]; ok {
-			feed.TripsAddFlds[k][newt.Id] = v
-		}
-	}
-
-	for k := range feed.StopTimesAddFlds {
-		if v, ok := feed.StopTimesAddFlds[k][trip.Id]; ok {
-			feed.StopTimesAddFlds[k][newt.Id] = v
-		}
-	}
-
-	for k := range feed.FrequenciesAddFlds {
-		if v, ok := feed.FrequenciesAddFlds[k][trip.Id]; ok {
-			feed.FrequenciesAddFlds[k][newt.Id] = v
-		}
-	}
-}
-
 // updateTransfers replaces transfers which reference old trips by transfers
 // which reference the new trips. As the new services do not overlap, transfers
 // between two trips are only possible between trips of the same new service.
diff --git a/processors/util.go b/processors/util.go
index ab8afa2..ecfde56 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -339,3 +339,48 @@ func rekeyTransfer(feed *gtfsparser.Feed, tk gtfs.TransferKey, tkNew gtfs.Transf
 
 	feed.DeleteTransfer(tk)
 }
+
+// copyTripAddFlds copies the additional fields of a trip to its copy
+func copyTripAddFlds(feed *gtfsparser.Feed, id string, newId string) {
+	for k := range feed.TripsAddFlds {
+		if v, ok := feed.TripsAddFlds[k][id]; ok {
+			feed.TripsAddFlds[k][newId] = v
+		}
+	}
+
+	for k := range feed.StopTimesAddFlds {
+		if v, ok := feed.StopTimesAddFlds[k][id]; ok {
+			feed.StopTimesAddFlds[k][newId] = v
+		}
+	}
+
+	for k := range feed.FrequenciesAddFlds {
+		if v, ok := feed.FrequenciesAddFlds[k][id]; ok {
+			feed.FrequenciesAddFlds[k][newId] = v
+		}
+	}
+}
+
+// copyTripAttributions gives the copy of a trip its own attributions, without
+// IDs, as these have to be unique
+func copyTripAttributions(feed *gtfsparser.Feed, t *gtfs.Trip) {
+	if t.Attributions == nil {
+		return
+	}
+
+	attrs := make([]*gtfs.Attribution, 0, len(*t.Attributions))
+
+	for _, a := range *t.Attributions {
+		newAttr := *a
+		newAttr.Id = ""
+		attrs = append(attrs, &newAttr)
+
+		for k := range feed.AttributionsAddFlds {
+			if v, ok := feed.AttributionsAddFlds[k][a]; ok {
+				feed.AttributionsAddFlds[k][&newAttr] = v
+			}
+		}
+	}
+
+	t.Attributions = &attrs
+}
-- 
2.43.0


From 611d9f2ac714adeea7cc29d9a2e2b6c142eb231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 20/33] fix: measure the speed of trips only between stops with
 times

Stops without times counted as simultaneous, so slow trips were dropped, or
reset the measurement, so that too fast trips were kept. Also measure from the
first stop.
---
 processors/toofasttripremover.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 13c0c78..6a5a278 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -34,6 +34,11 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		for i := 1; i < len(t.StopTimes); i++ {
 			dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+			if t.StopTimes[i].Arrival_time().Empty() {
+				// no time known here
+				continue
+			}
+
 			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
 
 			speed := 0.0
@@ -99,11 +104,20 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for j := 1; j < len(t.StopTimes); j++ {
+		for j := 0; j < len(t.StopTimes); j++ {
+			if t.StopTimes[j].Departure_time().Empty() {
+				// no time known here
+				continue
+			}
+
 			dist := 0.0
 			for i := j + 1; i < len(t.StopTimes); i++ {
 				dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+				if t.StopTimes[i].Arrival_time().Empty() {
+					continue
+				}
+
 				inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - t.StopTimes[j].Departure_time().SecondsSinceMidnight()
 
 				speed := 0.0
-- 
2.43.0


From c6f92cc215992c805913a5db916a3f7e91d09a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 21/33] fix: keep stations, fares and pathways in the filter
 for complete trips

---
 processors/completegeotripsfilter.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..05f31b9 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -23,12 +23,20 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 	usedstops := make(map[*gtfs.Stop]bool, 0)
 
 	for _, s := range feed.Stops {
+		// stops without coordinates are where their parent is
+		pos := s
+		for pos != nil && !pos.HasLatLon() {
+			pos = pos.Parent_station
+		}
+		if pos == nil {
+			continue
+		}
+
 		for _, poly := range f.Polygons {
-			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
+			if poly.PolyContains(float64(pos.Lon), float64(pos.Lat)) {
 				filterstops[s] = true
-				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				for ; s != nil; s = s.Parent_station {
+					usedstops[s] = true
 				}
 				break
 			}
@@ -48,9 +56,8 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 			feed.DeleteTrip(id)
 		} else {
 			for _, st := range t.StopTimes {
-				usedstops[st.Stop()] = true
-				if st.Stop().Parent_station != nil {
-					usedstops[st.Stop().Parent_station] = true
+				for s := st.Stop(); s != nil; s = s.Parent_station {
+					usedstops[s] = true
 				}
 			}
 		}
@@ -76,7 +83,10 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			delete(feed.Pathways, p.Id)
+			for k := range feed.PathwaysAddFlds {
+				delete(feed.PathwaysAddFlds[k], p.Id)
+			}
 		}
 
 		feed.DeleteStop(s.Id)
-- 
2.43.0


From 7f5f3b10f04076c9af13b2b57d1204d43ab44a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:51 +0000
Subject: [PATCH 22/33] fix: average stations from the original positions of
 their children

---
 processors/parentaverager.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/processors/parentaverager.go b/processors/parentaverager.go
index 0d5cf13..c7930b5 100644
--- a/processors/parentaverager.go
+++ b/processors/parentaverager.go
@@ -37,6 +37,10 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	// new positions, only set after all parents have been checked, as a parent
+	// may itself be a child
+	moved := make(map[*gtfs.Stop][2]float32)
+
 	for p, childs := range parentChilds {
 		avgLat := 0.0
 		avgLon := 0.0
@@ -62,8 +66,7 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 			}
 
 			if allOkay {
-				p.Lat = float32(avgLat)
-				p.Lon = float32(avgLon)
+				moved[p] = [2]float32{float32(avgLat), float32(avgLon)}
 				fixed +=1;
 			} else {
 				remain +=1;
@@ -71,5 +74,10 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	for p, pos := range moved {
+		p.Lat = pos[0]
+		p.Lon = pos[1]
+	}
+
 	fmt.Fprintf(os.Stdout, "done. (%d stations fixed, %d stations remain)\n", fixed, remain)
 }
-- 
2.43.0


From 972249c383fd4d63e4a670511018ceef00160b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 23/33] fix: exit with an error status after an unexpected
 error

---
 gtfstidy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 12485e5..5a05d41 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -229,6 +229,7 @@ func main() {
 	defer func() {
 		if r := recover(); r != nil {
 			fmt.Fprintln(os.Stderr, "Error:", r)
+			os.Exit(1)
 		}
 	}()
 
-- 
2.43.0


From c29853f3d507122bccad3f6e9018f415b8b77b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 24/33] fix: reject unusable MOT and bounding box filters, skip
 GeoJSON features without geometry

---
 gtfstidy.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 5a05d41..67f23dc 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -242,7 +242,7 @@ func main() {
 			if len(s) == 0 {
 				continue
 			}
-			i, err := strconv.Atoi(s)
+			i, err := strconv.ParseInt(s, 10, 16)
 
 			if err != nil {
 				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
@@ -258,7 +258,7 @@ func main() {
 			if len(s) == 0 {
 				continue
 			}
-			i, err := strconv.Atoi(s)
+			i, err := strconv.ParseInt(s, 10, 16)
 
 			if err != nil {
 				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
@@ -354,6 +354,10 @@ func main() {
 			}
 
 			for _, feature := range fc1.Features {
+				if feature.Geometry == nil {
+					// unlocated feature
+					continue
+				}
 				if feature.Geometry.IsMultiPolygon() {
 					for _, poly := range feature.Geometry.MultiPolygon {
 						polys = append(polys, getGtfsPoly(poly))
@@ -412,6 +416,12 @@ func main() {
 			}
 		}
 
+		if len(bbox) > 0 && len(bbox) != 2 {
+			fmt.Fprintf(os.Stderr, "\nCould not parse bounding box filter: ")
+			fmt.Fprintf(os.Stderr, "expected 2 coordinates, found %d.\n", len(bbox))
+			os.Exit(1)
+		}
+
 		if len(bbox) == 2 {
 			poly := make([][2]float64, 4)
 
-- 
2.43.0


From 9a35479e7f068f8df164dd1ceb35b6dca6d95164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 25/33] fix: remove transfers and services that date and MOT
 filters leave dangling

---
 gtfstidy.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 67f23dc..5a10556 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -573,6 +573,19 @@ func main() {
 			}
 		}
 
+		// the parser keeps transfers between trips it has filtered out, and
+		// services without any date left
+		feed.CleanTransfers()
+		usedServices := make(map[*gtfs.Service]bool)
+		for _, t := range feed.Trips {
+			usedServices[t.Service] = true
+		}
+		for id, s := range feed.Services {
+			if !usedServices[s] && s.IsEmpty() && s.Start_date().IsEmpty() && s.End_date().IsEmpty() {
+				feed.DeleteService(id)
+			}
+		}
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
-- 
2.43.0


From 4e76a224d73414b57c4bb75578e28254e967a01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 26/33] fix: reject a start date filter after the end date
 filter

---
 gtfstidy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 5a10556..d7e1782 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -279,6 +279,10 @@ func main() {
 		endDate = parseDate(*endDateFilter)
 	}
 
+	if !startDate.IsEmpty() && !endDate.IsEmpty() && startDate.GetTime().After(endDate.GetTime()) {
+		panic(fmt.Errorf("start date filter %s is after end date filter %s", *startDateFilter, *endDateFilter))
+	}
+
 	if *keepIds {
 		*keepStationIds = true
 		*keepFareIds = true
-- 
2.43.0


From 85ecb0b5d243cc8592cab14f767633b916612162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 27/33] fix: empty feed info dates that fell back to an invalid
 date

---
 gtfstidy.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index d7e1782..05561e2 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -577,6 +577,15 @@ func main() {
 			}
 		}
 
+		// invalid feed dates fall back to a value that is no date either
+		for _, fi := range feed.FeedInfos {
+			for _, d := range []*gtfs.Date{&fi.Start_date, &fi.End_date} {
+				if d.Day() < 1 || d.Day() > 31 || d.Month() < 1 || d.Month() > 12 {
+					*d = gtfs.Date{}
+				}
+			}
+		}
+
 		// the parser keeps transfers between trips it has filtered out, and
 		// services without any date left
 		feed.CleanTransfers()
-- 
2.43.0


From f198787c8d1bf7f2a784095834f795d1df48c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 28/33] fix: drop erroneous fares without an agency among
 several

---
 gtfstidy.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 05561e2..d44ef83 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -586,6 +586,15 @@ func main() {
 			}
 		}
 
+		// among several agencies, a fare without an agency is erroneous
+		if *dropErroneousEntities && len(feed.Agencies) > 1 {
+			for id, fare := range feed.FareAttributes {
+				if fare.Agency == nil {
+					feed.DeleteFareAttribute(id)
+				}
+			}
+		}
+
 		// the parser keeps transfers between trips it has filtered out, and
 		// services without any date left
 		feed.CleanTransfers()
-- 
2.43.0


From cb7f2c341cdfb961a59d159cd0917048953b36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 29/33] fix: drop stops left in a stop that was dropped as
 erroneous

---
 gtfstidy.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index d44ef83..393df45 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -116,6 +116,50 @@ func parseCoords(s string) ([][2]float64, error) {
 	return ret, nil
 }
 
+// dropOrphanedStops cleans up stops with a parent that is not in the feed. If
+// useDefault is set, stops which don't require a parent are kept without one.
+func dropOrphanedStops(feed *gtfsparser.Feed, useDefault bool) {
+	dropped := make(map[*gtfs.Stop]bool)
+
+	for n := -1; n != len(dropped); {
+		n = len(dropped)
+		for id, s := range feed.Stops {
+			if s.Parent_station == nil || feed.Stops[s.Parent_station.Id] == s.Parent_station {
+				continue
+			}
+			if useDefault && s.Location_type < 2 {
+				s.Parent_station = nil
+				continue
+			}
+			dropped[s] = true
+			feed.DeleteStop(id)
+		}
+	}
+
+	if len(dropped) == 0 {
+		return
+	}
+
+	for _, t := range feed.Trips {
+		kept := make(gtfs.StopTimes, 0, len(t.StopTimes))
+		for _, st := range t.StopTimes {
+			if !dropped[st.Stop()] {
+				kept = append(kept, st)
+			}
+		}
+		t.StopTimes = kept
+	}
+
+	for id, p := range feed.Pathways {
+		if dropped[p.From_stop] || dropped[p.To_stop] {
+			delete(feed.Pathways, id)
+			for k := range feed.PathwaysAddFlds {
+				delete(feed.PathwaysAddFlds[k], id)
+			}
+		}
+	}
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "gtfstidy - (C) 2016-2023 by Patrick Brosi <info@patrickbrosi.de>\n\nUsage:\n\n  %s [<options>] [-o <outputfile>] <input GTFS>\n\nAllowed options:\n\n", os.Args[0])
@@ -595,6 +639,12 @@ func main() {
 			}
 		}
 
+		// depending on the order of the parents, stops within a stop that was
+		// dropped because of its parent may be left
+		if *dropErroneousEntities {
+			dropOrphanedStops(feed, *useDefaultValuesOnError)
+		}
+
 		// the parser keeps transfers between trips it has filtered out, and
 		// services without any date left
 		feed.CleanTransfers()
-- 
2.43.0


From aa5e2328ac9b07aabd835b09d6f02b3d83afa2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 30/33] fix: service minimizer: weekday pattern does not bound
 exceptions beyond the calendar range

---
 processors/serviceminimizer.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 920559a..b6a6a75 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -151,10 +151,24 @@ func (sm ServiceMinimizer) perfectMinimize(service *gtfs.Service) {
 	startDiff := int(startTimeAm.Sub(startTime).Hours() / 24)
 	endDiff := int(startTimeAm.Sub(endTime).Hours() / 24)
 
+	// the weekday map only holds within the range of the calendar
+	calStart := int(service.Start_date().GetTime().Sub(startTimeAm).Hours() / 24)
+	calEnd := int(service.End_date().GetTime().Sub(startTimeAm).Hours() / 24)
+
 out:
 	for a := 0; a < l; a = a + 7 {
 		for b := l - 1; b > a; b = b - 7 {
-			fullWeekCoverage := ((b - a) - 7) / 7
+			from, to := a, b
+			if calStart > from {
+				from = calStart
+			}
+			if calEnd < to {
+				to = calEnd
+			}
+			fullWeekCoverage := 0
+			if to >= from {
+				fullWeekCoverage = (to - from + 1) / 7
+			}
 			for d := uint(1); d < 128; d++ {
 				minExc := fullWeekCoverage*daysNotMatched[d] - len(service.Exceptions())
 
-- 
2.43.0


From 127d51677bf1c6deb28a59912dc12dd92e293efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 31/33] fix: a station made by -E took attributes its stops do
 not agree on, depending on their order

---
 processors/stopreclusterer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index f3e8f4e..81e085c 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -298,6 +298,9 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	ret.Timezone, _ = gtfs.NewTimezone("")
 	ret.Url = nil
 
+	// attributes on which the stops do not agree are left empty
+	wheelchairDiffers, urlDiffers, tzDiffers := false, false, false
+
 	for _, st := range stops {
 		if hasCoords(st) {
 			avgLat += st.Lat
@@ -305,22 +308,25 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 			numCoords++
 		}
 
-		if ret.Wheelchair_boarding == 0 && st.Wheelchair_boarding != 0 {
+		if ret.Wheelchair_boarding == 0 && st.Wheelchair_boarding != 0 && !wheelchairDiffers {
 			ret.Wheelchair_boarding = st.Wheelchair_boarding
 		} else if ret.Wheelchair_boarding != 0 && st.Wheelchair_boarding != ret.Wheelchair_boarding {
 			ret.Wheelchair_boarding = 0
+			wheelchairDiffers = true
 		}
 
-		if ret.Url == nil && st.Url != nil {
+		if ret.Url == nil && st.Url != nil && !urlDiffers {
 			ret.Url = st.Url
 		} else if ret.Url != nil && st.Url != nil && st.Url.String() != ret.Url.String() {
 			ret.Url = nil
+			urlDiffers = true
 		}
 
-		if ret.Timezone.GetTzString() == "" && st.Timezone.GetTzString() != "" {
+		if ret.Timezone.GetTzString() == "" && st.Timezone.GetTzString() != "" && !tzDiffers {
 			ret.Timezone = st.Timezone
 		} else if ret.Timezone.GetTzString() != "" && st.Timezone.GetTzString() != ret.Timezone.GetTzString() {
 			ret.Timezone, _ = gtfs.NewTimezone("")
+			tzDiffers = true
 		}
 	}
 
-- 
2.43.0


From 5bd9c49fd9f72f48a1206f7161d6871b0e5b96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 32/33] fix: -O left routes, stops and shapes only used by
 trips --non-overlapping-services removed

---
 gtfstidy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 393df45..7a66a4f 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -775,6 +775,11 @@ func main() {
 
 		if *nonOverlappingServices {
 			minzers = append(minzers, processors.ServiceNonOverlapper{DayNames: []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}, YearWeekName: "WW"})
+
+			// trips without any day are gone and may have left orphans
+			if *useOrphanDeleter {
+				minzers = append(minzers, processors.OrphanRemover{})
+			}
 		}
 
 		if *useServiceMinimizer {
-- 
2.43.0


From bf7f258a144952ab873551074f16b60deaf925ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 33/33] fix: --complete-filtered-trips without an area removed
 all trips and stops

---
 gtfstidy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 7a66a4f..6776f2b 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -664,7 +664,8 @@ func main() {
 			minzers = append(minzers, processors.TooFastTripRemover{})
 		}
 
-		if *polygonFilterCompleteTrips {
+		// without an area, there is nothing to filter
+		if *polygonFilterCompleteTrips && len(polys) > 0 {
 			minzers = append(minzers, processors.CompleteTripsGeoFilter{Polygons: polys})
 		}
 
-- 
2.43.0


From 622a9eb84262e67fb89ceb8bbfa86abdfc6eb0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 01/45] fix: do not deadlock selecting series by a matcher that
 matches the empty string

---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..8477d27 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -199,7 +199,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From 143607b4108c9e447bd14e85a3ea6f807817f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 02/45] fix: keep samples that arrive out of order sorted by
 timestamp

---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 8477d27..aeca45a 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From b8205e24d59443b8336d6dbf3fbdaac6550bff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 03/45] fix: forget series whose samples have all expired so
 that they can come back

---
 promq/prom/query.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index aeca45a..240d502 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -130,6 +131,12 @@ func (s *rangeStorage) Clean(olderThan int64) {
 	}
 
 	s.postings.Delete(postingsToClean)
+	for ref := range postingsToClean {
+		// forget the series completely, so that it's indexed again if it comes back
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
 	/*
 		// first, find the first timestamp newer than our cutoff
 		startKeeps := sort.Search(len(s.knownTimes), func(ind int) bool {
-- 
2.43.0


From c3608dea3befb04c8e0683ce091353a61880cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 04/45] fix: give every series iterator its own position and
 never seek backwards

---
 promq/prom/query.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 240d502..1ffbc9a 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -287,7 +287,11 @@ type blockSeries struct {
 }
 
 func (s *blockSeries) Iterator() chunkenc.Iterator {
-	return s
+	// each iterator needs its own position
+	return &blockSeries{
+		block: s.block,
+		ind:   -1,
+	}
 }
 func (s *blockSeries) Labels() labels.Labels {
 	return s.block.series
@@ -297,8 +301,13 @@ func (s *blockSeries) Next() bool {
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
-	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
-		return s.block.data[ind].timestamp >= targetTime
+	if s.ind < 0 {
+		s.ind = 0
+	}
+	// never go back to before the current sample
+	start := s.ind
+	s.ind += sort.Search(len(s.block.data)-start, func(ind int) bool {
+		return s.block.data[start+ind].timestamp >= targetTime
 	})
 	return s.ind < len(s.block.data)
 }
-- 
2.43.0


From 857195a724a14aaf4b02e205adce8668b83d8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 05/45] fix: list the label names and values of the series that
 match

---
 promq/prom/query.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 1ffbc9a..349c3eb 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -26,6 +26,8 @@ import (
 	"github.com/prometheus/prometheus/pkg/labels"
 	"github.com/prometheus/prometheus/storage"
 	"github.com/prometheus/prometheus/tsdb/index"
+
+	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
 )
 
 type seriesData struct {
@@ -219,30 +221,39 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 
 func (q *memQuerier) LabelValues(name string, matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
 	// doesn't look like we need to error on missing label from the prom implementations
-	var res []string
-	q.storage.postings.IterValues(name, func(val string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
+	vals := sets.NewString()
+	if len(matchers) == 0 {
+		q.storage.postings.IterValues(name, func(val string) {
+			vals.Insert(val)
+		})
+	} else {
+		series := q.Select(false, nil, matchers...)
+		for series.Next() {
+			if lbls := series.At().Labels(); lbls.Has(name) {
+				vals.Insert(lbls.Get(name))
 			}
 		}
-		res = append(res, val)
-	})
-	return res, nil, nil
+	}
+	return vals.List(), nil, nil
 }
 
 func (q *memQuerier) LabelNames(matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
-	var res []string
-	q.storage.postings.IterNames(func(name string) {
-		for _, matcher := range matchers {
-			if !matcher.Matches(name) {
-				return
+	names := sets.NewString()
+	if len(matchers) == 0 {
+		q.storage.postings.IterNames(func(name string) {
+			names.Insert(name)
+		})
+		// not a real label, just how the list of all series is stored
+		names.Delete(allPostingsKey.Name)
+	} else {
+		series := q.Select(false, nil, matchers...)
+		for series.Next() {
+			for _, lbl := range series.At().Labels() {
+				names.Insert(lbl.Name)
 			}
 		}
-		res = append(res, name)
-	})
-	return res, nil, nil
-
+	}
+	return names.List(), nil, nil
 }
 
 func (q *memQuerier) Close() error {
-- 
2.43.0


From 9b2314ad0232777fde0759580ffdac7ca208f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 06/45] fix: hand out copies of the label values the index
 keeps updating

---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..c37e254 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// the stored set keeps changing, so hand out a copy
+	return sets.NewString(values.UnsortedList()...)
 }
-- 
2.43.0


From 8b71b1666dff285a3b9487b02ba207f4e9b85c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 07/45] fix: give subqueries without a step a default step

---
 promq/prom/multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..662aa20 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -133,6 +133,10 @@ func DefaultEngineOptions(timeout time.Duration, maxSamples int) promql.EngineOp
 	return promql.EngineOpts{
 		Timeout:    timeout, // why? why is this here? THIS IS WHAT CONTEXT IS FOR!
 		MaxSamples: maxSamples,
+		// the engine calls this for subqueries without a step, so it can't be nil
+		NoStepSubqueryIntervalFn: func(int64) int64 {
+			return time.Minute.Milliseconds()
+		},
 		// TODO(sollyross): anything else
 	}
 }
-- 
2.43.0


From 4e9f67be82ec7802a789c96ddd0f13e28c723588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 08/45] fix: ignore blanks before a metric name

---
 promq/prom/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/promq/prom/parse.go b/promq/prom/parse.go
index bb2ec2e..176db3a 100644
--- a/promq/prom/parse.go
+++ b/promq/prom/parse.go
@@ -18,6 +18,7 @@ package prom
 
 import (
 	"io"
+	"strings"
 	"time"
 
 	"github.com/prometheus/prometheus/pkg/labels"
@@ -57,6 +58,12 @@ func ParseTextDataWithAdditionalLabels(data []byte, nowish time.Time, ls map[str
 			var res labels.Labels
 
 			p.Metric(&res)
+			for i := range res {
+				if res[i].Name == labels.MetricName {
+					// the parser leaves any leading blanks of the line in the name
+					res[i].Value = strings.TrimLeft(res[i].Value, " \t")
+				}
+			}
 			var timestamp int64
 			if optTimestamp != nil {
 				timestamp = *optTimestamp
-- 
2.43.0


From 55409e99c0df1a908b265291afdcb0943c18fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 09/45] fix: guard the query and the stored data while a query
 is executed

---
 promq/prom/multi.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 662aa20..95b24ae 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -76,16 +76,16 @@ func (q *PeriodicData) SetQuery(ctx context.Context, query string) error {
 }
 
 func (q *PeriodicData) Scrape(ctx context.Context) error {
-	q.storageMu.Lock()
-	defer q.storageMu.Unlock()
 	data, err := q.source.ScrapePrometheusEndpoint(ctx, time.Now())
 	if err != nil {
 		return fmt.Errorf("unable to get new data from source: %w", err)
 	}
-	for _, d := range data {
-		q.index.UpdateMetric(d)
-	}
 	if err := func() error {
+		q.storageMu.Lock()
+		defer q.storageMu.Unlock()
+		for _, d := range data {
+			q.index.UpdateMetric(d)
+		}
 		if err := q.storage.LoadData(data); err != nil {
 			return fmt.Errorf("unable to load new data, may now be in inconsistent state: %w", err)
 		}
@@ -101,11 +101,17 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 	return nil
 }
 
+func (q *PeriodicData) currentQuery() string {
+	q.queryMu.RLock()
+	defer q.queryMu.RUnlock()
+	return q.Query
+}
+
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, q.currentQuery(), time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -113,14 +119,21 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 		var err error
 		end := time.Now()
 		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, q.currentQuery(), start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
 	}
 	defer query.Close()
 	// NB(directxman12): THE QUERY DATA IS ONLY VALID INSIDE THIS FUNCTION
-	return cb(query.Exec(ctx))
+	return cb(q.execute(ctx, query))
+}
+
+// execute runs query while no new data is being loaded.
+func (q *PeriodicData) execute(ctx context.Context, query promql.Query) *promql.Result {
+	q.storageMu.RLock()
+	defer q.storageMu.RUnlock()
+	return query.Exec(ctx)
 }
 
 func (q *PeriodicData) GetIndex() Indexer {
-- 
2.43.0


From 1c050ce1975633d38d33caee7f524cb980ce982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 10/45] fix: find the word to complete in queries with
 multi-byte characters

---
 promq/autocomplete/earley/completer.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..a07d99f 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,7 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
-- 
2.43.0


From 6bbf9e259f7f0e9a5253bd0362951e20b748e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 11/45] fix: complete exactly the text before the cursor

---
 cmd/metrics/autocompleter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..5d5b2bc 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -37,10 +37,12 @@ func NewCompleter(completor autocomplete.PromQLCompleter) *Completer {
 }
 
 func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
-	if d.TextBeforeCursor() == "" {
+	// NB: the cursor position of a document counts screen columns, not bytes
+	query := d.TextBeforeCursor()
+	if query == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	ret := c.promCompleter.GenerateSuggestions(query, len(query))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
 		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
-- 
2.43.0


From 4ec64c27294c9827933a7335b3cf5fa129ef0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 12/45] fix: do not ignore text that the lexer rejects when
 completing

---
 promq/autocomplete/earley/luthor.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..60d6430 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -188,8 +188,10 @@ func extractTokensWithOffset(query string, offset int) (words Tokens) {
 		// "start" <-> "(" <-> "label" <-> "=" <-> "'value" <-> ")" <-> "end"
 		if currItem.Typ == parser.ERROR {
 			substring := query[currItem.Pos:]
-			// we're recursing and found an error already abort
+			// we're recursing and found an error already, so keep what is left as a
+			// token that nothing in the grammar matches
 			if i == 0 {
+				words = append(words, createUnknownToken(substring, offset), createTokenFromItem(eofItem(query), offset))
 				break
 			}
 			subWords := extractTokensWithOffset(substring, int(currItem.Pos))
@@ -214,6 +216,20 @@ func createTokenFromItem(item parser.Item, offset int) Tokhan {
 	}
 }
 
+func createUnknownToken(text string, offset int) Tokhan {
+	return Tokhan{
+		Val:      text,
+		ItemType: parser.ERROR,
+		Type:     UNKNOWN,
+		StartPos: offset,
+		EndPos:   offset + len(text),
+	}
+}
+
+func eofItem(query string) parser.Item {
+	return parser.Item{Typ: parser.EOF, Pos: parser.Pos(len(query))}
+}
+
 func mapParserItemTypeToTokhanType(item parser.Item) TokenType {
 	t := item.Typ
 	switch {
-- 
2.43.0


From 5ef391b6d936d43debfd49f2e3abddd72ab88bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 13/45] fix: forget the previous tokens when parsing from the
 beginning

---
 promq/autocomplete/earley/earley.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..2c8630d 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -141,6 +141,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
 	p.chart.resetChartBeforeIndex(0)
+	p.words = nil
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
 	return p.chart
-- 
2.43.0


From ddd7d4ead609242f1c8851e3f3648bc6981922af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 14/45] fix: keep parsing when the new tokens continue the
 previous ones

---
 promq/autocomplete/earley/luthor.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 60d6430..1daaaa2 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,7 +63,6 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
@@ -72,7 +71,7 @@ func (ws Tokens) Compare(tks2 Tokens) int {
 	}
 	// return negative i if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From da5da265bd4b3f146b1c47981602cd61bae65bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 15/45] fix: return candidates unchanged when filtering
 case-insensitively

---
 promq/autocomplete/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/filter.go b/promq/autocomplete/filter.go
index c44bcc7..9e0b105 100644
--- a/promq/autocomplete/filter.go
+++ b/promq/autocomplete/filter.go
@@ -56,10 +56,11 @@ func filterSet(autocompletions sets.String, sub string, ignoreCase bool, inclusi
 	}
 	ret := sets.NewString()
 	for _, item := range autocompletions.List() {
+		candidate := item
 		if ignoreCase {
-			item = strings.ToLower(item)
+			candidate = strings.ToLower(item)
 		}
-		if inclusionFunc(item, sub) {
+		if inclusionFunc(candidate, sub) {
 			ret.Insert(item)
 		}
 	}
-- 
2.43.0


From 352f10fc559ffc48a9095e57c12065a71fc570ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 16/45] fix: accept labels that are called like a function or
 keyword

---
 promq/autocomplete/earley/grammar.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/promq/autocomplete/earley/grammar.go b/promq/autocomplete/earley/grammar.go
index 2c45835..79224e2 100644
--- a/promq/autocomplete/earley/grammar.go
+++ b/promq/autocomplete/earley/grammar.go
@@ -158,6 +158,13 @@ func (t terminal) String() string {
 }
 
 func (t terminal) isMatchingTerminal(tt TokenType) bool {
+	if t.tokenSubType != nil && *t.tokenSubType == METRIC_LABEL_SUBTYPE {
+		switch tt {
+		// a label may be called like a function, an aggregator, a set operator or a keyword
+		case FUNCTION_SCALAR_ID, FUNCTION_VECTOR_ID, AGGR_OP, SET, AGGR_KW, BOOL_KW, OFFSET_KW, GROUP_SIDE, GROUP_KW:
+			return true
+		}
+	}
 	return t.tokenType == tt || (t.tokenSubType != nil && *t.tokenSubType == tt)
 }
 func (t terminal) getType() *TokenType {
-- 
2.43.0


From edcb26a3fd8d9cdc909518a66db025ce91268869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 17/45] fix: complete label values that contain operators

---
 promq/autocomplete/earley/completer.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index a07d99f..c6a572d 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -28,6 +28,8 @@ import (
 
 const (
 	PromQLTokenSeparators = " []{}()+-*/%^=!><~,"
+	// operators are part of the text inside of quotes
+	quotedTextSeparators = " []{}()=!~,"
 )
 
 type matchResult struct {
@@ -154,5 +156,27 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 func getPrefix(query string) string {
 	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
 	// Should we return metric_a as a prefix or return the next suggested token of metric name?
-	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
+	prefixStart := 0
+	var quote rune
+	escaped := false
+	for i, c := range query {
+		separators := PromQLTokenSeparators
+		if quote != 0 {
+			separators = quotedTextSeparators
+		}
+		switch {
+		case escaped:
+			escaped = false
+		case quote != 0 && c == quote:
+			quote = 0
+		case quote == '"' || quote == '\'':
+			escaped = c == '\\'
+		case quote == 0 && strings.ContainsRune("\"'`", c):
+			quote = c
+		}
+		if strings.ContainsRune(separators, c) {
+			prefixStart = i + 1
+		}
+	}
+	return query[prefixStart:]
 }
-- 
2.43.0


From 47b4be781d472fcbd054c1d5c922ce1a2666463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 18/45] fix: do not reuse a parse of other tokens nor skip a
 rejected parenthesis when completing

---
 promq/autocomplete/earley/luthor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 1daaaa2..9c8e84f 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -158,7 +158,7 @@ func (t Tokhan) String() string {
 }
 
 func (t Tokhan) equals(t2 Tokhan) bool {
-	return t.Val == t2.Val && t.StartPos == t2.StartPos && t.EndPos == t2.EndPos
+	return t.Val == t2.Val && t.Type == t2.Type && t.StartPos == t2.StartPos && t.EndPos == t2.EndPos
 }
 
 func extractWords(query string) Tokens {
@@ -173,6 +173,7 @@ func extractWords(query string) Tokens {
 func extractTokensWithOffset(query string, offset int) (words Tokens) {
 	l := parser.Lex(query)
 	i := 0
+	lexedUpTo := 0
 	for {
 		currItem := parser.Item{}
 		l.NextItem(&currItem)
@@ -186,20 +187,22 @@ func extractTokensWithOffset(query string, offset int) (words Tokens) {
 		// a linked list of tokens like this:
 		// "start" <-> "(" <-> "label" <-> "=" <-> "'value" <-> ")" <-> "end"
 		if currItem.Typ == parser.ERROR {
-			substring := query[currItem.Pos:]
+			// nb: the error may be reported behind the text it is about
+			substring := query[lexedUpTo:]
 			// we're recursing and found an error already, so keep what is left as a
 			// token that nothing in the grammar matches
 			if i == 0 {
 				words = append(words, createUnknownToken(substring, offset), createTokenFromItem(eofItem(query), offset))
 				break
 			}
-			subWords := extractTokensWithOffset(substring, int(currItem.Pos))
+			subWords := extractTokensWithOffset(substring, offset+lexedUpTo)
 			if len(subWords) > 0 {
 				words = append(words, subWords...)
 			}
 			return
 		}
 		words = append(words, createTokenFromItem(currItem, offset))
+		lexedUpTo = int(currItem.Pos) + len(currItem.Val)
 		i++
 	}
 	return
-- 
2.43.0


From 15278c82a3d23531921315a65207d1f5ec9efdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 19/45] fix: shift the contents down when reverse-scrolling at
 the top

ScrollUp's loop condition was inverted, so the lines were never moved and
the top line was just erased.
---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..d3865ce 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -191,7 +191,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From 12a67d17fd029a4b59eb940fad1bd916735cf913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 20/45] fix: keep the prompt's cursor inside its text area

After a resize to a smaller area, or after writing a character wider than
the area, the cursor was outside of it, and the next newline or erasure
panicked or looped over the wrong columns.
---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 41 ++++++++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6598273 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index d3865ce..60300fd 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,24 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+	t.keepCursorInside()
+}
+
+// keepCursorInside moves the cursor back into the text area if it's outside.
+// NB: the column after the last one means that the next character wraps.
+func (t *textWrapper) keepCursorInside() {
+	if t.cursorRow >= t.rows {
+		t.cursorRow = t.rows-1
+	}
+	if t.cursorRow < 0 {
+		t.cursorRow = 0
+	}
+	if t.cursorCol > t.cols {
+		t.cursorCol = t.cols
+	}
+	if t.cursorCol < 0 {
+		t.cursorCol = 0
+	}
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
@@ -58,6 +76,7 @@ func (t *textWrapper) Newline() {
 	if t.cursorRow >= t.rows {
 		t.cursorRow = t.rows-1
 		t.ScrollDown()
+		t.keepCursorInside()
 	}
 }
 
@@ -117,6 +136,10 @@ func (t *textWrapper) WriteString(str string, sty tcell.Style) {
 // If the runes would be too wide to contain the given content, this will wrap
 // to the next line.
 func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
+	if width > t.cols {
+		// there's no place for this on any line
+		return
+	}
 	if remaining := t.cols - t.cursorCol; remaining < width {
 		// wrap if needed
 		t.Newline()
@@ -246,15 +269,18 @@ func (t *textWrapper) CursorForward(n int) {
 	if t.cursorCol >= t.cols {
 		t.cursorCol = t.cols-1
 	}
+	t.keepCursorInside()
 }
 
 // CursorForward moves the cursor forward n columns, stopping at
 // the last column of the wrapper.
 func (t *textWrapper) CursorBackward(n int) {
-	t.cursorCol -= n
-	if t.cursorCol < 0 {
-		t.cursorCol = 0
+	if n < 0 {
+		t.CursorForward(-n)
+		return
 	}
+	t.cursorCol -= n
+	t.keepCursorInside()
 }
 
 // CursorPosition reports the column and row of the cursor.
@@ -266,19 +292,16 @@ func (t *textWrapper) CursorPosition() (col, row int) {
 func (t *textWrapper) CursorGoTo(row, col int) {
 	t.cursorRow = row
 	t.cursorCol = col
+	t.keepCursorInside()
 }
 
 // CursorDown moves the cursor down n rows, stopping at the bottom of wrapper.
 func (t *textWrapper) CursorDown(n int) {
 	t.cursorRow += n
-	if t.cursorRow >= t.rows {
-		t.cursorRow = t.rows-1
-	}
+	t.keepCursorInside()
 }
 // CursorUp moves the cursor up n rows, stopping at the top of wrapper.
 func (t *textWrapper) CursorUp(n int) {
 	t.cursorRow -= n
-	if t.cursorRow < 0 {
-		t.cursorRow = 0
-	}
+	t.keepCursorInside()
 }
-- 
2.43.0


From a1f46464c69fb99ece80101e862ac4ba07cf6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 21/45] fix: never block on the prompt's queue of keys

The queue held at most 30 keys, so that a long initial query kept Run from
returning when cancelled before the prompt was shown, and fast typing while
a line is being handled (or after the prompt stopped) blocked the event loop,
which then couldn't be shut down either.
---
 promq/term/prompt.go     | 67 +++++++++++++++++++++-------------------
 promq/term/withprompt.go |  5 +--
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 6598273..d7c877e 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -144,7 +144,8 @@ type screenParser struct {
 	size *prompt.WinSize
 	// NB(directxman12): go-prompt assumes shortcut keys and things like enter come in on their
 	// own event, so we send keys individually and collapse non-newline runes in read inline
-	evts chan *tcell.EventKey
+	// There's no bound on the number of keys, since the event loop must never block on us.
+	evts []*tcell.EventKey
 	leftOvers []byte
 	mu sync.Mutex
 }
@@ -173,6 +174,9 @@ func (p *screenParser) Resize(size *prompt.WinSize) {
 }
 
 func (p *screenParser) Read() ([]byte, error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	// check if we had accumulated some normal bytes and then hit a newline or
 	// special key
 	if p.leftOvers != nil {
@@ -183,37 +187,35 @@ func (p *screenParser) Read() ([]byte, error) {
 
 	var res []byte
 CollapseLoop:
-	for {
-		// the code from go-prompt normally sets NOBLOCK, so emulate that
-		select {
-		case evt := <-p.evts:
-			// special keys -- these need to be send differently,
-			// otherwise go-prompt won't catch them as shortcuts/special actions
-			// (e.g. \r --> submit, tab --> complete).  This is normally
-			// not a problem, but can happen theoretically if typing too fast
-			// or if we synthetically batch up input
-			if evt.Key() != tcell.KeyRune {
-				bytes := nonRuneKeyToBytes(evt)
-				if bytes != nil {
-					p.leftOvers = bytes
-				}
-				break CollapseLoop
+	// the code from go-prompt normally sets NOBLOCK, so emulate that
+	for len(p.evts) > 0 {
+		evt := p.evts[0]
+		p.evts = p.evts[1:]
+
+		// special keys -- these need to be send differently,
+		// otherwise go-prompt won't catch them as shortcuts/special actions
+		// (e.g. \r --> submit, tab --> complete).  This is normally
+		// not a problem, but can happen theoretically if typing too fast
+		// or if we synthetically batch up input
+		if evt.Key() != tcell.KeyRune {
+			bytes := nonRuneKeyToBytes(evt)
+			if bytes != nil {
+				p.leftOvers = bytes
 			}
-
-			// otherwise, "normal" runes, collapse to smooth things if we get a
-			// bunch of input at once
-			rn := evt.Rune()
-			if rn < utf8.RuneSelf {
-				res = append(res, byte(rn))
-				continue
-			}
-
-			var buf [utf8.UTFMax]byte
-			n := utf8.EncodeRune(buf[:], rn)
-			res = append(res, buf[:n]...)
-		default:
 			break CollapseLoop
 		}
+
+		// otherwise, "normal" runes, collapse to smooth things if we get a
+		// bunch of input at once
+		rn := evt.Rune()
+		if rn < utf8.RuneSelf {
+			res = append(res, byte(rn))
+			continue
+		}
+
+		var buf [utf8.UTFMax]byte
+		n := utf8.EncodeRune(buf[:], rn)
+		res = append(res, buf[:n]...)
 	}
 	// if we had a single special key, treat that as the result
 	if len(res) == 0 && len(p.leftOvers) > 0 {
@@ -228,12 +230,15 @@ CollapseLoop:
 }
 
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
-	p.evts <- evt
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	p.evts = append(p.evts, evt)
 }
 
 func (p *screenParser) AddString(str string) {
 	for _, rn := range str {
-		p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0)
+		p.AddKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
 	}
 }
 
diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 7244e04..b4291cb 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -86,9 +86,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	v.writer = &cellWriter{
 		screen: v.Screen,
 	}
-	v.reader = &screenParser{
-		evts: make(chan *tcell.EventKey, 30),
-	}
+	v.reader = &screenParser{}
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
 	start := make(chan struct{})
 	v.start = start
@@ -126,7 +124,6 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 		}
 	}()
 
-	// do this after starting the input loop so that we don't block on the channel capacity
 	if initialInput != nil {
 		// populate the initial command
 		v.reader.AddString(*initialInput+"\r")
-- 
2.43.0


From 5153ec9dfaabba681c58d30398bbf6cd15d5dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 22/45] fix: deliver the prompt's initial input unaltered

A newline in the initial input was dropped, a tab triggered completion, and
keys typed while it was queued ended up in the middle of it.
---
 promq/term/withprompt.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index b4291cb..a251724 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -87,6 +87,14 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 		screen: v.Screen,
 	}
 	v.reader = &screenParser{}
+	if initialInput != nil {
+		// populate the initial command (before anything can be typed).  It's text,
+		// so don't let a newline or tab in there act like a key.
+		if *initialInput != "" {
+			v.reader.leftOvers = []byte(*initialInput)
+		}
+		v.reader.AddString("\r")
+	}
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
 	start := make(chan struct{})
 	v.start = start
@@ -124,11 +132,6 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 		}
 	}()
 
-	if initialInput != nil {
-		// populate the initial command
-		v.reader.AddString(*initialInput+"\r")
-	}
-
 	<-ctx.Done()
 
 	if err := ctx.Err(); !errors.Is(err, context.Canceled) {
-- 
2.43.0


From c29cedcfe80273318b1dba51a784cf2d12408c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 23/45] fix: read the prompt's position under its lock when
 showing the cursor

A resize from the event loop could change it at the same time, putting the
cursor at a column of one position and a row of another.
---
 promq/term/prompt.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index d7c877e..bcefdd0 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -101,8 +101,13 @@ func (w *cellWriter) EraseScreen() {
 	w.Erase()
 }
 func (w *cellWriter) ShowCursor() {
-	cursorCol, cursorRow := w.CursorPosition()
-	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
+	w.textMu.Lock()
+	cursorCol, cursorRow := w.text.CursorPosition()
+	cursorCol += w.startCol
+	cursorRow += w.startRow
+	w.textMu.Unlock()
+
+	w.screen.ShowCursor(cursorCol, cursorRow)
 }
 func (w *cellWriter) HideCursor() {
 	w.screen.HideCursor()
-- 
2.43.0


From d2c84e230e7e00d03f6c86d23e066d4c69eb4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 24/45] fix: don't crash when the prompt is drawn or typed at
 before it runs

The interactive mode starts the event loop and the prompt concurrently, so
the loop's first draw, or a key, could find the prompt not set up yet, and
both accessed its members without synchronization.
---
 promq/term/withprompt.go | 47 ++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index a251724..0eeb29d 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -19,6 +19,8 @@ package term
 import (
 	"context"
 	"errors"
+	"sync"
+
 	"github.com/c-bata/go-prompt"
 	"github.com/gdamore/tcell"
 )
@@ -33,6 +35,10 @@ import (
 // Due to the internals, this widget shouldn't be used until Run is called and
 // you've received a callback to OnSetup.
 type PromptView struct {
+	// mu protects the writer, reader, start, and pos members: Run sets them up
+	// while the event loop may already be laying out, drawing, and sending keys
+	mu sync.Mutex
+
 	writer *cellWriter
 
 	reader *screenParser
@@ -57,6 +63,13 @@ type PromptView struct {
 }
 
 func (v *PromptView) SetBox(box PositionBox) {
+	v.mu.Lock()
+	defer v.mu.Unlock()
+	v.setBox(box)
+}
+
+// setBox is SetBox for when mu is already held.
+func (v *PromptView) setBox(box PositionBox) {
 	v.pos = box
 	if v.reader != nil && v.writer != nil {
 		v.writer.SetBox(box)
@@ -69,12 +82,24 @@ func (v *PromptView) SetBox(box PositionBox) {
 	}
 }
 func (v *PromptView) FlushTo(screen tcell.Screen) {
+	v.mu.Lock()
+	defer v.mu.Unlock()
+	if v.writer == nil {
+		// not running yet
+		return
+	}
 	v.writer.FlushTo(screen, v.pos.StartCol, v.pos.StartRow)
 }
 
 // HandleKey receives key events from an input loop.  Use this as the runner's
 // KeyHandler.
 func (v *PromptView) HandleKey(evt *tcell.EventKey) {
+	v.mu.Lock()
+	defer v.mu.Unlock()
+	if v.reader == nil {
+		// not running yet
+		return
+	}
 	v.reader.AddKey(evt)
 }
 
@@ -83,26 +108,30 @@ func (v *PromptView) HandleKey(evt *tcell.EventKey) {
 // prompt followed by a synthetic "enter" event.  shutdownScreen will be called when HandleInput
 // asks for to be stopped.  It's generally the Runner's context's cancel function.
 func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScreen func()) error {
-	v.writer = &cellWriter{
+	writer := &cellWriter{
 		screen: v.Screen,
 	}
-	v.reader = &screenParser{}
+	reader := &screenParser{}
 	if initialInput != nil {
 		// populate the initial command (before anything can be typed).  It's text,
 		// so don't let a newline or tab in there act like a key.
 		if *initialInput != "" {
-			v.reader.leftOvers = []byte(*initialInput)
+			reader.leftOvers = []byte(*initialInput)
 		}
-		v.reader.AddString("\r")
+		reader.AddString("\r")
 	}
-	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
+	viewPrompt := v.SetupPrompt(prompt.OptionParser(reader), prompt.OptionWriter(writer))
 	start := make(chan struct{})
-	v.start = start
 
+	v.mu.Lock()
+	v.writer = writer
+	v.reader = reader
+	v.start = start
 	// we've already been asked to start
 	if v.pos != (PositionBox{}) {
-		v.SetBox(v.pos)
+		v.setBox(v.pos)
 	}
+	v.mu.Unlock()
 
 	if v.OnSetup != nil {
 		v.OnSetup()
@@ -122,8 +151,8 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 			input := viewPrompt.Input()
 			output, stop := v.HandleInput(input)
 			if output != nil {
-				v.writer.WriteStr(*output)
-				v.writer.Flush() // always flush after we write
+				writer.WriteStr(*output)
+				writer.Flush() // always flush after we write
 			}
 			if stop {
 				shutdownScreen()
-- 
2.43.0


From eb259818591b4925cfa1f6202a91c69823ca818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 25/45] fix: don't crash when a line is entered while the
 prompt has no columns

go-prompt divides by the number of columns when it breaks a line.
---
 promq/term/withprompt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 0eeb29d..3b2442b 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -73,7 +73,12 @@ func (v *PromptView) setBox(box PositionBox) {
 	v.pos = box
 	if v.reader != nil && v.writer != nil {
 		v.writer.SetBox(box)
-		v.reader.Resize(&prompt.WinSize{Row: uint16(box.Rows), Col: uint16(box.Cols)})
+		cols := box.Cols
+		if cols < 1 {
+			// go-prompt divides by this when breaking lines
+			cols = 1
+		}
+		v.reader.Resize(&prompt.WinSize{Row: uint16(box.Rows), Col: uint16(cols)})
 	}
 
 	if v.start != nil {
-- 
2.43.0


From 46bc22e959b59e41c19731da9c4da7fa4ccbed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 26/45] fix: don't lose what is typed right after a line is
 entered

go-prompt keeps reading input until it has handled the line, and drops
whatever it has read after its end, so that with several lines typed or
pasted quickly, the beginning of the next one was lost.
---
 promq/term/prompt.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index bcefdd0..b42a723 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -152,13 +152,17 @@ type screenParser struct {
 	// There's no bound on the number of keys, since the event loop must never block on us.
 	evts []*tcell.EventKey
 	leftOvers []byte
+	// submitted indicates that a line has been completed, and go-prompt isn't yet asking
+	// for the next one
+	submitted bool
 	mu sync.Mutex
 }
 
-// these are pointers so that we don't copy the mutex,
-// which isn't a big deal here cause we're not using it,
-// but makes the race detector sad anyway
-func (*screenParser) Setup() error {
+func (p *screenParser) Setup() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	p.submitted = false
 	return nil
 }
 func (*screenParser) TearDown() error {
@@ -182,6 +186,19 @@ func (p *screenParser) Read() ([]byte, error) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
+	if p.submitted {
+		// go-prompt reads ahead, but drops whatever it read after the end of the line
+		return nil, syscall.EWOULDBLOCK
+	}
+	res, err := p.read()
+	if key := prompt.GetKey(res); key == prompt.Enter || key == prompt.ControlM {
+		p.submitted = true
+	}
+	return res, err
+}
+
+// read is Read without regard for ends of lines, for when the lock is already held.
+func (p *screenParser) read() ([]byte, error) {
 	// check if we had accumulated some normal bytes and then hit a newline or
 	// special key
 	if p.leftOvers != nil {
-- 
2.43.0


From 92c369915a82943a2498e540b3d8831bf46aad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 27/45] fix: report when the screen can't be initialized

The error was ignored, and the event loop then waited for events of a screen
that doesn't exist.
---
 promq/term/runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 3793a9c..162a589 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -85,7 +85,9 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 			return err
 		}
 	}
-	screen.Init()
+	if err := screen.Init(); err != nil {
+		return err
+	}
 	// TODO(directxman12): we should probably figure out how to call Fini in a
 	// defer but before the waiting for the evtLoopDone
 
-- 
2.43.0


From 32ef865b7efacbd1ac8cd5d160e88f9ba4e5832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 28/45] fix: don't drop update and repaint requests

The screen drops events when ten of them are waiting, so that while the event
loop was busy, a new view or a repaint could be lost for good.  Requests made
before the screen exists crashed.
---
 promq/term/runner.go | 67 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 162a589..2a56037 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -52,6 +52,11 @@ type View interface {
 // a functional reactive UI framework, except a bit inside-out.
 type Runner struct {
 	screen tcell.Screen
+	// requestedView and requestedRepaint are what has been requested since the event
+	// loop last looked.  They're kept here because the screen drops events when too
+	// many are waiting, and because there may be no screen yet.
+	requestedView View
+	requestedRepaint bool
 	screenMu sync.Mutex
 
 	// KeyHandler receives key events produced during Run.  It must be specified.
@@ -93,6 +98,10 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 
 	r.screenMu.Lock()
 	r.screen = screen
+	if r.requestedRepaint {
+		// there've been requests already
+		r.wakeEventLoop()
+	}
 	r.screenMu.Unlock()
 
 	mainView := initialView
@@ -111,20 +120,23 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 		}
 		for evt := screen.PollEvent(); evt != nil; evt = screen.PollEvent() {
 			screenCols, screenRows := screen.Size()
+			newView, repaint := r.takeRequests()
+			if newView != nil {
+				// clearing is less efficient, but means we
+				// don't get weird artifacts from the sidebar resizing, etc
+				screen.Clear()
+				mainView = newView
+				mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+			}
 			switch evt := evt.(type) {
 			case *tcell.EventKey:
 				r.KeyHandler(evt)
-				continue
-			case *tcell.EventInterrupt:
-				newView, hasNewView := evt.Data().(View)
-				if hasNewView {
-					// clearing is less efficient, but means we
-					// don't get weird artifacts from the sidebar resizing, etc
-					screen.Clear()
-					mainView = newView
-					mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+				if !repaint {
+					continue
 				}
 				// continue below
+			case *tcell.EventInterrupt:
+				// continue below
 			case *tcell.EventResize:
 				screenCols, screenRows = evt.Size()
 				if mainView != nil {
@@ -162,7 +174,8 @@ func (r *Runner) RequestRepaint() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.PostEvent(tcell.NewEventInterrupt(nil))
+	r.requestedRepaint = true
+	r.wakeEventLoop()
 }
 
 // RequestRepaint replaces the current view & requests a paint of it.
@@ -171,7 +184,31 @@ func (r *Runner) RequestUpdate(newView View) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.PostEvent(tcell.NewEventInterrupt(newView))
+	if newView != nil {
+		r.requestedView = newView
+	}
+	r.requestedRepaint = true
+	r.wakeEventLoop()
+}
+
+// wakeEventLoop makes sure that the event loop looks at the requests.
+// It must be called with screenMu held.
+func (r *Runner) wakeEventLoop() {
+	if r.screen != nil {
+		// if there's no space left for this event, there are others
+		// to be handled, which is just as well
+		r.screen.PostEvent(tcell.NewEventInterrupt(nil))
+	}
+}
+
+// takeRequests returns (and forgets) what has been requested since the last call.
+func (r *Runner) takeRequests() (newView View, repaint bool) {
+	r.screenMu.Lock()
+	defer r.screenMu.Unlock()
+
+	newView, repaint = r.requestedView, r.requestedRepaint
+	r.requestedView, r.requestedRepaint = nil, false
+	return newView, repaint
 }
 
 // ShowCursor shows the cursor at the given location.
@@ -179,12 +216,16 @@ func (r *Runner) ShowCursor(col, row int) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.ShowCursor(col, row)
+	if r.screen != nil {
+		r.screen.ShowCursor(col, row)
+	}
 }
 // HideCursor hides the cursor.
 func (r *Runner) HideCursor() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.HideCursor()
+	if r.screen != nil {
+		r.screen.HideCursor()
+	}
 }
-- 
2.43.0


From b9beaf86df18871eb1820fef04953a30d2e3fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 29/45] fix: lay the view out again when the screen's size
 changed without an event

The screen drops resize events too when its queue is full, and the view then
kept its old size on a screen of another one.
---
 promq/term/runner.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 2a56037..8262844 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -118,37 +118,44 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 		if r.OnStart != nil {
 			r.OnStart()
 		}
+		var lastBox PositionBox // what the main view was laid out for
 		for evt := screen.PollEvent(); evt != nil; evt = screen.PollEvent() {
 			screenCols, screenRows := screen.Size()
+			box := PositionBox{Cols: screenCols, Rows: screenRows}
+			resized := false
 			newView, repaint := r.takeRequests()
 			if newView != nil {
-				// clearing is less efficient, but means we
-				// don't get weird artifacts from the sidebar resizing, etc
-				screen.Clear()
 				mainView = newView
-				mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
 			}
 			switch evt := evt.(type) {
 			case *tcell.EventKey:
 				r.KeyHandler(evt)
-				if !repaint {
-					continue
-				}
-				// continue below
 			case *tcell.EventInterrupt:
-				// continue below
+				repaint = true
 			case *tcell.EventResize:
-				screenCols, screenRows = evt.Size()
-				if mainView != nil {
-					mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
-				}
-				screen.Clear()
-				// continue below
+				resized = true
+				repaint = true
 			default:
 				return
 			}
 
-			if mainView == nil {
+			if lastBox != (PositionBox{}) && box != lastBox {
+				// the screen must've dropped the resize event
+				resized = true
+				repaint = true
+			}
+
+			if newView != nil || resized {
+				// clearing is less efficient, but means we
+				// don't get weird artifacts from the sidebar resizing, etc
+				screen.Clear()
+				if mainView != nil {
+					mainView.SetBox(box)
+				}
+				lastBox = box
+			}
+
+			if mainView == nil || !repaint {
 				continue
 			}
 			mainView.FlushTo(screen)
-- 
2.43.0


From 2958240e05253ad8bd0a007c720400bcba848550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 30/45] fix: don't crash when plotting a series without points

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..90a7a6e 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -185,7 +185,7 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 		}
 
 		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From 073d6e849c98e178ce72be278e073cb0705f7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 31/45] fix: leave NaN and infinite values out of plots

They have no row: NaN crashed the drawing, and an infinite axis made the
computation of the ticks loop until out of memory.
---
 promq/term/plot/plot.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 90a7a6e..99b7822 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -103,6 +103,9 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 
 			for _, pt := range pts {
 				val := pt.Y()
+				if !isPlottable(val) {
+					continue
+				}
 				if val < res.RangeMin {
 					res.RangeMin = val
 				}
@@ -116,6 +119,12 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 	return res
 }
 
+// isPlottable checks if the given value has a place on a graph at all, which NaN and infinities
+// (e.g. the results of divisions by zero) don't.
+func isPlottable(val float64) bool {
+	return !math.IsNaN(val) && !math.IsInf(val, 0)
+}
+
 func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize) (func(int64) Column, func(float64) Row) {
 	// since the valid values for rows are [0, Rows), subtract one to make sure
 	// that g.DomainMax --> Rows-1 < Rows, and similarly for cols
@@ -162,6 +171,9 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 
 		for _, inPoint := range inSeries.Points() {
 			inX, inY := inPoint.X(), inPoint.Y()
+			if !isPlottable(inY) {
+				continue
+			}
 
 			col, row := domain(inX), rng(inY)
 			if lastPt != nil {
-- 
2.43.0


From c5bd80eee56d7ec95782854f2e054be9c5ddc4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 32/45] fix: don't crash when plotting extremely large or small
 ranges of values

The difference of the largest and smallest value, or its reciprocal, can be
infinite, which gave a row of NaN.
---
 promq/term/plot/plot.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 99b7822..62d7109 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -131,7 +131,12 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 
 	// avoid issues with flat lines
 	domainDiff := g.DomainMax - g.DomainMin
-	rangeDiff := scale(g.RangeMax) - scale(g.RangeMin)
+	shrink := 1.0
+	if math.IsInf(g.RangeMax-g.RangeMin, 0) {
+		// differences of such values can't be represented otherwise
+		shrink = 0.5
+	}
+	rangeDiff := scale(g.RangeMax*shrink) - scale(g.RangeMin*shrink)
 	if domainDiff == 0 {
 		domainDiff = 1
 	}
@@ -139,14 +144,14 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 		rangeDiff = 1
 	}
 	domainScaleFactor := float64(size.Cols-1)/float64(domainDiff)
-	rangeScaleFactor := float64(size.Rows-1)/float64(rangeDiff)
 
 	// TODO: is this rounding necessary for most data?
 	domain := func(x int64) Column {
 		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		// NB: divide first, the reciprocal of a tiny difference may not be representable
+		return Row(math.Round(scale(y*shrink-g.RangeMin*shrink) / rangeDiff * float64(size.Rows-1)))
 	}
 
 	return domain, rng
-- 
2.43.0


From 2864b8cb437a59efa35e3219dcce59c3a157bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 33/45] fix: stop computing ticks of (nearly) flat graphs

If all values were the same negative one, or differed by less than can be
added to them, the loop never reached the maximum, and ran out of memory.
---
 promq/term/plot/axes.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..ef8ef32 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -114,14 +114,18 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 
 		platRngInc := (graph.RangeMax - graph.RangeMin)/rngTicksBase
-		if platRngInc == 0 {
-			platRngInc = graph.RangeMax // just two ticks
+		if math.IsInf(platRngInc, 0) {
+			platRngInc = graph.RangeMax/rngTicksBase - graph.RangeMin/rngTicksBase
 		}
-		if platRngInc == 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
-			platRngInc = 1
-		}
-		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
-			platRngTicks = append(platRngTicks, x)
+		if graph.RangeMin <= graph.RangeMax {
+			platRngTicks = append(platRngTicks, graph.RangeMin)
+			for i := 1.0; i < rngTicksBase; i++ {
+				x := graph.RangeMin + platRngInc*i
+				// if the values are (nearly) the same, there's nothing in between
+				if x > platRngTicks[len(platRngTicks)-1] && x < graph.RangeMax {
+					platRngTicks = append(platRngTicks, x)
+				}
+			}
 		}
 		// always put a tick @ max
 		if len(platRngTicks) > 0 && platRngTicks[len(platRngTicks)-1] != graph.RangeMax {
-- 
2.43.0


From e7c0daf1e6cf3e8725823a67b2e08a62e26e0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 34/45] fix: keep the ticks of a short time span on the axis

If the points were closer in time than there are ticks, all ticks but the
first were put far after the last point, and drawn outside of the graph.
---
 promq/term/plot/axes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index ef8ef32..39cfb35 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -92,7 +92,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
 		if platDomInc == 0 {
-			platDomInc = graph.DomainMax // just two ticks
+			numTicks = 1 // just two ticks
 		}
 		platDomTicks = make([]int64, numTicks)
 		for i := range platDomTicks {
-- 
2.43.0


From 6b4b2b37e1cd8b27d081e0118422d57a03cabfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 35/45] fix: fail when a target doesn't answer with a success
 status

---
 cmd/metrics/metrics.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 320ff55..ad3653b 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -110,6 +110,11 @@ func (s *httpSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.T
 	}
 	defer resp.Body.Close()
 
+	// anything else is an error page, not metrics
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to fetch raw metrics data: server returned HTTP status %s", resp.Status)
+	}
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, fmt.Errorf("unable to read metrics response body: %w", err)
-- 
2.43.0


From 28ff002a8c593b7dc67d8a7ee50bed276310f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 36/45] fix: don't scrape in the background before the callback
 is set, nor in one-shot mode

---
 cmd/metrics/metrics.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index ad3653b..7248692 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -183,9 +183,6 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 		Instant:  !flags.Continuous,
 	}
 
-	// asyncronously trigger scrape
-	go c.scrape(ctx, runner)
-
 	//c := NewPromQLCompleter(index)
 	if flags.Continuous {
 		// it's valid, let's try drawing
@@ -431,6 +428,10 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 	}
 
 	ctx, stopScreen := context.WithCancel(ctx)
+
+	// asyncronously trigger scrape (only now, since it needs the callback)
+	go c.scrape(ctx, runner)
+
 	go promptView.Run(ctx, &qs, stopScreen)
 
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
-- 
2.43.0


From 64360c58d4ca55c33db3651cd7b9c88e9f0bc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 37/45] fix: don't take the prompt's initial input for a key

---
 promq/term/withprompt.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 3b2442b..537f556 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -117,15 +117,14 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 		screen: v.Screen,
 	}
 	reader := &screenParser{}
+	opts := []prompt.Option{prompt.OptionParser(reader), prompt.OptionWriter(writer)}
 	if initialInput != nil {
 		// populate the initial command (before anything can be typed).  It's text,
-		// so don't let a newline or tab in there act like a key.
-		if *initialInput != "" {
-			reader.leftOvers = []byte(*initialInput)
-		}
+		// so don't let anything in there act like a key.
+		opts = append(opts, prompt.OptionInitialBufferText(*initialInput))
 		reader.AddString("\r")
 	}
-	viewPrompt := v.SetupPrompt(prompt.OptionParser(reader), prompt.OptionWriter(writer))
+	viewPrompt := v.SetupPrompt(opts...)
 	start := make(chan struct{})
 
 	v.mu.Lock()
-- 
2.43.0


From bf35fe7bdf0388bf8acf431376607bad73e69e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 38/45] fix: don't draw half of a wide character outside the
 prompt's box

---
 promq/term/wrapper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 60300fd..a3c1064 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -154,7 +154,11 @@ func (t *textWrapper) FlushTo(screen tcell.Screen, startCol, startRow int) {
 			if !t.buf.Dirty(col, row) {
 				continue
 			}
-			mainRune, combRunes, style, _ := t.buf.GetContent(col, row)
+			mainRune, combRunes, style, width := t.buf.GetContent(col, row)
+			if col+width > t.cols {
+				// a wide character that's been cut in half by a resize
+				mainRune, combRunes = ' ', nil
+			}
 			screen.SetContent(startCol+col, startRow+row, mainRune, combRunes, style)
 		}
 	}
-- 
2.43.0


From 16a1d8a4ae4ac972b58e5b23d7b6a5838bcc746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:29 +0000
Subject: [PATCH 39/45] fix: scale time spans that don't fit in 64 bits

---
 promq/term/plot/axes.go | 2 +-
 promq/term/plot/plot.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 39cfb35..befe9bc 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -90,7 +90,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 			numTicks = 1
 		}
 
-		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
+		platDomInc := int64((uint64(graph.DomainMax) - uint64(graph.DomainMin))/uint64(domTicksBase))
 		if platDomInc == 0 {
 			numTicks = 1 // just two ticks
 		}
diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 62d7109..620fe36 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -130,7 +130,7 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 	// that g.DomainMax --> Rows-1 < Rows, and similarly for cols
 
 	// avoid issues with flat lines
-	domainDiff := g.DomainMax - g.DomainMin
+	domainDiff := uint64(g.DomainMax) - uint64(g.DomainMin) // an int64 may be too small for it
 	shrink := 1.0
 	if math.IsInf(g.RangeMax-g.RangeMin, 0) {
 		// differences of such values can't be represented otherwise
@@ -147,7 +147,7 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 
 	// TODO: is this rounding necessary for most data?
 	domain := func(x int64) Column {
-		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
+		return Column(math.Round(float64(uint64(x)-uint64(g.DomainMin))*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
 		// NB: divide first, the reciprocal of a tiny difference may not be representable
-- 
2.43.0


From 54e4d2dbed32ac991f5818b13137abeda0998a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 40/45] fix: take the cursor along when the prompt is moved or
 resized

---
 promq/term/prompt.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index b42a723..f42ea8e 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -64,15 +64,24 @@ type cellWriter struct {
 	// currentStyle contains the current style that go-prompt & WriteStr
 	// will use to write to the underlying textWrapper.
 	currentStyle tcell.Style
+
+	// cursorShown tells whether the cursor is currently shown on the screen.
+	cursorShown bool
 }
 
 func (w *cellWriter) SetBox(box PositionBox) {
 	w.textMu.Lock()
-	defer w.textMu.Unlock()
-
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
 	w.text.Resize(box.Cols, box.Rows)
+	cursorShown := w.cursorShown
+	w.textMu.Unlock()
+
+	if cursorShown {
+		// go-prompt only shows the cursor again upon the next key,
+		// so take it along
+		w.ShowCursor()
+	}
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
@@ -105,11 +114,16 @@ func (w *cellWriter) ShowCursor() {
 	cursorCol, cursorRow := w.text.CursorPosition()
 	cursorCol += w.startCol
 	cursorRow += w.startRow
+	w.cursorShown = true
 	w.textMu.Unlock()
 
 	w.screen.ShowCursor(cursorCol, cursorRow)
 }
 func (w *cellWriter) HideCursor() {
+	w.textMu.Lock()
+	w.cursorShown = false
+	w.textMu.Unlock()
+
 	w.screen.HideCursor()
 }
 func (w *cellWriter) AskForCPR() {
-- 
2.43.0


From caad7d7cd9898427c59946417dd18d28305ce689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 41/45] fix: don't leave the cursor where the prompt was before
 being moved

---
 promq/term/prompt.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index f42ea8e..06ce1d5 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -74,14 +74,12 @@ func (w *cellWriter) SetBox(box PositionBox) {
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
 	w.text.Resize(box.Cols, box.Rows)
-	cursorShown := w.cursorShown
-	w.textMu.Unlock()
-
-	if cursorShown {
+	if w.cursorShown {
 		// go-prompt only shows the cursor again upon the next key,
 		// so take it along
-		w.ShowCursor()
+		w.showCursor()
 	}
+	w.textMu.Unlock()
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
@@ -111,19 +109,21 @@ func (w *cellWriter) EraseScreen() {
 }
 func (w *cellWriter) ShowCursor() {
 	w.textMu.Lock()
+	defer w.textMu.Unlock()
+	w.showCursor()
+}
+
+// showCursor is ShowCursor for when textMu is already held.  It's held until the
+// screen has been told, lest an outdated position be the last one told.
+func (w *cellWriter) showCursor() {
 	cursorCol, cursorRow := w.text.CursorPosition()
-	cursorCol += w.startCol
-	cursorRow += w.startRow
 	w.cursorShown = true
-	w.textMu.Unlock()
-
-	w.screen.ShowCursor(cursorCol, cursorRow)
+	w.screen.ShowCursor(cursorCol+w.startCol, cursorRow+w.startRow)
 }
 func (w *cellWriter) HideCursor() {
 	w.textMu.Lock()
+	defer w.textMu.Unlock()
 	w.cursorShown = false
-	w.textMu.Unlock()
-
 	w.screen.HideCursor()
 }
 func (w *cellWriter) AskForCPR() {
-- 
2.43.0


From 8b64195280455d37e43720742202a538a3d150f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 42/45] fix: don't forget the range of a new query's first
 result

A result that arrived between setting the query and resetting the axes
was drawn with the previous query's range, and then forgotten.
---
 cmd/metrics/metrics.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 7248692..a7a8297 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -352,11 +352,13 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 				}
 			}
 
+			// no result of the new query may come in between the two
+			axesMu.Lock()
 			if err := runner.SetQuery(ctx, input); err != nil {
+				axesMu.Unlock()
 				msg := fmt.Sprintf("Unable to set query: %v\n", err)
 				return &msg, false
 			}
-			axesMu.Lock()
 			lastAxes = plot.AutoAxes()  // reset the axes when we change query
 			axesMu.Unlock()
 
-- 
2.43.0


From 9963dcde5700809d4735ae864bc84e8336be18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 43/45] fix: keep what precedes the word when a suggestion is
 accepted

The prompt replaces everything since its last separator by the suggestion, so
that an operator or the digits of a duration before the cursor got lost.
---
 cmd/metrics/autocompleter.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index 5d5b2bc..8f7a991 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -17,6 +17,8 @@ limitations under the License.
 package metrics
 
 import (
+	"strings"
+
     "github.com/c-bata/go-prompt"
 
 	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
@@ -42,10 +44,23 @@ func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
 	if query == "" {
 		return []prompt.Suggest{}
 	}
+	// accepting a suggestion replaces the word before the cursor, which needn't
+	// begin where what is being completed does (after an operator, say)
+	word := d.GetWordBeforeCursorUntilSeparator(PromQLTokenSeparators)
 	ret := c.promCompleter.GenerateSuggestions(query, len(query))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
-		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
+		suggests[i] = prompt.Suggest{Text: word + untyped(query, s.GetValue()), Description: s.GetDetail()}
 	}
 	return suggests
 }
+
+// untyped returns what is left of the value after what the query ends with.
+func untyped(query, value string) string {
+	for n := len(value); n > 0; n-- {
+		if strings.HasSuffix(query, value[:n]) {
+			return value[n:]
+		}
+	}
+	return value
+}
-- 
2.43.0


From dede84290b21b93014ad54bd5f7d0070cb1c76b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 44/45] fix: complete a subquery's resolution after a blank
 before the colon

What precedes the colon is told apart from the number while looking for the
partial word now, not only when it has the colon in it.
---
 promq/autocomplete/earley/completer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index c6a572d..208e7bb 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -129,10 +129,6 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 			if autocompletePrefix == "" {
 				continue
 			}
-			// subquery expression has range and resolution that are split by ":"
-			if strings.Contains(autocompletePrefix, ":") {
-				autocompletePrefix = strings.Split(autocompletePrefix, ":")[1]
-			}
 			if _, err := strconv.Atoi(autocompletePrefix); err == nil {
 				for _, ao := range sets.StringKeySet(timeUnits).List() {
 					newMatch := NewPartialMatch(ao, "time-unit", timeUnits[ao])
@@ -159,6 +155,7 @@ func getPrefix(query string) string {
 	prefixStart := 0
 	var quote rune
 	escaped := false
+	inRange := false
 	for i, c := range query {
 		separators := PromQLTokenSeparators
 		if quote != 0 {
@@ -173,8 +170,13 @@ func getPrefix(query string) string {
 			escaped = c == '\\'
 		case quote == 0 && strings.ContainsRune("\"'`", c):
 			quote = c
+		case quote == 0 && c == '[':
+			inRange = true
+		case quote == 0 && c == ']':
+			inRange = false
 		}
-		if strings.ContainsRune(separators, c) {
+		// subquery expression has range and resolution that are split by ":"
+		if strings.ContainsRune(separators, c) || inRange && quote == 0 && c == ':' {
 			prefixStart = i + 1
 		}
 	}
-- 
2.43.0


From e7ce614c290e40670e417c992b6a4959f2a90d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 45/45] fix: index series whose labels' hash equals that of
 others

---
 promq/prom/indexer.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index c37e254..b748d74 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -36,31 +36,34 @@ type indexer struct {
 	metricNameMu sync.RWMutex
 	// let's just be super inefficient
 	store map[string]map[string]sets.String
-	// metric bloom filter
-	metricBloomFilter sets.Uint64
+	// series that are in the store already, by hash
+	known map[uint64][]labels.Labels
 }
 
 func NewIndex() Indexer {
 	return &indexer{
-		metricNameMu:      sync.RWMutex{},
-		metricBloomFilter: sets.Uint64{},
-		store:             map[string]map[string]sets.String{},
+		metricNameMu: sync.RWMutex{},
+		known:        map[uint64][]labels.Labels{},
+		store:        map[string]map[string]sets.String{},
 	}
 }
 
-func (i *indexer) isMetricPresent(hash uint64) bool {
-	// check our metricBloomFilter and abort if unnecessary
+func (i *indexer) isMetricPresent(hash uint64, ls labels.Labels) bool {
 	i.metricNameMu.RLock()
 	defer i.metricNameMu.RUnlock()
-	return i.metricBloomFilter.Has(hash)
+	// different series may have the same hash
+	for _, known := range i.known[hash] {
+		if labels.Equal(known, ls) {
+			return true
+		}
+	}
+	return false
 }
 
 func (i *indexer) UpdateMetric(m ParsedSeries) {
 	hash := m.Labels.Hash()
 	// abort if we don't need to store this parsed series.
-	// note: we don't care about collisions, this is functionally
-	// a bloom filter.
-	if i.isMetricPresent(hash) {
+	if i.isMetricPresent(hash, m.Labels) {
 		return
 	}
 	ls := m.Labels.Map()
@@ -72,7 +75,7 @@ func (i *indexer) UpdateMetric(m ParsedSeries) {
 	i.metricNameMu.Lock()
 	defer i.metricNameMu.Unlock()
 	// next time we will know that
-	i.metricBloomFilter.Insert(hash)
+	i.known[hash] = append(i.known[hash], m.Labels.Copy())
 	if _, ok := i.store[n]; !ok {
 		i.store[n] = map[string]sets.String{}
 	}
-- 
2.43.0


import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","Every exposition sample line becomes exactly one series with its own identity",
 "Parsing a text-exposition payload yields, in order, exactly one entry per sample line, carrying that line's name, unescaped labels, value and explicit timestamp (or the scrape instant in milliseconds when it has none), with the caller's additional labels added and overriding same-named ones. Comments, metadata, blank lines and whitespace variants contribute nothing. A payload containing any malformed line is rejected as a whole with an error and no entries.",
 ["inputs"],"every payload composed of up to a bounded number of lines from an alphabet of sample/comment/metadata/malformed line shapes, times every additional-label map from a small set",
 "parse_test.go has two fixed payloads and does not look at escapes, timestamps, overriding labels or malformed lines.",
 ["promq/prom/parse.go"],[("parser loop over entries","promq/prom/parse.go ParseTextDataWithAdditionalLabels"),("millisecond conversion","promq/prom/parse.go PromTimestamp")],
 ["return value of ParseTextDataWithAdditionalLabels / ParseTextData"])

p("C02","Selection returns exactly the series whose labels satisfy every matcher",
 "For any set of loaded series and any list of label matchers, selecting returns each distinct series that satisfies all matchers exactly once and no other, where a missing label counts as the empty string for all four matcher types; distinct label sets stay distinct series even when their hashes collide, and label name/value listings report exactly the names and values present (restricted to the matching series when matchers are given).",
 ["inputs","histories"],"every subset of a small universe of label sets (with hash-colliding pairs), in every load order within bounds, times every matcher list up to length two or three over {=,!=,=~,!~} and a value alphabet including the empty string",
 "prom_test.go checks a couple of fixed selectors; the postings algebra (intersect, merge, without, empty-label rules) is only right if it is right for every combination.",
 ["promq/prom/query.go","promq/prom/postings.go","promq/prom/map.go"],[("postings intersection with empty-value fallback","promq/prom/query.go Select"),("posting lists","promq/prom/postings.go"),("collision-resolving series map","promq/prom/map.go")],
 ["storage.Querier.Select / LabelValues / LabelNames on NewRangeStorage()"],
 [("postings","label pair -> ordered series refs","promq/prom/postings.go"),("series map","hash -> label sets","promq/prom/map.go")])

p("C03","No loaded sample is lost, altered or reordered in time",
 "After any sequence of loads, each series contains exactly the samples loaded for it, ordered by timestamp, samples with equal timestamps in arrival order, however late, early or duplicated the arrivals were and however they were batched across loads and series.",
 ["histories","inputs"],"every sequence of up to a bounded number of (series, timestamp) arrivals over small domains, with every batching of the sequence",
 "The tests load increasing timestamps only; the out-of-order insertion path is never executed by them.",
 ["promq/prom/query.go"],[("append then binary-search insertion","promq/prom/query.go LoadData")],
 ["sample iterators of the selected series"],[("per-series points","sorted list of (t,v)","promq/prom/query.go seriesData")])

p("C04","Queries are answered with Prometheus semantics over the stored samples",
 "For any stored data and any PromQL expression, evaluating the expression over this storage gives the same value or error, instant or ranged, as evaluating it over a reference storage holding the same samples; series iterators are independent of each other, enumerate every sample, and seeking moves to the first sample at or after the target without ever moving backwards.",
 ["programs","inputs","histories"],"every expression of a bounded set that touches each engine access pattern (selectors, offsets, @, subqueries, range functions, timestamp, aggregations, binary matching) times small data sets, instants and ranges; every sequence of iterator operations up to a bound",
 "The tests run a handful of selectors on dense data; reuse of a series' iterator, seeks past the end and sparse data are not reached.",
 ["promq/prom/query.go"],[("storage.Queryable implementation","promq/prom/query.go Querier/Select/blockSeries")],
 ["promql.Engine results with the storage as Queryable","storage.Series.Iterator()"])

p("C05","Retention drops exactly the expired samples and expired series can come back",
 "After discarding samples older than a cutoff, every remaining query sees exactly the samples at or after every cutoff applied since they were loaded: nothing newer is lost, nothing older survives, series left without samples vanish from every selection, and a series that is loaded again later is visible again with exactly its new samples.",
 ["histories"],"every sequence of up to a bounded number of load and clean operations over 2-3 series and a small time domain",
 "No test calls the retention operation more than trivially; the failure needs load-clean-load histories.",
 ["promq/prom/query.go","promq/prom/postings.go","promq/prom/map.go"],[("binary search for first kept sample and posting removal","promq/prom/query.go Clean, promq/prom/postings.go Delete")],
 ["Select and LabelValues after Clean"])

p("C06","The completion index mirrors exactly what has been scraped",
 "After any sequence of updates the index reports exactly the set of metric names seen, for each metric exactly the label names seen on it (never the metric-name label), and for each label exactly the values seen; unknown metrics or labels report nothing, nameless series are ignored, and answers handed out earlier are snapshots that neither change afterwards nor let the caller change the index.",
 ["histories","inputs"],"every sequence of updates up to a bound over a universe of label sets, with every query after every step and caller mutation of returned sets",
 "indexer_test.go loads fixed batches and checks final contents; order, aliasing and repeated updates are not explored.",
 ["promq/prom/indexer.go"],[("hash filter in front of nested maps","promq/prom/indexer.go UpdateMetric")],
 ["Indexer interface from NewIndex()"])

p("C07","Scrape, query and callback histories behave like a sequential specification",
 "For any sequence of query changes, scrapes (succeeding, failing at the source, or whose callback fails) and manual executions: a rejected query leaves the previous one in force, a failed source scrape changes neither data nor index and does not invoke the callback, a successful scrape stores all data before evaluating and invokes the callback exactly once with the current query's result over the configured instant or window ending now, and errors are reported to the caller.",
 ["histories","fault_sequences"],"every sequence up to a bounded length over {set good/bad query, scrape ok / source error / callback error, manual execution, clock advance} in instant and range mode",
 "The existing tests check single happy-path runs.",
 ["promq/prom/multi.go"],[("PeriodicData","promq/prom/multi.go SetQuery, Scrape, ManuallyExecuteQuery")],
 ["return values, callback invocations and results of PeriodicData"],[("Query","query in force","promq/prom/multi.go"),("storage","all scraped samples","promq/prom/multi.go")])

p("C08","Scraping, query changes, manual queries and completion lookups are safe together",
 "When scrapes, query changes, manual executions and completion-index reads run concurrently, every interleaving is free of data races, deadlocks and crashes, each evaluation uses one query that was in force and sees each scrape entirely or not at all, and index reads return states that some prefix of the updates produces.",
 ["schedules"],"every interleaving with a bounded number of preemptions of 2-3 threads with 1-2 operations each, scheduling points at every synchronisation operation and statement of the package",
 "Tests are single-threaded; the interactive command runs a background scraper against the UI goroutines.",
 ["promq/prom/multi.go","promq/prom/indexer.go","promq/prom/postings.go"],[("storageMu, queryMu, metricNameMu","promq/prom/multi.go, promq/prom/indexer.go"),("posting list mutex","promq/prom/postings.go")],
 ["call/return histories of PeriodicData and Indexer, happens-before race detection"])

p("C09","Every output format faithfully renders the query result",
 "For every result (vector, scalar, string, matrix; any label values and sample values), the JSON output with colouring on (colours stripped) and off decodes to the same value the engine's own JSON encoding gives, the YAML output decodes to the same samples, labels and timestamps, and the prometheus output has one line per sample consisting of name, remaining labels, value and timestamp in result order; the result's warnings are printed one by one; an errored result or unknown format yields an error and no output.",
 ["inputs"],"every result built from a bounded set of label sets, values (incl. NaN, infinities, extremes), timestamps and result types, for every format and colour setting",
 "Tests compare nothing or one sample per format.",
 ["promq/prom/output.go"],[("formatters","promq/prom/output.go ToPrettyFormat and friends")],
 ["returned string or error"])

p("C10","The one-shot command prints exactly what the targets expose, or fails",
 "For any set of targets, a listing prints each metric-and-label-keys line once in sorted order without the injected instance label; a one-shot query evaluates the given expression (or everything, if none is given) over the union of all targets' samples, each tagged with its target as instance, and prints the result in the requested format; if any target fails (transport, non-success status, unreadable or malformed body), the query is invalid or the format is unknown, the command returns an error and prints no result.",
 ["inputs","fault_sequences","configurations"],"every combination of 0-3 targets, each with a response from a menu of payloads and faults, times mode, query and output format menus",
 "No test exercises the command at all.",
 ["cmd/metrics/metrics.go","cmd/promq.go"],[("sources fan-in, list and instant mode","cmd/metrics/metrics.go")],
 ["stdout of the command and its returned error"])

p("C11","Completions depend only on the text, cursor and index, not on past completions",
 "For any history of completion requests made in the process, the suggestions for a request are the same, in the same order, as a fresh process gives for that text, cursor position and index contents.",
 ["histories"],"every sequence of up to a bounded number of requests over a query alphabet chosen to extend, truncate, edit and revert each other (every prefix of seed queries, single-edit neighbours), including texts with lexical errors",
 "The incremental parser keeps its chart and token list across requests; tests run independent requests or a few fixed edits.",
 ["promq/autocomplete/earley/earley.go","promq/autocomplete/earley/chart.go","promq/autocomplete/earley/luthor.go"],[("chart reuse by common token prefix","promq/autocomplete/earley/earley.go ParseTokens, luthor.go Compare")],
 ["GenerateSuggestions result"],[("shared parser chart and words","state of the last parse","promq/autocomplete/earley/earley.go")])

p("C12","Completion never fails, whatever the text and cursor",
 "For every text, including partial, ill-formed, unterminated and non-ASCII text, and every cursor position at a character boundary, requesting completions from the prompt terminates without crashing and returns a (possibly empty) list; it considers exactly the text before the cursor.",
 ["inputs"],"every string up to a bounded length over an alphabet of lexically significant characters (quotes, braces, brackets, operators, digits, keywords' letters, multi-byte and wide characters, invalid bytes), every cursor position",
 "completer_test.go uses a few dozen well-formed ASCII queries.",
 ["promq/autocomplete/earley/completer.go","promq/autocomplete/earley/luthor.go","cmd/metrics/autocompleter.go"],[("prefix extraction and lexing","promq/autocomplete/earley/completer.go getPrefix, luthor.go extractTokensWithOffset"),("cursor translation","cmd/metrics/autocompleter.go")],
 ["GenerateSuggestions, Completer.Complete"])

p("C13","Suggested next-token kinds are exactly those the grammar allows",
 "For any grammar without empty productions in which every non-terminal can produce something, and any token sequence, the parser suggests a token kind exactly when some sentence of the grammar starts with the preceding tokens followed by a token of that kind, regardless of rule order, recursion or ambiguity; the PromQL grammar in use allows exactly its documented constructs.",
 ["programs","inputs"],"all small grammars up to a bounded number of rules and symbols, all token strings up to a bounded length, against an independent viable-prefix oracle; for PromQL, every token sequence up to a bounded length reachable by viable prefixes against an independently written grammar",
 "earley_test.go tries a handful of grammars; the state space of items (origin indices, completion chains) is only sampled.",
 ["promq/autocomplete/earley/earley.go","promq/autocomplete/earley/stateset.go","promq/autocomplete/earley/item.go","promq/autocomplete/earley/chart.go","promq/autocomplete/earley/promql.go"],[("predict/scan/complete","promq/autocomplete/earley/earley.go"),("item identity","promq/autocomplete/earley/item.go badhash")],
 ["NewEarleyParser(...).GetSuggestedTokenType via exported API; GenerateSuggestions for PromQL"])

p("C14","Suggestions come only from the index or vocabulary and extend the typed prefix",
 "Whatever the query (over metrics that are not named like PromQL words), the suggestions offered are exactly those of the allowed kinds that extend the partial word before the cursor: metric names from the index, label names the index knows for the metric in scope, quoted label values the index knows for that metric and label, and the fixed vocabulary for keywords, operators, functions and time units; none is invented, missing or duplicated within a kind.",
 ["inputs","programs"],"every query prefix from a bounded language of PromQL expressions with several metrics and labels in nested scopes, times small index contents and every partial-word truncation",
 "Tests check single fixed queries with one metric.",
 ["promq/autocomplete/earley/completer.go","promq/autocomplete/earley/completion_context.go","promq/autocomplete/filter.go"],[("context propagation","promq/autocomplete/earley/completion_context.go"),("suggestion switch","promq/autocomplete/earley/completer.go GenerateSuggestions")],
 ["GenerateSuggestions values, kinds and details"])

p("C15","Candidate filtering keeps exactly the matching candidates, unchanged",
 "Prefix filtering keeps exactly the candidates that start with the typed text and fuzzy filtering exactly those containing it as a subsequence of characters, comparing case-insensitively when asked; the candidates kept are returned as they were, and quoting maps each value to a literal that reads back as that value.",
 ["inputs"],"every candidate set and pattern over a small alphabet with upper/lower case and multi-byte letters up to a bounded length",
 "fliter_test.go has a few fixed lower-case cases.",
 ["promq/autocomplete/filter.go"],[("filters","promq/autocomplete/filter.go")],["FilterPrefix, FilterFuzzy, Enquote"])

p("C16","The text area behaves like a terminal of its size",
 "Any sequence of writes (including newlines, wide and combining characters), cursor movements, scrolls, erasures, resets and resizes applied to the prompt's text area leaves exactly the cell contents, styles and cursor position that a reference terminal of that size has: text wraps at the right edge, overflowing the bottom scrolls up by one line, reverse scrolling at the top scrolls down by one line, erasures blank exactly the named region, and no operation crashes.",
 ["histories","configurations"],"every operation sequence up to a bounded depth over all operations, at every size from 1x1 to a small bound",
 "textbox/prompt tests write a few strings at one size and never reverse-scroll or use tiny sizes.",
 ["promq/term/wrapper.go","promq/term/prompt.go"],[("textWrapper","promq/term/wrapper.go"),("locked delegation","promq/term/prompt.go cellWriter")],
 ["cells flushed to the screen, reported cursor position"],[("cell buffer, cursor","visible state","promq/term/wrapper.go")])

p("C17","Widgets draw only inside their box and never crash at any size",
 "At every terminal size, including zero and one cell, and for any content, a text box, graph, prompt or split of them completes drawing without crashing or hanging and writes only to cells inside the box it was assigned, and a text box shows the wrapped tail of its contents with everything else in its box blank, independent of what was drawn before.",
 ["configurations","inputs","histories"],"every box size and offset up to a bound, every resize sequence up to length 2-3, times content menus with wide characters and extreme numbers",
 "Tests use one or two comfortable sizes.",
 ["promq/term/textbox.go","promq/term/graph.go","promq/term/withprompt.go","promq/term/wrapper.go"],[("box-relative painting","promq/term/graph.go, promq/term/textbox.go, promq/term/wrapper.go FlushTo")],
 ["SetContent calls on the screen"])

p("C18","Splits tile their area exactly and respect dock size limits",
 "For every area size, dock side, dock size and percentage cap, the two panes lie inside the area, do not overlap, together cover it, and the docked pane sits at the named side with the requested size capped by the percentage and by leaving the other pane at least one line when possible; nested splits keep this at every level and both panes are drawn.",
 ["configurations"],"every combination of area, offset, side, dock size and percent within bounds, plus nesting",
 "split_test.go checks one size per side.",
 ["promq/term/split.go"],[("capDockSize, dockedBox, flexedBox","promq/term/split.go")],["SetBox calls received by the panes"])

p("C19","Plots show every point where it belongs and connect consecutive points",
 "For any series and canvas size, each point with a finite value is marked at the cell nearest to its linear scaling by time and value into the canvas with the earliest time left, latest right, smallest value at the bottom and largest on top (points sharing a column averaged), consecutive points are joined by a gap-free straight line of the marks nearest to it whether rising, falling or flat, and nothing else is marked; drawing never crashes or hangs.",
 ["inputs","configurations"],"every pair and triple of points on small canvases, every multi-series combination within bounds, plus degenerate inputs (empty series, single point, flat, NaN, infinities, extreme magnitudes)",
 "graph_test.go renders one data set, and asserts a wrong drawing of its falling line.",
 ["promq/term/plot/plot.go"],[("scaling","promq/term/plot/plot.go ScalePlatonicToScreen/ToScreen"),("line rasterisation","promq/term/plot/plot.go Render"),("braille packing","promq/term/plot/plot.go BrailleCellMapper/DrawBraille")],
 ["braille characters and series ids drawn"])

p("C20","Axis ticks are finite, ordered, in range and labelled at the right place",
 "For any graph, size and density, tick computation terminates with finitely many ticks in ascending order, at most one per screen line and always one on the screen lines of the minimum and the maximum of each axis; every tick lies within the axis range and is placed at the screen position its value scales to, and its label is the labeler's rendering of that value drawn beside it within the margin.",
 ["inputs","configurations"],"every axis range from a menu of integer/float ranges (flat, negative, tiny spans at large magnitude, extreme, non-finite), times sizes, densities and point counts",
 "graph_test.go checks one range.",
 ["promq/term/plot/axes.go","promq/term/graph.go"],[("EvenlySpacedTicks","promq/term/plot/axes.go"),("DrawAxes","promq/term/plot/axes.go")],["ScreenTicks, DrawAxes output"])

p("C21","Typed keys reach the prompt in order, as the intended input",
 "For any sequence of key events fed in and read back in any interleaving, the prompt receives the bytes of the typed characters in order and each special key as the code of the same-named prompt key, each in a read of its own and never merged, lost, duplicated or reordered; keys the prompt has no code for are ignored. This also holds, without data races, when keys are typed, read and the prompt is resized by different goroutines at once.",
 ["inputs","histories","schedules"],"every key event sequence up to a bounded length over an alphabet of ASCII, multi-byte and all special keys with modifiers, with every placement of reads between them; every interleaving, with a bounded number of preemptions, of a typing, a reading and a resizing goroutine",
 "prompt_test.go sends a few fixed keys.",
 ["promq/term/prompt.go","promq/term/keytobytes.go"],[("collapse loop with left-overs","promq/term/prompt.go Read"),("key translation","promq/term/keytobytes.go")],["bytes returned by the prompt's console reader"])

p("C22","The event loop draws the latest view at the latest size and always stops",
 "For any sequence of resize, key, repaint and view-update events, keys go to the key handler once each in order, and after every repaint, update or resize the screen shows the most recent view laid out at the current screen size with nothing left over from earlier views; cancelling at any point finalises the screen and makes the loop return, and requests, which may come from any goroutine and at any time, also before the loop runs, never block, race or get lost.",
 ["histories","schedules"],"every event sequence up to a bounded length over views, sizes and keys, with cancellation at every position; every interleaving, with a bounded number of preemptions, of the loop with goroutines that request, type, resize and cancel",
 "runner_test.go runs a few short scenarios.",
 ["promq/term/runner.go"],[("event loop","promq/term/runner.go Run"),("request posting","promq/term/runner.go RequestRepaint/RequestUpdate")],
 ["calls on the screen, key handler and view"])

p("C23","The prompt widget delivers each entered line once and stops cleanly",
 "For any sequence of typed lines, initial input, resizes and cancellation, each submitted line is delivered to the input handler exactly once, in order and unaltered, output the handler returns is shown before the next prompt, a stop request shuts the screen down exactly once and no further line is handled, and cancelling makes the widget return. This also holds, without data races or deadlocks, when the event loop lays out, draws and types while the widget is being set up, draws its output or is cancelled; the cursor then ends up where the typed text ends.",
 ["histories","schedules"],"every scenario up to a bounded length over lines (empty, short, longer than the key buffer, non-ASCII), initial input, resize before/after start, handler answers and cancellation points; every interleaving, with a bounded number of preemptions, of the widget's own loops with an event loop and a canceller",
 "prompt_test.go covers a few scenarios with one size and short input.",
 ["promq/term/withprompt.go","promq/term/prompt.go"],[("input loop","promq/term/withprompt.go Run"),("start gate on first box","promq/term/withprompt.go SetBox")],
 ["HandleInput calls, shutdown calls, flushed cells"])

p("C24","The set types obey set algebra",
 "For all six element types and all operands, including nil and shared sets, insertion, removal, membership, union, intersection, difference, superset, equality, listing (sorted, duplicate free), popping and length agree with mathematical sets, and no operation that returns a new set modifies or aliases its operands.",
 ["inputs","histories"],"every pair of subsets of a small universe for binary operations and every operation sequence up to a bounded depth, for each element type",
 "There are no tests for the sets package.",
 ["notstdlib/sets/byte.go","notstdlib/sets/int.go","notstdlib/sets/int32.go","notstdlib/sets/int64.go","notstdlib/sets/string.go","notstdlib/sets/uint64.go"],[("generated set types","notstdlib/sets/*.go")],["exported methods"])

p("C25","Conversion of query results to plot series preserves every series and point",
 "For every range-query result, conversion yields one plot series per result series in order with the same points, timestamps and values, a title that is the series' label values in label order joined by comma and space, and a non-zero identity that depends only on the series' labels; errored or non-matrix results yield an error, and the converted data stays valid after the query's own data is reused.",
 ["inputs"],"every matrix of up to 3 series over a label-set universe with up to 3 points each over value/timestamp menus; every other result type",
 "There are no tests for the conversion.",
 ["cmd/metrics/data.go"],[("PromResultToPromSeriesSet","cmd/metrics/data.go")],["returned plot.SeriesSet"])

p("C26","The continuous mode always shows the latest result of the query in force",
 "In continuous mode, from the initial query on, every target is fetched once per period, and after each round in which all targets succeed and the query in force can be evaluated the screen shows exactly that result over the window ending at that instant: a legend entry per series in the colour of its line and the plot, with times labelled according to the window and a value range that covers all results since the query was entered. Entering another valid query puts it in force with the next round; an invalid query, an unknown command, an empty line, a failing round, typing and resizing change neither the query in force nor the result shown, and every entered line and its answer appear in the prompt with the cursor at its end. :quit and :q stop the fetching, restore the terminal once and end the command successfully; a target failing at the start makes the command fail without touching the terminal, and nothing is ever printed beside the screen.",
 ["histories","fault_sequences","configurations"],"every sequence of up to a bounded number of operations (rounds with and without failing targets, lines entered, typing, resizes) over configurations of targets, periods, windows, initial queries and screen sizes",
 "No test runs the continuous mode at all.",
 ["cmd/metrics/metrics.go","cmd/metrics/data.go","promq/term/runner.go","promq/term/withprompt.go","promq/term/prompt.go"],[("interactive chart","cmd/metrics/metrics.go runInteractiveChart"),("periodic scraping","cmd/metrics/metrics.go scrape")],
 ["screen contents, fetches, return value and output of MetricsCommand.Run"],[("query in force, last axes","state carried from round to round","cmd/metrics/metrics.go")])

p("C27","The whole display settles in the latest state whatever happens at once",
 "When the event loop, a prompt docked in a split view, a terminal (typing, resizing) and an application (requesting views and repaints, answering lines, cancelling) run at once, then in every interleaving there is no data race, deadlock or crash; once everything has settled the screen shows the view requested last in its part of the current screen and the prompt's lines, answers and typed text in the other, with the cursor at the end of the text; every entered line has been handled once, in order and unaltered; and cancelling, or a line that stops, ends the prompt and the event loop and restores the terminal exactly once.",
 ["schedules","histories"],"every interleaving, with a bounded number of deviations from running each goroutine for as long as it can, of the event loop, the prompt's loops, a terminal and an application that do up to a bounded number of things each",
 "Tests exercise the widgets one at a time and wait for each step.",
 ["promq/term/runner.go","promq/term/withprompt.go","promq/term/prompt.go","promq/term/split.go"],[("locks of loop, prompt and text","promq/term/runner.go screenMu, promq/term/withprompt.go mu, promq/term/prompt.go textMu"),("requests kept until the loop looks","promq/term/runner.go takeRequests")],
 ["calls on the tcell screen, HandleInput calls, returns of Run, happens-before race detection"])

p("C28","Continuous mode stays consistent when everything happens at once",
 "In continuous mode, whatever the user does (typing, entering valid, invalid and quitting lines, resizing) and whatever fails while a periodic round fetches, evaluates and draws, in every interleaving there is no data race, deadlock or crash, every round fetches exactly at its time and no longer once the user has quit; once settled the screen shows, at its present size, exactly the latest result of the query last accepted, with a value range that covers every result shown since that query took force and nothing of earlier queries except a result still under way when it was entered, and the prompt shows what was entered and typed, with the cursor at its end; quitting ends the command successfully and restores the terminal exactly once.",
 ["schedules","histories","fault_sequences"],"every interleaving, with a bounded number of deviations from running each goroutine (oldest or newest first) for as long as it can, of scraper, event loop, prompt and a user acting at each of several instants around a round",
 "No test runs the continuous mode at all, let alone with a user acting during a round.",
 ["cmd/metrics/metrics.go","promq/prom/multi.go","promq/term/runner.go","promq/term/withprompt.go"],[("query change with axes reset","cmd/metrics/metrics.go HandleInput"),("result callback","cmd/metrics/metrics.go runner.Callback"),("lock of the query in force","promq/prom/multi.go queryMu")],
 ["screen contents, fetches, return value and output of MetricsCommand.Run, happens-before race detection"],[("query in force and the axes that belong to it","changed together","cmd/metrics/metrics.go lastAxes, promq/prom/multi.go Query")])

p("C29","Accepting a suggestion completes the word and keeps the rest of the query",
 "At the interactive prompt, for every text before and after the cursor, exactly the words the completion offers for the text before the cursor can be selected with Tab, each once; whichever is accepted, the query becomes what was typed with the partial word at the cursor completed to the suggestion (a time unit is appended to the number before it), everything before that word and after the cursor being kept, whatever operators, quotes, numbers or wide characters are next to it; what is shown while a suggestion is selected is what gets entered, and going past the last one restores what was typed.",
 ["inputs","configurations"],"every viable query prefix up to a bounded number of tokens, written with and without blanks, times partial words, texts after the cursor and every suggestion offered; and starts of queries times partial words at the prompt of the whole command",
 "No test accepts a suggestion: the completer, the separators and go-prompt's replacement of the word before the cursor are never put together.",
 ["cmd/metrics/autocompleter.go","cmd/metrics/metrics.go","promq/autocomplete/earley/completer.go"],[("suggestions for the prompt","cmd/metrics/autocompleter.go Complete"),("word separators","cmd/metrics/autocompleter.go PromQLTokenSeparators, cmd/metrics/metrics.go SetupPrompt")],
 ["text entered and screen after Tab and Enter"])

p("C30","Editing at the prompt works as on a terminal of its own",
 "For every sequence of keys (characters of any width, cursor movement, deletion, history, completion menu, interrupt, enter), answers shown and resizes or moves of the box, whether the keys come one at a time or all at once, the prompt's box shows exactly what its line editor draws on a terminal of that size: prompt, text, menu and earlier output in their colours, wrapped and scrolled alike, nothing left over and nothing missing, the cursor where the editing takes place; and the lines entered, recalled and edited again are exactly the ones entered on such a terminal.",
 ["inputs","histories","configurations"],"every sequence of editing operations up to a bounded number, times box sizes, numbers of suggestions, answers, prompts, initial input and pacing of the keys",
 "The line editor redraws relative to where it believes the cursor is, so an error in any writer call, size or key shows only several keys later; the tests call single operations or enter single lines.",
 ["promq/term/withprompt.go","promq/term/prompt.go","promq/term/wrapper.go","promq/term/keytobytes.go"],[("keys to the editor, drawing and size from it","promq/term/prompt.go screenParser and cellWriter, promq/term/withprompt.go Run, SetBox")],
 ["cells, colours and cursor on the screen, lines delivered"])

p("C31","A command line does what its options say, however it is written",
 "For every command line, options may be spelled short or long, joined to their value or not, grouped, repeated and given in any order with the same effect: every -t adds exactly that target, whatever characters it contains, in the order given; of -q, -o and -l the last one counts; json is the default format; without -t the API server of the current context of the kubeconfig (files merged as usual) is fetched at its /metrics with that context's credentials and certificates. An unknown option, a missing or unusable value, an unusable kubeconfig or a failing run asks for nothing more, prints no result on the standard output and an error on the standard error, and the process exits unsuccessfully; otherwise it exits successfully; asking for help fetches nothing.",
 ["inputs","configurations"],"every command line of up to a bounded number of option spellings, times kubeconfigs, against real servers, in process and as a process of its own",
 "No test touches the command line or the kubeconfig; option parsing fails on unusual combinations and characters, e.g. repeated options or commas in targets.",
 ["cmd/promq.go","cmd/cli/flags.go","promq.go","cmd/metrics/metrics.go"],[("options to settings","cmd/promq.go addFlags, NewCmdPromQ"),("kubeconfig to target","cmd/promq.go toPromQCmd, cmd/metrics/metrics.go setupSources"),("exit status","promq.go main")],
 ["requests with credentials, standard output, standard error, exit status"])

with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))

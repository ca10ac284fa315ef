# -*- python -*- executed by meta.py
NOT_APPLICABLE = {}
BND = ' Bounded: every value within the bounds in the evidence file, nothing beyond them. Trusts the SSA-to-SMT engine in /verif/engine (cross-checked per run by replaying path samples and every counterexample natively), Go\'s SSA builder, Z3 and cvc5.'
T = 'promq/term/'
PL = 'promq/term/plot/'

prop('D01', 'Braille rendering is a bijection between dots and pixels',
 'Every pixel of a plot maps to exactly one dot of exactly one terminal cell, different pixels map to different dots, and a cell shows exactly the braille character whose raised dots are the pixels set in it.',
 ['inputs'], 'for every plot size and every pixel coordinate; for every subset of the eight dots of a cell',
 'Two example cells are tested; the mapping has eight cases per cell and the glyph 256 patterns.',
 [PL+'plot.go'], [('BrailleCellMapper', PL+'plot.go'), ('DrawBraille', PL+'plot.go'), ('ScreenGraph.Render', PL+'plot.go')], 'the cells given to the output function of the braille drawing operation',
 'Every pixel pair on terminals up to the bound; glyphs of every set of pixels up to the bound.' + BND)
prop('D02', 'Points are projected linearly onto the pixel grid',
 'Every point of a graph lands on the pixel that the linear scaling of its time, and of its value on the given scale, onto the plot calls for, up to one pixel of rounding: extremes at the edges, order preserved, and nothing outside the grid.',
 ['inputs'], 'for every time and value range, every point within it and every plot size up to the bound',
 'Tests check a handful of points on one plot size; off-by-one and overflow errors depend on the range and the size.',
 [PL+'plot.go'], [('PlatonicGraph.ToScreen', PL+'plot.go'), ('scale functions', PL+'plot.go')], 'pixels of the screen graph',
 'Symbolic positions, concrete list of widths and ranges (denominators) because of FP division.' + BND)
prop('D03', 'Lines between consecutive points are connected and straight',
 'The pixels drawn between two consecutive points of a series form an unbroken line from the one to the other, never further than a pixel from the ideal straight line, and in the colour of that series only.',
 ['inputs'], 'for every pair of pixel positions on the plot, rising, level or falling',
 'Tests draw one sample graph; each slope and direction takes its own branch.',
 [PL+'plot.go'], [('ScreenGraph.Render line interpolation', PL+'plot.go')], 'pixels given to the cell mapper',
 'Falling lines are a known finding (existing tests pin the wrong pixels); rising and level lines are decided.' + BND)
prop('D04', 'Axis ticks and labels lie on the axes and name their true values',
 'For any graph and any terminal size, computing and drawing the axes ends, draws only within the given screen, leaves the plot whatever the margins do not use, and puts each tick at the row or column of the value its label was made for, no two on one place.',
 ['inputs'], 'for every value range, tick spacing, screen size and label length within the bounds',
 'Tests use two fixed screens with one label width; degenerate ranges and tiny screens never occur in them.',
 [PL+'axes.go'], [('EvenlySpacedTicks', PL+'axes.go'), ('DrawAxes', PL+'axes.go')], 'cells given to the output function of the axis drawing operation; size left for the plot',
 'Two range ticks on one row is a known finding (pinned by existing tests).' + BND)
prop('D05', 'Graph bounds cover exactly the plottable samples',
 'The time range of a graph is the smallest that contains every sample of every series, the value range the smallest that contains every plottable one; samples without a position (NaN, infinities) are left out without disturbing the others, and every remaining sample is marked on the plot.',
 ['inputs'], 'for every list of series of samples with arbitrary 64-bit times and floating-point values',
 'Tests have a few finite samples; NaN, infinities, empty series and extreme timestamps are never tried.',
 [PL+'plot.go'], [('DataToPlatonicGraph', PL+'plot.go'), ('AutoAxes', PL+'plot.go'), ('ToScreen', PL+'plot.go')], 'bounds of the graph; pixels of the screen graph',
 'Arbitrary float64 values including NaN and infinities for up to three samples.' + BND)

prop('D06', 'The graph view draws the graph inside its box, coloured by series',
 'For any graph and any box, the graph view draws inside its box only and the same picture wherever the box is: one unbroken value axis and time axis meeting in one corner, between them the plot filling exactly the area that the axes leave, each series in the colour of its ID, axes and labels in none; where that does not fit, or without a graph, nothing.',
 ['inputs', 'configurations'], 'for every graph of a family (empty, single points, flat, NaN and infinite, extreme ranges), every box size and position, label length and tick spacing within the bounds, and every pair of series IDs',
 'Tests draw one graph at one place in one size.',
 [T+'graph.go', PL+'axes.go', PL+'plot.go'], [('GraphView.FlushTo', T+'graph.go')], 'cells drawn to the screen',
 'Positions and IDs symbolic, sizes up to the bounds.' + BND)

prop('L01', 'A split screen tiles its area exactly',
 'For any area, dock side, dock size and percentage cap, the two panes of a split view lie inside the area, do not overlap, leave no cell uncovered, and the dock has its requested size up to what the area and the cap allow.',
 ['inputs', 'configurations'], 'for every area, side, size and percentage within the bounds',
 'Tests list a dozen sizes; the arithmetic has special cases at zero, one and rounding of percentages.',
 [T+'split.go'], [('SplitView.SetBox', T+'split.go'), ('capDockSize', T+'split.go')], 'boxes the two panes receive',
 'Sizes are 64-bit symbolic without a cap; with a cap up to 200 (thorough 1000) because of floating-point arithmetic.' + BND)
prop('L02', 'A text box shows its text, wrapped, inside its box only',
 'A text box draws all of its box and nothing else, and what it shows is always its whole text wrapped to the current size with the oldest lines scrolled away, however often it is redrawn, moved, resized or appended to.',
 ['inputs', 'histories'], 'for every text of ASCII, wide and combining characters, every position, and every sequence of resize, append and redraw within the bounds',
 'Tests render single texts once; stale contents only show after a resize or a second redraw.',
 [T+'textbox.go', T+'wrapper.go'], [('TextBox.FlushTo', T+'textbox.go'), ('textWrapper.WriteString', T+'wrapper.go')], 'cells drawn to the screen',
 'Compared cell by cell with an independent reference wrapper.' + BND)
prop('W01', 'Terminal operations of a text area do exactly what they say',
 'From any contents and cursor position, each cursor movement, erase, scroll and newline operation leaves exactly the contents and the cursor that its terminal counterpart would, ends, and never moves the cursor outside the area; resizing keeps what fits.',
 ['histories', 'inputs'], 'one operation from an arbitrary state, which covers histories of any length; every area size within the bound',
 'Tests exercise a few operations from a few positions, and no scroll-up at all.',
 [T+'wrapper.go', T+'prompt.go'], [('textWrapper operations', T+'wrapper.go'), ('cellWriter.SetBox', T+'prompt.go')], 'cells drawn to the screen and the reported cursor position',
 'Inductive: the state before the operation is arbitrary.' + BND)
prop('W02', 'Printed text wraps, scrolls and combines in order',
 'Text written to a text area appears in order from the cursor on, wrapping before a character that does not fit, scrolling at the bottom, with wide characters taking two columns, combining marks attached to the character before them, and control characters showing nothing.',
 ['inputs'], 'for every text over all ASCII characters, a block of wide and a block of combining characters, up to the length bound, from every cursor position',
 'Tests print fixed strings; wrap, scroll and combining interact at every column.',
 [T+'wrapper.go'], [('textWrapper.WriteString', T+'wrapper.go'), ('writeNextCell', T+'wrapper.go')], 'cells drawn to the screen and the reported cursor position',
 'Compared cell by cell with an independent reference.' + BND)
prop('W03', 'The prompt stays in its box, also while it is being moved',
 'Whatever the prompt library prints and wherever the prompt is moved, the prompt widget draws exactly its current box, shows the cursor inside it, reports its current size, and printing, moving and drawing at the same time never race.',
 ['histories', 'schedules', 'inputs'], 'for every pair of operations around a move, and every interleaving of the drawing and the prompt thread within the preemption bound',
 'The tests move the prompt once and never overlap the two threads on purpose.',
 [T+'prompt.go', T+'withprompt.go'], [('PromptView', T+'withprompt.go'), ('cellWriter', T+'prompt.go')], 'cells drawn, cursor shown, size reported; data-race detector',
 'Happens-before race detection over all explored interleavings.' + BND)
prop('K01', 'Every key reaches the prompt as the key that was pressed',
 'Each special key of the terminal, with or without modifiers, is handed to the prompt as a byte sequence which the prompt library decodes to the same key; keys the prompt library does not know are dropped, and no others.',
 ['inputs'], 'for every key code of the terminal library and every modifier combination',
 'Tests check a sample of keys; each key code is its own case.',
 [T+'keytobytes.go'], [('nonRuneKeyToBytes', T+'keytobytes.go')], 'bytes read by the prompt library',
 'All key codes; the prompt library\'s own decoder is the oracle.' + BND)
prop('K02', 'Typed input reaches the prompt once, in order, specials alone',
 'Every key typed is delivered to the prompt exactly once and in order, whole characters at a time, and special keys are delivered in a read of their own, however typing and reading interleave.',
 ['histories', 'schedules', 'inputs'], 'for every sequence of characters, special keys and unknown keys up to the bound, split into batches anywhere, and every interleaving within the preemption bound',
 'Tests feed three fixed sequences; what remains from one read to the next depends on where batches end.',
 [T+'prompt.go'], [('screenParser.Read', T+'prompt.go'), ('AddKey, AddString', T+'prompt.go')], 'byte slices returned to the prompt library',
 'Symbolic characters.' + BND)

PR = 'promq/prom/'
prop('S01', 'Loaded samples are kept once, in time order, under their series',
 'Whatever order and batches samples arrive in, reading a series back yields each of its samples exactly once, with its own time and value, in ascending time order, and never a sample of another series.',
 ['inputs', 'histories'], 'for every order of 64-bit timestamps, every split into batches and every interleaving of series within the bounds',
 'Tests load samples in ascending order; insertion into the middle and across batches is never exercised.',
 [PR+'query.go'], [('rangeStorage.LoadData', PR+'query.go')], 'samples read through the querier\'s series iterator',
 'Up to four (five) samples, arbitrary timestamps.' + BND)
prop('S02', 'Selecting returns exactly the series all matchers match, each once',
 'For any stored series and any matchers (equal, not equal, regular expression, negated), selecting terminates and returns every series whose labels satisfy all matchers, where a missing label counts as empty, exactly once, with its own samples, sorted by labels when asked to, and no other series.',
 ['inputs'], 'for every subset of a family of series and every one or two matchers, and for every pair of label values and probe of one or two arbitrary bytes',
 'Tests try four matchers on two series; matching the empty value, missing labels and duplicates need combinations.',
 [PR+'query.go', PR+'postings.go'], [('rangeStorage.Select', PR+'query.go'), ('PostingsForMatchers', PR+'query.go')], 'series set returned by the querier',
 'Matcher kinds and patterns from a list; regular expressions run as compiled by Prometheus.' + BND)
prop('S03', 'Retention drops exactly the samples that are too old',
 'After cleaning up to a time, the stored samples are exactly those loaded that are at or after that time; series without samples are gone from selection and labels, and come back with only new samples when loaded again.',
 ['histories', 'inputs'], 'for every history of loading, cleaning, loading, cleaning with arbitrary timestamps and cut-offs',
 'Tests clean once with one cut-off; the defects appear only when something is loaded after cleaning.',
 [PR+'query.go', PR+'postings.go', PR+'map.go'], [('rangeStorage.Clean', PR+'query.go'), ('memPostings.Delete', PR+'postings.go')], 'series and samples read through the querier',
 'Two rounds over two series, arbitrary 64-bit timestamps.' + BND)
prop('S04', 'Series iterators are independent forward cursors',
 'Any sequence of next and seek on a series iterator visits samples as the iterator contract demands (next: the following sample; seek: the first at or after the time, never going back), ends for good, and does not disturb any other iterator of the same series.',
 ['histories', 'inputs'], 'for every sequence of operations with arbitrary seek times, on up to three iterators of one series',
 'Tests iterate once from start to end with a single iterator.',
 [PR+'query.go'], [('series iterator Next, Seek, At', PR+'query.go')], 'samples the iterator is at',
 'Compared with a reference cursor; up to 4 (6) operations.' + BND)
prop('S05', 'Label names and values list exactly what the matching series have',
 'Listing label names or the values of a label yields, sorted and without duplicates, exactly the names or values that the stored series satisfying the matchers have, also after old series were dropped.',
 ['inputs', 'histories'], 'for every subset of a family of series, any cut-off time and each matcher list tried',
 'Tests list an unrestricted storage once.',
 [PR+'query.go', PR+'postings.go'], [('rangeStorage.LabelNames', PR+'query.go'), ('rangeStorage.LabelValues', PR+'query.go')], 'lists returned by the querier',
 'Subsets of five series, five matcher lists, symbolic cut-off.' + BND)
prop('P01', 'Postings list exactly the series of each label pair, in order',
 'However series ids are added (in any order, ordered at once or later) and deleted, the postings of a label pair, and of all series, are exactly the ids that have it, ascending and without duplicates, and no key is left without series.',
 ['inputs', 'histories'], 'for every order of distinct 64-bit ids, every labelling from a list, and every deleted subset',
 'Tests add ascending ids; repair of order and removal of empty keys depend on the order.',
 [PR+'postings.go'], [('memPostings.addFor', PR+'postings.go'), ('memPostings.EnsureOrder', PR+'postings.go'), ('memPostings.Delete', PR+'postings.go')], 'ids read from the postings iterators',
 'Three (four) series with symbolic ids.' + BND)
prop('P02', 'Series with colliding hashes stay apart',
 'Looking up a series by hash and labels yields the series last stored under exactly those labels, or none if it was deleted, whichever labels share a hash.',
 ['histories', 'inputs'], 'for every sequence of stores and deletes with arbitrary, possibly equal, 64-bit hashes',
 'No test can produce colliding 64-bit hashes through the public interface.',
 [PR+'map.go'], [('seriesHashmap', PR+'map.go')], 'result of the lookups',
 'Four (five) operations on three label sets.' + BND)

AC = 'promq/autocomplete/'
EA = 'promq/autocomplete/earley/'
prop('H01', 'Suggestions depend on the query text, not on what was typed before',
 'The suggestions for a text are the same whatever was completed before with the same completer: typing on, deleting, editing in the middle or switching to an unrelated query all give exactly what a fresh completer gives.',
 ['histories', 'inputs'], 'for every sequence of two (three) texts and every edit of a text within the bounds',
 'The parser re-uses the chart of the previous text up to the first difference; tests ask each question of a new parser or append only.',
 [EA+'earley.go', EA+'completer.go', EA+'chart.go'], [('EarleyParser.Parse incremental prefix', EA+'earley.go'), ('earleyChart', EA+'chart.go')], 'matches returned by GenerateSuggestions',
 'Histories over a list of word sequences; the first difference may be anywhere.' + BND)
prop('H02', 'Completion never crashes, whatever is typed',
 'For any text, valid query or not, of any bytes, and any cursor position in it, generating suggestions terminates without panicking.',
 ['inputs'], 'for every byte sequence up to the bound, alone and spliced into query fragments, at every cursor position',
 'Tests complete well-formed ASCII query prefixes.',
 [EA+'completer.go', EA+'luthor.go', EA+'earley.go'], [('GenerateSuggestions', EA+'completer.go'), ('extractWords', EA+'luthor.go')], 'return of GenerateSuggestions',
 'Up to 3 (4) arbitrary bytes.' + BND)
prop('H03', 'Filtering keeps exactly the candidates that match',
 'Filtering suggestions by what was typed keeps exactly the candidates that match it, unchanged and in order; fuzzy filtering keeps those that contain the typed characters in sequence; quoting quotes each candidate once.',
 ['inputs'], 'for every list of candidates and every typed text of arbitrary bytes up to the bound',
 'Tests filter a few lower-case words.',
 [AC+'filter.go'], [('filters', AC+'filter.go')], 'matches returned by the filters',
 'Two candidates of up to three symbolic bytes.' + BND)
prop('H04', 'Suggested words fit the grammar and what was typed so far',
 'The words suggested while a word is being typed are exactly the words of the kinds which may stand there (metric names, labels, label values of the metric, functions, operators, keywords, time units) that complete the typed prefix; each is read back as the kind suggested; text behind the cursor has no influence.',
 ['inputs'], 'for every query context of a list, every prefix of symbolic bytes up to the bound, every cursor position',
 'Tests list expected suggestions for a few fixed queries.',
 [EA+'completer.go', EA+'completion_context.go', EA+'earley.go', EA+'promql.go'], [('GenerateSuggestions', EA+'completer.go'), ('completion context', EA+'completion_context.go')], 'matches returned by GenerateSuggestions',
 'Fixed index of two metrics; expected words from an independent recogniser.' + BND)
prop('H05', 'Suggested kinds are exactly the viable continuations of the query',
 'After any sequence of tokens, the kinds of token suggested next are exactly those with which the query can still be continued to a sentence of the grammar: none that leads nowhere, none missing.',
 ['inputs'], 'for every token sequence up to the length bound, for the PromQL grammar and for every small grammar of a family (left, right, empty and ambiguous recursion)',
 'A grammar has unboundedly many prefixes; tests try some dozens.',
 [EA+'earley.go', EA+'chart.go', EA+'promql.go', EA+'grammar.go'], [('EarleyParser', EA+'earley.go'), ('promQLGrammar', EA+'promql.go')], 'token types of GetSuggestedTokenType',
 'Compared with an independent chart recogniser over a recorded copy of the PromQL rules.' + BND)
prop('H06', 'Tokens of a query are classified by what they are in PromQL',
 'Splitting a query into tokens gives each word the kind it has in PromQL: functions, aggregations, keywords, operators, numbers, durations, strings, labels inside braces and grouping, and metric names, also when labels or metrics are named like functions, whatever their case.',
 ['inputs'], 'for every word of a family with symbolic case and characters, in every position class',
 'Tests tokenize fixed queries with one word of each class.',
 [EA+'luthor.go'], [('extractWords', EA+'luthor.go')], 'tokens returned by the lexer',
 'Compared with the Prometheus item table.' + BND)

SE = 'notstdlib/sets/'
prop('T01', 'Sets behave as mathematical sets and results alias nothing',
 'For each element type, membership, insertion, deletion, union, intersection, difference, equality, inclusion, popping and listing agree with the mathematical set of the elements; lists are sorted and complete; no operation changes an operand it should not, and changing a result changes no operand.',
 ['inputs', 'histories'], 'for every pair of sets with up to three arbitrary elements each and an arbitrary probe element',
 'Tests use two or three fixed string sets; the other element types are generated copies with no tests.',
 [SE+'int.go', SE+'int32.go', SE+'int64.go', SE+'uint64.go', SE+'byte.go', SE+'string.go'], [('set operations', SE+'string.go')], 'results of the exported methods',
 'Elements symbolic for all types (strings of one or two bytes).' + BND)

CM = 'cmd/metrics/'
prop('X01', 'The index lists exactly the names, labels and values seen',
 'After any history of scraped series the index lists exactly the metric names seen, for each metric exactly the label names its series had, and for each label exactly the values seen with that metric; what it hands out is a copy that neither changes later nor changes the index, and reading while a scrape adds series never races.',
 ['inputs', 'histories', 'schedules'], 'for every history of series with arbitrary label values up to the bound, and every interleaving of a reader and a scrape within the preemption bound',
 'Tests look one series up, once, in one goroutine.',
 [PR+'indexer.go'], [('indexer.UpdateMetric', PR+'indexer.go'), ('indexer.GetMetricNames and the other getters', PR+'indexer.go')], 'sets returned by the index; data-race detector',
 'Three (four) series, two goroutines.' + BND)
prop('R01', 'Each sample line of scraped text becomes one sample, and nothing else',
 'Parsing scraped metrics text gives one sample for each line that has one, in order, with exactly its labels (the labels of the source added to each and winning, sorted by name), its value, and its own time or else that of the scrape in whole milliseconds; text that is not metrics is an error without data.',
 ['inputs'], 'for every sequence of lines of all kinds, every time stamp and scrape time, every label value and every text of arbitrary bytes up to the bound',
 'Tests parse two fixed texts; escapes, time stamps, comments and malformed text interact per line.',
 [PR+'parse.go'], [('ParseTextDataWithAdditionalLabels', PR+'parse.go')], 'series returned by the parser',
 'Up to 3 (4) lines; label values and texts of 2 (3) arbitrary bytes.' + BND)
prop('M01', 'Each scrape shows the current answer of the current query',
 'After each scrape that obtained data, the callback runs exactly once with the answer of the last accepted query on all data scraped so far and kept: the newest value of every selected series, or for ranges one point per interval of the window; failures of the source or the callback are reported, a failed scrape changes nothing, a query that cannot be parsed is refused and changes nothing, one that can be parsed but not answered is an error until the next query, and scraping, querying and changing the query at the same time never race.',
 ['histories', 'fault_sequences', 'schedules', 'inputs'], 'for every history of scrapes with arbitrary values, of which any may fail at the source or in the callback, and every interleaving within the preemption bound',
 'Tests scrape twice without failures in one goroutine.',
 [PR+'multi.go', PR+'query.go'], [('PeriodicData.Scrape', PR+'multi.go'), ('PeriodicData.SetQuery', PR+'multi.go'), ('PeriodicData.executeQuery', PR+'multi.go')], 'results given to the callback; index and errors; data-race detector',
 'The real PromQL engine is executed; queries are selectors from a list.' + BND)
prop('O01', 'Results in prometheus format show every sample, in order, completely',
 'The prometheus format of a query result has one line per sample, in the order of the result, each with the metric name, all other labels, the value and the time; printing does not change the result, and errors of the query and unknown formats are reported as errors.',
 ['inputs'], 'for every vector up to the bound over a family of label sets, with values from a list including NaN and infinities and arbitrary time stamps',
 'Tests print one vector of one shape.',
 [PR+'output.go'], [('ToPrometheusFormat, ToPrettyFormat', PR+'output.go')], 'the string returned',
 'Three (four) samples.' + BND)
prop('O02', 'Results in JSON and YAML are complete and in order',
 'In JSON (with or without colours) and in YAML a query result of any kind is one document that has every sample or series, in order, with all labels, every point with its time and its value (infinities and NaN included), whatever characters label values contain; warnings do not change that, and printing does not change the result.',
 ['inputs'], 'for every vector, matrix, scalar and string over the listed label sets, times and values up to the bound, with and without warnings and colours',
 'Tests print one vector in one shape; JSON is the default output.',
 [PR+'output.go'], [('ToPrettyFormat, ToPrettyJson, ToPrettyColoredJson, ToYaml', PR+'output.go')], 'the string returned, parsed again by the harness',
 'Three (four) samples, two series. encoding/json and yaml.v2 work by reflection and are replaced by models in the engine which execute the MarshalJSON/MarshalYAML methods of the types and leave leaves to the real packages; the colouring formatter is executed.' + BND)
prop('A01', 'Accepting a suggestion keeps what was typed and completes it',
 'In the interactive prompt, suggestions are those for the text before the cursor, and accepting any of them leaves the text after the cursor and what was typed before it in place, ends the text before the cursor with the whole suggested word, and adds nothing else.',
 ['inputs'], 'for every text of a family of query fragments with up to two arbitrary characters (of any width) typed after it, every text after the cursor, and every suggestion',
 'Tests do not accept suggestions; which part of the text is replaced depends on where the prompt library thinks the word begins.',
 [CM+'autocompleter.go', EA+'completer.go'], [('Completer.Complete', CM+'autocompleter.go')], 'text of the prompt\'s buffer after accepting',
 'The prompt library\'s own buffer is executed.' + BND)
prop('C01', 'The answer to a query is charted completely, under its labels',
 'The chart of a query\'s answer has each of its series, in order, with every point and its time and value, titled by its label values and coloured as before; other answers and failed queries are errors; scraping several sources gives what each gives, as of one time, or an error; and the list of metrics has each name with its labels once, sorted.',
 ['inputs', 'fault_sequences'], 'for every answer of up to two (three) series with arbitrary points, every number of sources of which any may fail, and every history of series listed',
 'Tests convert no data and use no failing source.',
 [CM+'data.go', CM+'metrics.go'], [('PromResultToPromSeriesSet', CM+'data.go'), ('DataSources.ScrapePrometheusEndpoint', CM+'metrics.go'), ('MetricsCommand.outputMetricNames', CM+'metrics.go')], 'series given to the graph view, series returned by the sources, text printed',
 'Arbitrary 64-bit times and floating-point values.' + BND)
prop('C02', 'Scraping an endpoint yields its samples marked with it, or an error',
 'Scraping an endpoint sends one request with the context of the scrape and yields every sample of a successful reply labelled with the endpoint, at the time of the scrape; no reply, a reply that reports a failure, a reply cut short and nonsense are errors without data; the reply is always closed; and exactly the targets asked for are scraped, in order, or else the server of the configuration.',
 ['fault_sequences', 'inputs', 'configurations'], 'for every status code, every body of a list, failures of the transport and in the middle of the reply, and every number of targets within the bound',
 'Tests have no HTTP endpoint at all.',
 [CM+'metrics.go'], [('httpSource.ScrapePrometheusEndpoint', CM+'metrics.go'), ('MetricsCommand.setupSources', CM+'metrics.go')], 'requests seen by the transport; series and error returned',
 'net/http is executed over a stub transport.' + BND)
prop('C03', 'A query by command prints the answer for all targets, or an error and nothing',
 'Asked once on the command line, the tool scrapes the given targets in order and prints exactly the samples the query selects from all of them, each labelled with its target, or the sorted list of all metrics; a target that fails in any way, a query that is wrong and an unknown output format are errors, and then nothing is printed.',
 ['fault_sequences', 'inputs', 'configurations'], 'for every failing request, every error status, and every combination of the listed texts, queries and targets',
 'Tests have no HTTP endpoint at all.',
 [CM+'metrics.go'], [('MetricsCommand.Run', CM+'metrics.go'), ('MetricsCommand.queryData', CM+'metrics.go')], 'what is printed, the error returned, requests seen by the transport',
 'Three texts, seven queries, two targets or the default one, all output formats; net/http is executed over a stub transport.' + BND)
prop('C04', 'The interactive chart follows the queries and scrapes until it is quit',
 'In interactive mode each query entered, the initial one included, is answered at the prompt, and after every scrape the screen shows the last valid query on all that was scraped: exactly its series in the legend, their points in the colours of the legend, next to an axis with their values and over one with their times, written as fits the window; failed scrapes, wrong input and queries that cannot be charted change nothing of that; quitting at any moment, also with a request outstanding, ends without an error and gives the terminal back once; without data to start with there is an error and no screen.',
 ['histories', 'fault_sequences', 'schedules'], 'for every combination of initial query, (two) commands, replies and ways to quit of the lists, and every schedule within the preemption bound',
 'Interactive mode has no test at all.',
 [CM+'metrics.go', T+'runner.go', T+'withprompt.go'], [('MetricsCommand.runInteractiveChart', CM+'metrics.go'), ('MetricsCommand.scrape', CM+'metrics.go'), ('Runner.Run', T+'runner.go')], 'cells of a simulated terminal; requests; return of Run',
 'One (two) commands per session, simulated time; eight windows between 30 s and 10 days, two clocks; the terminal is replaced by a seam in a copy of tcell, net/http executed over a stub transport.' + BND)
prop('U01', 'The screen always shows the latest view, and keys arrive in order',
 'Whatever events occur in whatever order (keys, resizes, new views, repaint requests, from any number of goroutines), each key is handled once and in order, the screen ends up showing the view last asked for in the present size of the screen and nothing of what was shown before, stopping at any moment ends the loop, and the terminal is set up and given back exactly once.',
 ['histories', 'schedules', 'fault_sequences'], 'for every history of events up to the bound, and every interleaving of requests, events and stopping within the preemption bound',
 'Tests run a few fixed events on a simulated screen.',
 [T+'runner.go'], [('Runner.Run', T+'runner.go'), ('Runner.RequestRepaint', T+'runner.go'), ('Runner.RequestUpdate', T+'runner.go')], 'calls on the screen and the views',
 'Four (five) events; preemptions 1 to 3.' + BND)
prop('U02', 'Every line entered at the prompt is handled once and answered in place',
 'Every line typed or pasted, also ahead of the prompt, is handed to the handler exactly once, in order, after the initial input, and shown with its answer below it inside the prompt\'s box; the prompt starts when it has a place and not before, handles its initial input, ends when the handler asks to stop or it is cancelled, without hanging whatever keys follow, and reports errors but not being cancelled.',
 ['histories', 'schedules', 'inputs'], 'for every sequence of two (three) lines over arbitrary characters of a class, every answer, and every moment of stopping within the preemption bound',
 'Tests run one fixed session; keys that follow the command to quit never occur.',
 [T+'withprompt.go', T+'prompt.go'], [('PromptView.Run', T+'withprompt.go'), ('promptScreen', T+'prompt.go')], 'calls of the handler, cells drawn, return of Run',
 'The prompt library is executed; its terminal set-up is replaced.' + BND)

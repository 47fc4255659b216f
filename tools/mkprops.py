#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that ids, text and anchors stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Protocol lines: applied exactly once as written, or rejected without effect",
  "Every line of a datagram in the spectatord line protocol `<type>[,extra]:<name>[,<key>=<value>]*:<number>` is judged on its own, whatever lines surround it: a well-formed line performs exactly one update, of the named type, name, tags and value (t/T in seconds, U as unsigned 64-bit, g with an optional positive ttl in seconds, X with a positive timestamp in ms), and a malformed line performs none. "
  "The parser reports an error exactly for the malformed lines, and spectatord.parsedCount / spectatord.parseErrors count the accepted and the rejected lines, unless status metrics are disabled. "
  "Any byte sequence is handled without reading outside the line or crashing.",
  ["inputs", "histories"], "all datagrams: every sequence of lines over the protocol's alphabet, well-formed or not",
  "The existing tests feed about twenty hand-written lines; the claim is over every byte sequence and every neighbouring line, and the server tests are not even part of the baseline build.",
  ["server/spectatord.cc", "server/spectatord.h"],
  [("Server::parse_lines / parse_line / get_measurement", "server/spectatord.cc")],
  [("datagram buffer", "NUL-terminated text the handler may modify", "server/spectatord.cc")],
  ["return value of Server::parse", "Registry::Measurements", "Registry meter listings"])
p("C02", "Statsd lines: applied as written (type, tags, sampling rate) or rejected",
  "Every statsd line `<name>:<number>|<c|g|ms|h|s>[|@<rate>][|#<tag>[:<value>],...]` either performs exactly the update it states (counters scaled by 1/rate, timers in milliseconds and histograms repeated round(1/rate) times, gauges unscaled, sets ignored, a bare tag meaning value 1) or is rejected with an error and has no effect. "
  "A rate must satisfy 0 < rate <= 1; no line, whatever its numbers, hangs the daemon or stops it from processing the lines that follow.",
  ["inputs", "histories"], "all statsd datagrams over the protocol's alphabet",
  "The tests cover one line of each kind; tag lists, rate corner cases and malformed input are an unbounded input space.",
  ["server/spectatord.cc"], [("Server::parse_statsd_line, add_tag, update_statsd_metric", "server/spectatord.cc")],
  [], ["return value of Server::parse_statsd", "Registry::Measurements"])
p("C03", "Counters: published increments sum to exactly what was added",
  "For every history of additions and measurements of a counter, each measurement publishes the sum of the non-negative amounts added since the previous one, once, with statistic=count unless the meter already carries a statistic tag, and publishes nothing when that sum is zero. "
  "Negative amounts change no value but still count as activity.",
  ["histories", "inputs"], "all sequential histories of Increment/Add/Measure with any amounts, on direct meters and through the registry",
  "Unit tests run one or two short fixed histories; conservation is a statement about every history.",
  ["spectator/counter.cc", "spectator/counter.h", "spectator/atomicnumber.h", "spectator/registry.h"],
  [("Counter::Add / Counter::Measure", "spectator/counter.cc"), ("add_double", "spectator/atomicnumber.h")],
  [("count_", "sum of additions not yet published", "spectator/counter.h")], ["Measurements produced by Counter::Measure", "Counter::Count"])
p("C04", "Gauges: last value is published until, and only until, the ttl passes",
  "A gauge publishes the last value set, at every measurement, until more than its time-to-live has passed since that set; after that it publishes nothing until it is set again. "
  "The time-to-live is the last one given explicitly (a set without one keeps it), never less than 5 seconds, and starts as the registry's configured meter ttl.",
  ["histories", "configurations"], "all histories of set / set-with-ttl / time passing / measure / expire, for all ttl configurations",
  "The tests check one ttl and one or two instants; the boundary depends on every order of set, ttl change, passing time and measuring.",
  ["spectator/gauge.cc", "spectator/gauge.h", "spectator/registry.cc", "server/spectatord.cc"],
  [("get_ttl, Gauge::HasExpired, Gauge::Measure, Gauge::SetTtl", "spectator/gauge.cc"), ("Registry::GetGauge overloads", "spectator/registry.cc")],
  [("ttl_nanos_", "current ttl", "spectator/gauge.h"), ("value_", "last value or NaN", "spectator/gauge.h")],
  ["Gauge::Measure, Get, GetTtl", "Registry::Measurements"])
p("C05", "Max gauges: each interval publishes the maximum reported in it",
  "A max gauge publishes, once per measurement, the largest value reported since the previous measurement (any finite value, negative ones included), with statistic=max, and publishes nothing for an interval in which no value was reported.",
  ["histories", "inputs"], "all histories of updates and measurements",
  "Tests run one ascending and one descending sequence.",
  ["spectator/max_gauge.cc", "spectator/atomicnumber.h"], [("MaxGauge::Update / Measure", "spectator/max_gauge.cc"), ("update_max", "spectator/atomicnumber.h")],
  [("value_", "maximum since last measurement", "spectator/max_gauge.h")], ["MaxGauge::Measure, Get"])
p("C06", "Monotonic counters publish exactly the growth between measurements",
  "A monotonic counter publishes, at each measurement after the first sampled one, the difference between the value last set and the value last seen by a measurement, when that is positive; a decrease publishes nothing for the floating-point variant and starts over from the lower value. "
  "The unsigned variant treats a decrease as wrap-around modulo 2^64 and publishes 0 for a growth beyond half of the 64-bit range; a source that has not been set yet never acts as a first sample.",
  ["histories", "inputs"], "all histories of set and measure, with values over the whole range including the wrap-around point",
  "Tests use a handful of values; the wrap and overflow boundaries and the placement of measurements among sets are not sampled.",
  ["spectator/monotonic_counter.cc", "spectator/monotonic_counter_uint.cc"],
  [("MonotonicCounter::Measure", "spectator/monotonic_counter.cc"), ("MonotonicCounterUint::Delta / Measure", "spectator/monotonic_counter_uint.cc")],
  [("value_ / prev_value_", "last set and last measured value", "spectator/monotonic_counter.h")], ["Measure", "Delta"])
p("C07", "Sampled monotonic sources publish a finite rate between samples, once",
  "A sampled monotonic source publishes at a measurement the rate of growth per second between the sample that closed the previous interval and the newest sample, when it is positive, as statistic=count; samples older than the newest are ignored, and an interval without a new sample, or without elapsed sample time, publishes nothing. "
  "Sources fed by protocol type X are measured, counted and expired like every other meter of the registry.",
  ["histories", "inputs"], "all histories of samples with any timestamps (equal, older, newer) and measurements",
  "Tests cover a fixed increasing sequence; equal timestamps and out-of-order histories are not sampled, and nothing tests type X end to end.",
  ["spectator/monotonic_sampled.cc", "spectator/registry.h", "server/spectatord.cc"],
  [("MonotonicSampled::Set / Measure / SampledRate", "spectator/monotonic_sampled.cc"), ("all_meters::measure / size / remove_expired", "spectator/registry.h")],
  [("value_, ts_, prev_value_, prev_ts_", "newest sample and interval start", "spectator/monotonic_sampled.h")], ["MonotonicSampled::Measure", "Registry::Measurements"])
p("C08", "Timers and summaries publish count, total, total of squares and max",
  "For every history of recordings and measurements, each measurement of a timer or distribution summary publishes the number, the sum, the sum of squares and the maximum of the non-negative amounts recorded since the previous one, as statistics count, totalTime (timers, in seconds) or totalAmount (summaries), totalOfSquares and max, and nothing when there were none. "
  "Negative amounts are ignored in all four.",
  ["histories", "inputs"], "all histories of Record and Measure with amounts of any sign and magnitude",
  "Tests fix two or three amounts and one measurement.",
  ["spectator/timer.cc", "spectator/dist_summary.cc", "spectator/dist_stats.h"],
  [("Timer::Record / Measure", "spectator/timer.cc"), ("DistributionSummary::Record / Measure", "spectator/dist_summary.cc")],
  [("count_, total_, totalSq_, max_", "statistics of the interval", "spectator/timer.h")], ["Measure", "Count", "TotalTime / TotalAmount"])
p("C09", "Percentile meters count each recorded amount in its one matching bucket",
  "Each non-negative amount recorded by a percentile timer (protocol T) or percentile distribution summary (protocol D) is recorded in the underlying timer or summary and increments exactly one counter, tagged statistic=percentile and percentile=T%04X or D%04X with the index of the bucket of the amount restricted to the configured range. "
  "Negative amounts are ignored entirely. This stays true over every history of idle periods, cache and meter expirations: whatever was recorded since the last measurement is published.",
  ["histories", "inputs"], "all histories of records, measurements, cache expirations, meter expirations and passing time",
  "Tests record a ramp of values once, without expiry or idle time; these meters span three objects with different lifetimes.",
  ["spectator/percentile_timer.h", "spectator/percentile_distribution_summary.h", "server/expiring_cache.h", "server/spectatord.cc", "spectator/registry.h"],
  [("PercentileTimer::Record", "spectator/percentile_timer.h"), ("PercentileDistributionSummary::Record", "spectator/percentile_distribution_summary.h"), ("expiring_cache::get_or_create / expire", "server/expiring_cache.h")],
  [("timer_ / dist_summary_", "handle to the base meter", "spectator/percentile_timer.h"), ("cache_", "percentile meters by id", "server/expiring_cache.h")], ["Registry::Measurements"])
p("C10", "Percentile buckets partition all amounts in order; estimates stay in bucket",
  "Every 64-bit amount falls in exactly one of the 276 buckets, whose upper bound is not below the amount; bounds increase with the index and the index never decreases as the amount grows, following the scheme shared with the other spectator libraries (bounds 1 to 4, then steps of a third of each power of four, then the maximum; amounts up to zero in the first bucket). "
  "Estimated percentiles are non-decreasing in the requested percentile and lie within the bounds of the bucket that holds it.",
  ["inputs"], "all 64-bit amounts; all bucket-count vectors and percentile lists",
  "Tests check a few values; a wrong boundary of one of the 276 buckets is invisible to them.",
  ["spectator/percentile_buckets.cc", "spectator/percentile_buckets.h", "tools/gen_perc_bucket_values.cc", "tools/gen_perc_bucket_tags.cc"],
  [("PercentileBucketIndexOf, PercentileBucket, Percentiles", "spectator/percentile_buckets.cc"), ("bucket tables", "tools/gen_perc_bucket_values.cc")],
  [], ["PercentileBucketIndexOf", "PercentileBucket", "Percentile(s)"])
p("C11", "Meter identity: same type, name and tag set is the same meter, else not",
  "Two updates go to the same meter exactly when they have the same meter type and the same name and the same set of tag pairs after invalid characters are replaced; the order in which tags are given never matters, the last value given for a repeated key wins, and meters of different types under one id are independent. "
  "Derived ids (added tags, statistics) differ from the original id only in the added tags and leave it unchanged.",
  ["inputs", "histories"], "all names and tag lists, in all orders, with repeated keys and any number of tags",
  "Tests compare a few hand-written ids with at most a few tags; equality, hashing and ordering must agree for all of them.",
  ["spectator/id.h", "spectator/tags.h", "spectator/string_pool.cc", "spectator/registry.h"],
  [("Id::operator==, std::hash<Id>, WithTag(s), WithStat, WithDefaultStat", "spectator/id.h"), ("meter_map::insert", "spectator/registry.h")],
  [], ["meters listed by the registry", "Id::GetTags"])
p("C12", "Idle meters are dropped after the ttl; active ones never lose an update",
  "A meter (other than an age gauge) that has had no update for more than the meter ttl (for a gauge, its own ttl) is neither published nor kept after the next expiration, and a meter updated within the ttl is always kept and published. "
  "Every update the daemon accepts or makes itself, including its own status metrics and updates arriving after an idle period of any length, appears in the next measurements taken within the ttl; the registry's size is the number of meters it holds.",
  ["histories", "configurations"], "all histories of updates, passing time, expirations and measurements over all meter types and ttl settings",
  "Tests expire once after a sleep; loss needs an idle period, an expiration and a later update through a handle obtained before.",
  ["spectator/registry.h", "spectator/registry.cc", "spectator/publisher.h", "server/spectatord.cc", "server/expiring_cache.h"],
  [("meter_map::remove_expired / measure, is_meter_expired", "spectator/registry.h"), ("Registry::expirer", "spectator/registry.cc")],
  [("last_updated_", "time of last update", "spectator/meter.h"), ("meters_", "registered meters", "spectator/registry.h")], ["Registry::Measurements", "Registry::Size", "Registry meter listings"])
p("C13", "Age gauges report seconds since last success, forever, up to the limit",
  "An age gauge publishes at every measurement the seconds between now and the last success reported for it (`0` meaning now, otherwise the given epoch seconds; never reported: since the epoch), and never expires by idleness. "
  "At most age_gauge_limit age gauges exist; beyond that, updates for new ids have no effect while known ids keep working, and a deleted age gauge frees its place.",
  ["histories", "configurations"], "all histories of updates, deletions, expirations and time, for all limits",
  "Tests create limit+1 gauges once.",
  ["spectator/age_gauge.h", "spectator/registry.cc", "server/spectatord.cc"],
  [("Registry::GetAgeGauge", "spectator/registry.cc"), ("AgeGauge::Value", "spectator/age_gauge.h")],
  [("age_gauges_", "registered age gauges", "spectator/registry.h")], ["Registry::Measurements", "Registry::AgeGauges"])
p("C14", "Admin API: changes exactly what was asked, only from localhost, or nothing",
  "A common-tags POST either applies all its settings and deletions, which then show in the configuration and in every payload published afterwards, or (not JSON, not an object, a key that may not be set, a value that is not a string, a non-localhost host header) is refused with 400 and changes nothing. "
  "A meter DELETE removes exactly the named gauge or age gauge, or exactly all of that type, reports 404 when it does not exist, and never touches other meters or types; reads change nothing and report the current meters and values.",
  ["inputs", "histories"], "all request sequences (methods, URIs, hosts, bodies) interleaved with meter updates",
  "Tests issue about fourteen fixed requests; atomicity and the effect on later publishes are never checked.",
  ["admin/admin_server.cc", "spectator/registry.cc", "spectator/registry.h", "spectator/publisher.h"],
  [("RequestHandler::handleRequest, POST_config_common_tags, DELETE_metrics, parse_id", "admin/admin_server.cc"), ("Registry::UpdateCommonTag / EraseCommonTag / DeleteMeter / DeleteAllMeters", "spectator/registry.cc"), ("meter_map::remove_one / remove_all", "spectator/registry.h")],
  [("common_tags", "configured common tags", "spectator/config.h")], ["HTTP responses", "Registry meter listings", "payloads received by the aggregator"])
p("C15", "Publishing: each measurement is sent once, in decodable, complete batches",
  "In every publish interval each measurement taken is contained in exactly one payload, no payload holds more than batch_size measurements, and each payload decodes to those measurements with their ids, values, all common tags, and the operation add for count/total/percentile statistics and max for the rest. "
  "While publishing is disabled nothing is sent; measurement callbacks see exactly the measurements of the interval.",
  ["histories", "configurations", "inputs"], "all sets of measurements, batch sizes, numbers of sender threads and common tags",
  "Tests never decode a published payload.",
  ["spectator/publisher.h", "spectator/smile.cc", "spectator/registry.cc"],
  [("Publisher::send_metrics, build_str_table, append_measurement, op_from_tags", "spectator/publisher.h")],
  [("buffers_", "payload buffers shared by the sender threads", "spectator/publisher.h")], ["request bodies received by the aggregator", "Registry::OnMeasurements"])
p("C16", "Aggregator responses: every measurement is counted sent or dropped, once",
  "Whatever the aggregator answers (any status, any body), the daemon survives and each measurement of the batch is counted exactly once in spectator.measurements: as sent (all on 200; all but errorCount on other 2xx-4xx with a usable report), dropped with error=validation (errorCount of them), error=http-error (5xx), or error=other (no usable report, or no response). "
  "Nothing is counted when status metrics are disabled.",
  ["fault_sequences", "inputs"], "all sequences of statuses and response bodies, per batch",
  "No test covers the response handler; bodies that are valid JSON of the wrong shape abort or corrupt the daemon only for particular inputs.",
  ["spectator/publisher.h"], [("Publisher::handle_aggr_response", "spectator/publisher.h")],
  [("sentMetrics_ / invalidMetrics_ / droppedHttp_ / droppedOther_", "accounting counters", "spectator/publisher.h")], ["spectator.measurements counters", "process survival"])
p("C17", "HTTP client: bounded retries of retryable failures, each attempt logged",
  "A request is attempted at most three times: again after 429, 5xx or a failure that leaves time in the request's budget, never after another status; the caller gets the outcome of the last attempt (status -1 when there was no response), with its body and headers. "
  "Every attempt is recorded once as ipc.client.call with its endpoint path, method, status, result, attempt number and whether it was final (exactly one final per request), unless status metrics are disabled.",
  ["fault_sequences", "inputs"], "all sequences of per-attempt outcomes (statuses, refused connections, broken or slow responses), methods and URLs",
  "Tests run five or six fixed fault scripts, and none of them is in the baseline build.",
  ["spectator/http_client.cc", "spectator/log_entry.h", "spectator/strings.cc"],
  [("HttpClient::perform, is_retryable_error", "spectator/http_client.cc"), ("LogEntry", "spectator/log_entry.h"), ("PathFromUrl", "spectator/strings.cc")],
  [], ["requests seen by the server", "HttpResponse", "ipc.client.call meters"])
p("C18", "Smile payloads decode to exactly the appended strings, integers and doubles",
  "For every sequence of appended non-negative 32-bit integers, doubles and ASCII strings (of any length, including empty and 64/65 bytes), the payload decodes by the Smile format to the header, one array, and exactly those values in order; a payload object can be reused for any number of payloads.",
  ["inputs", "histories"], "all sequences of appended values over the full integer range, all double bit patterns, all string lengths",
  "The test compares one fixed byte string.",
  ["spectator/smile.cc", "spectator/smile.h"], [("SmilePayload::Append overloads", "spectator/smile.cc")], [], ["bytes of SmilePayload::Result after decompression"])
p("C19", "Compression round-trips: any input, any chunking, any reuse",
  "Whatever is appended to a compressed buffer, in pieces of any size, for any chunk configuration, the result is one gzip stream that decompresses to exactly the concatenation of the pieces, also when the buffer is used again or discarded half-way; one-shot compression followed by decompression returns the input, and a destination that is too small, or corrupt input, is reported as an error without touching memory outside the destination.",
  ["inputs", "histories"], "all sequences of pieces and sizes around the chunk thresholds, all reuse histories",
  "Tests compress two fixed buffers.",
  ["spectator/compressed_buffer.cc", "spectator/compressed_buffer.h", "spectator/gzip.cc"],
  [("CompressedBuffer::maybe_compress / compress / deflate_chunk / Init / Result", "spectator/compressed_buffer.cc"), ("gzip_compress / gzip_uncompress", "spectator/gzip.cc")],
  [("cur_, dest_, dest_index_", "pending input and output", "spectator/compressed_buffer.h")], ["CompressedResult", "return codes"])
p("C20", "Tag sets behave as sorted maps under every add, copy, move and growth",
  "A tag set holds exactly one value per key, the last one added, iterated in key order, for any number of tags; lookups, size, equality and hash depend only on that content, not on the order of additions or on the history of copies, moves and assignments that produced the set. "
  "Copies are independent, and no history reads or writes outside the set's storage or leaks it.",
  ["histories", "inputs"], "all sequences of add / add_all / copy / move-construct / move-assign over several sets, crossing the inline-storage and growth limits",
  "Tests never assign a large set or grow one after a move.",
  ["spectator/tags.h"], [("Tags::insert / reallocate / constructors / operator=", "spectator/tags.h")],
  [("size_, U, begin_", "inline or heap storage", "spectator/tags.h")], ["iteration", "at / has / size / operator== / hash"])
p("C21", "Interned strings: one canonical sanitized copy per content",
  "Interning returns the same reference for two strings exactly when they are equal after every character outside . - 0-9 A-Z a-z _ ~ ^ is replaced by _; the reference stays valid and unchanged, reads back as the sanitized text, and the pool statistics count each intern as one hit or one miss, with table and allocation sizes matching the distinct strings.",
  ["inputs", "histories"], "all byte strings, in any order of interning",
  "Tests intern a handful of strings; all 256 byte values and collisions after sanitizing are not covered.",
  ["spectator/string_pool.cc", "spectator/string_pool.h", "spectator/string_intern.h", "tools/gen_valid_chars.cc"],
  [("StringPool::Intern", "spectator/string_pool.cc"), ("kAtlasChars", "tools/gen_valid_chars.cc")],
  [("table_, stats_", "interned strings and counts", "spectator/string_pool.h")], ["StrRef", "string_pool_stats"])
p("C22", "Concurrent updates and measurements: nothing lost, nothing counted twice",
  "Under every interleaving of threads updating one meter and a thread measuring it, the published totals plus what remains equal what was added (counters, timers, summaries: count, total, squares), a monotonic counter's published deltas telescope to its growth, an interval's maximum is never lost, and a gauge publishes one of the values actually set. "
  "Concurrent interning of strings returns one reference per content.",
  ["schedules"], "all interleavings of the atomic steps of small programs of two or three threads",
  "Tests are single-threaded apart from one string-pool test; a lost or doubled update needs a specific interleaving inside a few instructions.",
  ["spectator/atomicnumber.h", "spectator/counter.cc", "spectator/timer.cc", "spectator/dist_summary.cc", "spectator/monotonic_counter.cc", "spectator/monotonic_counter_uint.cc", "spectator/monotonic_sampled.cc", "spectator/max_gauge.cc", "spectator/gauge.cc", "spectator/string_pool.cc"],
  [("add_double, update_max", "spectator/atomicnumber.h"), ("atomic exchange in Measure", "spectator/counter.cc")],
  [("atomic accumulators", "pending values", "spectator/counter.h")], ["measurements", "final meter values"])
p("C23", "Concurrent registry use: lookups, deletes and expiry act as one step each",
  "Under every interleaving of threads that obtain, delete, expire, list and measure meters, each operation takes effect as if at one instant: concurrent requests for one id get the same meter, of two concurrent deletions of one meter exactly one succeeds, no operation throws or touches a destroyed meter, and every measurement handed to the publisher stays valid while it is used. "
  "The percentile cache likewise hands out one live meter per id.",
  ["schedules"], "all interleavings of small programs of registry and cache operations",
  "Registry tests are single-threaded.",
  ["spectator/registry.h", "spectator/registry.cc", "spectator/measurement.h", "server/expiring_cache.h"],
  [("meter_map locking", "spectator/registry.h"), ("expiring_cache locking", "server/expiring_cache.h")],
  [("meters_", "id to meter map", "spectator/registry.h")], ["returned handles and booleans", "process survival"])
p("C24", "Start and stop: idempotent, prompt under any interleaving, restartable",
  "Starting twice or stopping twice has no further effect; a stop returns without waiting out the publishing, expiration or housekeeping interval whatever moment it arrives at, and after it no publishing, expiration or housekeeping happens and no background thread outlives the registry. "
  "A registry started again after a stop publishes again; a registry without a URI never sends anything.",
  ["schedules", "histories"], "all sequences of start/stop and all moments of the stop relative to the background loops",
  "Tests start and stop once, at leisure.",
  ["spectator/registry.cc", "spectator/publisher.h", "server/spectatord.cc"],
  [("Registry::Start / Stop / expirer", "spectator/registry.cc"), ("Publisher::Start / Stop / sender", "spectator/publisher.h"), ("Server::Stop / upkeep", "server/spectatord.cc")],
  [("should_stop_, started_, cv_", "loop control", "spectator/publisher.h")], ["duration of Stop", "threads", "requests at the aggregator"])
p("C25", "Datagram listeners hand each datagram to the parser once and stay alive",
  "Every datagram received on a UDP (IPv4 or IPv6) or Unix-domain socket is handed to the parser exactly once, whole and NUL-terminated, in arrival order, each independent of the bytes of earlier ones; an empty or oversized datagram is never parsed as something else and never corrupts memory or stops the listener. The Unix socket accepts datagrams from every local user.",
  ["inputs", "histories"], "all sequences of datagrams of sizes 0..65535 and beyond on each socket kind",
  "No test opens a listener.",
  ["server/udp_server.cc", "server/local_server.cc"], [("start_udp_receive", "server/udp_server.cc"), ("start_local_receive", "server/local_server.cc")],
  [("recv_buffer_", "receive buffer reused between datagrams", "server/udp_server.h")], ["handler invocations"])
p("C26", "Kernel network statistics are read exactly for our port, or reported absent",
  "For every table in the kernel's UDP format the reported queue and drop numbers are those of the first complete line whose local port is the requested one, and there is no result when there is none, whatever other lines (short, long, other ports) precede it. "
  "The receive buffer limit is the number in the kernel file, or 16 MiB when the file is missing or holds no number, whatever its size.",
  ["inputs"], "all table contents and limit-file contents",
  "Tests read two fixed resource files.",
  ["server/proc_utils.cc", "server/proc_utils.h", "util/files.h"], [("udp_info, max_buffer_size", "server/proc_utils.cc")], [], ["return values"])
p("C27", "URL paths: endpoint tags carry exactly the path of the URL",
  "For every URL the extracted path is the part from the first slash after the authority up to the query, `/` when there is none or the URL is empty, and a string without protocol is returned as it is; no input is read out of bounds.",
  ["inputs"], "all strings over the URL alphabet",
  "Tests check four URLs.",
  ["spectator/strings.cc"], [("PathFromUrl", "spectator/strings.cc")], [], ["PathFromUrl", "ipc.endpoint tag"])
p("C28", "The enabled-file watch reports a file's existence, at most 2 s stale",
  "The watcher reports whether its file exists as of its last look, looks again whenever more than its staleness bound has passed, and copies and moves of it keep watching the same file with the same knowledge.",
  ["histories"], "all histories of file creation and removal, passing time, queries, copies and moves",
  "No test covers the watcher.",
  ["util/file_watcher.h"], [("FileWatcher::exists", "util/file_watcher.h")],
  [("last_updated_, exists_", "time and result of the last look", "util/file_watcher.h")], ["FileWatcher::exists"])
p("C29", "Housekeeping reports the caches, the string pool and the socket truthfully",
  "At its start and every 30 s the daemon drops the percentile timers and summaries that were idle for more than two minutes (no others) and, unless status metrics are disabled, reports how many it found, how many it dropped, the string pool's size and growth of accesses, "
  "and the growth of dropped packets and the greatest receive queue of its own socket when the kernel lists that, nothing for it otherwise; with status metrics disabled it reports none of these. The reports survive deletion and expiration of their meters.",
  ["histories"], "all histories of lines, passing time, kernel tables, publications, deletions and expirations",
  "No test runs the housekeeping.",
  ["server/spectatord.cc", "server/expiring_cache.h", "server/proc_utils.cc", "util/string_pool.h"],
  [("Server::upkeep, update_network_metrics", "server/spectatord.cc"), ("expiring_cache::expire, size", "server/expiring_cache.h")],
  [("perc_timers_, perc_ds_", "caches of percentile meters", "server/spectatord.cc")], ["published measurements"])
p("C30", "The command line decides configuration, sockets and publishing as documented",
  "The daemon refuses to start (status 1, no socket opened) when any argument is unknown or malformed: ports outside 1..65535, tags that are not k=v pairs with both sides non-empty, bad numbers, booleans or durations; otherwise it runs with the configuration that the last argument of each name gives, "
  "listens on exactly the chosen UDP, statsd, Unix and admin sockets over the chosen families, publishes to the URI that debug, uri, external and the built-in default select in that order, with exactly the chosen common tags, without status metrics when there are no common tags, keeps at most the given number of age gauges, and ends with status 0 on SIGINT or SIGTERM.",
  ["inputs", "histories"], "all command lines over the daemon's flags",
  "No test runs the main program.",
  ["bin/spectatord_main.cc", "spectator/config.h", "server/spectatord.cc", "admin/admin_server.cc"],
  [("main, AbslParseFlag(PortNumber)", "bin/spectatord_main.cc"), ("prepare_socket_path, Server::Start", "server/spectatord.cc")],
  [("cfg", "effective configuration", "bin/spectatord_main.cc")], ["exit status", "sockets", "GET /config", "requests at the aggregator"])
p("C31", "Batches sent side by side: everything measured is sent and counted once",
  "For any number of sender threads and any interleaving of them, every measurement of a publication is in exactly one batch of at most the configured size, with the common tags as they were when the publication began; a payload does not change while it is sent or sent again; no thread stays idle while a batch waits; "
  "retries follow only their own batch's answers (at once without a connection, after 200 ms and 400 ms when the server is busy, three requests at most); the next publication's own counters say exactly how many measurements were sent and dropped for which reason; and a stop returns as soon as the batches of the publication under way have been answered.",
  ["schedules", "histories"], "all interleavings of the sender threads, all answers",
  "Tests publish single batches to a server that answers.",
  ["spectator/publisher.h", "spectator/http_client.cc"], [("Publisher::send_metrics", "spectator/publisher.h"), ("HttpClient::perform", "spectator/http_client.cc")],
  [("avail_buffers, responses", "shared between sender threads", "spectator/publisher.h")], ["requests at the aggregator", "spectator.measurements"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

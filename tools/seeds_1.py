REG = '#include "seedlib.h"\n'
SRV = '''#include "seedlib.h"
#include "server/spectatord.h"
struct S : spectatord::Server {
  explicit S(spectator::Registry* r) : Server(true, 0, {}, {}, r) {}
  std::string line(std::string s) { auto e = parse(s.data()); return e ? *e : ""; }
  std::string statsd(std::string s) { auto e = parse_statsd(s.data()); return e ? *e : ""; }
};
'''
HTTP = REG + '''
#include "seedhttp.h"
'''
SEEDS = [
 dict(id="gauge-ttl-wrap", property="C04",
      edits=[("spectator/gauge.cc", "return static_cast<int64_t>(absl::ToInt64Nanoseconds(ttl));",
              "return absl::ToInt64Seconds(ttl) * (kMinTtlNanos / 5);")],
      srcs="$CORE $SERVER", needs="a ttl above 9223372036 seconds, given to mean for ever",
      breaks="the ttl in nanoseconds wraps around and the gauge expires at once", demo=SRV + '''
int main() {
  vclock_ns = 1600000000 * kSec; vclock_on = true;
  spectator::Registry r{config(), quiet()};
  S s{&r};
  EXPECT(s.line("g,60:a:1") == "");
  EXPECT(s.line("g,10000000000:b:2") == "");
  vclock_ns += 30 * kSec;
  auto m = measure(r);
  EXPECT(m["a,statistic=gauge"] == 1);
  EXPECT(m["b,statistic=gauge"] == 2);
  vclock_ns += 40 * kSec;
  m = measure(r);
  EXPECT(m.count("a,statistic=gauge") == 0);
  EXPECT(m["b,statistic=gauge"] == 2);
  return failures != 0;
}
'''),
 dict(id="id-many-tags", property="C11",
      edits=[("spectator/tags.h", "return memcmp(mine, theirs, sizeof(Tag) * size()) == 0;",
              "return memcmp(mine, theirs, sizeof(Tag) * std::min(size(), kSmallTags)) == 0;"),
             ("spectator/tags.h", "    while (it != end()) {\n      const auto& entry = *it++;\n      h +=",
              "    const auto* last = begin() + std::min(size(), kSmallTags);\n    while (it != last) {\n      const auto& entry = *it++;\n      h +=")],
      srcs="$CORE", needs="two ids with the same name, the same number of tags, more than 8 of them, that differ only behind the 8th (in the order of the interned keys)",
      breaks="updates of two different meters go to one", demo=REG + '''
int main() {
  spectator::Registry r{config(), quiet()};
  // all keys interned first; whatever order they come in, one of the pairs differs behind the 8th
  std::vector<std::string> keys;
  for (int i = 0; i < 10; ++i) keys.push_back("key" + std::to_string(i));
  for (int k = 0; k < 10; ++k) {
    for (int v = 0; v < 2; ++v) {
      spectator::Tags t;
      for (int i = 0; i < 10; ++i) t.add(keys[i], i == k && v ? "other" : "same");
      r.GetCounter("c" + std::to_string(k), std::move(t))->Increment();
    }
  }
  auto ms = r.Measurements();
  EXPECT(ms.size() == 20);
  return failures != 0;
}
'''),
 dict(id="idle-constant", property="C12",
      edits=[("spectator/monotonic_counter_uint.cc", "  Update();\n  value_.store(amount, std::memory_order_relaxed);",
              "  if (value_.load(std::memory_order_relaxed) != amount) {\n    Update();\n  }\n  value_.store(amount, std::memory_order_relaxed);")],
      srcs="$CORE", needs="an unsigned monotonic counter set regularly to the same value for longer than the meter ttl, an expiration, and growth afterwards",
      breaks="the counter is dropped although it is updated, and its next growth is lost", demo=REG + '''
struct R : spectator::Registry {
  using Registry::Registry;
  void expire() { remove_expired_meters(); }
};
int main() {
  vclock_ns = 1600000000 * kSec; vclock_on = true;
  R r{config(), quiet()};
  r.GetMonotonicCounterUint("a")->Set(10);
  measure(r);
  for (int i = 0; i < 16; ++i) {
    vclock_ns += 60 * kSec;
    r.GetMonotonicCounterUint("a")->Set(10);
    measure(r);
    r.expire();
  }
  r.GetMonotonicCounterUint("a")->Set(15);
  auto m = measure(r);
  EXPECT(m["a,statistic=count"] == 5);
  return failures != 0;
}
'''),
 dict(id="uint-signed", property="C01",
      edits=[("server/spectatord.cc", "value.u = std::strtoull(value_str, &last_char, 10);",
              "value.u = static_cast<uint64_t>(std::strtoll(value_str, &last_char, 10));")],
      srcs="$CORE $SERVER", needs="a U line with a value of 2^63 or more",
      breaks="values of 2^63 and more are clamped to 2^63-1", demo=SRV + '''
int main() {
  spectator::Registry r{config(), quiet()};
  S s{&r};
  s.line("U:a:9223372036854775807");
  measure(r);
  s.line("U:a:9223372036854775907");
  auto m = measure(r);
  EXPECT(m["a,statistic=count"] == 100);
  return failures != 0;
}
'''),
 dict(id="statsd-rate", property="C02",
      edits=[("server/spectatord.cc", '''      auto k = std::lround(1 / sampling_rate);
      auto ns =''', '''      auto k = static_cast<int64_t>(1 / sampling_rate);
      auto ns =''')],
      srcs="$CORE $SERVER", needs="a statsd timer with a rate whose inverse has a fraction of a half or more, such as 0.15",
      breaks="the timer is repeated 6 instead of 7 times", demo=SRV + '''
int main() {
  spectator::Registry r{config(), quiet()};
  S s{&r};
  EXPECT(s.statsd("a:10|ms|@0.25\\nb:10|ms|@0.15\\nc:10|h|@0.15") == "");
  auto m = measure(r);
  EXPECT(m["a,statistic=count"] == 4);
  EXPECT(m["b,statistic=count"] == 7);
  EXPECT(m["c,statistic=count"] == 7);
  return failures != 0;
}
'''),
 dict(id="age-fraction", property="C13",
      edits=[("server/spectatord.cc", "if (measurement->value.d == 0) {", "if (static_cast<int64_t>(measurement->value.d) == 0) {")],
      srcs="$CORE $SERVER", needs="an age gauge set to a time within the first second of the epoch, or of the second before it",
      breaks="the time is taken as 0, which stands for now", demo=SRV + '''
int main() {
  vclock_ns = 1600000000 * kSec; vclock_on = true;
  spectator::Registry r{config(), quiet()};
  S s{&r};
  s.line("A:a:0.5\\nA:b:0\\nA:c:1");
  auto m = measure(r);
  EXPECT(m["a,statistic=gauge"] == 1599999999.5);
  EXPECT(m["b,statistic=gauge"] == 0);
  EXPECT(m["c,statistic=gauge"] == 1599999999);
  return failures != 0;
}
'''),
 dict(id="perc-zero", property="C09",
      edits=[("server/spectatord.cc", "static constexpr auto min_ds = std::numeric_limits<int64_t>::min();",
              "static constexpr auto min_ds = int64_t{1};")],
      srcs="$CORE $SERVER", needs="an amount of 0 recorded in a percentile distribution summary",
      breaks="it is counted in the bucket of 1 instead of the one of 0", demo=SRV + '''
int main() {
  spectator::Registry r{config(), quiet()};
  S s{&r};
  s.line("D:a:0\\nD:a:1\\nD:a:2");
  auto m = measure(r);
  int n = 0;
  for (auto& kv : m) {
    if (kv.first.find("statistic=percentile") != std::string::npos) { ++n; EXPECT(kv.second == 1); }
  }
  EXPECT(n == 3);
  return failures != 0;
}
'''),
 dict(id="single-measurement", property="C15",
      edits=[("spectator/publisher.h", "if (!cfg.is_enabled() || measurements.empty()) {", "if (!cfg.is_enabled() || measurements.size() < 2) {")],
      srcs="$CORE", needs="an interval with exactly one measurement",
      breaks="that measurement is taken from its meter and never sent", demo=HTTP + '''
int main() {
  Http h;
  auto c = config();
  c->uri = h.uri();
  c->frequency = absl::Seconds(60);
  c->read_timeout = c->connect_timeout = absl::Seconds(5);
  spectator::Registry r{std::move(c), quiet()};
  r.GetCounter("a")->Increment();
  r.Start();
  for (int i = 0; i < 50 && h.requests == 0; ++i) usleep(100000);
  r.Stop();
  EXPECT(h.requests == 1);
  return failures != 0;
}
'''),
 dict(id="redirect-report", property="C16",
      edits=[("spectator/publisher.h", "} else if (http_code > 200 && http_code < 500) {", "} else if (http_code / 100 == 2 || http_code / 100 == 4) {")],
      srcs="$CORE", needs="a 3xx answer of the aggregator with a usable report in its body",
      breaks="the whole batch is counted as dropped with error=http-error", demo=HTTP + '''
int main() {
  Http h;
  h.status = 300;
  h.body = "{\\"errorCount\\":1}";
  auto c = config();
  c->uri = h.uri();
  c->frequency = absl::Seconds(60);
  c->read_timeout = c->connect_timeout = absl::Seconds(5);
  c->status_metrics_enabled = true;
  spectator::Registry r{std::move(c), quiet()};
  r.GetCounter("a")->Increment();
  r.GetCounter("b")->Increment();
  r.GetCounter("c")->Increment();
  r.Start();
  for (int i = 0; i < 50 && h.requests == 0; ++i) usleep(100000);
  usleep(300000);
  r.Stop();
  EXPECT(h.requests == 1);
  auto m = measure(r);
  double sent = 0, invalid = 0, other = 0;
  for (auto& kv : m) {
    if (kv.first.find("spectator.measurements") != 0) continue;
    if (kv.first.find("id=sent") != std::string::npos) sent += kv.second;
    else if (kv.first.find("error=validation") != std::string::npos) invalid += kv.second;
    else other += kv.second;
  }
  std::printf("%g %g %g\\n", sent, invalid, other);
  EXPECT(sent == 2 && invalid == 1 && other == 0);
  return failures != 0;
}
'''),
 dict(id="fourth-attempt", property="C17",
      edits=[("spectator/http_client.cc", "if (elapsed < total_timeout && attempt_number < 2) {", "if (elapsed < total_timeout && attempt_number <= 2) {")],
      srcs="$CORE", needs="three attempts in a row without a response, each within the time budget",
      breaks="a request is attempted four times", demo=HTTP + '''
int main() {
  Http h;
  h.status = 0;
  spectator::Registry r{config(), quiet()};
  spectator::HttpClientConfig c{absl::Seconds(5), absl::Seconds(5), true, false, true, false, true, false, {}};
  spectator::HttpClient cl{&r, c};
  auto res = cl.Get(h.uri());
  EXPECT(res.status == -1);
  std::printf("%d\\n", h.requests.load());
  EXPECT(h.requests == 3);
  return failures != 0;
}
'''),
 dict(id="delete-equals", property="C14",
      edits=[("admin/admin_server.cc", "auto v_pos = id_str.find_first_of(',', k_pos);", "auto v_pos = id_str.find_first_of(\",=\", k_pos);")],
      srcs="$CORE admin/admin_server.cc", args='DEMO_LIBS="-lPocoNet -lPocoJSON -lPocoFoundation"',
      needs="deleting a meter with a tag value that contains an equals sign, as reported",
      breaks="the tag value is cut and the meter is not found", demo=REG + '''
#include "admin/admin_server.h"
int main() {
  spectator::Registry r{config(), quiet()};
  r.GetGauge(spectator::Id::Of("a", {{"k", "x=y"}, {"l", "z"}}))->Set(1);
  EXPECT(r.DeleteMeter("g", admin::parse_id("a,k=x=y,l=z")));
  EXPECT(measure(r).empty());
  return failures != 0;
}
'''),
]
SEEDS = [s for s in SEEDS if s["demo"]]

REG = '#include "seedlib.h"\n'
SRV = REG + '#include "server/spectatord.h"\n'
HTTP = REG + '#include "spectator/http_client.h"\n#include "seedhttp.h"\n'
LINES = SRV + '''
struct S : spectatord::Server {
  explicit S(spectator::Registry* r) : Server(true, 0, {}, {}, r) {}
  bool line(std::string s) { return !parse(s.data()); }
  bool statsd(std::string s) { return !parse_statsd(s.data()); }
};
'''
SEEDS = [
 dict(id="mono-fraction", property="C06",
      edits=[("spectator/monotonic_counter.cc", "  if (delta > 0) {", "  if (delta >= 1) {")],
      srcs="$CORE", needs="growth of less than 1 between two measurements",
      breaks="that growth is never published", demo=REG + '''
int main() {
  spectator::Registry r{config(), quiet()};
  auto c = r.GetMonotonicCounter("a");
  c->Set(1);
  measure(r);
  c->Set(1.5);
  EXPECT(measure(r)["a,statistic=count"] == 0.5);
  return failures != 0;
}
'''),
 dict(id="timer-zeros", property="C08",
      edits=[("spectator/timer.cc", "  if (cnt == 0) {", "  if (cnt == 0 || total_.load(std::memory_order_relaxed) == 0) {")],
      srcs="$CORE", needs="an interval in which only durations of 0 are recorded",
      breaks="they are neither published nor kept", demo=REG + '''
int main() {
  spectator::Registry r{config(), quiet()};
  r.GetTimer("a")->Record(absl::ZeroDuration());
  EXPECT(measure(r).count("a,statistic=count") == 1);
  return failures != 0;
}
'''),
 dict(id="tags-partial", property="C14",
      edits=[("admin/admin_server.cc", "  }\n\n  for (auto & it : *object) {\n    auto second = it.second.extract<std::string>();", "    auto second = it.second.extract<std::string>();")],
      srcs="$CORE admin/admin_server.cc", args='DEMO_LIBS="-lPocoNet -lPocoJSON -lPocoFoundation"',
      needs="a POST with an allowed tag before one that is not allowed",
      breaks="the request is rejected, but the tags before the rejected one were changed", demo=REG + '''
#include "admin/admin_server.h"
#include <Poco/Net/HTTPClientSession.h>
#include <Poco/Net/HTTPRequest.h>
#include <Poco/Net/HTTPResponse.h>
#include <Poco/Net/ServerSocket.h>
int main() {
  spectator::Registry r{config(), quiet()};
  int port = 0;
  { Poco::Net::ServerSocket s{Poco::Net::SocketAddress{"127.0.0.1", 0}}; port = s.address().port(); }
  admin::AdminServer a{r, port};
  a.Start();
  Poco::Net::HTTPClientSession c{"localhost", static_cast<Poco::UInt16>(port)};
  Poco::Net::HTTPRequest q{"POST", "/config/common_tags", "HTTP/1.1"};
  std::string body = R"({"mantisUser": "u", "other": "x", "mantisJobId": "j"})";
  q.setContentLength(static_cast<std::streamsize>(body.size()));
  c.sendRequest(q) << body;
  Poco::Net::HTTPResponse p;
  std::string got{std::istreambuf_iterator<char>(c.receiveResponse(p)), {}};
  EXPECT(p.getStatus() == 400);
  EXPECT(r.CommonTags().empty());
  a.Stop();
  return failures != 0;
}
'''),
 dict(id="retry-507", property="C17",
      edits=[("spectator/http_client.cc", "  return http_code == 429 || (http_code / 100) == 5;", "  return http_code == 429 || (http_code >= 500 && http_code <= 504);")],
      srcs="$CORE", needs="an unusual server error such as 507",
      breaks="the request is not attempted again", demo=HTTP + '''
int main() {
  Http h;
  h.status = 507;
  spectator::Registry r{config(), quiet()};
  spectator::HttpClientConfig c{absl::Seconds(5), absl::Seconds(5), true, false, true, false, true, false, {}};
  spectator::HttpClient cl{&r, c};
  EXPECT(cl.Get(h.uri()).status == 507);
  EXPECT(h.requests == 3);
  return failures != 0;
}
'''),
 dict(id="stop-expires", property="C24",
      edits=[("spectator/registry.cc", "  while (!should_stop_) {\n    auto start = absl::Now();\n    remove_expired_meters();", "  do {\n    auto start = absl::Now();\n    remove_expired_meters();"),
             ("spectator/registry.cc", "      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });\n    }\n  }\n}", "      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });\n    }\n  } while (!should_stop_);\n}")],
      srcs="$CORE", needs="a registry that is stopped within the first expiration interval while it holds idle meters",
      breaks="stopping expires meters", demo=REG + '''
int main() {
  auto c = config();
  c->meter_ttl = absl::Milliseconds(1);
  c->expiration_frequency = absl::Seconds(30);
  spectator::Registry r{std::move(c), quiet()};
  r.GetCounter("a")->Increment();
  auto n = r.Size();
  r.Start();
  usleep(300000);
  r.Stop();
  EXPECT(r.Size() == n);
  return failures != 0;
}
'''),
 dict(id="statsd-marker", property="C02",
      edits=[("server/spectatord.cc", "          begin_value = nullptr;\n", "")],
      srcs="$CORE $SERVER", needs="a tag without a value after one with a value",
      breaks="the marker tag is rejected or gets the text of another tag", demo=LINES + '''
int main() {
  spectator::Registry r{config(), quiet()};
  S s{&r};
  EXPECT(s.statsd("a:1|c|#x:y,shell,z:w"));
  auto m = measure(r);
  EXPECT(m.count("a,shell=1,statistic=count,x=y,z=w") == 1 || m.size() == 1);
  for (auto& kv : m) std::printf("%s\\n", kv.first.c_str());
  EXPECT(m.begin() != m.end() && m.begin()->first.find("shell=1") != std::string::npos);
  return failures != 0;
}
'''),
 dict(id="ttl-zero", property="C01",
      edits=[("server/spectatord.cc", "    if (extra <= 0) {", "    if (extra < 0) {")],
      srcs="$CORE $SERVER", needs="a gauge line with a ttl of 0, or a sampled source with a timestamp of 0",
      breaks="the line is applied, or counted as parsed, although it must be rejected", demo=LINES + '''
int main() {
  spectator::Registry r{config(), quiet()};
  S s{&r};
  EXPECT(!s.line("g,0:a:1"));
  EXPECT(!s.line("X,0:b:1"));
  EXPECT(measure(r).empty());
  return failures != 0;
}
'''),
 dict(id="op-squares", property="C15",
      edits=[("spectator/publisher.h", "        stat == refs().totalTime() || stat == refs().totalOfSquares() ||\n", "        stat == refs().totalTime() ||\n")],
      srcs="$CORE", needs="a timer or summary that is aggregated over several sources",
      breaks="the totals of squares are sent to be combined by maximum", demo=REG + '''
struct P : spectator::Publisher<spectator::Registry> {
  using Publisher::Publisher;
  using Publisher::op_from_tags;
};
int main() {
  spectator::Registry r{config(), quiet()};
  P p{&r};
  auto id = spectator::Id::Of("a");
  EXPECT(static_cast<int>(p.op_from_tags(id.WithStat(spectator::refs().totalOfSquares()).GetTags())) == 0);
  EXPECT(static_cast<int>(p.op_from_tags(id.WithStat(spectator::refs().max()).GetTags())) == 10);
  return failures != 0;
}
'''),
 dict(id="boundary-idle", property="C12",
      edits=[("spectator/registry.h", "  return updated_ago > meter_ttl;", "  return updated_ago / 1000000000 >= meter_ttl / 1000000000;")],
      srcs="$CORE", needs="a meter whose idle time is within the last second of its ttl",
      breaks="it is dropped up to a second too early, and what it held is lost", demo=REG + '''
int main() {
  vclock_ns = 1600000000 * kSec; vclock_on = true;
  auto c = config();
  c->meter_ttl = absl::Milliseconds(60500);
  spectator::Registry r{std::move(c), quiet()};
  r.GetCounter("a")->Increment();
  vclock_ns += 60 * kSec + kSec / 10;
  EXPECT(measure(r)["a,statistic=count"] == 1);
  return failures != 0;
}
'''),
]

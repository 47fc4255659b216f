REG = '#include "seedlib.h"\n'
SRV = REG + '#include "server/spectatord.h"\n'
SEEDS = [
 dict(id="counter-window", property="C22",
      edits=[("spectator/counter.cc", "  auto count = count_.exchange(0.0, std::memory_order_relaxed);\n  if (count > 0) {\n",
              "  auto count = count_.load(std::memory_order_relaxed);\n  if (count > 0) {\n    count_.store(0.0, std::memory_order_relaxed);\n")],
      srcs="$CORE", needs="an increment between the measurement's reading and its reset",
      breaks="the increment is never published", demo=REG + '''
#include <thread>
int main() {
  spectator::Registry r{config(), quiet()};
  auto c = r.GetCounter("a");
  std::atomic<int> running{4};
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t)
    ts.emplace_back([&] {
      for (int i = 0; i < 1000000; ++i) c->Increment();
      --running;
    });
  double sum = 0;
  while (running > 0) sum += measure(r)["a,statistic=count"];
  for (auto& t : ts) t.join();
  sum += measure(r)["a,statistic=count"];
  EXPECT(sum == 4000000);
  return failures != 0;
}
'''),
 dict(id="cache-skip", property="C29",
      edits=[("server/expiring_cache.h", "        it = cache_.erase(it);\n        ++expired;\n      } else {\n        ++it;\n      }\n",
              "        it = cache_.erase(it);\n        ++expired;\n      }\n      if (it != end) {\n        ++it;\n      }\n")],
      srcs="$CORE $SERVER", needs="several idle percentile meters next to each other in the table when the housekeeping runs",
      breaks="every other idle entry is kept for another round", demo=SRV + '''
#include "server/expiring_cache.h"
#include "spectator/percentile_timer.h"
static std::unique_ptr<spectator::PercentileTimer> make(spectator::Registry* r, spectator::Id id) {
  return std::make_unique<spectator::PercentileTimer>(r, std::move(id), absl::Nanoseconds(1), absl::Hours(1));
}
int main() {
  vclock_ns = 1600000000 * kSec; vclock_on = true;
  spectator::Registry r{config(), quiet()};
  spectatord::expiring_cache<spectator::PercentileTimer> c{make};
  for (int i = 0; i < 100; ++i) c.get_or_create(&r, spectator::Id::Of("t" + std::to_string(i)));
  EXPECT(c.expire() == std::make_pair(size_t{100}, size_t{0}));
  vclock_ns += 121 * kSec;
  for (int i = 0; i < 10; ++i) c.get_or_create(&r, spectator::Id::Of("t" + std::to_string(i)));
  EXPECT(c.expire() == std::make_pair(size_t{100}, size_t{90}));
  EXPECT(c.expire() == std::make_pair(size_t{10}, size_t{0}));
  return failures != 0;
}
'''),
 dict(id="perc-overflow", property="C10",
      edits=[("spectator/percentile_buckets.cc", "  auto delta = base / 3;\n  auto offset = static_cast<size_t>((v - base) / delta);",
              "  auto offset = static_cast<size_t>(static_cast<double>(v - base) / (static_cast<double>(base) / 3));")],
      srcs="$METERS", needs="an amount in the last bucket of a large power of four, near the bucket's bound",
      breaks="the amount is counted in a neighbouring bucket", demo='''
#include "spectator/percentile_buckets.h"
#include <cstdio>
namespace spectator { auto GetPercBucketValue(size_t i) -> int64_t; }
using namespace spectator;
int main() {
  int failures = 0;
  for (size_t i = 4; i + 1 < PercentileBucketsLength(); ++i) {
    auto b = GetPercBucketValue(i);
    if (PercentileBucketIndexOf(b) != i + 1) {
      std::printf("%ld in bucket %zu\\n", b, PercentileBucketIndexOf(b));
      ++failures;
    }
  }
  return failures != 0;
}
'''),
 dict(id="smile-65", property="C18",
      edits=[("spectator/smile.cc", "static constexpr uint8_t kMaxShortValueStringBytes = 64;", "static constexpr uint8_t kMaxShortValueStringBytes = 65;")],
      srcs="$METERS", needs="a string of exactly 65 characters",
      breaks="it is announced as another type of token, and the payload cannot be decoded", demo='''
#include "spectator/smile.h"
#include "spectator/gzip.h"
#include <cstdio>
#include <vector>
#include <string>
int main() {
  for (size_t n : {1, 32, 33, 63, 64, 65, 66, 100}) {
    spectator::SmilePayload p;
    p.Init();
    p.Append(std::string(n, 'x'));
    auto r = p.Result();
    std::vector<char> out(100000);
    size_t len = out.size();
    if (spectator::gzip_uncompress(out.data(), &len, r.data, r.size) != 0) return 1;
    std::string s(out.data(), len);
    // the header and the start of the array, the string, the end of the array
    auto want = n <= 64 ? std::string(1, static_cast<char>(0x3f + n)) + std::string(n, 'x') : "\\xe0" + std::string(n, 'x') + "\\xfc";
    if (s.find(want) == std::string::npos) {
      std::printf("length %zu\\n", n);
      return 1;
    }
  }
  return 0;
}
'''),
 dict(id="deflate-once", property="C19",
      edits=[("spectator/compressed_buffer.cc", "  while (flush == Z_FINISH && err == Z_OK) {\n", "  if (flush == Z_FINISH && err == Z_OK) {\n")],
      srcs="$METERS", needs="input that compresses badly, so that more than one chunk of output is left at the end",
      breaks="the compressed stream is cut off", demo='''
#include "spectator/compressed_buffer.h"
#include "spectator/gzip.h"
#include <cstdio>
#include <random>
#include <vector>
int main() {
  std::mt19937 g{1};
  for (size_t n : {10u, 1000u, 40000u, 60000u, 200000u, 400000u}) {
    std::string s;
    for (size_t i = 0; i < n; ++i) s += static_cast<char>(g());
    spectator::CompressedBuffer b{256 * 1024, 1024, 1024};
    b.Init();
    b.Append(s);
    auto r = b.Result();
    std::vector<char> out(n + 1000);
    size_t len = out.size();
    int e = spectator::gzip_uncompress(out.data(), &len, r.data, r.size);
    if (e != 0 || std::string(out.data(), len) != s) {
      std::printf("%zu bytes: %d\\n", n, e);
      return 1;
    }
  }
  return 0;
}
'''),
 dict(id="tags-capacity", property="C20", flags="-fsanitize=address",
      edits=[("spectator/tags.h", "      U.capacity_ = size_;\n", "      U.capacity_ = o.capacity();\n")],
      srcs="$METERS", needs="a copy of a set of more than 8 tags that has room for further ones, and tags added to the copy",
      breaks="the copy writes behind its memory", demo='''
#include "spectator/tags.h"
#include "spectator/string_intern.h"
#include <cstdio>
#include <string>
int main() {
  setenv("ASAN_OPTIONS", "detect_leaks=0", 0);
  spectator::Tags t;
  for (int i = 0; i < 9; ++i) t.add("k" + std::to_string(i), "v");
  spectator::Tags u{t};
  for (int i = 9; i < 20; ++i) u.add("k" + std::to_string(i), "w");
  for (int i = 0; i < 20; ++i)
    if (u.at(spectator::intern_str("k" + std::to_string(i))) != spectator::intern_str(i < 9 ? "v" : "w")) return 1;
  return u.size() == 20 && t.size() == 9 ? 0 : 1;
}
'''),
 dict(id="pool-alloc", property="C21",
      edits=[("spectator/string_pool.cc", "  auto added = table_.insert({s, ref});\n  if (added.second) {\n    stats_.alloc_size += len + 1;  // null terminator\n",
              "  stats_.alloc_size += len + 1;  // null terminator\n  auto added = table_.insert({s, ref});\n  if (added.second) {\n")],
      srcs="$METERS", needs="a string with invalid characters that is interned more than once",
      breaks="memory that was given back is reported as used", demo='''
#include "spectator/string_intern.h"
#include <cstdio>
#include <string>
int main() {
  using namespace spectator;
  intern_str("a_b");
  auto before = string_pool_stats();
  for (int i = 0; i < 10; ++i) intern_str(std::string("a b"));
  auto after = string_pool_stats();
  return after.alloc_size == before.alloc_size && after.table_size == before.table_size && after.hits == before.hits + 10 ? 0 : 1;
}
'''),
 dict(id="watcher-assign", property="C28",
      edits=[("util/file_watcher.h", '''  FileWatcher& operator=(const FileWatcher& other) noexcept {
    file_name_ = other.file_name_;
    exists_.store(other.exists_, std::memory_order_relaxed);
    last_updated_.store(other.last_updated_, std::memory_order_relaxed);
''', '''  FileWatcher& operator=(const FileWatcher& other) noexcept {
    file_name_ = other.file_name_;
    exists_.store(other.exists_, std::memory_order_relaxed);
    last_updated_.store(now(), std::memory_order_relaxed);
''')],
      srcs="", needs="a copy assigned long after the original's last look, and a query right after it",
      breaks="the copy reports knowledge that is older than 2 s", demo='''
#include "util/file_watcher.h"
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <unistd.h>
extern bool vclock_on;
extern int64_t vclock_ns;
int main() {
  char dir[] = "/tmp/watchXXXXXX";
  if (mkdtemp(dir) == nullptr) return 2;
  std::string f = std::string(dir) + "/f";
  vclock_ns = 1600000000000000000; vclock_on = true;
  atlas::util::FileWatcher a{f}, b{f};
  std::ofstream{f} << "x";
  vclock_ns += 10000000000;
  b = a;
  bool there = b.exists();
  unlink(f.c_str());
  rmdir(dir);
  return there ? 0 : 1;
}
'''),
 dict(id="max-bits", property="C05",
      edits=[("spectator/max_gauge.cc", "  Meter::Update();\n  update_max(&value_, value);",
              "  Meter::Update();\n  if (value > value_.load(std::memory_order_relaxed)) {\n    value_.store(static_cast<float>(value), std::memory_order_relaxed);\n  }")],
      srcs="$CORE", needs="a value that is not a single-precision number",
      breaks="the published maximum is rounded to a value that nobody reported", demo=REG + '''
int main() {
  spectator::Registry r{config(), quiet()};
  r.GetMaxGauge("a")->Update(16777217);
  r.GetMaxGauge("b")->Update(-0.1);
  auto m = measure(r);
  EXPECT(m["a,statistic=max"] == 16777217);
  EXPECT(m["b,statistic=max"] == -0.1);
  return failures != 0;
}
'''),
 dict(id="sampled-late", property="C07",
      edits=[("spectator/monotonic_sampled.cc", "  if (std::isnan(prev_value_)) {\n    prev_value_ = value_;\n    prev_ts_ = ts_;\n  }\n  value_ = amount;\n  ts_ = ts_nanos;",
              "  if (std::isnan(prev_value_) || amount < prev_value_) {\n    prev_value_ = value_;\n    prev_ts_ = ts_;\n  }\n  value_ = amount;\n  ts_ = ts_nanos;")],
      srcs="$CORE", needs="a source that starts again and grows between two measurements: two samples, the second above the first and both below the one before",
      breaks="growth since the restart is published, measured from a value that was never the last one of an interval", demo='''
#include "seedlib.h"
int main() {
  vclock_ns = 1600000000 * kSec; vclock_on = true;
  spectator::Registry r{config(), quiet()};
  auto m = r.GetMonotonicSampled("a");
  m->Set(10, 1 * kSec);
  m->Set(100, 11 * kSec);
  EXPECT(measure(r)["a,statistic=count"] == 9);
  m->Set(5, 21 * kSec);
  m->Set(15, 31 * kSec);
  m->Set(25, 41 * kSec);
  EXPECT(measure(r).count("a,statistic=count") == 0);
  return failures != 0;
}
'''),
 dict(id="ids-unlocked", property="C23", flags="-fsanitize=address",
      edits=[("spectator/registry.h", "    std::vector<Id> res;\n    {\n      absl::MutexLock lock(&meters_mutex_);\n      res.reserve(meters_.size());\n",
              "    std::vector<Id> res;\n    {\n      res.reserve(size());\n")],
      srcs="$CORE", needs="an age gauge beyond the limit while another thread removes age gauges",
      breaks="the list of age gauges is read while it changes", demo=REG + '''
#include <thread>
int main() {
  setenv("ASAN_OPTIONS", "detect_leaks=0", 0);
  auto c = config();
  c->age_gauge_limit = 200;
  spectator::Registry r{std::move(c), quiet()};
  auto& all = const_cast<spectator::detail::all_meters&>(r.Meters());
  std::atomic<bool> stop{false};
  std::thread t{[&] {
    while (!stop) {
      for (int i = 0; i < 200; ++i) r.GetAgeGauge("g" + std::to_string(i));
      r.DeleteAllMeters("A");
    }
  }};
  for (int i = 0; i < 20000; ++i)
    for (const auto& id : all.age_gauges_.get_ids()) EXPECT(id.Name().Get()[0] == 'g');
  stop = true;
  t.join();
  return failures != 0;
}
'''),
 dict(id="local-end", property="C25",
      edits=[("server/local_server.cc", "          recv_buffer_[bytes_transferred] = '\\0';\n          handler_(std::begin(recv_buffer_));",
              "          if (recv_buffer_[bytes_transferred - 1] != '\\n') {\n            recv_buffer_[bytes_transferred] = '\\0';\n          }\n          handler_(std::begin(recv_buffer_));")],
      srcs="server/local_server.cc util/logger.cc", needs="a datagram that ends with a line end after a longer one, on the Unix socket",
      breaks="the rest of the earlier datagram is parsed again", demo='''
#include "server/local_server.h"
#include "util/logger.h"
#include <cstdio>
#include <string>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <vector>
int main() {
  char dir[] = "/tmp/localXXXXXX";
  if (mkdtemp(dir) == nullptr) return 2;
  std::string path = std::string(dir) + "/s";
  std::vector<std::string> got;
  {
    asio::io_context io;
    spectatord::LocalServer s{io, path, [&](char* b) -> std::optional<std::string> { got.emplace_back(b); return {}; }};
    s.Start();
    int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    path.copy(a.sun_path, sizeof a.sun_path - 1);
    for (std::string x : {"c:long.name:1", "c:a:1\\n", "c:b:2"}) {
      sendto(fd, x.data(), x.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a);
      io.run_for(std::chrono::milliseconds(100));
      io.restart();
    }
    close(fd);
  }
  unlink(path.c_str());
  rmdir(dir);
  for (auto& g : got) std::printf("<%s>\\n", g.c_str());
  return got == std::vector<std::string>{"c:long.name:1", "c:a:1\\n", "c:b:2"} ? 0 : 1;
}
'''),
 dict(id="udp-short-line", property="C26",
      edits=[("server/proc_utils.cc", "    if (fields.size() < 17) continue;", "    if (fields.size() < 17) break;")],
      srcs="server/proc_utils.cc util/logger.cc", needs="a short line before that of our port",
      breaks="our port is reported absent", demo='''
#include "server/proc_utils.h"
#include <cstdio>
#include <string>
#include <unistd.h>
int main() {
  char f[] = "/tmp/udpXXXXXX";
  int fd = mkstemp(f);
  std::string s = "  sl  local_address rem_address   st tx_queue rx_queue\\n"
    "  12: 00000000:04D1 00000000:0000 07\\n"
    "  13: 00000000:04D2 00000000:0000 07 00000000:00000010 00:00000000 00000000     0        0 1 2 0000000000000000 45\\n";
  if (write(fd, s.data(), s.size()) != static_cast<ssize_t>(s.size())) return 2;
  auto i = spectatord::udp_info(1234, f);
  close(fd);
  unlink(f);
  return i && i->rx_queue_bytes == 16 && i->num_dropped == 45 ? 0 : 1;
}
'''),
 dict(id="tag-repeated", property="C30",
      edits=[("bin/spectatord_main.cc", "      common_tags[kv.at(0)] = kv.at(1);", "      common_tags.emplace(kv.at(0), kv.at(1));")],
      srcs="$CORE $SERVER admin/admin_server.cc", args='DEMO_LIBS="-lPocoNet -lPocoJSON -lPocoFoundation"', needs="a tag that --common_tags gives twice",
      breaks="the first one counts", demo='''
#define main daemon_main
#include "bin/spectatord_main.cc"
#undef main
#include <cstdio>
#include <netinet/in.h>
#include <sys/wait.h>
auto GetSpectatorConfig() -> std::unique_ptr<spectator::Config> {
  auto c = std::make_unique<spectator::Config>();
  c->frequency = c->expiration_frequency = absl::Seconds(1);
  c->batch_size = 100;
  return c;
}
static int free_port() {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  socklen_t l = sizeof a;
  getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l);
  close(fd);
  return ntohs(a.sin_port);
}
int main() {
  int p = free_port(), q = free_port();
  pid_t pid = fork();
  if (pid == 0) {
    std::string ps = "--port=" + std::to_string(p), qs = "--admin_port=" + std::to_string(q);
    std::vector<const char*> argv{"spectatord", ps.c_str(), qs.c_str(), "--ipv4_only", "--noenable_socket", "--common_tags=nf.app=one,nf.node=n,nf.app=two", nullptr};
    _exit(daemon_main(6, const_cast<char**>(argv.data())));
  }
  std::string got;
  for (int i = 0; i < 100 && got.find("nf.node") == std::string::npos; ++i) {
    usleep(50000);
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(static_cast<uint16_t>(q));
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0) {
      std::string rq = "GET /config HTTP/1.0\\r\\nHost: localhost\\r\\n\\r\\n";
      if (write(fd, rq.data(), rq.size()) < 0) return 2;
      char b[4096];
      ssize_t n;
      got.clear();
      while ((n = read(fd, b, sizeof b)) > 0) got.append(b, n);
    }
    close(fd);
  }
  kill(pid, SIGKILL);
  waitpid(pid, nullptr, 0);
  return got.find("\\"nf.app\\":\\"two\\"") != std::string::npos ? 0 : 1;
}
'''),
]

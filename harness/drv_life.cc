// Explores the interleavings of starting, stopping and the background threads of the real registry,
// publisher and server (spec/Lifecycle.tla) and reports every distinct history of events with their
// times. libcurl is replaced by stand-ins that take virtual time; nothing leaves the process but
// datagrams to the server under test over loopback. argv[1]: a directory of its own.
#include "dsched.h"
#include "ports.h"
#include "regops.h"
#include <arpa/inet.h>
#include <csignal>
#include <curl/curl.h>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <set>
#include <sys/epoll.h>
#include <sys/stat.h>

enum Kind { kStart = 1, kStop, kPost, kMeasure, kUpdate, kAbsent, kPresent, kRaise, kServe, kTicks, kUp = 100 };

// ---- libcurl
static std::vector<std::pair<int, int64_t>> answers;     // of the requests, over and over: status (-1: no connection), duration
static size_t nposts;
struct Handle { long status; };
extern "C" {
#undef curl_easy_setopt
#undef curl_easy_getinfo
CURL* curl_easy_init() { return new Handle{0}; }
void curl_easy_cleanup(CURL* h) { delete static_cast<Handle*>(h); }
CURLcode curl_easy_setopt(CURL*, CURLoption, ...) { return CURLE_OK; }
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
  va_list a;
  va_start(a, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = static_cast<Handle*>(h)->status;
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* h) {
  auto& a = answers[nposts++ % answers.size()];
  sched::note(kPost, true);
  if (a.second > 0) {
    struct timespec ts{a.second / 1000, a.second % 1000 * 1000000};
    nanosleep(&ts, nullptr);
  }
  sched::note(kPost + (a.first < 0 ? 20 : a.first / 100 == 5 ? 10 : 0), false);
  static_cast<Handle*>(h)->status = a.first;
  return a.first < 0 ? CURLE_COULDNT_CONNECT : CURLE_OK;
}
const char* curl_easy_strerror(CURLcode) { return "error"; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
struct curl_slist* curl_slist_append(struct curl_slist* l, const char*) { return l; }
void curl_slist_free_all(struct curl_slist*) {}
}

// ---- the event loop waits under the scheduler's control
static pthread_mutex_t wake_m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t wake_c = PTHREAD_COND_INITIALIZER;
static int wake_gen = 0;
static bool loop_runs = false;
static void wake() {
  pthread_mutex_lock(&wake_m);
  ++wake_gen;
  pthread_cond_broadcast(&wake_c);
  pthread_mutex_unlock(&wake_m);
}
extern "C" int epoll_wait(int fd, epoll_event* ev, int n, int timeout) {
  static auto real = reinterpret_cast<int (*)(int, epoll_event*, int, int)>(dlsym(RTLD_NEXT, "epoll_wait"));
  if (sched::self() < 0) return real(fd, ev, n, timeout);
  auto until = vclock_ns + timeout * int64_t{1000000};
  for (;;) {
    pthread_mutex_lock(&wake_m);
    int gen = wake_gen;
    pthread_mutex_unlock(&wake_m);
    int r = real(fd, ev, n, 0);
    if (r != 0 || timeout == 0 || (timeout > 0 && vclock_ns >= until)) return r;
    pthread_mutex_lock(&wake_m);
    loop_runs = true;
    pthread_cond_broadcast(&wake_c);
    while (gen == wake_gen && (timeout < 0 || vclock_ns < until)) {
      if (timeout < 0) pthread_cond_wait(&wake_c, &wake_m);
      else {
        timespec ts{until / 1000000000, until % 1000000000};
        pthread_cond_clockwait(&wake_c, &wake_m, CLOCK_MONOTONIC, &ts);
      }
    }
    pthread_mutex_unlock(&wake_m);
  }
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  static auto real = reinterpret_cast<ssize_t (*)(int, const void*, size_t)>(dlsym(RTLD_NEXT, "write"));
  auto r = real(fd, p, n);
  if (sched::self() >= 0) wake();
  return r;
}

// ---- the kernel's table of UDP sockets
static std::string tables;        // the directory with ours
static std::string redirected(const char* path) {
  if (!tables.empty() && std::strncmp(path, "/proc/net/udp", 13) == 0) return tables + (path + 9);
  return path;
}
extern "C" {
FILE* fopen(const char* path, const char* mode) {
  static auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"));
  return real(redirected(path).c_str(), mode);
}
FILE* fopen64(const char* path, const char* mode) {
  static auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen64"));
  return real(redirected(path).c_str(), mode);
}
int open(const char* path, int flags, ...) {
  static auto real = reinterpret_cast<int (*)(const char*, int, ...)>(dlsym(RTLD_NEXT, "open"));
  va_list a;
  va_start(a, flags);
  auto mode = va_arg(a, int);
  va_end(a);
  return real(redirected(path).c_str(), flags, mode);
}
int open64(const char* path, int flags, ...) {
  static auto real = reinterpret_cast<int (*)(const char*, int, ...)>(dlsym(RTLD_NEXT, "open64"));
  va_list a;
  va_start(a, flags);
  auto mode = va_arg(a, int);
  va_end(a);
  return real(redirected(path).c_str(), flags, mode);
}
}
static void table(bool v6, int port, long queue, long drops, bool listed) {
  FILE* f = std::fopen((tables + (v6 ? "/udp6" : "/udp")).c_str(), "w");
  std::fprintf(f, "  sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode ref pointer drops\n");
  const char* any = v6 ? "00000000000000000000000000000000" : "00000000";
  std::fprintf(f, "  12: %s:%04X %s:0000 07 00000000:00000123 00:00000000 00000000     0        0 1 2 0000000000000000 4567\n", any, port - 1, any);
  if (listed)
    std::fprintf(f, "  13: %s:%04X %s:0000 07 00000000:%08lX 00:00000000 00000000     0        0 1 2 0000000000000000 %ld\n", any, port, any, queue, drops);
  std::fclose(f);
}

static void doze(int64_t ms) {
  struct timespec ts{ms / 1000, ms % 1000 * 1000000};
  nanosleep(&ts, nullptr);
}

static void put_stats(Out& o) {
  auto s = string_pool_stats();
  o.w.StartArray();
  o.u64(s.hits);
  o.u64(s.misses);
  o.u64(s.alloc_size);
  o.u64(s.table_size);
  o.w.EndArray();
}

static std::unique_ptr<DrvConfig> config_of(const JV& c) {
  auto cfg = std::make_unique<DrvConfig>();
  cfg->uri = geti(c, "uri") ? "http://127.0.0.1:1/" : "";
  cfg->frequency = absl::Milliseconds(geti(c, "freq", 5000));
  cfg->expiration_frequency = absl::Milliseconds(geti(c, "exp"));
  cfg->meter_ttl = absl::Milliseconds(geti(c, "ttl", 900000));
  cfg->connect_timeout = cfg->read_timeout = absl::Seconds(1000);
  cfg->batch_size = 10000;
  cfg->age_gauge_limit = 10;
  cfg->status_metrics_enabled = geti(c, "status") != 0;
  return cfg;
}

static void registry(const JV& c, const std::shared_ptr<spdlog::logger>& logger) {
  auto r = std::make_unique<TestRegistry>(config_of(c), logger);
  r->OnMeasurements([](const std::vector<Measurement>&) { sched::note(kMeasure, true); });
  r->GetGauge(Id::Of("g"), absl::Hours(1))->Set(1);
  for (const auto& op : c["ops"].GetArray()) {
    char k = op[0].GetString()[0] == 's' ? op[0].GetString()[2] : op[0].GetString()[0];
    sched::yield();
    if (k == 'a') {           // start
      sched::note(kStart, true);
      r->Start();
      sched::note(kStart, false);
    } else if (k == 'o') {    // stop
      sched::note(kStop, true);
      r->Stop();
      sched::note(kStop, false);
    } else if (k == 'e') {    // sleep
      doze(op[1].GetInt64());
    } else if (k == 'u') {    // update
      sched::note(kUpdate, true);
      r->GetCounter("x")->Increment();
    } else {                  // look
      bool there = false;
      for (const auto& m : r->Meters().counters_.get_meters()) there = there || std::strcmp(m->MeterId().Name().Get(), "x") == 0;
      sched::note(there ? kPresent : kAbsent, true);
    }
  }
  sched::note(kStop, true);
  r.reset();
  sched::note(kStop, false);
}

struct TheServer {
  std::unique_ptr<TestRegistry> r;
  std::unique_ptr<spectatord::Server> s;
};

static void serve(TheServer& x) {
  x.s->Start();
  sched::note(kServe, false);
  x.s.reset();
  x.r.reset();
}
static void control(const JV& c, TheServer& x, int port) {
  // until the loop runs (the signal's handler is set then), or, with "soon", until the socket is bound
  bool soon = geti(c, "soon") != 0;
  pthread_mutex_lock(&wake_m);
  while (soon ? !is_bound(std::to_string(port)) : !loop_runs) pthread_cond_wait(&wake_c, &wake_m);
  pthread_mutex_unlock(&wake_m);
  sched::note(kUp, true);
  for (const auto& op : c["ops"].GetArray()) {
    char k = op[0].GetString()[0];
    sched::yield();
    if (k == 's') {           // sleep
      doze(op[1].GetInt64());
    } else if (k == 'u') {    // update: a datagram
      int fd = socket(AF_INET, SOCK_DGRAM, 0);
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_port = htons(static_cast<uint16_t>(port));
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      if (sendto(fd, "T:x:1", 5, 0, reinterpret_cast<sockaddr*>(&a), sizeof a) != 5) die("sendto");
      close(fd);
      sched::note(kUpdate, true);
      wake();
    } else if (k == 'l') {    // look: what the housekeeping last found in the cache of timers
      double v = -1;
      for (const auto& m : x.r->Meters().gauges_.get_meters())
        if (std::strcmp(m->MeterId().Name().Get(), "spectatord.percentileCacheSize") == 0)
          for (const auto& t : m->MeterId().GetTags())
            if (std::strcmp(t.value.Get(), "timer") == 0) v = m->Get();
      sched::note(v != 0 ? kPresent : kAbsent, true);
    }
  }
  sched::note(kRaise, true);
  sched::unwatched([] { raise(SIGTERM); });     // (asio's handler reads what the loop's end writes)
  wake();
}

// what the housekeeping reports (spec/Housekeeping.tla)
static void house_control(const JV& c, TheServer& x, int port, Out& o) {
  const bool v6 = geti(c, "v4") == 0;
  const int64_t t0 = vclock_ns, kRound = 30000;
  pthread_mutex_lock(&wake_m);
  while (!loop_runs) pthread_cond_wait(&wake_c, &wake_m);
  pthread_mutex_unlock(&wake_m);
  Out rounds;       // the string pool around each round of housekeeping
  rounds.w.StartArray();
  auto until = [&](int64_t t) {
    auto now = [&] { return (vclock_ns - t0) / 1000000; };
    while (now() < t) {
      auto next = (now() / kRound + 1) * kRound;
      if (next > t) {
        doze(t - now());
      } else {
        doze(next - 1 - now());
        put_stats(rounds);
        doze(2);
        put_stats(rounds);
      }
    }
  };
  until(500);
  put_stats(rounds);      // after the first
  int64_t t = 500;
  o.w.StartArray();
  for (const auto& op : c["ops"].GetArray()) {
    std::string k = op[0].GetString();
    if (k == "adv") {
      until(t += op[1].GetInt64());
    } else if (k == "line") {
      int fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0);
      sockaddr_storage a{};
      a.ss_family = v6 ? AF_INET6 : AF_INET;
      auto* a4 = reinterpret_cast<sockaddr_in*>(&a);
      auto* a6 = reinterpret_cast<sockaddr_in6*>(&a);
      (v6 ? a6->sin6_port : a4->sin_port) = htons(static_cast<uint16_t>(port));
      if (v6) a6->sin6_addr = in6addr_loopback;
      else a4->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      auto text = bytes(op[1]);
      if (sendto(fd, text.data(), text.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a) != static_cast<ssize_t>(text.size())) die("sendto");
      close(fd);
      wake();
      until(t += 1);
    } else if (k == "table") {
      table(v6, port, op.Size() > 1 ? op[1].GetInt64() : 0, op.Size() > 1 ? op[2].GetInt64() : 0, op.Size() > 1);
    } else if (k == "delall") {
      x.r->DeleteAllMeters(op[1].GetString());
    } else if (k == "measure") {
      World::put_measurements(o, x.r->Measurements());
    }
  }
  o.w.EndArray();
  rounds.w.EndArray();
  std::string s = rounds.sb.GetString();
  o.key("rounds");
  o.w.RawValue(s.data(), s.size(), rapidjson::kArrayType);
  sched::unwatched([] { raise(SIGTERM); });
  wake();
}
static void house(const JV& c, Out& out, const std::shared_ptr<spdlog::logger>& logger) {
  vclock_on = true;
  bool v4 = geti(c, "v4") != 0;
  sched::Options opt;
  opt.preemptions = 0;
  opt.max_runs = 1;
  opt.max_steps = 100000000;
  answers.clear();
  out.w.StartObject();
  sched::Explorer e{opt};
  for (bool first = true; e.next() && first; first = false) {
    vclock_ns = 2000000000000000;
    nposts = 0;
    loop_runs = false;
    wake_gen = 0;
    TheServer x;
    int port = free_port(!v4);
    if (port == 0) {
      out.key("without");
      out.boolean(true);
      break;
    }
    table(!v4, port, 0, 0, false);
    table(v4, port, 0x999, 777, true);      // (never to be read)
    out.key("before");
    put_stats(out);
    out.key("pub");
    e.run({[&] {
             x.r = std::make_unique<TestRegistry>(config_of(c), logger);
             x.s = std::make_unique<spectatord::Server>(v4, port, std::optional<int>{}, std::optional<std::string>{}, x.r.get());
             serve(x);
           },
           [&] { house_control(c, x, port, out); }});
    out.key("error");
    out.str(e.error);
  }
  out.w.EndObject();
  vclock_on = false;
}

static void one(const rapidjson::Document& c, Out& out) {
  auto logger = std::make_shared<spdlog::logger>("null", std::make_shared<spdlog::sinks::null_sink_mt>());
  if (c["u"].GetString()[0] == 'h') {
    house(c, out, logger);
    return;
  }
  vclock_on = true;
  bool server = c["u"].GetString()[0] == 's';
  sched::Options opt;
  opt.preemptions = static_cast<int>(geti(c, "preempt", 1));
  opt.max_runs = geti(c, "runs", 20000);
  opt.random_runs = geti(c, "random", 0);
  opt.seed = static_cast<uint64_t>(geti(c, "seed", 1));
  answers.clear();
  if (c.HasMember("posts"))
    for (const auto& p : c["posts"].GetArray()) answers.emplace_back(p[0].GetInt(), p[1].GetInt64());
  sched::Explorer e{opt};
  std::set<std::string> seen;
  const int64_t t0 = 2000000000000000;
  out.w.StartObject();
  out.key("hist");
  out.w.StartArray();
  while (e.next()) {
    vclock_ns = t0;
    nposts = 0;
    loop_runs = false;
    wake_gen = 0;
    TheServer x;
    if (server) {
      int port = free_port(false);
      if (port == 0) die("no port");
      forget_bound();
      on_bind = wake;
      e.run({[&] {
               x.r = std::make_unique<TestRegistry>(config_of(c), logger);
               x.s = std::make_unique<spectatord::Server>(true, port, std::optional<int>{}, std::optional<std::string>{}, x.r.get());
               serve(x);
             },
             [&] { control(c, x, port); }});
      on_bind = nullptr;
    } else {
      e.run({[&] { registry(c, logger); }});
    }
    Out o;
    o.w.StartArray();
    for (const auto& ev : sched::events()) {
      o.w.StartArray();
      o.i64(ev.op);
      o.i64(ev.begin);
      o.i64((ev.now - t0) / 1000000);
      o.w.EndArray();
    }
    o.w.EndArray();
    std::string h = o.sb.GetString();
    if (seen.insert(h).second) {
      out.w.StartObject();
      out.key("ev");
      out.w.RawValue(h.data(), h.size(), rapidjson::kArrayType);
      out.key("schedule");
      out.str(e.schedule());
      out.w.EndObject();
    }
  }
  out.w.EndArray();
  out.key("runs");
  out.i64(e.runs());
  out.key("exhausted");
  out.boolean(e.exhausted());
  out.w.EndObject();
}

int main(int, char** argv) {
  own_range(argv[1]);
  tables = std::string(argv[1]) + "/" + std::to_string(getpid());
  mkdir(tables.c_str(), 0700);
  spectatord::Logger()->set_level(spdlog::level::off);
  return drive(one);
}

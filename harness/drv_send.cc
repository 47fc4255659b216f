// Explores the interleavings of the publisher's sender threads (spec/Senders.tla): the real registry
// and publisher with a pool of `pool` threads, requests that take virtual time, and the answers that
// the case gives. Reports every distinct history of requests, with what each of them carried.
#include "dsched.h"
#include "regops.h"
#include <cstdarg>
#include <curl/curl.h>
#include <map>
#include <memory>
#include <set>

enum Kind { kStart = 1, kStop = 2, kMeasure = 4, kTag = 5, kPost = 16 };   // kPost + 8 * body + outcome

struct Answer {
  int status = 200;
  int64_t ms = 0;
  std::string body;
};
static std::vector<Answer> answers;      // of the requests in the order in which they begin, over and over
static size_t nposts;
static std::map<std::string, int> bodies;
static std::vector<std::string> publications;
static TestRegistry* the_registry;

// ---- libcurl
struct Handle {
  long status = 0;
  const char* data = nullptr;
  size_t size = 0;
  size_t (*write)(char*, size_t, size_t, void*) = nullptr;
  void* to = nullptr;
};
static int body_of(const Handle& h) {
  std::string s;
  s.reserve(h.size);
  for (size_t i = 0; i < h.size; ++i) s.push_back(h.data[i]);     // (watched)
  int id = 0;
  sched::unwatched([&] { id = bodies.emplace(s, static_cast<int>(bodies.size())).first->second; });
  return id;
}
extern "C" {
#undef curl_easy_setopt
#undef curl_easy_getinfo
CURL* curl_easy_init() { return new Handle; }
void curl_easy_cleanup(CURL* h) { delete static_cast<Handle*>(h); }
CURLcode curl_easy_setopt(CURL* p, CURLoption o, ...) {
  auto* h = static_cast<Handle*>(p);
  va_list a;
  va_start(a, o);
  if (o == CURLOPT_POSTFIELDS) h->data = va_arg(a, const char*);
  if (o == CURLOPT_POSTFIELDSIZE) h->size = static_cast<size_t>(va_arg(a, long));
  if (o == CURLOPT_WRITEFUNCTION) h->write = va_arg(a, size_t (*)(char*, size_t, size_t, void*));
  if (o == CURLOPT_WRITEDATA) h->to = va_arg(a, void*);
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
  va_list a;
  va_start(a, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = static_cast<Handle*>(h)->status;
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* p) {
  auto* h = static_cast<Handle*>(p);
  int body = body_of(*h);
  Answer* a = nullptr;
  sched::unwatched([&] { a = &answers[nposts++ % answers.size()]; });
  sched::note(kPost + 8 * body, true);
  if (a->ms > 0) {
    struct timespec ts{a->ms / 1000, a->ms % 1000 * 1000000};
    nanosleep(&ts, nullptr);
  } else {
    sched::yield();
  }
  int again = body_of(*h);       // (a payload does not change while it is sent)
  int outcome = a->status < 0 ? 2 : a->status >= 500 ? 1 : a->status == 429 ? 4 : a->status >= 300 ? 5 : a->body.empty() ? 0 : 3;
  sched::note(kPost + 8 * again + outcome, false);
  h->status = a->status;
  if (a->status > 0 && !a->body.empty() && h->write != nullptr) {
    std::string copy = a->body;
    h->write(&copy[0], 1, copy.size(), h->to);
  }
  return a->status < 0 ? CURLE_COULDNT_CONNECT : CURLE_OK;
}
const char* curl_easy_strerror(CURLcode) { return "error"; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
struct curl_slist* curl_slist_append(struct curl_slist* l, const char*) { return l; }
void curl_slist_free_all(struct curl_slist*) {}
}

static void doze(int64_t ms) {
  struct timespec ts{ms / 1000, ms % 1000 * 1000000};
  nanosleep(&ts, nullptr);
}
static void measured(const std::vector<Measurement>& ms) {
  sched::note(kMeasure, true);
  sched::unwatched([&] {
    Out o;
    o.w.StartObject();
    o.key("common");
    o.w.StartArray();
    for (const auto& kv : the_registry->CommonTags()) {
      o.w.StartArray();
      o.str(kv.first);
      o.str(kv.second);
      o.w.EndArray();
    }
    o.w.EndArray();
    o.key("ms");
    o.w.StartArray();
    World::put_measurements(o, ms);
    o.w.EndArray();
    o.w.EndObject();
    publications.emplace_back(o.sb.GetString());
  });
}
static void body(const JV& c, const std::shared_ptr<spdlog::logger>& logger) {
  auto cfg = std::make_unique<DrvConfig>();
  cfg->uri = "http://127.0.0.1:1/";
  cfg->frequency = absl::Milliseconds(geti(c, "freq"));
  cfg->expiration_frequency = absl::ZeroDuration();
  cfg->meter_ttl = absl::Hours(1);
  cfg->connect_timeout = cfg->read_timeout = absl::Seconds(1000);
  cfg->batch_size = static_cast<int>(geti(c, "batch"));
  cfg->age_gauge_limit = 10;
  cfg->status_metrics_enabled = geti(c, "status", 1) != 0;
  for (const auto& kv : c["common"].GetArray()) cfg->common_tags[kv[0].GetString()] = kv[1].GetString();
  TestRegistry r{std::move(cfg), logger};
  the_registry = &r;
  r.OnMeasurements(measured);
  for (int i = 0; i < geti(c, "gauges"); ++i)
    r.GetGauge(Id::Of("g" + std::to_string(i), Tags{{"a", "x" + std::to_string(i % 2)}}), absl::Hours(1))->Set(i);
  sched::note(kStart, true);
  r.Start();
  sched::note(kStart, false);
  for (const auto& op : c["ops"].GetArray()) {
    if (op[0].GetString()[0] == 's') {
      doze(op[1].GetInt64());
    } else {
      sched::note(kTag, true);
      r.UpdateCommonTag(op[1].GetString(), op[2].GetString());
      sched::note(kTag, false);
    }
  }
  sched::note(kStop, true);
  r.Stop();
  sched::note(kStop, false);
  r.Measurements();
}

static void one(const rapidjson::Document& c, Out& out) {
  auto logger = std::make_shared<spdlog::logger>("null", std::make_shared<spdlog::sinks::null_sink_mt>());
  vclock_on = true;
  sched::processors = static_cast<unsigned>(geti(c, "pool"));
  sched::Options opt;
  opt.preemptions = static_cast<int>(geti(c, "preempt", 1));
  opt.max_runs = geti(c, "runs", 1000);
  opt.random_runs = geti(c, "random", 0);
  opt.seed = static_cast<uint64_t>(geti(c, "seed", 1));
  answers.clear();
  for (const auto& p : c["posts"].GetArray()) answers.push_back(Answer{p[0].GetInt(), p[1].GetInt64(), p.Size() > 2 ? p[2].GetString() : ""});
  bodies.clear();
  sched::Explorer e{opt};
  std::set<std::string> seen;
  const int64_t t0 = 2000000000000000;
  out.w.StartObject();
  out.key("hist");
  out.w.StartArray();
  while (e.next()) {
    vclock_ns = t0;
    nposts = 0;
    publications.clear();
    e.run({[&] { body(c, logger); }});
    Out o;
    o.w.StartObject();
    o.key("ev");
    o.w.StartArray();
    for (const auto& ev : sched::events()) {
      o.w.StartArray();
      o.i64(ev.op);
      o.i64(ev.begin);
      o.i64((ev.now - t0) / 1000000);
      o.w.EndArray();
    }
    o.w.EndArray();
    o.key("pubs");
    o.w.StartArray();
    for (const auto& p : publications) o.w.RawValue(p.data(), p.size(), rapidjson::kObjectType);
    o.w.EndArray();
    o.w.EndObject();
    std::string h = o.sb.GetString();
    if (seen.insert(h).second) {
      out.w.StartObject();
      out.key("h");
      out.w.RawValue(h.data(), h.size(), rapidjson::kObjectType);
      out.key("schedule");
      out.str(e.schedule());
      out.w.EndObject();
    }
  }
  out.w.EndArray();
  out.key("bodies");
  std::vector<std::string> by(bodies.size());
  for (const auto& kv : bodies) by[static_cast<size_t>(kv.second)] = kv.first;
  out.w.StartArray();
  for (const auto& s : by) {
    static const char* digits = "0123456789abcdef";
    std::string x;
    for (unsigned char ch : s) {
      x.push_back(digits[ch >> 4]);
      x.push_back(digits[ch & 15]);
    }
    out.str(x);
  }
  out.w.EndArray();
  out.key("runs");
  out.i64(e.runs());
  out.key("exhausted");
  out.boolean(e.exhausted());
  out.w.EndObject();
}

int main() {
  spectatord::Logger()->set_level(spdlog::level::off);
  return drive(one);
}

REG = '#include "seedlib.h"\n'
HTTP = REG + '#include "spectator/http_client.h"\n#include "seedhttp.h"\n'
CURL = REG + r'''
#include <cstdarg>
#include <curl/curl.h>
#include <mutex>
// a stand-in for libcurl: the first request takes half a second, and what it sends is read again at its end
struct Handle { const char* data = nullptr; size_t size = 0; };
static std::mutex mu;
static int requests, changed;
extern "C" {
#undef curl_easy_setopt
#undef curl_easy_getinfo
CURL* curl_easy_init() { return new Handle; }
void curl_easy_cleanup(CURL* h) { delete static_cast<Handle*>(h); }
CURLcode curl_easy_setopt(CURL* p, CURLoption o, ...) {
  va_list a;
  va_start(a, o);
  if (o == CURLOPT_POSTFIELDS) static_cast<Handle*>(p)->data = va_arg(a, const char*);
  if (o == CURLOPT_POSTFIELDSIZE) static_cast<Handle*>(p)->size = static_cast<size_t>(va_arg(a, long));
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL*, CURLINFO i, ...) {
  va_list a;
  va_start(a, i);
  if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = 200;
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* p) {
  auto* h = static_cast<Handle*>(p);
  std::string before(h->data, h->size);
  bool first;
  {
    std::lock_guard<std::mutex> l{mu};
    first = requests++ == 0;
  }
  usleep(first ? 500000 : 1000);
  std::string after(h->data, h->size);
  std::lock_guard<std::mutex> l{mu};
  if (before != after) ++changed;
  return CURLE_OK;
}
const char* curl_easy_strerror(CURLcode) { return "error"; }
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup() {}
struct curl_slist* curl_slist_append(struct curl_slist* l, const char*) { return l; }
void curl_slist_free_all(struct curl_slist*) {}
}
'''
SEEDS = [
 dict(id="buffer-index", property="C31",
      edits=[("spectator/publisher.h", "    for (const auto& batch : batches) {\n      asio::post(pool_, [this, batch, ", "    size_t nth = 0;\n    for (const auto& batch : batches) {\n      auto* buffer = &buffers_[nth++ % buffers_.size()];\n      asio::post(pool_, [this, batch, buffer, "),
             ("spectator/publisher.h", "          payload = avail_buffers.back();\n          avail_buffers.pop_back();", "          payload = buffer;")],
      srcs="$CORE", needs="more batches than sender threads, and a batch that takes longer than the ones after it",
      breaks="its payload is overwritten by another batch while it is sent", demo=CURL + '''
int main() {
  auto c = config();
  c->uri = "http://127.0.0.1:1/";
  c->batch_size = 1;
  c->frequency = absl::Seconds(60);
  spectator::Registry r{std::move(c), quiet()};
  for (int i = 0; i < 40; ++i) r.GetGauge("g" + std::to_string(i))->Set(i);
  r.Start();
  usleep(1500000);
  r.Stop();
  EXPECT(requests == 40);
  EXPECT(changed == 0);
  return failures != 0;
}
'''),
 dict(id="count-last", property="C31",
      edits=[("spectator/publisher.h", "          auto batch_size = batch.second - batch.first;", "          auto batch_size = this->registry_->GetConfig().batch_size;")],
      srcs="$CORE", needs="a publication whose last batch is not full",
      breaks="more measurements are counted as sent than were measured", demo=CURL + '''
int main() {
  auto c = config();
  c->uri = "http://127.0.0.1:1/";
  c->batch_size = 2;
  c->status_metrics_enabled = true;
  c->frequency = absl::Seconds(60);
  spectator::Registry r{std::move(c), quiet()};
  for (int i = 0; i < 3; ++i) r.GetGauge("g" + std::to_string(i))->Set(i);
  size_t n = 0;
  r.OnMeasurements([&n](const std::vector<spectator::Measurement>& m) { if (!n) n = m.size(); });
  r.Start();
  usleep(1500000);
  r.Stop();
  double sent = 0;
  for (auto& kv : measure(r))
    if (kv.first.find("spectator.measurements") == 0) sent += kv.second;
  EXPECT(n > 0 && sent == static_cast<double>(n));
  return failures != 0;
}
'''),
 dict(id="retry-shared", property="C31",
      edits=[("spectator/http_client.cc", "      auto sleep_ms = uint32_t(200) << attempt_number;", "      static std::atomic<int> busy{0};\n      auto sleep_ms = uint32_t(200) << std::min(1, busy++);")],
      srcs="$CORE", needs="a busy server before (the first request of the process is as it was)",
      breaks="the wait before a second attempt depends on other requests", demo=HTTP + """
#include <vector>
#include <ctime>
static std::vector<long> waits;
static bool record;
extern "C" int nanosleep(const struct timespec* t, struct timespec*) {
  if (record) waits.push_back(t->tv_sec * 1000 + t->tv_nsec / 1000000);
  return 0;
}
int main() {
  Http h;
  h.status = 503;
  spectator::Registry r{config(), quiet()};
  spectator::HttpClientConfig c{absl::Seconds(5), absl::Seconds(5), true, false, true, false, true, false, {}};
  spectator::HttpClient cl{&r, c};
  record = true;
  cl.Get(h.uri());
  cl.Get(h.uri());
  record = false;
  EXPECT((waits == std::vector<long>{200, 400, 200, 400}));
  return failures != 0;
}
"""),
]

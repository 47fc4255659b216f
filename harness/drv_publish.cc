// Replays behaviours of spec/Publisher.tla and spec/Http.tla: a real registry, publisher and
// HTTP client against a scripted server.
#include "regops.h"
#include "fakehttp.h"
#include "spectator/http_client.h"
#include "spectator/publisher.h"
#include <zlib.h>

struct TestPublisher : Publisher<Registry> {
  using Publisher<Registry>::Publisher;
  void publish() { send_metrics(); }
};

static Outcome outcome_of(const JV& v) {
  Outcome o;
  if (v.HasMember("fail")) o.fail = v["fail"].GetString();
  o.status = static_cast<int>(geti(v, "status", o.fail.empty() ? 200 : 200));
  if (v.HasMember("body")) o.body = bytes(v["body"]);
  if (v.HasMember("deep")) {  // a deeply nested body
    auto n = static_cast<size_t>(geti(v, "deep"));
    o.body = std::string(n, '[') + (geti(v, "closed", 0) ? std::string(n, ']') : std::string());
  }
  if (v.HasMember("big")) o.body.append(static_cast<size_t>(geti(v, "big")), 'x');
  if (v.HasMember("headers"))
    for (const auto& h : v["headers"].GetArray()) o.headers.push_back(bytes(h));
  return o;
}

static std::string gunzip(const std::string& s, bool* ok) {
  std::string out;
  z_stream z{};
  inflateInit2(&z, 15 + 16);
  z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(s.data()));
  z.avail_in = static_cast<uInt>(s.size());
  char buf[65536];
  int rc;
  do {
    z.next_out = reinterpret_cast<Bytef*>(buf);
    z.avail_out = sizeof buf;
    rc = inflate(&z, Z_NO_FLUSH);
    out.append(buf, sizeof buf - z.avail_out);
  } while (rc == Z_OK);
  *ok = rc == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return out;
}

// number of measurements of a payload: each ends with a double
static size_t doubles(const std::string& p) {
  size_t n = 0;
  for (size_t i = 5; i < p.size();) {
    auto t = static_cast<unsigned char>(p[i++]);
    if (t == 0x29) {
      ++n;
      i += 10;
    } else if (t == 0x24 || t == 0x25) {
      while (i < p.size() && !(p[i++] & 0x80)) {
      }
    } else if (t >= 0x40 && t <= 0x5f) {
      i += t - 0x40 + 1;
    } else if (t >= 0x60 && t <= 0x7f) {
      i += t - 0x60 + 33;
    } else if (t == 0xe0) {
      while (i < p.size() && static_cast<unsigned char>(p[i++]) != 0xfc) {
      }
    }
  }
  return n;
}

static void put_bytes(Out& o, const std::string& s) {
  std::string h;
  static const char* d = "0123456789abcdef";
  for (unsigned char c : s) {
    h += d[c >> 4];
    h += d[c & 15];
  }
  o.str(h);
}

int main() {
  auto logger = std::make_shared<spdlog::logger>("drv", std::make_shared<spdlog::sinks::null_sink_mt>());
  logger->set_level(spdlog::level::trace);
  spectatord::Logger()->set_level(spdlog::level::off);
  HttpClient::GlobalInit();
  int rc = drive([&](const JV& c, Out& o) {
    FakeHttp http;
    fake_http = &http;
    no_sleep = true;
    bool virt = geti(c, "virtual", 1) != 0;
    if (virt) {
      vclock_ns = c["start"].GetInt64();
      vclock_on = true;
    }
    auto cfg = World::config(c);
    auto base = "http://127.0.0.1:" + std::to_string(http.port);
    cfg->uri = base + (c.HasMember("path") ? bytes(c["path"]) : std::string{"/publish"});
    cfg->batch_size = static_cast<int>(geti(c, "batch", 100));
    cfg->connect_timeout = absl::Milliseconds(geti(c, "connect_ms", 2000));
    cfg->read_timeout = absl::Milliseconds(geti(c, "read_ms", 20000));
    http.slow_ms = static_cast<int>(geti(c, "connect_ms", 2000) + geti(c, "read_ms", 20000));
    if (c.HasMember("common"))
      for (const auto& kv : c["common"].GetArray()) cfg->common_tags[bytes(kv[0])] = bytes(kv[1]);
    auto connect_to = cfg->connect_timeout;
    auto read_to = cfg->read_timeout;
    bool status = cfg->status_metrics_enabled;
    {
#ifdef WITH_ADMIN
      World& w = *new (admin_host.room) World{std::move(cfg), logger};
      admin_host.start();
#else
      World w{std::move(cfg), logger};
#endif
      TestPublisher pub{&w.r};
      o.w.StartArray();
      for (const auto& op : c["ops"].GetArray()) {
        std::string k = op["op"].GetString();
        o.w.StartObject();
        if (k == "tag") {
          w.r.UpdateCommonTag(bytes(op["k"]), bytes(op["v"]));
        } else if (k == "untag") {
          w.r.EraseCommonTag(bytes(op["k"]));
        } else if (k == "bulk") {
          auto n = op["n"].GetInt();
          double v = getd(op["v"]);
          char ty = op["ty"].GetString()[0];
          for (int i = 1; i <= n; ++i) {
            auto id = Id::Of("bulk" + std::to_string(i), Tags{{"i", std::to_string(i % 50)}});
            if (ty == 'c') w.r.GetCounter(id)->Add(v);
            else if (ty == 'g') w.r.GetGauge(id)->Set(v);
            else if (ty == 'm') w.r.GetMaxGauge(id)->Update(v);
            else if (ty == 'd') w.r.GetDistributionSummary(id)->Record(v);
            else if (ty == 't') w.r.GetTimer(id)->Record(absl::Nanoseconds(static_cast<int64_t>(v * 1e9)));
          }
        } else if (k == "enable") {
          w.cfg->on = op["on"].GetBool();
        } else if (k == "publish") {
          // the script of a payload: by its size, as it is first seen
          std::map<std::string, std::pair<const JV*, size_t>> scripts;
          size_t full = 0;
          size_t last = static_cast<size_t>(geti(op, "last", -1));
          w.seen.clear();
          {
            std::lock_guard<std::mutex> l{http.mu};
            http.log.clear();
            http.decide = [&](const Seen& s) {
              auto it = scripts.find(s.body);
              if (it == scripts.end()) {
                const JV* script;
                bool ok;
                auto plain = gunzip(s.body, &ok);
                size_t n = doubles(plain);
                const auto& sc = op["scripts"];
                if (n == last) {
                  script = &op["lastscript"];
                } else {
                  script = &sc[static_cast<rapidjson::SizeType>(full % sc.Size())];
                  ++full;
                }
                it = scripts.emplace(s.body, std::make_pair(script, size_t{0})).first;
              }
              const auto& sc = *it->second.first;
              auto i = std::min<size_t>(it->second.second++, sc.Size() - 1);
              return outcome_of(sc[static_cast<rapidjson::SizeType>(i)]);
            };
          }
          pub.publish();
          http.join();
          std::lock_guard<std::mutex> l{http.mu};
          http.decide = nullptr;
          o.key("calls");
          o.u64(w.seen.size());
          o.key("seen");
          World::put_measurements(o, w.seen.empty() ? std::vector<Measurement>{} : w.seen.back());
          o.key("requests");
          o.w.StartArray();
          for (const auto& s : http.log) {
            bool ok;
            auto plain = gunzip(s.body, &ok);
            o.w.StartObject();
            o.key("method");
            o.str(s.method);
            o.key("target");
            o.str(s.target);
            o.key("type");
            o.str(s.headers.count("content-type") ? s.headers.at("content-type") : "");
            o.key("encoding");
            o.str(s.headers.count("content-encoding") ? s.headers.at("content-encoding") : "");
            o.key("outcome");
            o.i64(s.outcome);
            o.key("gzip");
            o.boolean(ok);
            o.key("body");
            put_bytes(o, plain);
            o.w.EndObject();
          }
          o.w.EndArray();
#ifdef WITH_ADMIN
        } else if (k == "admin") {
          o.key("bound");
          o.str(admin_host.bound());
          o.key("reply");
          o.str(admin_host.request(bytes(op["text"])));
#endif
        } else if (k == "http") {
          {
            std::lock_guard<std::mutex> l{http.mu};
            http.log.clear();
            http.attempts.clear();
            http.next = 0;
            for (const auto& a : op["script"].GetArray()) http.attempts.push_back(outcome_of(a));
          }
          HttpClientConfig hc{connect_to, read_to, geti(op, "compress", 0) != 0, geti(op, "headers", 1) != 0,
                              geti(op, "body", 1) != 0, false, status, false, {}};
          HttpClient client{&w.r, hc};
          auto url = base + bytes(op["path"]);
          std::string m = op["method"].GetString();
          std::string payload = op.HasMember("payload") ? bytes(op["payload"]) : std::string{};
          std::vector<std::string> hs{"X-One: 1", "X-Two: two words"};
          HttpResponse resp;
          if (m == "GET") {
            resp = geti(op, "with", 0) ? client.Get(url, hs) : client.Get(url);
          } else if (m == "PUT") {
            resp = client.Put(url, hs);
          } else {
            resp = client.Post(url, HttpClient::kJsonType, payload);
          }
          http.join();
          std::lock_guard<std::mutex> l{http.mu};
          o.key("used");
          o.u64(http.next);
          o.key("status");
          o.i64(resp.status);
          o.key("body");
          o.str(resp.raw_body);
          o.key("headers");
          o.w.StartObject();
          for (const auto& kv : resp.headers) {
            o.key(kv.first.c_str());
            o.str(kv.second);
          }
          o.w.EndObject();
          o.key("requests");
          o.w.StartArray();
          for (const auto& s : http.log) {
            o.w.StartObject();
            o.key("method");
            o.str(s.method);
            o.key("target");
            o.str(s.target);
            o.key("hdrs");
            o.w.StartObject();
            for (const auto& kv : s.headers) {
              o.key(kv.first.c_str());
              o.str(kv.second);
            }
            o.w.EndObject();
            o.key("body");
            bool ok = true;
            o.str(s.headers.count("content-encoding") ? gunzip(s.body, &ok) : s.body);
            o.key("gzip");
            o.boolean(ok);
            o.w.EndObject();
          }
          o.w.EndArray();
        } else if (!w.perform(k, op, o)) {
          std::fprintf(stderr, "unknown op %s\n", k.c_str());
          std::exit(3);
        }
        o.w.EndObject();
      }
      o.w.EndArray();
#ifdef WITH_ADMIN
      w.~World();
#endif
    }
    vclock_on = false;
    no_sleep = false;
    fake_http = nullptr;
  });
#ifdef WITH_ADMIN
  if (admin_host.server) admin_host.server->Stop();
#endif
  return rc;
}

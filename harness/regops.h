// The operations of spec/Registry.tla on a real Registry, Server and percentile caches.
#pragma once
#include "common.h"
#include "server/spectatord.h"
#include <spdlog/sinks/null_sink.h>

using namespace spectator;
using spectatord::expiring_cache;

struct TestRegistry : Registry {
  using Registry::Registry;
  void expire() { remove_expired_meters(); }
};
struct DrvConfig : Config {
  bool on = true;
  bool is_enabled() const override { return on; }
};
struct TestServer : spectatord::Server {
  explicit TestServer(Registry* r) : Server(true, 0, {}, {}, r) {}
  auto line(char* b) { return parse(b); }
  auto statsd(char* b) { return parse_statsd(b); }
};

static auto make_t(Registry* r, Id id) {
  return std::make_unique<PercentileTimer>(r, std::move(id), absl::Nanoseconds(1), absl::Hours(24));
}
static auto make_d(Registry* r, Id id) {
  return std::make_unique<PercentileDistributionSummary>(
      r, std::move(id), std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max());
}

static Id id_of(const JV& op) {
  Tags tags;
  for (const auto& kv : op["t"].GetArray()) tags.add(bytes(kv[0]), bytes(kv[1]));
  return Id::Of(bytes(op["n"]), std::move(tags));
}

static void put_id(Out& o, const Id& id) {
  o.key("n");
  o.str(id.Name().Get());
  o.key("t");
  o.w.StartArray();
  for (const auto& t : id.GetTags()) {
    o.w.StartArray();
    o.str(t.key.Get());
    o.str(t.value.Get());
    o.w.EndArray();
  }
  o.w.EndArray();
}

template <typename M, typename F>
static void list(Out& o, const char* ty, const M& map, F&& f) {
  for (const auto* m : map) {
    o.w.StartObject();
    o.key("ty");
    o.str(ty);
    put_id(o, m->MeterId());
    o.key("v");
    o.num(f(*m));
    o.w.EndObject();
  }
}

struct World {
  DrvConfig* cfg;
  TestRegistry r;
  TestServer server;
  expiring_cache<PercentileTimer> ct{make_t};
  expiring_cache<PercentileDistributionSummary> cd{make_d};
  std::vector<std::vector<Measurement>> seen;

  static std::unique_ptr<DrvConfig> config(const JV& c) {
    auto cfg = std::make_unique<DrvConfig>();
    cfg->meter_ttl = absl::Nanoseconds(geti(c, "ttl"));
    cfg->age_gauge_limit = static_cast<size_t>(geti(c, "limit", 1000));
    cfg->status_metrics_enabled = geti(c, "status", 1) != 0;
    return cfg;
  }
  World(std::unique_ptr<DrvConfig> c, std::shared_ptr<spdlog::logger> logger, bool watch = true)
      : cfg{c.get()}, r{std::move(c), std::move(logger)}, server{&r} {
    if (watch) r.OnMeasurements([this](const std::vector<Measurement>& m) { seen.push_back(m); });
  }

  static void put_measurements(Out& o, const std::vector<Measurement>& ms) {
    o.w.StartArray();
    for (const auto& m : ms) {
      o.w.StartObject();
      put_id(o, m.id);
      o.key("v");
      o.num(m.value);
      o.w.EndObject();
    }
    o.w.EndArray();
  }

  // performs one operation; false when it is not one of these
  bool perform(const std::string& k, const JV& op, Out& o) {
    if (k == "line" || k == "statsd") {
      // exactly as long as the text, so that reading behind it is caught
      auto text = bytes(op["s"]);
      auto* buf = static_cast<char*>(std::malloc(text.size() + 1));
      std::memcpy(buf, text.data(), text.size());
      buf[text.size()] = 0;
      auto err = k == "line" ? server.line(buf) : server.statsd(buf);
      std::free(buf);
      o.key("err");
      o.boolean(err.has_value());
    } else if (k == "api" || k == "get") {
      auto id = id_of(op);
      char ty = op["ty"].GetString()[0];
      bool upd = k == "api";
      double v = upd ? getd(op["v"]) : 0;
      auto x = geti(op, "x");
      if (ty == 'c') { auto m = r.GetCounter(id); if (upd) m->Add(v); }
      else if (ty == 'g') {
        auto m = x > 0 ? r.GetGauge(id, absl::Nanoseconds(x)) : r.GetGauge(id);
        if (upd) m->Set(v);
      }
      else if (ty == 'm') { auto m = r.GetMaxGauge(id); if (upd) m->Update(v); }
      else if (ty == 'C') { auto m = r.GetMonotonicCounter(id); if (upd) m->Set(v); }
      else if (ty == 'U') { auto m = r.GetMonotonicCounterUint(id); if (upd) m->Set(std::strtoull(op["v"].GetString(), nullptr, 10)); }
      else if (ty == 'X') { auto m = r.GetMonotonicSampled(id); if (upd) m->Set(v, x); }
      else if (ty == 'd') { auto m = r.GetDistributionSummary(id); if (upd) m->Record(v); }
      else if (ty == 't') { auto m = r.GetTimer(id); if (upd) m->Record(std::chrono::nanoseconds(static_cast<int64_t>(v))); }
      else if (ty == 'A') {
        auto m = r.GetAgeGauge(id);
        if (upd) { if (v == 0) m->UpdateLastSuccess(); else m->UpdateLastSuccess(static_cast<int64_t>(v)); }
      }
    } else if (k == "cache") {
      if (op["ty"].GetString()[0] == 'T')
        ct.get_or_create(&r, id_of(op))->Record(std::chrono::nanoseconds(op["v"].GetInt64()));
      else
        cd.get_or_create(&r, id_of(op))->Record(op["v"].GetInt64());
    } else if (k == "adv") {
      vclock_ns += op["dt"].GetInt64();
    } else if (k == "measure") {
      seen.clear();
      auto ms = r.Measurements();
      bool same = seen.size() == 1 && seen[0].size() == ms.size();
      for (size_t i = 0; same && i < ms.size(); ++i) same = seen[0][i].id == ms[i].id && seen[0][i].value == ms[i].value;
      o.key("cb");
      o.boolean(same);
      o.key("pub");
      put_measurements(o, ms);
    } else if (k == "expire") {
      r.expire();
    } else if (k == "cexpire") {
      auto p = op["ty"].GetString()[0] == 'T' ? ct.expire() : cd.expire();
      o.key("size");
      o.u64(p.first);
      o.key("expired");
      o.u64(p.second);
    } else if (k == "del") {
      o.key("ok");
      o.boolean(r.DeleteMeter(op["ty"].GetString(), id_of(op)));
    } else if (k == "delall") {
      r.DeleteAllMeters(op["ty"].GetString());
    } else if (k == "list") {
      o.key("size");
      o.u64(r.Size());
      o.key("list");
      o.w.StartArray();
      list(o, "A", r.AgeGauges(), [](auto& m) { return m.Value(); });
      list(o, "c", r.Counters(), [](auto& m) { return m.Count(); });
      list(o, "d", r.DistSummaries(), [](auto& m) { return m.TotalAmount(); });
      list(o, "g", r.Gauges(), [](auto& m) { return m.Get(); });
      list(o, "m", r.MaxGauges(), [](auto& m) { return m.Get(); });
      list(o, "C", r.MonotonicCounters(), [](auto& m) { return m.Delta(); });
      list(o, "U", r.MonotonicCountersUint(), [](auto& m) { return m.Delta(); });
      list(o, "t", r.Timers(), [](auto& m) { return static_cast<double>(m.TotalTime()); });
      o.w.EndArray();
    } else {
      return false;
    }
    return true;
  }
};

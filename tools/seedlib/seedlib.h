#pragma once
#include "spectator/registry.h"
#include "util/logger.h"
#include <cstdio>
#include <map>
#include <spdlog/sinks/null_sink.h>
#include <string>
extern bool vclock_on;
extern int64_t vclock_ns;
constexpr int64_t kSec = 1000000000;

inline auto quiet() {
  spectatord::Logger()->set_level(spdlog::level::off);
  return std::make_shared<spdlog::logger>("demo", std::make_shared<spdlog::sinks::null_sink_mt>());
}
inline std::unique_ptr<spectator::Config> config() {
  auto c = std::make_unique<spectator::Config>();
  c->age_gauge_limit = 10;
  c->meter_ttl = absl::Minutes(15);
  c->status_metrics_enabled = false;
  c->batch_size = 1000;
  return c;
}
inline std::string key(const spectator::Measurement& m) {
  std::string k = m.id.Name().Get();
  for (const auto& t : m.id.GetTags()) k += std::string(",") + t.key.Get() + "=" + t.value.Get();
  return k;
}
inline std::map<std::string, double> measure(spectator::Registry& r) {
  std::map<std::string, double> res;
  for (const auto& m : r.Measurements()) res[key(m)] += m.value;
  return res;
}
inline int failures = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); ++failures; } } while (0)

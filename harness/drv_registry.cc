// Replays operation sequences of spec/Registry.tla under virtual time, and prints what they show.
#include "regops.h"

int main() {
  auto logger = std::make_shared<spdlog::logger>("drv", std::make_shared<spdlog::sinks::null_sink_mt>());
  logger->set_level(spdlog::level::trace);
  spectatord::Logger()->set_level(spdlog::level::off);
  return drive([&](const JV& c, Out& o) {
    vclock_ns = c["start"].GetInt64();
    vclock_on = true;
    {
      World w{World::config(c), logger};
      o.w.StartArray();
      for (const auto& op : c["ops"].GetArray()) {
        std::string k = op["op"].GetString();
        o.w.StartObject();
        if (!w.perform(k, op, o)) {
          std::fprintf(stderr, "unknown op %s\n", k.c_str());
          std::exit(3);
        }
        o.w.EndObject();
      }
      o.w.EndArray();
      vclock_on = false;
    }
  });
}

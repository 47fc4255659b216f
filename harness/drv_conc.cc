// Explores the interleavings of small programs of meter, registry, cache and string pool operations
// (spec/Conc.tla, spec/ConcReg.tla) and reports every distinct history: the results of the operations
// and which of them ended before which other began.
#include "dsched.h"
#include "regops.h"
#include "spectator/string_pool.h"
#include <map>
#include <memory>
#include <set>

struct Result {
  std::vector<std::pair<std::string, double>> pub;   // measured, or listed
  std::weak_ptr<void> meter;     // (its control block is not used for another one meanwhile)
  const void* p = nullptr;
  std::string text;
  long b = -1;
};

struct Op {
  std::string k, ty;
  Id id{Id::Of("x")};
  double v = 0;
  std::string vs;
  int64_t x = 0;
  int h = 0;
  std::string s;
};

template <typename M>
static void put(std::vector<std::pair<std::string, double>>* to, const M& ms) {
  for (const auto& m : ms) {
    std::string key = m.id.Name().Get();
    key += '/';
    const auto& t = m.id.GetTags();
    for (const auto& tag : t)
      if (std::strcmp(tag.key.Get(), "statistic") == 0) key += tag.value.Get();
    for (const auto& tag : t)
      if (std::strcmp(tag.key.Get(), "percentile") == 0) key += std::string("/") + tag.value.Get();
    to->emplace_back(std::move(key), m.value);
  }
}

// any meter, by itself
struct Any {
  std::shared_ptr<Counter> c;
  std::shared_ptr<Gauge> g;
  std::shared_ptr<MaxGauge> m;
  std::shared_ptr<MonotonicCounter> C;
  std::shared_ptr<MonotonicCounterUint> U;
  std::shared_ptr<MonotonicSampled> X;
  std::shared_ptr<DistributionSummary> d;
  std::shared_ptr<Timer> t;
  std::shared_ptr<AgeGauge> A;
  char ty = 0;
  std::shared_ptr<void> p;
  void get(Registry* r, char type, const Id& id, int64_t x) {
    ty = type;
    switch (ty) {
      case 'c': c = r ? r->GetCounter(id) : std::make_shared<Counter>(id); p = c; break;
      case 'g': g = r ? (x > 0 ? r->GetGauge(id, absl::Nanoseconds(x)) : r->GetGauge(id)) : std::make_shared<Gauge>(id, absl::Seconds(900)); p = g; break;
      case 'm': m = r ? r->GetMaxGauge(id) : std::make_shared<MaxGauge>(id); p = m; break;
      case 'C': C = r ? r->GetMonotonicCounter(id) : std::make_shared<MonotonicCounter>(id); p = C; break;
      case 'U': U = r ? r->GetMonotonicCounterUint(id) : std::make_shared<MonotonicCounterUint>(id); p = U; break;
      case 'X': X = r ? r->GetMonotonicSampled(id) : std::make_shared<MonotonicSampled>(id); p = X; break;
      case 'd': d = r ? r->GetDistributionSummary(id) : std::make_shared<DistributionSummary>(id); p = d; break;
      case 't': t = r ? r->GetTimer(id) : std::make_shared<Timer>(id); p = t; break;
      case 'A': A = r ? r->GetAgeGauge(id) : std::make_shared<AgeGauge>(id); p = A; break;
    }
  }
  void update(const Op& op) {
    switch (ty) {
      case 'c': c->Add(op.v); break;
      case 'g': g->Set(op.v); break;
      case 'm': m->Update(op.v); break;
      case 'C': C->Set(op.v); break;
      case 'U': U->Set(std::strtoull(op.vs.c_str(), nullptr, 10)); break;
      case 'X': X->Set(op.v, op.x); break;
      case 'd': d->Record(op.v); break;
      case 't': t->Record(std::chrono::nanoseconds(static_cast<int64_t>(op.v))); break;
      case 'A': A->UpdateLastSuccess(); break;
    }
  }
  void measure(std::vector<Measurement>* res) const {
    switch (ty) {
      case 'c': c->Measure(res); break;
      case 'g': g->Measure(res); break;
      case 'm': m->Measure(res); break;
      case 'C': C->Measure(res); break;
      case 'U': U->Measure(res); break;
      case 'X': X->Measure(res); break;
      case 'd': d->Measure(res); break;
      case 't': t->Measure(res); break;
      case 'A': A->Measure(res); break;
    }
  }
};

struct Conc {
  std::shared_ptr<spdlog::logger> logger;
  std::unique_ptr<World> w;
  std::vector<Any> handles;
  std::unique_ptr<StringPool> pool;
  size_t base = 0;    // meters the registry has from the beginning

  void perform(const Op& op, Result* res) {
    TestRegistry* reg = w ? &w->r : nullptr;
#define r (*reg)
    const auto& k = op.k;
    char ty = op.ty.empty() ? 0 : op.ty[0];
    if (k == "hupd") {              // on a meter obtained before
      handles[static_cast<size_t>(op.h)].update(op);
    } else if (k == "hmeasure") {
      std::vector<Measurement> ms;
      handles[static_cast<size_t>(op.h)].measure(&ms);
      put(&res->pub, ms);
    } else if (k == "hnew") {       // a meter outside the registry
      Any a;
      a.get(nullptr, ty, op.id, op.x);
      handles.push_back(a);
    } else if (k == "upd") {
      Any a;
      a.get(reg, ty, op.id, op.x);
      a.update(op);
      res->meter = a.p;
    } else if (k == "get") {
      Any a;
      a.get(reg, ty, op.id, op.x);
      res->meter = a.p;
    } else if (k == "measure") {
      std::vector<Measurement> ms = r.Measurements();
      put(&res->pub, ms);
    } else if (k == "expire") {
      r.expire();
    } else if (k == "size") {
      res->b = static_cast<long>(r.Size() - base);
    } else if (k == "del") {
      res->b = r.DeleteMeter(op.ty, op.id);
    } else if (k == "delall") {
      r.DeleteAllMeters(op.ty);
    } else if (k == "list") {       // as the admin API does it
      if (ty == 'g')
        for (const auto& m : r.Meters().gauges_.get_meters()) res->pub.emplace_back(m->MeterId().Name().Get(), m->Get());
      else
        for (const auto& m : r.Meters().age_gauges_.get_meters())
          res->pub.emplace_back(m->MeterId().Name().Get(), static_cast<double>(m->GetLastSuccess()));
    } else if (k == "cache") {
      if (ty == 'T')
        w->ct.get_or_create(reg, op.id)->Record(std::chrono::nanoseconds(static_cast<int64_t>(op.v)));
      else
        w->cd.get_or_create(reg, op.id)->Record(static_cast<int64_t>(op.v));
    } else if (k == "cexpire") {
      auto x = ty == 'T' ? w->ct.expire() : w->cd.expire();
      res->b = static_cast<long>(x.second);
    } else if (k == "line") {
      std::string b = op.s;
      w->server.line(b.data());
    } else if (k == "intern") {
      auto ref = pool->Intern(op.s.data(), op.s.size());
      res->p = ref.Get();
      res->text = ref.Get();
    } else if (k == "stats") {
      auto st = pool->Stats();
      res->text = std::to_string(st.hits) + " " + std::to_string(st.misses) + " " + std::to_string(st.table_size) + " " + std::to_string(st.alloc_size);
    } else if (k == "ctag") {
      if (op.s.empty()) r.EraseCommonTag(op.ty);
      else r.UpdateCommonTag(op.ty, op.s);
    } else if (k == "ctags") {
      for (const auto& kv : r.CommonTags()) res->text += kv.first + "=" + kv.second + " ";
    } else if (k == "sleep") {
      struct timespec ts{op.x / 1000000000, op.x % 1000000000};
      nanosleep(&ts, nullptr);
    } else if (k == "adv") {
      vclock_ns += op.x;
    }
  }
};

#undef r
static Op parse(const JV& j) {
  Op o;
  o.k = j["k"].GetString();
  if (j.HasMember("ty")) o.ty = j["ty"].GetString();
  if (j.HasMember("n")) o.id = id_of(j);
  if (j.HasMember("v")) {
    o.v = getd(j["v"]);
    if (j["v"].IsString()) o.vs = j["v"].GetString();
  }
  o.x = geti(j, "x");
  o.h = static_cast<int>(geti(j, "h"));
  if (j.HasMember("s")) o.s = bytes(j["s"]);
  return o;
}

static void one(const rapidjson::Document& c, Out& out) {
  auto logger = std::make_shared<spdlog::logger>("null", std::make_shared<spdlog::sinks::null_sink_mt>());
  vclock_on = true;
  std::vector<Op> setup, fin;
  std::vector<std::vector<Op>> threads;
  std::vector<int> base;
  int n = 0;
  for (const auto& o : c["setup"].GetArray()) setup.push_back(parse(o));
  for (const auto& t : c["threads"].GetArray()) {
    threads.emplace_back();
    base.push_back(n);
    for (const auto& o : t.GetArray()) threads.back().push_back(parse(o)), ++n;
  }
  int nf = n;
  for (const auto& o : c["final"].GetArray()) fin.push_back(parse(o)), ++n;
  sched::Options opt;
  opt.preemptions = static_cast<int>(geti(c, "preempt", 2));
  opt.early_timeouts = geti(c, "early") != 0;
  opt.max_runs = geti(c, "runs", 20000);
  opt.random_runs = geti(c, "random", 0);
  opt.seed = static_cast<uint64_t>(geti(c, "seed", 1));
  sched::Explorer e{opt};
  std::set<std::string> seen;
  out.w.StartObject();
  out.key("hist");
  out.w.StartArray();
  while (e.next()) {
    vclock_ns = geti(c, "start");
    Conc k;
    k.logger = logger;
    if (geti(c, "registry", 0)) k.w = std::make_unique<World>(World::config(c), logger, false);
    k.pool = std::make_unique<StringPool>();
    if (k.w) k.base = k.w->r.Size();
    std::vector<Result> res(static_cast<size_t>(n));
    for (const auto& o : setup) {
      Result x;
      k.perform(o, &x);
    }
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < threads.size(); ++t)
      bodies.push_back([&, t] {
        for (size_t i = 0; i < threads[t].size(); ++i) {
          int id = base[t] + static_cast<int>(i);
          sched::yield();
          sched::note(id, true);
          k.perform(threads[t][i], &res[static_cast<size_t>(id)]);
          sched::note(id, false);
        }
      });
    e.run(bodies);
    for (size_t i = 0; i < fin.size(); ++i) k.perform(fin[i], &res[static_cast<size_t>(nf) + i]);
    // what ended before what
    std::vector<uint32_t> pre(static_cast<size_t>(n), 0);
    uint32_t done = 0;
    for (const auto& ev : sched::events()) {
      if (ev.begin) pre[static_cast<size_t>(ev.op)] = done;
      else done |= 1u << ev.op;
    }
    for (size_t i = 0; i < fin.size(); ++i) {
      pre[static_cast<size_t>(nf) + i] = done;
      done |= 1u << (nf + static_cast<int>(i));
    }
    Out o;
    o.w.StartArray();
    std::map<const void*, int> names;
    std::map<std::weak_ptr<void>, int, std::owner_less<std::weak_ptr<void>>> meters;
    const std::weak_ptr<void> none;
    for (int i = 0; i < n; ++i) {
      auto& x = res[static_cast<size_t>(i)];
      o.w.StartObject();
      o.key("pre");
      o.i64(pre[static_cast<size_t>(i)]);
      o.key("pub");
      o.w.StartArray();
      std::sort(x.pub.begin(), x.pub.end());
      for (const auto& p : x.pub) {
        o.w.StartArray();
        o.str(p.first);
        o.num(p.second);
        o.w.EndArray();
      }
      o.w.EndArray();
      o.key("p");
      bool meter = x.meter.owner_before(none) || none.owner_before(x.meter);
      o.i64(meter ? meters.emplace(x.meter, i + 1).first->second : x.p ? names.emplace(x.p, i + 1).first->second : 0);
      o.key("text");
      o.str(x.text);
      if (!x.text.empty() && x.p) {   // as the reference reads now
        o.key("again");
        o.str(static_cast<const char*>(x.p));
      }
      o.key("b");
      o.i64(x.b);
      o.w.EndObject();
    }
    o.w.EndArray();
    std::string h = o.sb.GetString();
    if (seen.insert(h).second) {
      out.w.StartObject();
      out.key("ops");
      out.w.RawValue(h.data(), h.size(), rapidjson::kArrayType);
      out.key("schedule");
      out.str(e.schedule());
      out.w.EndObject();
    }
    k.handles.clear();
  }
  out.w.EndArray();
  out.key("runs");
  out.i64(e.runs());
  out.key("exhausted");
  out.boolean(e.exhausted());
  out.w.EndObject();
}

int main() { return drive(one); }

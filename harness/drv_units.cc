// Runs cases on the parts that need no registry: percentile buckets, Smile payloads, compression, tag
// sets, the string pool, kernel statistics, URL paths and the file watcher; reports what they show.
// argv[1]: a directory of its own.
#include "common.h"
#include "server/proc_utils.h"
#include "spectator/compressed_buffer.h"
#include "spectator/gzip.h"
#include "spectator/percentile_buckets.h"
#include "spectator/smile.h"
#include "spectator/string_intern.h"
#include "spectator/string_pool.h"
#include "spectator/strings.h"
#include "spectator/tags.h"
#include "util/file_watcher.h"
#include "util/logger.h"
#include <map>
#include <memory>
#include <random>
#include <vector>
#include <sys/stat.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace spectator;
static std::string scratch;

static std::string S(const JV& v) { return bytes(v); }

static void put_bytes(Out& o, const std::string& s) {
  o.w.StartArray();
  for (char c : s) o.w.Uint(static_cast<unsigned char>(c));
  o.w.EndArray();
}

// ---------------------------------------------------------------- percentile buckets

static void idx(const JV& c, Out& o) {
  o.w.StartArray();
  for (const auto& x : c["v"].GetArray()) {
    auto v = static_cast<int64_t>(std::strtoll(x.GetString(), nullptr, 10));
    o.w.StartArray();
    o.u64(PercentileBucketIndexOf(v));
    o.str(std::to_string(PercentileBucket(v)));
    o.w.EndArray();
  }
  o.w.EndArray();
}

// the amounts whose bucket is not the one of the table (upper[i]: the largest amount in bucket i)
static void scan(const JV& c, Out& o) {
  std::vector<int64_t> upper;
  for (const auto& x : c["upper"].GetArray()) upper.push_back(std::strtoll(x.GetString(), nullptr, 10));
  std::vector<int64_t> bad;
  uint64_t n = 0;
  auto look = [&](int64_t v) {
    size_t want = std::lower_bound(upper.begin(), upper.end(), v) - upper.begin();
    ++n;
    if (PercentileBucketIndexOf(v) != want && bad.size() < 5) bad.push_back(v);
  };
  auto lo = std::strtoll(c["lo"].GetString(), nullptr, 10), hi = std::strtoll(c["hi"].GetString(), nullptr, 10);
  for (auto v = lo; v < hi; ++v) look(v);
  std::mt19937_64 g{static_cast<uint64_t>(geti(c, "seed"))};
  auto r = geti(c, "rnd");
  for (int64_t i = 0; i < r; ++i) look(static_cast<int64_t>(g() >> (g() % 64)));
  auto around = geti(c, "around");
  for (auto b : upper)
    for (int64_t d = -around; d <= around; ++d)
      if (!(d > 0 && b > INT64_MAX - d)) look(b + d);
  o.w.StartObject();
  o.key("n");
  o.u64(n);
  o.key("bad");
  o.w.StartArray();
  for (auto b : bad) o.str(std::to_string(b));
  o.w.EndArray();
  o.w.EndObject();
}

static void pct(const JV& c, Out& o) {
  std::array<int64_t, PercentileBucketsLength()> counts{};
  for (const auto& x : c["counts"].GetArray()) counts.at(x[0].GetUint()) += x[1].GetInt64();
  std::vector<double> p, res;
  for (const auto& x : c["p"].GetArray()) p.push_back(x.GetDouble());
  res.push_back(17);    // (replaced)
  Percentiles(counts, p, &res);
  o.w.StartArray();
  for (size_t i = 0; i < p.size(); ++i) {
    o.w.StartArray();
    o.num(i < res.size() ? res[i] : -1);
    o.num(Percentile(counts, p[i]));
    o.w.EndArray();
  }
  o.w.EndArray();
}

// ---------------------------------------------------------------- Smile and compression

static std::string inflate_all(const uint8_t* p, size_t n, bool* ok) {
  z_stream s{};
  *ok = false;
  std::string res;
  if (inflateInit2(&s, 15 + 16) != Z_OK) return res;
  s.next_in = const_cast<Bytef*>(p);
  s.avail_in = static_cast<uInt>(n);
  std::vector<char> buf(1 << 16);
  int err = Z_OK;
  while (err == Z_OK) {
    s.next_out = reinterpret_cast<Bytef*>(buf.data());
    s.avail_out = static_cast<uInt>(buf.size());
    err = inflate(&s, Z_NO_FLUSH);
    res.append(buf.data(), buf.size() - s.avail_out);
  }
  *ok = err == Z_STREAM_END && s.avail_in == 0;
  inflateEnd(&s);
  return res;
}

static void smile(const JV& c, Out& o) {
  SmilePayload p;
  o.w.StartArray();
  for (const auto& run : c["runs"].GetArray()) {
    p.Init();
    for (const auto& x : run.GetArray()) {
      char k = x[0].GetString()[0];
      if (k == 'i') p.Append(static_cast<int>(x[1].GetInt64()));
      else if (k == 'z') p.Append(static_cast<size_t>(x[1].GetUint64()));
      else if (k == 'd') {
        uint64_t b = std::strtoull(x[1].GetString(), nullptr, 16);
        double d;
        std::memcpy(&d, &b, 8);
        p.Append(d);
      } else if (k == 'r') p.Append(std::string_view{std::string(static_cast<size_t>(x[2].GetInt64()), x[1].GetString()[0])});
      else p.Append(std::string_view{S(x[1])});
    }
    auto r = p.Result();
    bool ok;
    auto text = inflate_all(r.data, r.size, &ok);
    o.w.StartObject();
    o.key("ok");
    o.boolean(ok);
    o.key("b");
    put_bytes(o, text);
    o.w.EndObject();
  }
  o.w.EndArray();
}

static std::string content(const std::string& kind, size_t len, uint64_t seed) {
  std::mt19937_64 g{seed * 7919 + 17};
  std::string s;
  s.reserve(len);
  if (kind == "rnd")
    while (s.size() < len) s += static_cast<char>(g());
  else if (kind == "text")
    while (s.size() < len) {
      s += "name";
      s += std::to_string(g() % 1000);
      s += static_cast<char>(' ' + g() % 90);
    }
  else
    s.assign(len, static_cast<char>(g()));
  s.resize(len);
  return s;
}

static void buf(const JV& c, Out& o) {
  std::vector<std::string> pieces;
  auto b = std::make_unique<CompressedBuffer>(static_cast<size_t>(c["cfg"][0].GetInt64()), static_cast<size_t>(c["cfg"][1].GetInt64()),
                                              static_cast<size_t>(c["cfg"][2].GetInt64()));
  o.w.StartArray();
  for (const auto& op : c["ops"].GetArray()) {
    std::string k = op[0].GetString();
    if (k == "init") b->Init();
    else if (k == "add") {
      pieces.push_back(content(op[1].GetString(), static_cast<size_t>(op[2].GetInt64()), pieces.size() + static_cast<size_t>(geti(c, "seed")) * 1000));
      b->Append(std::string_view{pieces.back()});
    } else if (k == "bytes") {
      std::string s = content("rnd", static_cast<size_t>(op[1].GetInt64()), pieces.size() + 77);
      auto at = [&](size_t i) { return static_cast<uint8_t>(s[i]); };
      switch (s.size()) {
        case 1: b->Append(at(0)); break;
        case 2: b->Append(at(0), at(1)); break;
        case 3: b->Append(at(0), at(1), at(2)); break;
        case 4: b->Append(at(0), at(1), at(2), at(3)); break;
        case 5: b->Append(at(0), at(1), at(2), at(3), at(4)); break;
        default: b->Append(at(0), at(1), at(2), at(3), at(4), at(5)); break;
      }
      pieces.push_back(s);
    } else if (k == "result") {
      auto r = b->Result();
      bool ok;
      auto text = inflate_all(r.data, r.size, &ok);
      // the runs of pieces whose concatenation it is
      o.w.StartObject();
      o.key("ok");
      o.boolean(ok);
      o.key("n");
      o.u64(text.size());
      o.key("runs");
      o.w.StartArray();
      for (size_t i = 0; ok && i <= pieces.size(); ++i) {
        size_t at = 0, j = i;
        for (;;) {
          if (at == text.size()) {
            o.w.StartArray();
            o.u64(i + 1);
            o.u64(j);
            o.w.EndArray();
          }
          if (j >= pieces.size() || text.compare(at, pieces[j].size(), pieces[j]) != 0) break;
          at += pieces[j++].size();
        }
      }
      o.w.EndArray();
      o.w.EndObject();
    } else if (k == "new") {       // the old one is discarded, whatever its state
      b.reset();
      b = std::make_unique<CompressedBuffer>(static_cast<size_t>(c["cfg"][0].GetInt64()), static_cast<size_t>(c["cfg"][1].GetInt64()),
                                             static_cast<size_t>(c["cfg"][2].GetInt64()));
    }
  }
  o.w.EndArray();
}

// memory of exactly this size, so that everything beyond it is caught
struct Exact {
  uint8_t* p;
  size_t n;
  explicit Exact(size_t size, const std::string& fill = "") : p(static_cast<uint8_t*>(std::malloc(size ? size : 1))), n(size) {
    if (!fill.empty()) std::memcpy(p, fill.data(), std::min(size, fill.size()));
  }
  ~Exact() { std::free(p); }
};

static void gz(const JV& c, Out& o) {
  auto text = content(c["kind"].GetString(), static_cast<size_t>(c["len"].GetInt64()), static_cast<uint64_t>(geti(c, "seed")));
  size_t bound = text.size() + text.size() / 100 + 100;
  Exact src{text.size(), text};
  std::string packed;
  {
    Exact d{bound};
    size_t n = bound;
    int rc = gzip_compress(d.p, &n, src.p, src.n);
    if (rc == Z_OK) packed.assign(reinterpret_cast<char*>(d.p), n);
    bool ok = false;
    std::string back = rc == Z_OK ? inflate_all(d.p, n, &ok) : "";
    o.w.StartArray();
    o.w.StartArray();
    o.str("pack");
    o.i64(1000);
    o.i64(rc);
    o.boolean(ok && back == text);
    o.w.EndArray();
  }
  auto unpack = [&](const char* what, int64_t rel, const std::string& in, size_t size) {
    Exact s{in.size(), in}, d{size};
    size_t n = size;
    int rc = gzip_uncompress(d.p, &n, s.p, s.n);
    o.w.StartArray();
    o.str(what);
    o.i64(rel);
    o.i64(rc);
    o.boolean(rc == Z_OK && n == text.size() && (n == 0 || std::memcmp(d.p, text.data(), n) == 0));
    o.w.EndArray();
  };
  for (const auto& x : c["pack"].GetArray()) {       // with a destination this much larger than needed
    auto size = static_cast<int64_t>(packed.size()) + x.GetInt64();
    if (size < 0) continue;
    Exact d{static_cast<size_t>(size)};
    size_t n = d.n;
    int rc = gzip_compress(d.p, &n, src.p, src.n);
    bool ok = false;
    std::string back = rc == Z_OK ? inflate_all(d.p, n, &ok) : "";
    o.w.StartArray();
    o.str("pack");
    o.i64(x.GetInt64());
    o.i64(rc);
    o.boolean(ok && back == text);
    o.w.EndArray();
  }
  for (const auto& x : c["unpack"].GetArray()) {
    auto size = static_cast<int64_t>(text.size()) + x.GetInt64();
    if (size >= 0) unpack("unpack", x.GetInt64(), packed, static_cast<size_t>(size));
  }
  for (const auto& x : c["cut"].GetArray()) {        // permille of the data
    auto keep = packed.size() * static_cast<size_t>(x.GetInt64()) / 1000;
    if (keep < packed.size()) unpack("cut", static_cast<int64_t>(keep), packed.substr(0, keep), text.size() + 64);
  }
  for (const auto& x : c["flip"].GetArray()) {       // bits, counted from either end
    auto bit = x.GetInt64();
    auto bits = static_cast<int64_t>(packed.size()) * 8;
    if (bit < 0) bit += bits;
    if (bit < 0 || bit >= bits) continue;
    auto in = packed;
    in[static_cast<size_t>(bit / 8)] = static_cast<char>(in[static_cast<size_t>(bit / 8)] ^ (1 << (bit % 8)));
    unpack("flip", bit, in, text.size() + 64);
  }
  for (const auto& x : c["junk"].GetArray()) unpack("junk", x.GetInt64(), content("rnd", static_cast<size_t>(x.GetInt64()), 5), 1000);
  o.w.EndArray();
}

// ---------------------------------------------------------------- tag sets

static void tags(const JV& c, Out& o) {
  std::vector<StrRef> keys, vals;
  for (const auto& k : c["order"].GetArray()) intern_str(S(c["keys"][k.GetUint()]));
  for (const auto& k : c["keys"].GetArray()) keys.push_back(intern_str(S(k)));
  vals.push_back(intern_str("none"));
  for (int i = 1; i < 10; ++i) vals.push_back(intern_str("v" + std::to_string(i)));
  auto key_no = [&](StrRef k) {
    for (size_t i = 0; i < keys.size(); ++i)
      if (keys[i] == k) return static_cast<int>(i + 1);
    return 0;
  };
  auto val_no = [&](StrRef v) {
    for (size_t i = 1; i < vals.size(); ++i)
      if (vals[i] == v) return static_cast<int>(i);
    return 0;
  };
  std::vector<std::unique_ptr<Tags>> t;
  for (int i = 0; i < c["n"].GetInt(); ++i) t.push_back(std::make_unique<Tags>());
  o.w.StartArray();
  for (const auto& op : c["ops"].GetArray()) {
    std::string k = op[0].GetString();
    auto& a = t[static_cast<size_t>(op[1].GetInt() - 1)];
    if (k == "new") a = std::make_unique<Tags>();
    else if (k == "lit") {
      auto key = [&](int i) { return std::string_view{keys[static_cast<size_t>(i - 1)].Get()}; };
      if (op[2].GetInt() == 3) a = std::make_unique<Tags>(Tags{{key(2), "v1"}, {key(1), "v2"}, {key(2), "v3"}});
      else a = std::make_unique<Tags>(Tags{{key(9), "v1"}, {key(1), "v2"}, {key(3), "v3"}, {key(4), "v4"}, {key(2), "v5"}, {key(6), "v6"}, {key(7), "v7"}, {key(8), "v8"}, {key(5), "v9"}, {key(9), "v2"}});
    } else if (k == "add") {      // keys lo, lo + step, .. hi (either direction)
      int lo = op[2].GetInt(), hi = op[3].GetInt(), step = op[4].GetInt();
      auto v = vals[op[5].GetUint()];
      for (int i = lo; step > 0 ? i <= hi : i >= hi; i += step) {
        auto key = keys[static_cast<size_t>(i - 1)];
        if (i % 3 == 0) a->add(key, v);
        else if (i % 3 == 1) a->add(key.Get(), v.Get());
        else a->add(std::string_view{key.Get()}, std::string_view{v.Get()});
      }
    } else {
      auto& b = t[static_cast<size_t>(op[2].GetInt() - 1)];
      if (k == "all") a->add_all(*b);
      else if (k == "copy") a = std::make_unique<Tags>(*b);
      else if (k == "movec") a = std::make_unique<Tags>(std::move(*b));
      else if (k == "movea") *a = std::move(*b);
      else if (k == "copya") { Tags x{*b}; *a = std::move(x); }
    }
    o.w.StartObject();
    o.key("sets");
    o.w.StartArray();
    for (auto& x : t) {
      const Tags& cx = *x;
      o.w.StartObject();
      o.key("it");
      o.w.StartArray();
      for (const auto& tag : cx) {
        o.w.StartArray();
        o.i64(key_no(tag.key));
        o.i64(val_no(tag.value));
        o.w.EndArray();
      }
      o.w.EndArray();
      o.key("n");
      o.u64(cx.size());
      o.key("empty");
      o.boolean(cx.empty());
      o.key("room");
      o.boolean(cx.capacity() >= cx.size());
      o.key("at");
      o.w.StartArray();
      for (auto key : keys) {
        auto v = cx.at(key);
        bool has = cx.has(key);
        o.i64(v == StrRef{} ? (has ? -1 : 0) : has ? val_no(v) : -2);
      }
      o.w.EndArray();
      o.w.EndObject();
    }
    o.w.EndArray();
    o.key("eq");
    o.w.StartArray();
    for (auto& x : t) {
      o.w.StartArray();
      for (auto& y : t) o.i64((*x == *y ? 1 : 0) + (x->hash() == y->hash() ? 2 : 0));
      o.w.EndArray();
    }
    o.w.EndArray();
    o.w.EndObject();
  }
  o.w.EndArray();
}

// ---------------------------------------------------------------- string pool

static void pool(const JV& c, Out& o) {
  StringPool own;
  bool global = geti(c, "global") != 0;
  auto stats = [&] {
    auto s = global ? string_pool_stats() : own.Stats();
    o.w.StartArray();
    o.u64(s.hits);
    o.u64(s.misses);
    o.u64(s.table_size);
    o.u64(s.alloc_size);
    o.w.EndArray();
  };
  struct R { StrRef ref; std::string t; };
  std::vector<R> rs;
  std::map<const char*, int> names;
  o.w.StartObject();
  o.key("st");
  stats();
  o.key("res");
  o.w.StartArray();
  std::vector<std::array<uint64_t, 4>> sts;
  for (const auto& op : c["ops"].GetArray()) {
    if (op["k"].GetString()[1] == 't') {
      auto s = global ? string_pool_stats() : own.Stats();
      rs.push_back({});
      sts.push_back({s.hits, s.misses, s.table_size, s.alloc_size});
      continue;
    }
    std::string s;
    for (const auto& x : op["s"].GetArray()) s += static_cast<char>(x.GetUint());
    char how = op["how"].GetString()[0];
    Exact z{s.size() + (how == 'z' ? 1 : 0), s};
    if (how == 'z') z.p[s.size()] = 0;
    auto* p = reinterpret_cast<const char*>(z.p);
    StrRef r;
    if (global) r = how == 'z' ? intern_str(p) : how == 's' ? intern_str(std::string{p, s.size()}) : intern_str(std::string_view{p, s.size()});
    else r = how == 'z' ? own.Intern(p) : own.Intern(p, s.size());
    rs.push_back({r, std::string(r.Get(), s.size())});
    sts.push_back({});
    std::memset(z.p, 'x', z.n);     // the pool has its own copy
  }
  for (size_t i = 0; i < rs.size(); ++i) {
    auto& r = rs[i];
    o.w.StartObject();
    o.key("p");
    o.i64(r.ref.Get() ? names.emplace(r.ref.Get(), static_cast<int>(i) + 1).first->second : 0);
    o.key("t");
    put_bytes(o, r.t);
    o.key("u");
    put_bytes(o, r.ref.Get() ? std::string(r.ref.Get(), r.t.size()) : "");
    o.key("z");         // terminated
    o.i64(r.ref.Get() ? r.ref.Get()[r.t.size()] : 0);
    o.key("st");
    o.w.StartArray();
    for (auto x : sts[i]) o.u64(x);
    o.w.EndArray();
    o.w.EndObject();
  }
  o.w.EndArray();
  o.w.EndObject();
}

// ---------------------------------------------------------------- kernel statistics

// every time another pointer, since the limit is remembered by it
static const char* fresh_path(const std::string& p) { return strdup(p.c_str()); }

static void write_file(const std::string& path, const std::string& text) {
  FILE* f = std::fopen(path.c_str(), "w");
  std::fwrite(text.data(), 1, text.size(), f);
  std::fclose(f);
}

static void udp(const JV& c, Out& o) {
  auto path = scratch + "/udp";
  if (c["file"].IsNull()) std::remove(path.c_str());
  else write_file(path, S(c["file"]));
  o.w.StartArray();
  for (const auto& p : c["ports"].GetArray()) {
    auto r = spectatord::udp_info(p.GetInt(), path.c_str());
    o.w.StartArray();
    if (r) {
      o.str(std::to_string(r->rx_queue_bytes));
      o.str(std::to_string(r->num_dropped));
    }
    o.w.EndArray();
  }
  o.w.EndArray();
}

static void maxbuf(const JV& c, Out& o) {
  o.w.StartArray();
  int n = 0;
  for (const auto& f : c["files"].GetArray()) {
    auto path = scratch + "/max" + std::to_string(n++);
    if (f.IsNull()) std::remove(path.c_str());
    else if (f.IsInt()) path = scratch;        // not even a file
    else write_file(path, S(f));
    const char* p = fresh_path(path);
    o.i64(spectatord::max_buffer_size(p));
    o.i64(spectatord::max_buffer_size(p));     // asked again
  }
  o.i64(spectatord::max_buffer_size());
  o.w.EndArray();
}

// ---------------------------------------------------------------- file watcher

static void watch(const JV& c, Out& o) {
  using atlas::util::FileWatcher;
  vclock_ns = c["start"].GetInt64();
  vclock_on = true;
  std::string file[2] = {scratch + "/f1", scratch + "/f2"};
  for (auto& f : file) std::remove(f.c_str());
  std::vector<std::unique_ptr<FileWatcher>> w(4);
  o.w.StartArray();
  for (const auto& op : c["ops"].GetArray()) {
    std::string k = op["k"].GetString();
    auto a = static_cast<size_t>(geti(op, "a") - 1), b = static_cast<size_t>(geti(op, "b") - 1);
    bool seen = false;
    if (k == "adv") vclock_ns += geti(op, "x") * 1000000;
    else if (k == "make") write_file(file[a], "");
    else if (k == "remove") std::remove(file[a].c_str());
    else if (k == "new") w[a] = std::make_unique<FileWatcher>(file[b]);
    else if (k == "ask") seen = w[a]->exists();
    else if (k == "copy") w[a] = std::make_unique<FileWatcher>(*w[b]);
    else if (k == "move") { w[a] = std::make_unique<FileWatcher>(std::move(*w[b])); if (a != b) w[b].reset(); }
    else if (k == "assign") *w[a] = *w[b];
    else if (k == "massign") { *w[a] = std::move(*w[b]); if (a != b) w[b].reset(); }
    o.w.StartArray();
    o.boolean(seen);
    o.i64(k == "adv" || k == "make" || k == "remove" || !w[a] ? 0 : w[a]->file_name() == file[0] ? 1 : w[a]->file_name() == file[1] ? 2 : 9);
    o.w.EndArray();
  }
  o.w.EndArray();
  vclock_on = false;
}

int main(int, char** argv) {
  scratch = argv[1];
  auto pid = "/" + std::to_string(getpid());
  scratch += pid;
  mkdir(scratch.c_str(), 0700);
  spectatord::Logger()->set_level(spdlog::level::off);
  return drive([&](const JV& c, Out& o) {
    std::string u = c["u"].GetString();
    o.w.StartObject();
    o.key("r");
    auto run = [&](Out& x) {
      if (u == "idx") idx(c, x);
      else if (u == "scan") scan(c, x);
      else if (u == "pct") pct(c, x);
      else if (u == "smile") smile(c, x);
      else if (u == "buf") buf(c, x);
      else if (u == "gz") gz(c, x);
      else if (u == "tags") tags(c, x);
      else if (u == "pool") pool(c, x);
      else if (u == "udp") udp(c, x);
      else if (u == "max") maxbuf(c, x);
      else if (u == "watch") watch(c, x);
      else if (u == "path") {
        x.w.StartArray();
        for (const auto& s : c["s"].GetArray()) {
          auto t = S(s);
          Exact e{t.size(), t};
          x.str(PathFromUrl(std::string_view{reinterpret_cast<char*>(e.p), e.n}));
        }
        x.w.EndArray();
      } else std::exit(3);
    };
    if (u == "tags" || u == "buf" || u == "gz" || u == "smile" || (u == "pool" && !c.HasMember("global"))) {
      // everything it allocated is released again: by the second time, when what is kept is there
      // (the logger's thread allocates too: a leak is there every time)
      { Out x; run(x); }
      int64_t leak = 1;
      for (int tries = 0; tries < 4 && leak > 0; ++tries) {
        auto before = __sanitizer_get_current_allocated_bytes();
        { Out x; run(x); }
        auto lost = static_cast<int64_t>(__sanitizer_get_current_allocated_bytes()) - static_cast<int64_t>(before);
        leak = tries == 0 ? lost : std::min(leak, lost);
      }
      run(o);
      o.key("leak");
      o.i64(leak);
    } else {
      run(o);
    }
    o.w.EndObject();
  });
}

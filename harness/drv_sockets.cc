// Sends datagrams to the real listeners (spec/Sockets.tla) and reports what they hand over.
// argv[1]: a directory of its own.
#include "ports.h"
#include "regops.h"
#include "server/local_server.h"
#include "server/udp_server.h"
#include <spdlog/sinks/null_sink.h>
#include <arpa/inet.h>
#include <csignal>
#include <fcntl.h>
#include <sys/file.h>
#include <dlfcn.h>
#include <memory>
#include <mutex>
#include <set>
#include <netinet/in.h>
#include <random>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <thread>

// the next receive call fails with this
static std::atomic<int> fail_with{0};
extern "C" ssize_t recv(int fd, void* b, size_t n, int flags) {
  static auto real = reinterpret_cast<ssize_t (*)(int, void*, size_t, int)>(dlsym(RTLD_NEXT, "recv"));
  if (int e = fail_with.exchange(0)) { errno = e; return -1; }
  return real(fd, b, n, flags);
}
extern "C" ssize_t recvmsg(int fd, msghdr* m, int flags) {
  static auto real = reinterpret_cast<ssize_t (*)(int, msghdr*, int)>(dlsym(RTLD_NEXT, "recvmsg"));
  if (int e = fail_with.exchange(0)) { errno = e; return -1; }
  return real(fd, m, flags);
}
extern "C" ssize_t recvfrom(int fd, void* b, size_t n, int flags, sockaddr* a, socklen_t* l) {
  static auto real = reinterpret_cast<ssize_t (*)(int, void*, size_t, int, sockaddr*, socklen_t*)>(dlsym(RTLD_NEXT, "recvfrom"));
  if (int e = fail_with.exchange(0)) { errno = e; return -1; }
  return real(fd, b, n, flags, a, l);
}

static std::string scratch;

struct Client {
  int fd = -1;
  Client(const std::string& kind, int port, const std::string& path) {
    if (kind == "unix") {
      fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0);
      sockaddr_un a{};
      a.sun_family = AF_UNIX;
      std::strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
      if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) die("connect unix");
    } else if (kind == "udp6") {
      fd = socket(AF_INET6, SOCK_DGRAM | SOCK_NONBLOCK, 0);
      sockaddr_in6 a{};
      a.sin6_family = AF_INET6;
      a.sin6_port = htons(static_cast<uint16_t>(port));
      a.sin6_addr = in6addr_loopback;
      if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) die("connect v6");
    } else {
      fd = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0);
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_port = htons(static_cast<uint16_t>(port));
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) die("connect v4");
    }
    int size = 400000;
    setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &size, sizeof size);
  }
  ~Client() { close(fd); }
  bool send(const std::string& s) const { return ::send(fd, s.data(), s.size(), 0) == static_cast<ssize_t>(s.size()); }
};

static std::string content(const std::string& kind, size_t n, uint64_t seed) {
  std::mt19937_64 g{seed * 31 + n};
  std::string s(n, 'x');
  if (kind == "text") for (auto& c : s) c = static_cast<char>(' ' + g() % 95);
  if (kind == "any") for (auto& c : s) c = static_cast<char>(g());
  return s;
}

static void listen(const JV& c, Out& o) {
  std::string kind = c["kind"].GetString();
  asio::io_context io;
  std::vector<std::string> sent;
  std::vector<std::vector<std::vector<int>>> polls(1);
  int calls = 0;
  size_t due = 0;
  static int late = 0;      // (nothing that the kernel would cause more often)
  auto handler = [&](char* p) -> std::optional<std::string> {
    std::vector<int> is;
    for (size_t i = 0; i < sent.size(); ++i)
      if (std::strcmp(p, sent[i].c_str()) == 0) is.push_back(static_cast<int>(i + 1));
    polls.back().push_back(is);
    auto n = std::strlen(p);
    std::memset(p, '!', n);         // (the parser writes into it, too)
    if (++calls % 2) return std::string{"error"};
    return {};
  };
  auto path = scratch + "/listen";
  std::remove(path.c_str());
  bool v4 = kind == "udp4";
  std::unique_ptr<spectatord::UdpServer> u;
  std::unique_ptr<spectatord::LocalServer> l;
  int port = 0;
  if (kind == "unix") {
    l = std::make_unique<spectatord::LocalServer>(io, path, handler);
    l->Start();
  } else {
    for (int tries = 0; !u; ++tries) {
      port = free_port(!v4);
      if (port == 0) {
        o.w.StartObject();
        o.key("without");
        o.boolean(true);
        o.w.EndObject();
        return;
      }
      try {
        u = std::make_unique<spectatord::UdpServer>(io, v4, port, handler);
      } catch (const std::exception&) {
        if (tries > 20) throw;
      }
    }
    u->Start();
  }
  {
    Client client{kind, port, path};
    auto poll = [&] {
      // (the kernel may be late)
      auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(500);
      for (int idle = 0; idle < 3 || (polls.back().size() < due && late < 4 && std::chrono::steady_clock::now() < until);) {
        io.restart();
        idle = io.poll() > 0 ? 0 : idle + 1;
      }
      if (polls.back().size() < due) ++late;
    };
    poll();
    for (const auto& op : c["ops"].GetArray()) {
      char k = op[0].GetString()[0];
      if (k == 's') {
        sent.push_back(content(op[2].GetString(), static_cast<size_t>(op[1].GetInt64()), sent.size() + static_cast<size_t>(geti(c, "seed"))));
        if (!client.send(sent.back())) die("send");
        if (!sent.back().empty() && sent.back().size() < 65536) ++due;
      } else if (k == 'f') {
        fail_with = op[1].GetInt();
      } else {
        poll();
        polls.emplace_back();
        due = 0;
      }
    }
  }
  polls.pop_back();
  o.w.StartObject();
  o.key("polls");
  o.w.StartArray();
  for (const auto& p : polls) {
    o.w.StartArray();
    for (const auto& is : p) {
      o.w.StartArray();
      for (int i : is) o.i64(i);
      o.w.EndArray();
    }
    o.w.EndArray();
  }
  o.w.EndArray();
  o.w.EndObject();
  fail_with = 0;
}

// the whole server: what the registry shows after datagrams for its sockets
static void serve(const JV& c, Out& o, const std::shared_ptr<spdlog::logger>& logger) {
  bool v4 = geti(c, "v4") != 0;
  auto path = scratch + "/deep/serve";
  auto cfg = std::make_unique<DrvConfig>();
  cfg->status_metrics_enabled = true;
  TestRegistry r{std::move(cfg), logger};
  int p1 = free_port(!v4), p2 = free_port(!v4);
  if (p1 == 0 || p1 == p2) {
    o.w.StartObject();
    o.key("without");
    o.boolean(true);
    o.w.EndObject();
    return;
  }
  std::optional<int> statsd;
  if (geti(c, "statsd")) statsd = p2;
  std::optional<std::string> local;
  if (geti(c, "local")) local = path;
  spectatord::Server s{v4, p1, statsd, local, &r};
  std::atomic<bool> done{false};
  auto count = [&](const char* name, std::map<std::string, double>* all) {
    double v = 0;
    for (const auto* m : r.Counters()) {
      std::string n = m->MeterId().Name().Get();
      if (n == name) v += m->Count();
      if (all && n.rfind("spectat", 0) != 0) (*all)[n] = m->Count();
    }
    return v;
  };
  auto now = [] { return std::chrono::steady_clock::now(); };
  umask(022);
  if (geti(c, "stale") == 0) std::remove(path.c_str());
  if (geti(c, "stale") == 0) rmdir((scratch + "/deep").c_str());
  forget_bound();
  std::thread t{[&] { s.Start(); done = true; }};
  auto wait = [&](auto&& f, int secs) {
    auto until = now() + std::chrono::seconds(secs);
    bool ok;
    while (!(ok = f()) && now() < until) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    return ok;
  };
  bool up = wait([&] { return is_bound(std::to_string(p1)) && (!statsd || is_bound(std::to_string(p2))) && (!local || is_bound(path)); }, 20);
  std::map<std::string, double> all;
  double parsed = 0, errors = 0;
  struct stat st{};
  bool open_to_all = true;
  bool seen = false;
  if (up) {
    Client c1{v4 ? "udp4" : "udp6", p1, ""};
    std::unique_ptr<Client> c2, c3;
    if (statsd) c2 = std::make_unique<Client>(v4 ? "udp4" : "udp6", p2, "");
    if (local) c3 = std::make_unique<Client>("unix", 0, path);
    double want = 0;
    for (const auto& op : c["ops"].GetArray()) {
      auto* to = op[0].GetInt() == 1 ? &c1 : op[0].GetInt() == 2 ? c2.get() : c3.get();
      auto text = bytes(op[1]);
      want += op[2].GetInt();       // lines
      if (!wait([&] { return to->send(text); }, 5)) die("send");
      seen = wait([&] { return count("spectatord.parsedCount", nullptr) + count("spectatord.parseErrors", nullptr) >= want; }, 10);
    }
    parsed = count("spectatord.parsedCount", nullptr);
    errors = count("spectatord.parseErrors", &all);
  }
  if (local) open_to_all = stat(path.c_str(), &st) == 0 && (st.st_mode & 0222) == 0222;
  raise(SIGTERM);
  auto t0 = now();
  bool ended = wait([&] { return done.load(); }, 20);
  auto took = std::chrono::duration_cast<std::chrono::milliseconds>(now() - t0).count();
  if (!ended) {
    std::fprintf(stderr, "server does not stop\n");
    std::_Exit(9);
  }
  t.join();
  (void)seen;
  o.w.StartObject();
  o.key("up");
  o.boolean(up);
  o.key("parsed");
  o.num(parsed);
  o.key("errors");
  o.num(errors);
  o.key("open");
  o.boolean(open_to_all);
  o.key("took");
  o.i64(took);
  o.key("counts");
  o.w.StartArray();
  for (const auto& kv : all) {
    o.w.StartArray();
    o.str(kv.first);
    o.num(kv.second);
    o.w.EndArray();
  }
  o.w.EndArray();
  o.w.EndObject();
}

int main(int, char** argv) {
  scratch = std::string(argv[1]) + "/" + std::to_string(getpid());
  mkdir(scratch.c_str(), 0700);
  own_range(argv[1]);
  auto logger = std::make_shared<spdlog::logger>("drv", std::make_shared<spdlog::sinks::null_sink_mt>());
  spectatord::Logger()->set_level(spdlog::level::off);
  return drive([&](const JV& c, Out& o) {
    if (c["u"].GetString()[0] == 'l') listen(c, o);
    else serve(c, o, logger);
  });
}

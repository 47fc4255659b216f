// A scripted HTTP server on 127.0.0.1, and stand-ins for connect() and nanosleep() through
// which connections fail or hang and waiting takes no time.
#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>

struct Outcome {
  int status = 200;       // of the response; 0: a failure
  std::string fail;       // refused hang | reset partial garbage slow
  std::string body;
  std::vector<std::string> headers;  // complete lines without line end
};
struct Seen {
  std::string method, target, body;
  std::map<std::string, std::string> headers;  // lower-case names
  int outcome = -1;       // status given, or -1
};

class FakeHttp {
 public:
  // connection-level failures, taken in order by connect(); null: none
  std::mutex mu;
  std::vector<Outcome> attempts;     // sequential mode: one per attempt
  size_t next = 0;
  std::function<Outcome(const Seen&)> decide;  // concurrent mode
  std::vector<Seen> log;
  int slow_ms = 1000;
  int port = 0;
  int hang_port = 0;

  FakeHttp() {
    listen_ = listener(64, &port);
    hang_ = listener(0, &hang_port);
    // fill the queue of the listener that never accepts
    for (int i = 0; i < 8; ++i) {
      int s = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
      auto a = addr(hang_port);
      real_connect(s, reinterpret_cast<sockaddr*>(&a), sizeof a);
      fill_.push_back(s);
    }
    acceptor_ = std::thread([this] { run(); });
  }
  ~FakeHttp() {
    stop_ = true;
    acceptor_.join();
    for (auto& t : conns_) t.join();
    ::close(listen_);
    ::close(hang_);
    for (int s : fill_) ::close(s);
  }
  static int real_connect(int fd, const sockaddr* a, socklen_t n) {
    static auto f = reinterpret_cast<int (*)(int, const sockaddr*, socklen_t)>(dlsym(RTLD_NEXT, "connect"));
    return f(fd, a, n);
  }
  // what connect() to our port does
  int on_connect(int fd) {
    std::string fail;
    {
      std::lock_guard<std::mutex> l{mu};
      if (!decide && next < attempts.size() && (attempts[next].fail == "refused" || attempts[next].fail == "hang"))
        fail = attempts[next++].fail;
    }
    auto a = addr(fail == "hang" ? hang_port : port);
    if (fail == "refused") {
      errno = ECONNREFUSED;
      return -1;
    }
    return real_connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  }
  void join() {
    // every connection is closed by us, so its thread ends
    std::vector<std::thread> v;
    {
      std::lock_guard<std::mutex> l{mu};
      v.swap(conns_);
    }
    for (auto& t : v) t.join();
  }

 private:
  int listen_, hang_;
  std::vector<int> fill_;
  std::atomic<bool> stop_{false};
  std::thread acceptor_;
  std::vector<std::thread> conns_;

  static sockaddr_in addr(int port) {
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(static_cast<uint16_t>(port));
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return a;
  }
  static int listener(int backlog, int* port) {
    int s = ::socket(AF_INET, SOCK_STREAM, 0);
    auto a = addr(0);
    if (::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || ::listen(s, backlog) != 0) {
      std::perror("listen");
      std::exit(3);
    }
    socklen_t n = sizeof a;
    ::getsockname(s, reinterpret_cast<sockaddr*>(&a), &n);
    *port = ntohs(a.sin_port);
    return s;
  }
  void run() {
    while (!stop_) {
      pollfd p{listen_, POLLIN, 0};
      if (::poll(&p, 1, 20) <= 0) continue;
      int c = ::accept(listen_, nullptr, nullptr);
      if (c < 0) continue;
      std::lock_guard<std::mutex> l{mu};
      conns_.emplace_back([this, c] { serve(c); });
    }
  }
  static std::string lower(std::string s) {
    for (auto& c : s) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    return s;
  }
  static void send_all(int c, const std::string& s) {
    size_t n = 0;
    while (n < s.size()) {
      auto r = ::send(c, s.data() + n, s.size() - n, MSG_NOSIGNAL);
      if (r <= 0) return;
      n += static_cast<size_t>(r);
    }
  }
  void serve(int c) {
    std::string in;
    char buf[16384];
    size_t he = std::string::npos;
    auto more = [&] {
      auto r = ::recv(c, buf, sizeof buf, 0);
      if (r <= 0) return false;
      in.append(buf, static_cast<size_t>(r));
      return true;
    };
    while ((he = in.find("\r\n\r\n")) == std::string::npos)
      if (!more()) {
        ::close(c);
        return;
      }
    Seen q;
    size_t sp = in.find(' '), sp2 = in.find(' ', sp + 1);
    q.method = in.substr(0, sp);
    q.target = in.substr(sp + 1, sp2 - sp - 1);
    size_t p = in.find("\r\n") + 2;
    while (p < he + 2) {
      auto e = in.find("\r\n", p);
      auto col = in.find(':', p);
      if (col < e) {
        auto v = col + 1;
        while (in[v] == ' ') ++v;
        q.headers[lower(in.substr(p, col - p))] = in.substr(v, e - v);
      }
      p = e + 2;
    }
    if (q.headers.count("expect")) send_all(c, "HTTP/1.1 100 Continue\r\n\r\n");
    size_t len = q.headers.count("content-length") ? std::stoul(q.headers["content-length"]) : 0;
    while (in.size() < he + 4 + len)
      if (!more()) break;
    q.body = in.substr(he + 4, len);
    Outcome o;
    {
      std::lock_guard<std::mutex> l{mu};
      if (decide) {
        o = decide(q);
      } else if (next < attempts.size()) {
        o = attempts[next++];
      } else {
        o.status = 418;  // more attempts than the script has
      }
      q.outcome = o.fail.empty() ? o.status : -1;
      log.push_back(q);
    }
    std::string head = "HTTP/1.1 " + std::to_string(o.status) + " Some Reason\r\nConnection: close\r\n";
    for (auto& h : o.headers) head += h + "\r\n";
    if (o.fail == "reset") {
      linger l{1, 0};
      ::setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    } else if (o.fail == "partial") {
      send_all(c, head + "Content-Length: " + std::to_string(o.body.size() + 10) + "\r\n\r\n" + o.body);
    } else if (o.fail == "garbage") {
      send_all(c, "not http at all\r\n\r\n");
    } else if (o.fail == "slow") {
      pollfd pf{c, POLLIN, 0};
      ::poll(&pf, 1, slow_ms * 4);  // until the client gives up
    } else {
      bool bodyless = o.status == 204 || o.status == 304;
      if (!bodyless) head += "Content-Length: " + std::to_string(o.body.size()) + "\r\n";
      send_all(c, head + "\r\n" + (bodyless ? "" : o.body));
      ::shutdown(c, SHUT_WR);
      pollfd pf{c, POLLIN, 0};
      ::poll(&pf, 1, 2000);
    }
    ::close(c);
  }
};

inline FakeHttp* fake_http = nullptr;
extern "C" int connect(int fd, const sockaddr* a, socklen_t n) {
  if (fake_http != nullptr && a->sa_family == AF_INET &&
      ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port) == fake_http->port)
    return fake_http->on_connect(fd);
  return FakeHttp::real_connect(fd, a, n);
}
inline std::atomic<bool> no_sleep{false};
inline std::atomic<int64_t> slept_ns{0};
inline int fake_sleep(const timespec* t, int (*real)(const timespec*, timespec*), timespec* rem) {
  if (no_sleep) {
    slept_ns += t->tv_sec * 1000000000LL + t->tv_nsec;
    return 0;
  }
  return real(t, rem);
}
extern "C" int nanosleep(const timespec* t, timespec* rem) {
  static auto f = reinterpret_cast<int (*)(const timespec*, timespec*)>(dlsym(RTLD_NEXT, "nanosleep"));
  return fake_sleep(t, f, rem);
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const timespec* t, timespec* rem) {
  static auto f = reinterpret_cast<int (*)(clockid_t, int, const timespec*, timespec*)>(dlsym(RTLD_NEXT, "clock_nanosleep"));
  if (no_sleep && flags == 0) {
    slept_ns += t->tv_sec * 1000000000LL + t->tv_nsec;
    return 0;
  }
  return f(id, flags, t, rem);
}

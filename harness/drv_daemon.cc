// What surrounds the real main program (bin/spectatord_main.cc) in its process: a configuration to
// start from, and stand-ins that keep it inside a directory of its own ($VD_ROOT): every port it
// binds becomes some free port, every path of a socket one below the directory, and no distant
// host resolves. Each bind is reported as a line of $VD_ROOT/binds.
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <netdb.h>
#include <string>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include "spectator/config.h"

static std::string env(const char* k) {
  auto* v = getenv(k);
  if (v == nullptr) {
    fprintf(stderr, "ERROR: %s is not set\n", k);
    _exit(3);
  }
  return v;
}

auto GetSpectatorConfig() -> std::unique_ptr<spectator::Config> {
  auto base = env("VD_URI");
  return std::make_unique<spectator::Config>(
      std::map<std::string, std::string>{{"nf.app", "dflt"}, {"nf.node", "i-1"}}, 5000, 5000, 10000, 150, 3600000, 900000, 10,
      env("VD_DFLT").empty() ? "" : base + env("VD_DFLT"), base + "/ext");
}

template <typename F>
static F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

static std::string inside(const char* path) {
  auto root = env("VD_ROOT");
  return std::strncmp(path, root.c_str(), root.size()) == 0 ? path : root + (path[0] == '/' ? "" : "/") + path;
}
static void report(const std::string& line) {
  int fd = open((env("VD_ROOT") + "/binds").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd < 0 || write(fd, line.data(), line.size()) != static_cast<ssize_t>(line.size())) _exit(3);
  close(fd);
}

extern "C" {
int bind(int fd, const sockaddr* a, socklen_t n) {
  static auto f = real<int (*)(int, const sockaddr*, socklen_t)>("bind");
  int type = 0;
  socklen_t tn = sizeof type;
  getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &tn);
  std::string t = type == SOCK_DGRAM ? "dgram" : type == SOCK_STREAM ? "stream" : "other";
  sockaddr_storage s{};
  std::memcpy(&s, a, n);
  if (a->sa_family == AF_UNIX) {
    auto* u = reinterpret_cast<sockaddr_un*>(&s);
    std::string path(u->sun_path, strnlen(u->sun_path, n - offsetof(sockaddr_un, sun_path)));
    auto p = inside(path.c_str());
    if (p.size() >= sizeof u->sun_path) _exit(3);
    std::memset(u->sun_path, 0, sizeof u->sun_path);
    std::memcpy(u->sun_path, p.data(), p.size());
    int r = f(fd, reinterpret_cast<sockaddr*>(&s), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + p.size() + 1));
    if (r == 0) report("unix " + t + " " + path + " " + p + "\n");
    return r;
  }
  bool v6 = a->sa_family == AF_INET6;
  auto& port = v6 ? reinterpret_cast<sockaddr_in6*>(&s)->sin6_port : reinterpret_cast<sockaddr_in*>(&s)->sin_port;
  int asked = ntohs(port);
  port = 0;
  int r = f(fd, reinterpret_cast<sockaddr*>(&s), n);
  if (r == 0) {
    socklen_t m = sizeof s;
    getsockname(fd, reinterpret_cast<sockaddr*>(&s), &m);
    if (asked != 0) report((v6 ? "inet6 " : "inet ") + t + " " + std::to_string(asked) + " " + std::to_string(ntohs(port)) + "\n");
  }
  return r;
}
int unlink(const char* path) noexcept {
  static auto f = real<int (*)(const char*)>("unlink");
  return f(inside(path).c_str());
}
int mkdir(const char* path, mode_t mode) noexcept {
  static auto f = real<int (*)(const char*, mode_t)>("mkdir");
  return f(inside(path).c_str(), mode);
}
int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res) {
  static auto f = real<int (*)(const char*, const char*, const addrinfo*, addrinfo**)>("getaddrinfo");
  char self[256] = "";
  gethostname(self, sizeof self - 1);
  if (node != nullptr && inet_addr(node) == INADDR_NONE && std::strchr(node, ':') == nullptr && std::strchr(node, '.') != nullptr &&
      std::strcmp(node, self) != 0)
    return EAI_NONAME;
  return f(node, service, hints, res);
}
}

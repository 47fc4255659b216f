// Ports for the servers under test: each driver process has a range of its own.
#pragma once
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <netinet/in.h>
#include <set>
#include <string>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

// the addresses that sockets were bound to
static std::mutex bound_m;
static void (*on_bind)() = nullptr;
static std::set<std::string> bound_to;
static std::string address(const sockaddr* a) {
  if (a->sa_family == AF_UNIX) return reinterpret_cast<const sockaddr_un*>(a)->sun_path;
  return std::to_string(ntohs(a->sa_family == AF_INET ? reinterpret_cast<const sockaddr_in*>(a)->sin_port : reinterpret_cast<const sockaddr_in6*>(a)->sin6_port));
}
extern "C" int bind(int fd, const sockaddr* a, socklen_t n) {
  static auto real = reinterpret_cast<int (*)(int, const sockaddr*, socklen_t)>(dlsym(RTLD_NEXT, "bind"));
  int rc = real(fd, a, n);
  if (rc == 0) {
    {
      std::lock_guard<std::mutex> l{bound_m};
      bound_to.insert(address(a));
    }
    if (on_bind) on_bind();
  }
  return rc;
}
static bool is_bound(const std::string& a) {
  std::lock_guard<std::mutex> l{bound_m};
  return bound_to.count(a) > 0;
}
static void forget_bound() {
  std::lock_guard<std::mutex> l{bound_m};
  bound_to.clear();
}

static void die(const char* what) {
  std::fprintf(stderr, "%s: %s\n", what, std::strerror(errno));
  std::exit(3);
}

// a port of this process's own range (other drivers run at the same time) that is free
static int next_port = 0, first_port = 0;
static const int kPorts = 300;
static void own_range(const char* dir) {
  for (int i = 0; i < 30; ++i) {
    int fd = open((std::string(dir) + "/slot" + std::to_string(i)).c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
    if (fd >= 0 && flock(fd, LOCK_EX | LOCK_NB) == 0) {       // (held until the process ends)
      next_port = first_port = 20000 + i * kPorts;
      return;
    }
    if (fd >= 0) close(fd);
  }
  die("no slot");
}
static int free_port(bool v6) {
  for (int tries = 0; tries < kPorts; ++tries) {
    int port = next_port;
    next_port = next_port + 1 == first_port + kPorts ? first_port : next_port + 1;
    int fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0);
    if (fd < 0) return 0;
    sockaddr_storage a{};
    a.ss_family = v6 ? AF_INET6 : AF_INET;
    (v6 ? reinterpret_cast<sockaddr_in6*>(&a)->sin6_port : reinterpret_cast<sockaddr_in*>(&a)->sin_port) = htons(static_cast<uint16_t>(port));
    int rc = bind(fd, reinterpret_cast<sockaddr*>(&a), v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in));
    int e = errno;
    close(fd);
    if (rc == 0) return port;
    if (e != EADDRINUSE && e != EACCES) return 0;
  }
  return 0;
}

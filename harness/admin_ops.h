// The admin server under test, on a registry that lives at one address in all cases.
#pragma once
#include "regops.h"
#include "fakehttp.h"
#include "admin/admin_server.h"
#include <dirent.h>

struct AdminHost {
  alignas(World) unsigned char room[sizeof(World)];
  std::unique_ptr<admin::AdminServer> server;
  int port = 0;

  World& world() { return *reinterpret_cast<World*>(room); }
  void start() {
    if (server) return;
    for (int i = 0; i < 50 && !server; ++i) {
      int s = ::socket(AF_INET, SOCK_STREAM, 0);
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      socklen_t n = sizeof a;
      ::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a);
      ::getsockname(s, reinterpret_cast<sockaddr*>(&a), &n);
      port = ntohs(a.sin_port);
      ::close(s);
      try {
        server = std::make_unique<admin::AdminServer>(world().r, port);
        server->Start();
      } catch (const std::exception& e) {
        server.reset();
      }
    }
    if (!server) {
      std::fprintf(stderr, "no port for the admin server\n");
      std::exit(3);
    }
  }
  // the address of our listening socket with that port
  std::string bound() const {
    std::string r;
    for (int fd = 0; fd < 256; ++fd) {
      int on = 0;
      socklen_t n = sizeof on;
      if (::getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &n) != 0 || !on) continue;
      sockaddr_storage a{};
      n = sizeof a;
      ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n);
      char b[64] = "";
      int p = 0;
      if (a.ss_family == AF_INET) {
        auto* i = reinterpret_cast<sockaddr_in*>(&a);
        ::inet_ntop(AF_INET, &i->sin_addr, b, sizeof b);
        p = ntohs(i->sin_port);
      } else if (a.ss_family == AF_INET6) {
        auto* i = reinterpret_cast<sockaddr_in6*>(&a);
        ::inet_ntop(AF_INET6, &i->sin6_addr, b, sizeof b);
        p = ntohs(i->sin6_port);
      }
      if (p == port) r += b;
    }
    return r;
  }
  // sends the bytes of a request, returns all that comes back
  std::string request(const std::string& text) const {
    auto where = bound();
    int s = ::socket(where.find(':') == std::string::npos ? AF_INET : AF_INET6, SOCK_STREAM, 0);
    int rc;
    if (where.find(':') == std::string::npos) {
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_port = htons(static_cast<uint16_t>(port));
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      rc = ::connect(s, reinterpret_cast<sockaddr*>(&a), sizeof a);
    } else {
      sockaddr_in6 a{};
      a.sin6_family = AF_INET6;
      a.sin6_port = htons(static_cast<uint16_t>(port));
      a.sin6_addr = in6addr_loopback;
      rc = ::connect(s, reinterpret_cast<sockaddr*>(&a), sizeof a);
    }
    std::string in;
    if (rc == 0) {
      size_t n = 0;
      while (n < text.size()) {
        auto r = ::send(s, text.data() + n, text.size() - n, MSG_NOSIGNAL);
        if (r <= 0) break;
        n += static_cast<size_t>(r);
      }
      char buf[16384];
      for (;;) {
        pollfd p{s, POLLIN, 0};
        if (::poll(&p, 1, 20000) <= 0) break;
        auto r = ::recv(s, buf, sizeof buf, 0);
        if (r <= 0) break;
        in.append(buf, static_cast<size_t>(r));
      }
    }
    ::close(s);
    return in;
  }
};
inline AdminHost admin_host;

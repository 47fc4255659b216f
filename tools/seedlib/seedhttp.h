#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <netinet/in.h>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
// Answers every request on a free port of 127.0.0.1 with one status and body (status 0: hangs up).
struct Http {
  std::atomic<int> requests{0};
  std::atomic<bool> stop{false};
  int status = 200;
  std::string body = "{}";
  int fd, port;
  std::thread t;
  Http() {
    fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
    socklen_t l = sizeof a;
    getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l);
    port = ntohs(a.sin_port);
    listen(fd, 16);
    t = std::thread([this] {
      for (;;) {
        int c = accept(fd, nullptr, nullptr);
        if (stop || c < 0) return;
        std::string in;
        char b[65536];
        size_t want = std::string::npos;
        for (;;) {
          ssize_t n = recv(c, b, sizeof b, 0);
          if (n <= 0) break;
          in.append(b, n);
          auto e = in.find("\r\n\r\n");
          if (e == std::string::npos) continue;
          auto p = in.find("Content-Length: ");
          want = e + 4 + (p == std::string::npos ? 0 : std::stoul(in.substr(p + 16)));
          if (in.size() >= want) break;
        }
        ++requests;
        if (status) {
          std::string out = "HTTP/1.1 " + std::to_string(status) + " X\r\nConnection: close\r\nContent-Length: " +
                            std::to_string(body.size()) + "\r\n\r\n" + body;
          (void)!write(c, out.data(), out.size());
        }
        close(c);
      }
    });
  }
  std::string uri() { return "http://127.0.0.1:" + std::to_string(port) + "/api"; }
  ~Http() {
    stop = true;
    shutdown(fd, SHUT_RDWR);
    t.join();
    close(fd);
  }
};

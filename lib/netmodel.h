// Peers of a server under test: real loopback sockets (numbers from 2000 up, so that the server
// keeps the low ones), the bytes they exchange and what the server may do with them.
#ifndef VERIF_NETMODEL_H
#define VERIF_NETMODEL_H
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>
#include <functional>
#include <string>
#include <vector>
extern "C" void *__asan_region_is_poisoned(void *, size_t);
namespace nm
{
enum { HIGH = 2000 };
// for a server socket: how much one call may transfer; -EAGAIN or another negative errno: it fails.
// fd, length, sending
static std::function<long(int, size_t, bool)> g_limit;
static std::function<void(int, const char *, long)> g_sent; // what a server socket sent
static std::function<int(int, int)> g_ctl;                  // 0, or the errno of epoll_ctl
static std::function<bool(int)> g_now;                      // connect: true: wait until it is settled

static std::function<void(int)> g_event;                    // epoll_wait reports this socket
// epoll_wait for harnesses that watch what an event loop is told
inline int wait(int ep, struct epoll_event *ev, int max, int timeout)
{
	int r = (int)syscall(SYS_epoll_pwait, ep, ev, max, timeout, 0L, 8L), e = errno;
	for (int i = 0; g_event && i < r; ++i) { int t; socklen_t l = sizeof t; if (getsockopt(ev[i].data.fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0) g_event(ev[i].data.fd); }
	errno = e; return r;
}

inline long tx(int fd, const void *b, size_t n, int fl = 0) { return syscall(SYS_sendto, fd, b, n, fl | MSG_NOSIGNAL, 0L, 0L); }
inline long rx(int fd, void *b, size_t n, int fl = 0) { return syscall(SYS_recvfrom, fd, b, n, fl, 0L, 0L); }
inline int high(int fd) { if (fd < 0) return fd; int h = fcntl(fd, F_DUPFD, HIGH); ::close(fd); return h; }
inline void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
inline uint16_t localPort(int fd) { struct sockaddr_in a; socklen_t l = sizeof a; memset(&a, 0, sizeof a); getsockname(fd, (struct sockaddr *)&a, &l); return ntohs(a.sin_port); }
inline struct sockaddr_in addr(const std::string &ip, uint16_t port) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr(ip.c_str()); return a; }
// the newest low descriptor that listens (or, for datagrams, is bound) and is not among the known ones
inline int findSocket(int type, const std::vector<int> &known)
{
	for (int fd = 3; fd < HIGH; ++fd)
	{
		int t = 0, acc = 0; socklen_t l = sizeof t; if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) || t != type) continue;
		l = sizeof acc; getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &acc, &l); if (type == SOCK_STREAM && !acc) continue;
		bool old = false; for (size_t i = 0; i < known.size(); ++i) if (known[i] == fd) old = true;
		if (!old && localPort(fd)) return fd;
	}
	return -1;
}
// a port nothing uses, and the address a socket is bound to
inline uint16_t freePort(const std::string &ip, int type) { int s = socket(AF_INET, type, 0); struct sockaddr_in a = addr(ip, 0); if (s < 0 || bind(s, (struct sockaddr *)&a, sizeof a)) _exit(99); uint16_t p = localPort(s); syscall(SYS_close, s); return p; }
inline std::string localIp(int fd) { struct sockaddr_in a; memset(&a, 0, sizeof a); socklen_t l = sizeof a; getsockname(fd, (struct sockaddr *)&a, &l); return inet_ntoa(a.sin_addr); }
// a listener of the harness
inline int listener(const std::string &ip, uint16_t *port) { int s = high(socket(AF_INET, SOCK_STREAM, 0)); struct sockaddr_in a = addr(ip, 0); if (bind(s, (struct sockaddr *)&a, sizeof a) || listen(s, 100)) _exit(99); nonblock(s); *port = localPort(s); return s; }
inline std::string be(unsigned long v, int n) { std::string r; for (int i = n - 1; i >= 0; --i) r += (char)(v >> (8 * i)); return r; }
// package kinds as in Define.h: 0 EXT (a filter of the harness), 1 H2ST3, 2 H2LT3, 3 HTTP, 4 RAW
inline std::string frame(int pkg, const std::string &body)
{
	if (pkg == 0) return "E" + be(body.size(), 3) + body;
	if (pkg == 1) return "\x02" + be(body.size() + 4, 2) + body + "\x03";
	if (pkg == 2) return "\x02" + be(body.size() + 6, 4) + body + "\x03";
	if (pkg == 3) return body.empty() ? "GET /x HTTP/1.1\r\nHost: a\r\n\r\n" : "POST /x HTTP/1.1\r\nHost: a\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
	return body;
}
inline size_t overhead(int pkg) { return pkg <= 1 ? 4 : pkg == 2 ? 6 : pkg == 3 ? 80 : 0; }

struct Peer
{
	int id, fd, pkg; uint16_t port; bool outbound;
	std::string stream; size_t sent;                      // what it says, and how much of it is sent
	std::vector<std::string> msgs; std::vector<size_t> ends; size_t got; std::string rawGot;
	bool bad, big;                                        // the stream ends in garbage / in a message over the limit
	std::string rcvd, expect, wire, tail;                 // received, accepted for it, handed to the kernel, last refused
	bool eof, reset, shut, closed;                        // of the harness' end
	bool live, lost, closing, mute, settled; int opens, ends_, srv, srvFd, worker; // of the server's end, as told to the handler
	Peer() : id(0), fd(-1), pkg(4), port(0), outbound(false), sent(0), got(0), bad(false), big(false), eof(false), reset(false), shut(false), closed(false),
		live(false), lost(false), closing(false), mute(false), settled(false), opens(0), ends_(0), srv(0), srvFd(-1), worker(0) {}
	bool dial(const std::string &ip, uint16_t p, int rcvbuf)
	{
		int s = socket(AF_INET, SOCK_STREAM, 0); if (s < 0) return false; s = high(s); if (rcvbuf) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
		struct sockaddr_in a = addr(ip, p); if (syscall(SYS_connect, s, &a, sizeof a)) { ::close(s); return false; }
		adopt(s); return true;
	}
	void adopt(int s) { fd = s; int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); nonblock(fd); port = localPort(fd); }
	bool canSend() const { return fd >= 0 && !shut && !closed && !mute && !reset && sent < stream.size(); }
	void say(const std::string &m) { stream += m; msgs.push_back(m); ends.push_back(stream.size()); }
	// sends up to n bytes of the stream
	size_t push(size_t n)
	{
		if (!canSend()) return 0; n = std::min(n, stream.size() - sent); long r = tx(fd, stream.data() + sent, n);
		if (r > 0) { sent += r; return r; }
		if (r < 0 && errno != EAGAIN) reset = true;
		return 0;
	}
	void read(size_t n)
	{
		static thread_local char b[65536];
		while (n && fd >= 0 && !closed && !eof) { long r = rx(fd, b, std::min(n, sizeof b)); if (r > 0) { rcvd.append(b, r); n -= r; } else if (r == 0) eof = true; else { if (errno != EAGAIN) { reset = true; eof = true; } break; } }
	}
	void shutdown() { if (fd >= 0 && !closed && !shut) { ::shutdown(fd, SHUT_WR); shut = true; } }
	void close(bool rst) { if (fd < 0 || closed) return; if (rst) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(fd); closed = true; }
	size_t whole() const { size_t k = 0; while (k < ends.size() && ends[k] <= sent) ++k; return k; }
	bool delivered() const { return pkg == 4 ? rawGot.size() == sent : got == whole() - ((big && whole() == msgs.size()) ? 1 : 0); }
	size_t pending() const { return expect.size() - std::min(expect.size(), wire.size()); }
	std::string describe() const { char b[300]; snprintf(b, sizeof b, "peer %d (fd %d): sent %zu of %zu, %zu of %zu messages handled, received %zu of %zu (handed over %zu)%s%s%s%s%s%s", id, srvFd, sent, stream.size(), got, msgs.size(), rcvd.size(), expect.size(), wire.size(), eof ? " eof" : "", reset ? " reset" : "", shut ? " shut" : "", closed ? " closed" : "", live ? " open" : "", closing ? " closing" : ""); return b; }
};
} // namespace nm
#define NM_FIT(fd, len, sending) \
	if ((fd) < nm::HIGH && nm::g_limit) { long lim = nm::g_limit(fd, len, sending); if (lim < 0) { errno = (int)-lim; return -1; } if ((size_t)lim < (len)) (len) = lim; }
namespace nm
{
inline void touch(const void *b, size_t n, bool wr) { if (!n) return; char *p = (char *)__asan_region_is_poisoned((void *)b, n); if (!p) return; if (wr) *(volatile char *)p = 0; else { volatile char c = *(volatile char *)p; (void)c; } }
inline ssize_t out(int fd, const void *b, size_t n, int fl, bool plain, const struct sockaddr *to = NULL, socklen_t tl = 0)
{
	touch(b, n, false); NM_FIT(fd, n, true)
	long r = plain ? syscall(SYS_write, fd, b, n) : syscall(SYS_sendto, fd, b, n, fl, to, (long)tl);
	if (fd < HIGH && r > 0 && g_sent) { int e = errno; g_sent(fd, (const char *)b, r); errno = e; }
	return r;
}
inline ssize_t in(int fd, void *b, size_t n, int fl, bool plain, struct sockaddr *from = NULL, socklen_t *l = NULL)
{
	touch(b, n, true); NM_FIT(fd, n, false)
	return plain ? syscall(SYS_read, fd, b, n) : syscall(SYS_recvfrom, fd, b, n, fl, from, l);
}
}
extern "C" ssize_t send(int fd, const void *b, size_t n, int fl) { return nm::out(fd, b, n, fl, false); }
extern "C" ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *to, socklen_t l) { return nm::out(fd, b, n, fl, false, to, l); }
extern "C" ssize_t write(int fd, const void *b, size_t n) { return nm::out(fd, b, n, 0, true); }
extern "C" ssize_t recv(int fd, void *b, size_t n, int fl) { return nm::in(fd, b, n, fl, false); }
extern "C" ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *f, socklen_t *l) { return nm::in(fd, b, n, fl, false, f, l); }
extern "C" ssize_t read(int fd, void *b, size_t n) { return nm::in(fd, b, n, 0, true); }
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t l)
{
	int r = (int)syscall(SYS_connect, fd, a, l); int e = errno;
	if (r < 0 && e == EINPROGRESS && fd < nm::HIGH && nm::g_now && nm::g_now(fd))
	{
		struct pollfd p = {fd, POLLOUT, 0}; syscall(SYS_poll, &p, 1, 2000); int err = 0; socklen_t el = sizeof err; getsockopt(fd, SOL_SOCKET, SO_ERROR, &err, &el);
		if (!err) return 0;
		errno = err; return -1;
	}
	errno = e; return r;
}
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	if (nm::g_ctl) { int e = nm::g_ctl(op, fd); if (e) { errno = e; return -1; } }
	return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
}
#endif

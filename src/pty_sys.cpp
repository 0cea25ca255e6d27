// The PTY layer on a stand-in kernel: every system call of shl-pty.c ends up
// here, nothing reaches the real kernel.
#include "sys.hpp"
#include "lib.h"
#include <cerrno>
#include <climits>
#include <csetjmp>
#include <cstdarg>
#include <fcntl.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <termios.h>

namespace {

enum { T_FREE, T_PTM, T_PTS, T_PIPER, T_PIPEW, T_EPOLL };
enum { R_DATA, R_EAGAIN = -1, R_EINTR = -2, R_EIO = -3, R_EOF = -4 };
const int FD0 = 100, NFD = 24, NP = 2;

struct Pty {
	int fd;                            // master
	uint64_t rpos, cbpos, wpos, qpos;  // read from kernel, given to callback, written to kernel, queued
	// readiness model
	uint64_t avail, space, seg;
	uint8_t hup, eintr_r, eintr_w;
	uint8_t added, pending;
	void *obj, *evptr;
	// last results: 0 none, 1 data, else R_*
	int lastr, lastw, nr, nw;
	uint8_t alive, err;                // object exists; error was reported to the caller
	int refs;
};

struct Kernel {
	int type[NFD];
	int ctl;                           // scripted (0) or readiness (1)
	Pty p[NP];
	int rs[8], ws[8];                  // scripted results of the coming reads and writes
	int nrs, nws;
	// open
	int calls, fail_at, fail_errno, child, slavefd, msg[6], nmsg, imsg;
	int std_dup, ctty, sess, unlocked, granted, winw, winh, winset, attrset, sent, exited, slave_open, pipew_of;
	int current;                       // pty being opened
	int openfail;                      // fds still open after a failed open are errors
	char bad[160];
	int winsz[2], sigsent;
	int ep, dead;
};

Kernel K;
jmp_buf exit_jmp;
uint64_t deviations;                   // answers other than complete success

uint8_t pat(uint64_t i) { return (uint8_t)(i * 131 + (i >> 8) * 7 + 3); }

void bad(const char *f, ...)
{
	if (K.bad[0]) return;
	va_list a;
	va_start(a, f);
	vsnprintf(K.bad, sizeof(K.bad), f, a);
	va_end(a);
}

int newfd(int type)
{
	for (int i = 0; i < NFD; ++i)
		if (K.type[i] == T_FREE) {
			K.type[i] = type;
			return FD0 + i;
		}
	bad("out of descriptors");
	return -1;
}

int typ(int fd)
{
	if (fd == K.slavefd && K.slave_open) return T_PTS;
	if (fd < FD0 || fd >= FD0 + NFD || K.type[fd - FD0] == T_FREE) return T_FREE;
	return K.type[fd - FD0];
}

// true if this call fails
bool fail(const char *)
{
	++K.calls;
	if (K.fail_at && K.calls == K.fail_at) {
		errno = K.fail_errno;
		++deviations;
		return true;
	}
	return false;
}

Pty *by_fd(int fd)
{
	for (auto &p : K.p)
		if (p.fd == fd && p.alive) return &p;
	return nullptr;
}

void edge(Pty &p)
{
	if (p.added) p.pending = 1;
}

bool ready(const Pty &p) { return p.avail || p.hup || p.space; }

ssize_t do_read(Pty &p, void *b, size_t n)
{
	size_t l;
	++p.nr;
	if (K.ctl == 0) {
		int r = R_EAGAIN;
		if (K.nrs) {
			r = K.rs[0];
			memmove(K.rs, K.rs + 1, sizeof(K.rs) - sizeof(*K.rs));
			--K.nrs;
		}
		if (r == R_EOF) { p.lastr = R_EOF; return 0; }
		if (r < 0) {
			p.lastr = r;
			if (r != R_EAGAIN) ++deviations;
			errno = r == R_EAGAIN ? EAGAIN : r == R_EINTR ? EINTR : EIO;
			return -1;
		}
		l = std::min<size_t>((size_t)r, n);
	} else {
		if (p.eintr_r) { --p.eintr_r; p.lastr = R_EINTR; errno = EINTR; return -1; }
		l = std::min<size_t>(std::min<uint64_t>(p.avail, p.seg), n);
		if (!l) {
			p.lastr = p.hup ? R_EIO : R_EAGAIN;
			errno = p.hup ? EIO : EAGAIN;
			return -1;
		}
		p.avail -= l;
	}
	if (l < n) ++deviations;
	std::string t(l, 0);
	for (size_t i = 0; i < l; ++i) t[i] = (char)pat(p.rpos + i);
	arena::copy(b, t.data(), l);
	p.rpos += l;
	p.lastr = 1;
	return (ssize_t)l;
}

ssize_t do_write(Pty &p, const struct iovec *v, int n)
{
	size_t total = 0, l;
	++p.nw;
	for (int i = 0; i < n; ++i) {
		if (!v[i].iov_len) bad("empty segment is written");
		total += v[i].iov_len;
	}
	if (!total) bad("nothing is written");
	if (K.ctl == 0) {
		int r = R_EAGAIN;
		if (K.nws) {
			r = K.ws[0];
			memmove(K.ws, K.ws + 1, sizeof(K.ws) - sizeof(*K.ws));
			--K.nws;
		}
		if (r == R_EOF) { p.lastw = R_EOF; return 0; }
		if (r < 0) {
			p.lastw = r;
			++deviations;
			errno = r == R_EAGAIN ? EAGAIN : r == R_EINTR ? EINTR : EIO;
			return -1;
		}
		l = std::min<size_t>((size_t)r, total);
	} else {
		if (p.eintr_w) { --p.eintr_w; p.lastw = R_EINTR; errno = EINTR; return -1; }
		if (p.hup) { p.lastw = R_EIO; errno = EIO; return -1; }
		l = (size_t)std::min<uint64_t>(std::min<uint64_t>(p.space, p.seg), total);
		if (!l) { p.lastw = R_EAGAIN; errno = EAGAIN; return -1; }
		p.space -= l;
	}
	if (l < total) ++deviations;
	size_t left = l;
	for (int i = 0; i < n && left; ++i) {
		size_t k = std::min(left, v[i].iov_len);
		std::string t(k, 0);
		arena::copy(&t[0], v[i].iov_base, k);
		for (size_t j = 0; j < k; ++j)
			if ((uint8_t)t[j] != pat(p.wpos + j)) bad("byte %lu written to the child is wrong", (unsigned long)(p.wpos + j));
		p.wpos += k;
		left -= k;
	}
	if (p.wpos > p.qpos) bad("more bytes written than were queued");
	p.lastw = 1;
	return (ssize_t)l;
}

void input_cb(void *obj, void *data, char *u8, size_t len)
{
	Pty &p = K.p[(intptr_t)data - 1];
	if (p.obj != obj) bad("input callback for another pty");
	if (!len) bad("input callback without data");
	if (p.cbpos + len > p.rpos) { bad("input callback gets more than was read"); return; }
	std::string t(len, 0);
	arena::copy(&t[0], u8, len);
	for (size_t i = 0; i < len; ++i)
		if ((uint8_t)t[i] != pat(p.cbpos + i)) { bad("byte %lu given to the input callback is wrong", (unsigned long)(p.cbpos + i)); return; }
	p.cbpos += len;
}

} // namespace

// ------------------------------------------------------------ system calls

extern "C" {
ssize_t vfs_read(int fd, void *b, size_t n)
{
	switch (typ(fd)) {
	case T_PTM: {
		Pty *p = by_fd(fd);
		if (!p) { bad("read from a master that belongs to nobody"); errno = EBADF; return -1; }
		return do_read(*p, b, n);
	}
	case T_PIPER: {
		// the child's message: >0 a byte, 0 end of file, <0 -errno
		int m = K.imsg < K.nmsg ? K.msg[K.imsg++] : 0;
		if (m < 0) { errno = -m; return -1; }
		if (!m || !n) return 0;
		char c = (char)m;
		arena::copy(b, &c, 1);
		return 1;
	}
	default: bad("read from descriptor %d, which is not open", fd); errno = EBADF; return -1;
	}
}
ssize_t vfs_readv(int fd, const struct iovec *v, int n) { return n > 0 ? vfs_read(fd, v[0].iov_base, v[0].iov_len) : 0; }
ssize_t vfs_writev(int fd, const struct iovec *v, int n)
{
	if (typ(fd) == T_PTM) {
		Pty *p = by_fd(fd);
		if (p) return do_write(*p, v, n);
	}
	if (typ(fd) == T_PIPEW) {
		if (fail("write")) return -1;
		if (K.std_dup != 7) bad("the child reports success before its descriptors are set up");
		++K.sent;
		return n > 0 ? (ssize_t)v[0].iov_len : 0;
	}
	bad("write to descriptor %d, which is not open", fd);
	errno = EBADF;
	return -1;
}
ssize_t vfs_write(int fd, const void *b, size_t n)
{
	struct iovec v = { (void *)b, n };
	return vfs_writev(fd, &v, 1);
}
int vfs_posix_openpt(int flags)
{
	if (fail("posix_openpt")) return -1;
	if (!(flags & O_CLOEXEC)) bad("master is not close-on-exec");
	if (!(flags & O_NONBLOCK)) bad("master is not non-blocking");
	return newfd(T_PTM);
}
int vfs_getpt(void) { return vfs_posix_openpt(O_CLOEXEC | O_NONBLOCK); }
int vfs_pipe2(int *f, int flags)
{
	if (fail("pipe2")) return -1;
	if (!(flags & O_CLOEXEC)) bad("pipe is not close-on-exec");
	int v[2] = { newfd(T_PIPER), newfd(T_PIPEW) };
	arena::copy(f, v, sizeof(v));
	return 0;
}
int vfs_pipe(int *f) { return vfs_pipe2(f, O_CLOEXEC); }
int vfs_socketpair(int, int, int, int *f) { return vfs_pipe2(f, O_CLOEXEC); }
pid_t vfs_fork(void)
{
	if (fail("fork")) return -1;
	return K.child ? 0 : 4242;
}
pid_t vfs_vfork(void) { return vfs_fork(); }
int vfs_close(int fd)
{
	if (fd == K.slavefd && K.slave_open) {
		if (fd < 3 && !(K.fail_at && K.calls >= K.fail_at)) bad("the child closes its standard descriptor %d", fd);
		K.slave_open = 0;
		return 0;
	}
	int t = typ(fd);
	if (t == T_FREE) { bad("close of descriptor %d, which is not open", fd); errno = EBADF; return -1; }
	K.type[fd - FD0] = T_FREE;
	for (auto &p : K.p)
		if (p.alive && p.fd == fd) { p.fd = -1; p.added = p.pending = 0; }
	return 0;
}
int vfs_epoll_create1(int flags)
{
	if (fail("epoll_create1")) return -1;
	if (!(flags & EPOLL_CLOEXEC)) bad("bridge is not close-on-exec");
	return newfd(T_EPOLL);
}
int vfs_epoll_create(int) { return vfs_epoll_create1(EPOLL_CLOEXEC); }
int vfs_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	if (typ(ep) != T_EPOLL) { bad("epoll_ctl on descriptor %d", ep); errno = EBADF; return -1; }
	Pty *p = by_fd(fd);
	if (!p) { errno = EBADF; return -1; }
	struct epoll_event e = {};
	if (op != EPOLL_CTL_DEL) {
		arena::copy(&e, ev, sizeof(e));
		if (!(e.events & EPOLLET)) bad("pty is not registered edge-triggered");
		if ((e.events & (EPOLLIN | EPOLLOUT)) != (EPOLLIN | EPOLLOUT)) bad("pty is not registered for input and output");
	}
	switch (op) {
	case EPOLL_CTL_ADD:
		if (p->added) { errno = EEXIST; return -1; }
		if (fail("epoll_ctl")) return -1;
		p->added = 1;
		p->evptr = e.data.ptr;
		p->pending = ready(*p);
		return 0;
	case EPOLL_CTL_MOD:
		if (!p->added) { errno = ENOENT; return -1; }
		p->evptr = e.data.ptr;
		p->pending = ready(*p);
		return 0;
	case EPOLL_CTL_DEL:
		if (!p->added) { errno = ENOENT; return -1; }
		p->added = p->pending = 0;
		return 0;
	}
	errno = EINVAL;
	return -1;
}
int vfs_epoll_wait(int ep, struct epoll_event *ev, int max, int)
{
	if (typ(ep) != T_EPOLL) { bad("epoll_wait on descriptor %d", ep); errno = EBADF; return -1; }
	if (fail("epoll_wait")) return -1;
	int n = 0;
	for (auto &p : K.p) {
		if (n >= max) break;
		if (!p.alive || !p.added || !p.pending) continue;
		p.pending = 0;
		struct epoll_event e = {};
		e.events = (p.avail ? EPOLLIN : 0) | (p.space ? EPOLLOUT : 0) | (p.hup ? EPOLLHUP : 0);
		e.data.ptr = p.evptr;
		arena::copy(ev + n, &e, sizeof(e));
		++n;
	}
	return n;
}
int vfs_epoll_pwait(int ep, struct epoll_event *ev, int max, int t, const sigset_t *) { return vfs_epoll_wait(ep, ev, max, t); }
int vfs_ioctl(int fd, unsigned long req, ...)
{
	va_list a;
	va_start(a, req);
	unsigned long arg = va_arg(a, unsigned long);
	va_end(a);
	int t = typ(fd);
	if (t == T_FREE) { bad("ioctl on descriptor %d, which is not open", fd); errno = EBADF; return -1; }
	if (fail("ioctl")) return -1;
	if (req == TIOCSWINSZ) {
		struct winsize w;
		arena::copy(&w, (void *)arg, sizeof(w));
		K.winsz[0] = w.ws_col;
		K.winsz[1] = w.ws_row;
		++K.winset;
	} else if (req == TIOCSCTTY) {
		if (!K.sess) bad("controlling terminal set before the session");
		K.ctty = 1;
	} else if (req == TIOCSIG) {
		K.sigsent = (int)arg;
	}
	return 0;
}
int vfs_tcgetattr(int fd, struct termios *t)
{
	if (typ(fd) != T_PTS) bad("tcgetattr on something that is not the slave");
	if (fail("tcgetattr")) return -1;
	struct termios x;
	memset(&x, 0, sizeof(x));
	x.c_cc[VERASE] = 0x7f;
	x.c_cc[VINTR] = 3;
	arena::copy(t, &x, sizeof(x));
	return 0;
}
int vfs_tcsetattr(int fd, int, const struct termios *t)
{
	if (typ(fd) != T_PTS) bad("tcsetattr on something that is not the slave");
	if (fail("tcsetattr")) return -1;
	struct termios x;
	arena::copy(&x, t, sizeof(x));
	if (x.c_cc[VERASE] != 010 || !(x.c_iflag & IUTF8) || x.c_cc[VINTR] != 3) bad("wrong terminal attributes are set");
	K.attrset = 1;
	return 0;
}
int vfs_dup2(int a, int b)
{
	if (typ(a) != T_PTS) bad("dup2 of something that is not the slave");
	if (fail("dup2")) return -1;
	if (b < 0 || b > 2) bad("dup2 onto %d", b);
	else K.std_dup |= 1 << b;
	return b;
}
int vfs_dup3(int a, int b, int) { return vfs_dup2(a, b); }
int vfs_dup(int) { errno = EMFILE; return -1; }
pid_t vfs_setsid(void)
{
	if (fail("setsid")) return -1;
	K.sess = 1;
	return 4242;
}
int vfs_sigprocmask(int, const sigset_t *, sigset_t *) { return fail("sigprocmask") ? -1 : 0; }
int vfs_pthread_sigmask(int, const sigset_t *, sigset_t *) { return fail("sigprocmask") ? errno : 0; }
void (*vfs_signal(int, void (*)(int)))(int) { return SIG_DFL; }
int vfs_sigaction(int, const struct sigaction *, struct sigaction *) { return 0; }
int vfs_grantpt(int fd)
{
	if (typ(fd) != T_PTM) bad("grantpt on something that is not the master");
	if (fail("grantpt")) return -1;
	K.granted = 1;
	return 0;
}
int vfs_unlockpt(int fd)
{
	if (typ(fd) != T_PTM) bad("unlockpt on something that is not the master");
	if (fail("unlockpt")) return -1;
	K.unlocked = 1;
	return 0;
}
static char slave_name[] = "/dev/pts/vf";
char *vfs_ptsname(int fd)
{
	if (typ(fd) != T_PTM) bad("ptsname on something that is not the master");
	if (fail("ptsname")) return nullptr;
	return slave_name;
}
int vfs_ptsname_r(int fd, char *b, size_t n)
{
	char *s = vfs_ptsname(fd);
	if (!s) return errno;
	if (n < sizeof(slave_name)) return ERANGE;
	arena::copy(b, s, sizeof(slave_name));
	return 0;
}
int vfs_open(const char *n, int flags, ...)
{
	if (strcmp(n, slave_name)) bad("open of %s", n);
	if (fail("open")) return -1;
	if (!K.unlocked || !K.granted) bad("slave is opened before it is unlocked");
	if (!(flags & O_NOCTTY)) bad("slave is opened without O_NOCTTY");
	K.slave_open = 1;
	return K.slavefd;
}
int vfs_open64(const char *n, int flags, ...) { return vfs_open(n, flags); }
int vfs_fcntl(int fd, int, ...) { if (typ(fd) == T_FREE) bad("fcntl on descriptor %d", fd); return 0; }
int vfs_fcntl64(int fd, int, ...) { return vfs_fcntl(fd, 0); }
void vfs_exit(int c)
{
	K.exited = c ? c : 1000;
	longjmp(exit_jmp, 1);
}
void vfs__exit(int c) { vfs_exit(c); }
int vfs_poll(void *, unsigned long n, int) { return (int)n; }
int vfs_kill(pid_t, int) { bad("kill is called"); return -1; }
pid_t vfs_waitpid(pid_t, int *, int) { errno = ECHILD; return -1; }
int vfs___errno_dummy;
}

// ------------------------------------------------------------------ system
//
// pty ctl=0: scripted results      pty ctl=1: readiness model with a bridge

class PtySys : public System {
public:
	int np = 1;
	bool wbridge = false;

	void init(const Header &h) override
	{
		memset(&K, 0, sizeof(K));
		K.slavefd = (int)h.num("slave", 60);
		for (auto &p : K.p) p.fd = -1;
		K.ctl = (int)h.num("ctl", 0);
		np = (int)h.num("ptys", 1);
		wbridge = K.ctl == 1;
		K.ep = -1;
		if (h.num("auto", 1)) {
			std::string err;
			for (int i = 0; i < np; ++i) open_ok(i);
			if (wbridge) {
				K.ep = sh_bridge_new();
				for (int i = 0; i < np; ++i) sh_bridge_add(K.ep, K.p[i].obj);
			}
		}
		for (auto &p : K.p) p.seg = (uint64_t)h.num("seg", 1 << 20);
	}

	size_t extra_size() override { return sizeof(K); }
	void save_extra(char *p) override { memcpy(p, &K, sizeof(K)); }
	void restore_extra(const char *p) override { memcpy(&K, p, sizeof(K)); }
	uint64_t hash() override
	{
		uint64_t h = 1469598103934665603ull;
		auto mix = [&](uint64_t v) { h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; };
		for (auto &p : K.p) {
			mix(p.fd); mix(p.avail); mix(p.space); mix(p.hup * 4 + p.added * 2 + p.pending);
			mix(p.eintr_r * 16 + p.eintr_w); mix(p.qpos - p.wpos); mix(p.wpos & 16383); mix(p.alive * 2 + p.err); mix(p.refs);
		}
		for (int i = 0; i < NFD; ++i) mix(K.type[i]);
		return h;
	}

	int openfds()
	{
		int n = 0;
		for (int i = 0; i < NFD; ++i) n += K.type[i] != T_FREE;
		return n;
	}

	void reset_open()
	{
		K.calls = K.fail_at = K.child = K.nmsg = K.imsg = 0;
		K.std_dup = K.ctty = K.sess = K.unlocked = K.granted = K.winset = K.attrset = K.sent = K.exited = K.slave_open = 0;
	}

	// the value the child sends when its set-up is complete
	static int setup_msg() { return 1; }

	bool open_ok(int i)
	{
		reset_open();
		K.msg[0] = setup_msg();
		K.nmsg = 1;
		void *o = nullptr;
		pid_t r = sh_pty_open(&o, input_cb, (void *)(intptr_t)(i + 1), 80, 24);
		if (r <= 0 || !o) return false;
		bind(i, o);
		return true;
	}

	void bind(int i, void *o)
	{
		Pty &p = K.p[i];
		uint64_t seg = p.seg;
		memset(&p, 0, sizeof(p));
		p.seg = seg;
		p.obj = o;
		p.alive = 1;
		p.refs = 1;
		p.fd = sh_pty_get_fd(o);
	}

	bool after_dispatch(Pty &p, int r, bool bridge, std::string &err)
	{
		char b[200];
		if (K.bad[0]) { err = K.bad; return false; }
		if (p.cbpos != p.rpos) {
			snprintf(b, sizeof(b), "%lu bytes were read but %lu given to the input callback", (unsigned long)p.rpos, (unsigned long)p.cbpos);
			err = b;
			return false;
		}
		// 0 drained, 1 more work possible, 2 error
		int rs = p.lastr == R_EAGAIN ? 0 : (p.lastr == R_EIO || p.lastr == R_EOF) ? 2 : 1;
		int ws = p.wpos == p.qpos && p.lastw != R_EIO && p.lastw != R_EOF ? 0 : p.lastw == R_EAGAIN ? 0 : (p.lastw == R_EIO || p.lastw == R_EOF) ? 2 : 1;
		if (bridge) {
			// an error is swallowed by the bridge; the caller learns of it from SIGCHLD
			return true;
		}
		bool ok;
		if (r == 0) ok = rs == 0 && ws == 0;
		else if (r == -EAGAIN) ok = true;
		else if (r == -EIO) ok = p.lastr == R_EIO || p.lastw == R_EIO;
		else if (r == -EPIPE) ok = p.lastr == R_EOF || p.lastw == R_EOF;
		else ok = false;
		if (!ok) {
			snprintf(b, sizeof(b), "dispatch returns %d with input %s and output %s", r, rs == 0 ? "drained" : rs == 1 ? "possibly left" : "failed",
				 ws == 0 ? "drained" : ws == 1 ? "left" : "failed");
			err = b;
			return false;
		}
		return true;
	}

	void before(Pty &p) { p.lastr = p.lastw = 0; p.nr = p.nw = 0; }

	bool invariant(std::string &err)
	{
		char b[200];
		if (K.bad[0]) { err = K.bad; return false; }
		if (K.ctl != 1) return true;
		for (auto &p : K.p) {
			if (!p.alive || !p.added || p.pending || p.fd < 0 || p.err) continue;
			if (p.hup) continue;
			if (p.avail || (p.wpos < p.qpos && p.space)) {
				snprintf(b, sizeof(b), "stalled: no event is pending but %lu bytes can be read and %lu queued bytes can be written",
					 (unsigned long)p.avail, (unsigned long)std::min<uint64_t>(p.qpos - p.wpos, p.space));
				err = b;
				return false;
			}
		}
		return true;
	}

	bool apply(const Op &op, std::string &err) override
	{
		deviations = 0;
		bool ok = apply1(op, err);
		if (deviations) ++vf_nontrivial;
		return ok;
	}

	bool apply1(const Op &op, std::string &err)
	{
		char b[200];
		const std::string &n = op.name;
		K.bad[0] = 0;
		if (n == "dispatch") {
			// dispatch i reads,... / writes,...
			Pty &p = K.p[op.a[0]];
			K.nrs = K.nws = 0;
			parse_script(op.w[1], K.rs, K.nrs);
			parse_script(op.w[2], K.ws, K.nws);
			before(p);
			bool open = p.alive && p.fd >= 0;
			int r = sh_pty_dispatch(p.obj);
			if (!open) {
				if (r >= 0 || p.nr || p.nw) { err = "dispatch on a closed pty does not fail"; return false; }
				return invariant(err);
			}
			return after_dispatch(p, r, false, err) && invariant(err);
		}
		if (n == "write") {
			Pty &p = K.p[op.a[0]];
			uint64_t len = (uint64_t)op.a[1];
			std::string d(len, 0);
			for (uint64_t i = 0; i < len; ++i) d[i] = (char)pat(p.qpos + i);
			bool open = p.alive && p.fd >= 0;
			int r = sh_pty_write(p.obj, d.data(), d.size());
			if (r == 0 && open) p.qpos += len;
			if (open ? r != 0 && r != -ENOMEM : r >= 0) {
				snprintf(b, sizeof(b), "write returns %d on %s pty", r, open ? "an open" : "a closed");
				err = b;
				return false;
			}
			if (wbridge && open) {
				before(p);
				r = sh_bridge_dispatch_pty(K.ep, p.obj);
				if (r) { err = "bridge dispatch fails"; return false; }
				if (!after_dispatch(p, r, true, err)) return false;
			}
			return invariant(err);
		}
		if (n == "wait") {
			for (auto &p : K.p) before(p);
			K.calls = 0;
			K.fail_at = op.a.empty() || !op.a[0] ? 0 : 1;
			K.fail_errno = op.a.empty() ? 0 : (int)op.a[0];
			int r = sh_bridge_dispatch(K.ep, 0);
			K.fail_at = 0;
			int want = op.a.empty() || !op.a[0] || op.a[0] == EINTR || op.a[0] == EAGAIN ? 0 : -(int)op.a[0];
			if (r != want) {
				snprintf(b, sizeof(b), "bridge dispatch returns %d, expected %d", r, want);
				err = b;
				return false;
			}
			for (auto &p : K.p)
				if (p.alive && (p.nr || p.nw) && !after_dispatch(p, r, true, err)) return false;
			return invariant(err);
		}
		if (n == "settle") {
			// the event loop runs until nothing is pending: everything must be moved
			for (int k = 0; k < 100000; ++k) {
				bool any = false;
				for (auto &p : K.p) any |= p.alive && p.added && p.pending;
				if (!any) break;
				for (auto &p : K.p) before(p);
				sh_bridge_dispatch(K.ep, 0);
				if (!invariant(err)) return false;
			}
			for (auto &p : K.p) {
				if (!p.alive || !p.added || p.hup || p.fd < 0) continue;
				if (p.avail || p.cbpos != p.rpos || (p.wpos < p.qpos && p.space)) {
					err = "the event loop comes to rest with work left";
					return false;
				}
			}
			return invariant(err);
		}
		if (n == "arrive") { Pty &p = K.p[op.a[0]]; if (!p.hup) { p.avail += op.a[1]; edge(p); } return invariant(err); }
		if (n == "space") { Pty &p = K.p[op.a[0]]; if (!p.hup) { p.space += op.a[1]; edge(p); } return invariant(err); }
		if (n == "eintr") { Pty &p = K.p[op.a[0]]; (op.a[1] ? p.eintr_w : p.eintr_r) = 1; return true; }
		if (n == "hup") { Pty &p = K.p[op.a[0]]; p.hup = 1; edge(p); return invariant(err); }
		if (n == "unhup") { Pty &p = K.p[op.a[0]]; if (p.hup) { p.hup = 0; edge(p); } return invariant(err); }
		if (n == "add") {
			Pty &p = K.p[op.a[0]];
			bool open = p.alive && p.fd >= 0, was = p.added;
			int r = sh_bridge_add(K.ep, p.obj);
			if ((open && !was) ? r != 0 : r >= 0) { snprintf(b, sizeof(b), "bridge add returns %d", r); err = b; return false; }
			return invariant(err);
		}
		if (n == "remove") {
			Pty &p = K.p[op.a[0]];
			sh_bridge_remove(K.ep, p.obj);
			if (p.added) { err = "pty is still registered"; return false; }
			return invariant(err);
		}
		if (n == "close") {
			Pty &p = K.p[op.a[0]];
			if (!p.alive) return true;
			sh_pty_close(p.obj);
			if (p.fd >= 0) { err = "close leaves the descriptor open"; return false; }
			return state(p, err) && invariant(err);
		}
		if (n == "ref") { Pty &p = K.p[op.a[0]]; if (p.alive) for (int64_t k = op.a.size() > 1 ? op.a[1] : 1; k--;) { sh_pty_ref(p.obj); ++p.refs; } return state(p, err) && invariant(err); }
		if (n == "unref") {
			Pty &p = K.p[op.a[0]];
			if (!p.alive) return true;
			if (op.a.size() > 1) {
				if (p.refs < op.a[1]) return true;
				for (int64_t k = op.a[1]; --k;) { sh_pty_unref(p.obj); --p.refs; }
			}
			uint64_t live = arena::hdr()->live;
			int fd = p.fd;
			sh_pty_unref(p.obj);
			if (--p.refs) {
				if (arena::hdr()->live != live || p.fd != fd) { err = "unref of a shared pty releases something"; return false; }
				return state(p, err);
			}
			if (p.fd >= 0) { err = "the last unref leaves the descriptor open"; return false; }
			if (arena::hdr()->live >= live) { err = "the last unref does not free the pty"; return false; }
			p.alive = 0;
			p.obj = nullptr;
			return invariant(err);
		}
		if (n == "resize") {
			Pty &p = K.p[op.a[0]];
			bool open = p.alive && p.fd >= 0;
			K.winset = 0;
			K.fail_at = 0;
			int r = sh_pty_resize(p.obj, 132, 43);
			if (open ? r || K.winset != 1 || K.winsz[0] != 132 || K.winsz[1] != 43 : r >= 0 || K.winset) { err = "resize of the pty is wrong"; return false; }
			return invariant(err);
		}
		if (n == "signal") {
			Pty &p = K.p[op.a[0]];
			bool open = p.alive && p.fd >= 0;
			K.sigsent = 0;
			K.fail_at = 0;
			int r = sh_pty_signal(p.obj, 15);
			if (open ? r || K.sigsent != 15 : r >= 0 || K.sigsent) { err = "signal to the pty is wrong"; return false; }
			return invariant(err);
		}
		if (n == "open") return do_open(op, err);
		fprintf(stderr, "pty: unknown operation %s\n", n.c_str());
		abort();
	}

	bool state(Pty &p, std::string &err)
	{
		if (!p.alive) return true;
		bool open = p.fd >= 0;
		if (sh_pty_is_open(p.obj) != open) { err = "is_open is wrong"; return false; }
		int fd = sh_pty_get_fd(p.obj);
		if (open ? fd != p.fd : fd != -EPIPE) { err = "get_fd is wrong"; return false; }
		if (sh_pty_get_child(p.obj) != 4242) { err = "get_child is wrong"; return false; }
		return true;
	}

	// open SIDE FAILAT ERRNO MSG...: parent or child; the FAILAT-th call fails
	// (0: none); MSG is what the parent reads from the child
	bool do_open(const Op &op, std::string &err)
	{
		char b[200];
		int i = 0;
		while (i < NP && K.p[i].alive) ++i;
		if (i == NP) return true;
		reset_open();
		int before = openfds();
		uint64_t live = arena::hdr()->live;
		K.child = op.w[0] == "child";
		K.fail_at = (int)op.a[1];
		K.fail_errno = (int)op.a[2];
		K.nmsg = 0;
		for (size_t k = 3; k < op.a.size() && K.nmsg < 6; ++k) K.msg[K.nmsg++] = (int)op.a[k];
		bool oom = op.name == "openoom";
		(void)oom;
		static void *volatile o;
		static volatile pid_t r;
		o = (void *)0x1234;
		r = -9999;
		bool exited = false;
		if (!setjmp(exit_jmp)) {
			void *tmp = (void *)0x1234;
			K.current = i;
			pid_t rr = sh_pty_open(&tmp, input_cb, (void *)(intptr_t)(i + 1), 91, 37);
			o = tmp;
			r = rr;
		} else {
			exited = true;
		}
		bool failed = K.fail_at && K.calls >= K.fail_at;
		K.fail_at = 0;
		if (K.bad[0]) { err = K.bad; return false; }
		if (exited) {
			if (!K.child) { err = "the parent exits"; return false; }
			if (!failed) { err = "the child exits although nothing failed"; return false; }
			if (K.exited == 1000) { err = "the child exits with success after a failure"; return false; }
			if (K.sent) { err = "the child reports success and exits"; return false; }
			K.bad[0] = 0;
			// the process is gone and with it everything it had
			for (int k = 0; k < NFD; ++k) if (K.type[k] == T_PIPEW || K.type[k] == T_PIPER) K.type[k] = T_FREE;
			K.dead = 1;
			return true;
		}
		bool child_side = K.child && r == 0;
		if (child_side) {
			if (failed && K.sent == 0 && K.std_dup != 7) { err = "the child goes on after a failure"; return false; }
			if (o) { err = "the child gets a pty object"; return false; }
			if (openfds() != before) { snprintf(b, sizeof(b), "the child keeps %d descriptors open", openfds() - before); err = b; return false; }
			if (K.slavefd > 2 && K.slave_open) { err = "the child keeps the slave open"; return false; }
			if (K.std_dup != 7 || !K.ctty || !K.sess || !K.attrset || K.winset != 1 || K.winsz[0] != 91 || K.winsz[1] != 37) { err = "the child's terminal is not set up completely"; return false; }
			if (!failed && K.sent != 1) { err = "the child does not report its set-up"; return false; }
			if (arena::hdr()->live != live) { err = "the child leaks memory"; return false; }
			K.dead = 1;
			return true;
		}
		// parent (or failure before the fork)
		bool ok = !failed;
		if (ok) {
			// messages: EINTR/EAGAIN are retried, then the byte decides
			int m = 0;
			for (int k = 0; k < (int)op.a.size() - 3; ++k) {
				m = (int)op.a[3 + k];
				if (m != -EINTR && m != -EAGAIN) break;
				m = 0;
			}
			ok = m == setup_msg();
		}
		if (ok) {
			if (r != 4242 || !o || o == (void *)0x1234) { snprintf(b, sizeof(b), "open returns %d although nothing failed", (int)r); err = b; return false; }
			if (openfds() != before + 1) { snprintf(b, sizeof(b), "open leaves %d descriptors open", openfds() - before); err = b; return false; }
			if (arena::hdr()->live <= live) { err = "no memory behind the pty"; return false; }
			bind(i, o);
			return state(K.p[i], err);
		}
		if (r >= 0) { snprintf(b, sizeof(b), "open returns %d although it failed", (int)r); err = b; return false; }
		if (openfds() != before) { snprintf(b, sizeof(b), "failed open leaves %d descriptors open", openfds() - before); err = b; return false; }
		if (arena::hdr()->live != live) { err = "failed open leaks memory"; return false; }
		return true;
	}

	bool enabled(const Op &) override { return !K.dead; }

	bool finish(std::string &err) override
	{
		if (K.dead) return true;
		for (auto &p : K.p)
			while (p.alive && p.refs > 0) {
				sh_pty_unref(p.obj);
				if (!--p.refs) p.alive = 0;
			}
		if (K.ep >= 0) sh_bridge_free(K.ep);
		if (K.bad[0]) { err = K.bad; return false; }
		if (openfds()) { err = "descriptors are leaked"; return false; }
		if (arena::hdr()->live) { err = "memory is leaked"; return false; }
		return true;
	}

	static void parse_script(const std::string &s, int *v, int &n)
	{
		n = 0;
		size_t i = 0;
		while (i < s.size()) {
			size_t j = s.find(',', i);
			if (j == std::string::npos) j = s.size();
			std::string w = s.substr(i, j - i);
			if (w == "-") ;
			else if (w == "again") v[n++] = R_EAGAIN;
			else if (w == "intr") v[n++] = R_EINTR;
			else if (w == "eio") v[n++] = R_EIO;
			else if (w == "eof") v[n++] = R_EOF;
			else v[n++] = atoi(w.c_str());
			i = j + 1;
		}
	}
};

std::unique_ptr<System> make_pty() { return std::unique_ptr<System>(new PtySys); }

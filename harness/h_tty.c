/* C29: the serial port driver (diag_tty_unix.c), executed against a model of the system calls it makes.
 * OP 'o': open, and close again (FAIL: the number of the system call that fails, -1 none; OOM: failing allocations)
 *    's': settings and speed, then close     'c': modem control lines     'b': break     'f': fast break
 *    'w': write N bytes; STEPS outcomes of write(): a digit = that many bytes accepted, i = interrupted, e = error
 *    'r': read up to N bytes; STEPS outcomes of select(): i = interrupted, E = error, t = the time is over, s = nothing there yet;
 *         a digit = ready, and read() returns that many bytes (0: hang-up), I = ready, but read() is interrupted, e = ready, but read() fails.
 *    Every call takes any time (select: up to what it was given). */
#include "vp.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_os.h"
#include "diag_tty.h"
#include <stdarg.h>
#include <errno.h>
#include <string.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <stdio.h>
#include <sys/select.h>
#include <sys/time.h>
#include "diag_tty_unix.h"

#ifndef FAIL
#define FAIL -1
#endif
#ifndef OOM
#define OOM 0
#endif
#ifndef STEPS
#define STEPS ""
#endif
#ifndef N
#define N 4
#endif
#ifndef SPEED
#define SPEED 10400
#endif
#ifndef NOSERIAL
#define NOSERIAL 0
#endif

/* ---- the system ---- */
static int the_errno;
int *vp___errno_location(void) { return &the_errno; }
static int calls, fail_at = -1, failed;
static bool fails(void) { bool f = calls++ == fail_at; if (f) { the_errno = EIO; failed++; } return f; }
static int fd_open, fd_closed, fl = O_RDWR | O_NONBLOCK, openflags;
static struct termios2 port, orig;
static struct serial_struct ser, ser_orig;
static int modem, modem_orig, low, drained;
static int timers, handler_set, armed, arm_count;
static vp_u64 armed_us, deadline, now_us = 1000, brk_on_at, brk_us;
static void (*handler)(int, siginfo_t *, void *);
static void *sigval;
#define FD 7

int vp_open(const char *name, int flags, ...) {
	vp_assert(!strcmp(name, "/dev/x"), "the port that was asked for is opened");
	if (fails()) return -1;
	openflags = flags;
	fd_open++;
	return FD;
}
int vp_close(int fd) { vp_assert(fd == FD && fd_open == 1, "the descriptor closed is the one that was opened"); fd_open--; fd_closed++; return 0; }
int vp_fcntl(int fd, int cmd, ...) {
	va_list ap;
	int a;
	va_start(ap, cmd);
	a = va_arg(ap, int);
	va_end(ap);
	vp_assert(fd == FD && fd_open, "system calls use the open descriptor");
	if (fails()) return -1;
	if (cmd == F_GETFL) return fl;
	vp_assert(cmd == F_SETFL, "only the status flags are changed");
	fl = a;
	return 0;
}
static void t2_from(const struct termios *t) {
	port.c_iflag = t->c_iflag; port.c_oflag = t->c_oflag; port.c_cflag = t->c_cflag; port.c_lflag = t->c_lflag; port.c_line = t->c_line;
	for (unsigned i = 0; i < sizeof port.c_cc; i++) port.c_cc[i] = t->c_cc[i];
}
static void t2_to(struct termios *t) {
	t->c_iflag = port.c_iflag; t->c_oflag = port.c_oflag; t->c_cflag = port.c_cflag; t->c_lflag = port.c_lflag; t->c_line = port.c_line;
	for (unsigned i = 0; i < sizeof port.c_cc; i++) t->c_cc[i] = port.c_cc[i];
}
int vp_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	void *p;
	vp_assert(fd == FD && fd_open, "system calls use the open descriptor");
	if (req == TIOCSBRK || req == TIOCCBRK || req == TCSBRK || req == TCFLSH) {
		if (fails()) return -1;
		if (req == TIOCSBRK) { low = 1; brk_on_at = now_us; }
		if (req == TIOCCBRK) { low = 0; brk_us = now_us - brk_on_at; }
		if (req == TCSBRK) drained++;
		return 0;
	}
	va_start(ap, req);
	p = va_arg(ap, void *);
	va_end(ap);
	if (req == TIOCGSERIAL) {
		if (NOSERIAL || fails()) return -1;
		*(struct serial_struct *)p = ser;
	} else if (req == TIOCSSERIAL) {
		if (fails()) return -1;
		ser = *(struct serial_struct *)p;
	} else if (req == TIOCMGET) {
		if (fails()) return -1;
		*(int *)p = modem;
	} else if (req == TIOCMSET) {
		if (fails()) return -1;
		modem = *(int *)p;
	} else if (req == TCGETS) {
		if (fails()) return -1;
		t2_to(p);
	} else if (req == TCSETS) {
		if (fails()) return -1;
		t2_from(p);
	} else if (req == TCGETS2) {
		if (fails()) return -1;
		*(struct termios2 *)p = port;
	} else if (req == TCSETS2) {
		if (fails()) return -1;
		port = *(struct termios2 *)p;
	} else
		vp_assert(0, "a request the model knows");
	return 0;
}
int vp_cfsetispeed(struct termios *t, speed_t s) { (void)t; (void)s; return 0; }
int vp_cfsetospeed(struct termios *t, speed_t s) { (void)t; (void)s; return 0; }
vp_u64 diag_os_gethrt(void) { return now_us; }
vp_u64 diag_os_hrtus(vp_u64 t) { return t; }
unsigned long diag_os_getms(void) { return now_us / 1000; }
void diag_os_millisleep(unsigned ms) { now_us += ms * 1000ULL; }

/* ---- data ---- */
static const char steps[] = STEPS;
static unsigned step, accepted;
static uint8_t out[64], in[64];
static int io_error, ready;
/* when something comes: after this percentage of the time that is waited for */
#ifndef DT
#define DT 50
#endif
#ifndef TMO
#define TMO 1000
#endif
#ifndef MS
#define MS 50
#endif
static void pass(unsigned max) { now_us += nd_range(0, max); }
ssize_t vp_write(int fd, const void *p, size_t n) {
	const uint8_t *b = p;
	vp_assert(fd == FD && fd_open && n > 0, "the open port is written");
	char c = step < sizeof steps - 1 ? steps[step++] : '9';
	if (OP == 'w') pass(20000000); else now_us += 5000;
	if (c == 'i') { the_errno = EINTR; return -1; }
	if (c == 'e') { io_error = 1; the_errno = EIO; return -1; }
	size_t k = c - '0';
	if (k > n) k = n;
	for (unsigned i = 0; i < k; i++) out[accepted++] = b[i];
	return k;
}
int vp_select(int nfd, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
	vp_assert(nfd > FD && FD_ISSET(FD, r) && w == NULL && x == NULL && fd_open, "the open port is waited for");
	vp_assert(tv != NULL && tv->tv_sec >= 0 && tv->tv_usec >= 0 && tv->tv_usec < 1000000, "the time to wait is a valid one");
	unsigned us = tv->tv_sec * 1000000 + tv->tv_usec;
	vp_assert(now_us + us <= deadline, "nothing is waited for beyond the deadline");
	char c = step < sizeof steps - 1 ? steps[step++] : 't';
	ready = 0;
	if (c == 't') { now_us += us; FD_CLR(FD, r); return 0; }
	now_us += (vp_u64)us * DT / 100;
	if (c == 'i') { the_errno = EINTR; return -1; }
	if (c == 'E') { io_error = 1; the_errno = EBADF; return -1; }
	if (c == 's') { FD_CLR(FD, r); return 0; }
	ready = c;
	return 1;
}
ssize_t vp_read(int fd, void *p, size_t n) {
	uint8_t *b = p;
	vp_assert(fd == FD && fd_open && n > 0, "the open port is read");
	vp_assert(ready, "the port is read only when this will not block for ever");
	char c = ready;
	ready = 0;
	if (c == 'I') { the_errno = EINTR; return -1; }
	if (c == 'e' || c == '0') { io_error = 1; the_errno = EIO; return c == 'e' ? -1 : 0; }
	size_t k = c - '0';
	if (k > n) k = n;
	for (unsigned i = 0; i < k; i++) b[i] = in[accepted++];
	return k;
}

static bool t2_eq(const struct termios2 *a, const struct termios2 *b) {
	for (unsigned i = 0; i < sizeof a->c_cc; i++) if (a->c_cc[i] != b->c_cc[i]) return 0;
	return a->c_iflag == b->c_iflag && a->c_oflag == b->c_oflag && a->c_cflag == b->c_cflag && a->c_lflag == b->c_lflag && a->c_ispeed == b->c_ispeed && a->c_ospeed == b->c_ospeed;
}

static void restored(void) {
	vp_assert(!fd_open && fd_closed <= 1, "the descriptor is closed");
	vp_assert(vp_live == 0, "no memory is left");
	vp_assert(t2_eq(&port, &orig), "the port has the settings it had before");
	vp_assert(modem == modem_orig, "the control lines are as they were before");
	vp_assert(ser.custom_divisor == ser_orig.custom_divisor && ser.flags == ser_orig.flags, "the port's speed settings are those it had before");
}

void harness(void) {
	ttyp *t;
	int rv;
	if (OP == 'o' || OP == 's' || OP == 'c' || OP == 'b') {
	port.c_iflag = nd_u32(); port.c_oflag = nd_u32(); port.c_cflag = nd_u32(); port.c_lflag = nd_u32();
	port.c_ispeed = nd_u32(); port.c_ospeed = nd_u32(); port.c_cc[VMIN] = nd_u8(); port.c_cc[VTIME] = 0;
	}
	if (OP == 'o' || OP == 's') { ser.flags = nd_int(); ser.custom_divisor = nd_int(); ser.baud_base = nd_range(50, 1000000); }
	else { port.c_cflag |= CS7; ser.baud_base = 115200; }
	orig = port;
	ser_orig = ser;
	if (OP != 'f') modem = modem_orig = nd_int();
	if (OP == 'o') fl |= nd_int() & O_APPEND;
	vp_oom_mask = OOM;
	if (OP == 'o') fail_at = FAIL;
	t = diag_tty_open("/dev/x");
	if (t == NULL) {
		vp_assert(OP == 'o' && (FAIL >= 0 || OOM), "opening fails only if the system refuses something");
		restored();
		vp_witness("failed");
		return;
	}
	/* serial_struct is not available on every port: its absence is no failure */
	if (OP == 'o') vp_assert(OOM == 0 && (!failed || FAIL == OPTIONAL), "a failure of the system makes opening fail");
	vp_assert(fd_open == 1, "an open port has its descriptor");
	vp_assert((openflags & O_ACCMODE) == O_RDWR && !(fl & O_NONBLOCK), "the port is open for reading and writing, and blocks");
	vp_assert(!(port.c_lflag & (ICANON | ECHO | ISIG | IEXTEN)) && !(port.c_oflag & OPOST), "no byte is echoed, collected into lines, taken for a signal or translated");
	vp_assert(!(port.c_iflag & (ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF | PARMRK | IUCLC)), "received bytes are not translated");
	vp_assert((port.c_cflag & (CLOCAL | CREAD)) == (CLOCAL | CREAD) && !(port.c_cflag & CRTSCTS) && port.c_cc[VMIN] == 1, "the port receives, whatever the modem lines say");
	fail_at = -1;
	if (OP == 'o') {
		diag_tty_close(t);
		restored();
		vp_witness("open");
		return;
	}
	if (OP == 's' || OP == 'w') {
		struct diag_serial_settings s;
		s.speed = SPEED;
		s.databits = OP == 'w' ? 8 : nd_int();
		s.stopbits = OP == 'w' ? 1 : nd_int();
		s.parflag = OP == 'w' ? diag_par_n : nd_int();
		bool ok = s.databits >= 5 && s.databits <= 8 && (s.stopbits == 1 || s.stopbits == 2) && (s.parflag == diag_par_n || s.parflag == diag_par_e || s.parflag == diag_par_o) && SPEED != 0;
		calls = 0; fail_at = OP == 's' ? FAIL : -1;
		rv = diag_tty_setup(t, &s);
		if (OP == 's' && failed) vp_assert(rv < 0, "a setting the port refuses is reported");
		else vp_assert((rv == 0) == ok, "settings are accepted if they are valid ones, refused otherwise");
		if (rv == 0) {
			tcflag_t cs = s.databits == 8 ? CS8 : s.databits == 7 ? CS7 : s.databits == 6 ? CS6 : CS5;
			vp_assert((port.c_cflag & CSIZE) == cs, "the port has the number of data bits asked for");
			vp_assert(((port.c_cflag & CSTOPB) != 0) == (s.stopbits == 2), "the port has the stop bits asked for");
			vp_assert(((port.c_cflag & PARENB) != 0) == (s.parflag != diag_par_n), "the port has parity if it was asked for");
			if (s.parflag != diag_par_n) vp_assert(((port.c_cflag & PARODD) != 0) == (s.parflag == diag_par_o), "the parity is the one asked for");
			vp_assert(port.c_ispeed == SPEED && port.c_ospeed == SPEED && (port.c_cflag & CBAUD) == BOTHER, "the port has the speed asked for");
			vp_assert(!(port.c_lflag & (ICANON | ECHO | ISIG)) && (port.c_cflag & (CLOCAL | CREAD)) == (CLOCAL | CREAD), "the other settings stay");
		}
		if (OP == 's') {
			fail_at = -1;
			diag_tty_close(t);
			restored();
			vp_witness("set up");
			return;
		}
	}
	if (OP == 'c') {
		unsigned dtr = nd_u32(), rts = nd_u32();
		int before = modem;
		calls = 0; fail_at = FAIL;
		rv = diag_tty_control(t, dtr, rts);
		vp_assert((rv == 0) == !failed && rv <= 0, "the result tells if the lines were set");
		vp_assert(modem == (failed ? before : ((before & ~(TIOCM_DTR | TIOCM_RTS)) | (dtr ? TIOCM_DTR : 0) | (rts ? TIOCM_RTS : 0))), "exactly the two lines are set as asked");
		fail_at = -1;
		diag_tty_close(t);
		restored();
		vp_witness("lines");
		return;
	}
	if (OP == 'b') {
		unsigned ms = nd_range(1, 5000);
		calls = 0; fail_at = FAIL;
		rv = diag_tty_break(t, ms);
		vp_assert(rv == 0 || failed, "a break fails only if the system refuses it");
		vp_assert(rv < 0 || !(failed && FAIL != OPTIONAL), "a break that could not be sent is reported");
		if (rv == 0) vp_assert(!low && brk_us == ms * 1000ULL, "the line is low for exactly the time asked for, and then released");
		vp_witness("break");
		return;
	}
	if (OP == 'f') {
		unsigned ms = MS;
		deadline = ~0ULL;
		rv = diag_tty_fastbreak(t, ms);
		if (ms < 25) vp_assert(rv < 0 && accepted == 0, "a break shorter than the byte cannot be sent");
		else if (io_error) vp_assert(rv < 0, "a failure is reported");
		if (rv == 0) {
			vp_assert(out[0] == 0 && accepted == 2 && now_us >= 1000 + ms * 1000ULL, "a byte of zeros is sent at low speed, its echo read, and the time waited for");
			vp_assert(port.c_ospeed == 10400, "the speed is restored");
			vp_witness("fast break");
		} else
			vp_witness("no fast break");
		return;
	}
	uint8_t buf[N];
	unsigned i;
	vp_u64 t0 = now_us;
	if (OP == 'w') {
		nd_bytes(buf, N);
		rv = diag_tty_write(t, buf, N);
		if (io_error) vp_assert(rv < 0, "an error of the system is reported as an error");
		else vp_assert(rv >= 0 ? (unsigned)rv == accepted : accepted == 0, "the result is the number of bytes the system accepted");
		for (i = 0; i < N; i++) if (i < accepted) vp_assert(out[i] == buf[i], "the bytes are sent in order, none twice");
		if (rv >= 0) vp_assert(drained == 1, "the bytes have left when the call returns");
		if (!io_error && accepted < N) vp_assert((now_us - t0) * SPEED >= 10ULL * N * 1000000ULL, "writing is given up only after the time the bytes need at this speed");
		if (!io_error) vp_witness("transferred");
	} else {
		unsigned tmo = TMO;
		deadline = now_us + tmo * 1000ULL;
		nd_bytes(in, N);
		rv = diag_tty_read(t, buf, N, tmo);
		if (io_error && accepted == 0) vp_assert(rv < 0 && rv != DIAG_ERR_TIMEOUT, "an error of the system is reported as an error");
		else if (io_error) vp_assert(rv < 0 ? rv != DIAG_ERR_TIMEOUT : (unsigned)rv == accepted, "after an error there is the error, or what came before");
		else if (accepted == 0) vp_assert(rv == DIAG_ERR_TIMEOUT, "nothing received before the deadline is a timeout");
		else vp_assert((unsigned)rv == accepted && rv <= N, "the result is the number of bytes received");
		if (rv > 0) for (i = 0; i < N; i++) if (i < accepted) vp_assert(buf[i] == in[i], "the bytes received are returned in order");
		if (!io_error && accepted < N) vp_assert(now_us >= deadline, "reading ends when everything is there, or at the deadline");
	}
	diag_tty_close(t);
	restored();
	if (OP == 'r') vp_witness("transferred");
}

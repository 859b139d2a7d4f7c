// Fork-server around the unmodified command line tools of CG-3.
// Protocol on fd 0/1 (little endian u32):
//   request : u32 timeout_ms, u32 nstr, nstr * (u32 len, bytes)
//             str[0] = tool, str[1] = stdin bytes, str[2..] = argv[1..]
//   reply   : i32 rc (exit code, or -signal, or -1000 on time-out), u32 len, stdout, u32 len, stderr
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <clocale>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <malloc.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unicode/uclean.h>
#include <unicode/ucnv.h>
#include <unicode/uloc.h>

extern "C" {
int vislcg3_main(int, char**);
int cg_conv_main(int, char**);
int cg_proc_main(int, char**);
int cg_comp_main(int, char**);
int cg_relabel_main(int, char**);
int cg_mwesplit_main(int, char**);
int cg_annotate_main(int, char**);
int cg_merge_annotations_main(int, char**);
}
int unit_main(int, char**);
int capi_main(int, char**);

struct Tool {
	const char* name;
	int (*fn)(int, char**);
};
static const Tool tools[] = {
	{ "vislcg3", vislcg3_main },
	{ "cg-conv", cg_conv_main },
	{ "cg-proc", cg_proc_main },
	{ "cg-comp", cg_comp_main },
	{ "cg-relabel", cg_relabel_main },
	{ "cg-mwesplit", cg_mwesplit_main },
	{ "cg-annotate", cg_annotate_main },
	{ "cg-merge-annotations", cg_merge_annotations_main },
	{ "unit", unit_main },
	{ "capi", capi_main },
};

static bool rd(int fd, void* p, size_t n) {
	char* c = static_cast<char*>(p);
	while (n) {
		ssize_t r = read(fd, c, n);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) return false;
		c += r;
		n -= r;
	}
	return true;
}
static void wr(int fd, const void* p, size_t n) {
	const char* c = static_cast<const char*>(p);
	while (n) {
		ssize_t r = write(fd, c, n);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) _exit(9);
		c += r;
		n -= r;
	}
}
static int memfd(const char* n) {
	return static_cast<int>(syscall(SYS_memfd_create, n, 0));
}
static std::string slurp(int fd) {
	std::string s;
	off_t len = lseek(fd, 0, SEEK_END);
	if (len > (64 << 20)) len = 64 << 20;
	s.resize(len);
	lseek(fd, 0, SEEK_SET);
	if (len) rd(fd, &s[0], len);
	return s;
}
static void on_alarm(int) {
}

// What a run may ask for after the name of the tool, each preceded by \x01
static unsigned srand_delta = 0;
extern "C" void srand(unsigned seed) {
	srandom(seed + srand_delta);
}

static uint64_t rng;
static uint32_t rnd() {
	rng = rng * 6364136223846793005ull + 1442695040888963407ull;
	return static_cast<uint32_t>(rng >> 33);
}

// Leaves holes of many sizes, in no particular order, for the allocator to use
static void fragment(uint64_t seed) {
	rng = seed;
	std::vector<void*> ps;
	for (int i = 0; i < 6000; ++i) {
		ps.push_back(malloc(8 + rnd() % (rnd() % 8 ? 400 : 4000)));
	}
	for (size_t i = ps.size() - 1; i > 0; --i) {
		std::swap(ps[i], ps[rnd() % (i + 1)]);
	}
	for (size_t i = 0; i < ps.size(); ++i) {
		if (i % 3) {
			free(ps[i]);
		}
	}
}

// Feeds the input through a pipe in pieces, the next one only when the reader has taken the one before
static void chunked(const std::string& data, const char* sizes) {
	int p[2];
	if (pipe(p)) _exit(9);
	if (fork() == 0) {
		close(p[0]);
		signal(SIGPIPE, SIG_DFL);
		size_t at = 0;
		const char* s = sizes;
		while (at < data.size()) {
			size_t n = strtoul(s, const_cast<char**>(&s), 10);
			if (*s == ',') ++s;
			else s = sizes;
			if (n < 1) n = 1;
			if (n > data.size() - at) n = data.size() - at;
			wr(p[1], data.data() + at, n);
			at += n;
			for (int left = 1, spins = 0; left && spins < 2000; ++spins) {
				if (ioctl(p[1], FIONREAD, &left) != 0) break;
				if (left) usleep(20);
			}
		}
		_exit(0);
	}
	close(p[1]);
	dup2(p[0], 0);
	close(p[0]);
}

static void directives(std::string& tool, const std::string& input) {
	size_t at = tool.find('\x01');
	if (at == std::string::npos) return;
	std::string all = tool.substr(at + 1) + '\x01';
	tool.resize(at);
	while (!all.empty()) {
		at = all.find('\x01');
		std::string d = all.substr(0, at);
		all.erase(0, at + 1);
		size_t eq = d.find('=');
		std::string k = d.substr(0, eq), v = d.substr(eq + 1);
		if (k == "perturb") mallopt(M_PERTURB, atoi(v.c_str()));
		else if (k == "rand") srand_delta = static_cast<unsigned>(atoi(v.c_str()));
		else if (k == "env") {
			eq = v.find('=');
			setenv(v.substr(0, eq).c_str(), v.substr(eq + 1).c_str(), 1);
		}
		else if (k == "frag") fragment(strtoull(v.c_str(), nullptr, 10));
		else if (k == "chunk") chunked(input, v.c_str());
		else if (k == "umask") umask(077);
		else if (k == "chdir") { if (chdir(v.c_str())) _exit(98); }
		else _exit(98);
	}
}

int main(int argc, char** argv) {
	if (argc > 1) {
		for (auto& t : tools) {
			if (strcmp(argv[1], t.name) == 0) {
				return t.fn(argc - 1, argv + 1);
			}
		}
		fprintf(stderr, "unknown tool %s\n", argv[1]);
		return 2;
	}
	// Warm ICU so that children share it
	UErrorCode status = U_ZERO_ERROR;
	u_init(&status);
	ucnv_close(ucnv_open("UTF-8", &status));

	int in = dup(0), out = dup(1);
	fcntl(in, F_SETFD, FD_CLOEXEC);
	fcntl(out, F_SETFD, FD_CLOEXEC);
	int devnull = open("/dev/null", O_RDWR);
	dup2(devnull, 0);
	dup2(devnull, 1);

	sigset_t chld;
	sigemptyset(&chld);
	sigaddset(&chld, SIGCHLD);
	signal(SIGCHLD, on_alarm);
	sigprocmask(SIG_BLOCK, &chld, nullptr);

	for (;;) {
		uint32_t tmo, n;
		if (!rd(in, &tmo, 4) || !rd(in, &n, 4)) break;
		std::vector<std::string> strs(n);
		for (auto& s : strs) {
			uint32_t l;
			if (!rd(in, &l, 4)) return 3;
			s.resize(l);
			if (l && !rd(in, &s[0], l)) return 3;
		}
		int fi = memfd("in"), fo = memfd("out"), fe = memfd("err");
		wr(fi, strs[1].data(), strs[1].size());
		lseek(fi, 0, SEEK_SET);
		pid_t pid = fork();
		if (pid == 0) {
			setpgid(0, 0);
			sigprocmask(SIG_UNBLOCK, &chld, nullptr);
			signal(SIGCHLD, SIG_DFL);
			close(in);
			close(out);
			dup2(fi, 0);
			dup2(fo, 1);
			dup2(fe, 2);
			struct rlimit rl{ tmo / 1000 + 2, tmo / 1000 + 4 };
			setrlimit(RLIMIT_CPU, &rl);
			rl = { 256u << 20, 256u << 20 };
			setrlimit(RLIMIT_FSIZE, &rl);
			rl = { 0, 0 };
			setrlimit(RLIMIT_CORE, &rl);
#ifndef VERIF_ASAN
			rl = { 3ul << 30, 3ul << 30 };
			setrlimit(RLIMIT_AS, &rl);
#endif
			directives(strs[0], strs[1]);
			std::vector<char*> av;
			av.push_back(&strs[0][0]);
			for (size_t i = 2; i < strs.size(); ++i) {
				av.push_back(&strs[i][0]);
			}
			int ac = static_cast<int>(av.size());
			av.push_back(nullptr);
			for (auto& t : tools) {
				if (strs[0] == t.name) {
					int rc = 0;
					rc = t.fn(ac, av.data());
					exit(rc);
				}
			}
			_exit(99);
		}
		int rc = -2000, st = 0;
		struct timespec now, end;
		clock_gettime(CLOCK_MONOTONIC, &end);
		end.tv_sec += tmo / 1000;
		for (;;) {
			pid_t w = waitpid(pid, &st, WNOHANG);
			if (w == pid) {
				rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
				break;
			}
			clock_gettime(CLOCK_MONOTONIC, &now);
			if (now.tv_sec > end.tv_sec + 0) {
				kill(-pid, SIGKILL);
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				rc = -1000;
				break;
			}
			struct timespec ts{ 0, 200000000 };
			sigtimedwait(&chld, nullptr, &ts);
		}
		kill(-pid, SIGKILL); // anything it left behind
		std::string so = slurp(fo), se = slurp(fe);
		close(fi);
		close(fo);
		close(fe);
		int32_t r = rc;
		uint32_t l = static_cast<uint32_t>(so.size());
		wr(out, &r, 4);
		wr(out, &l, 4);
		wr(out, so.data(), l);
		l = static_cast<uint32_t>(se.size());
		wr(out, &l, 4);
		wr(out, se.data(), l);
	}
	return 0;
}

// Turns fatal signals in a worker into a reported violation of the case that thread was running.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>

static thread_local const char *t_section = nullptr;
static thread_local unsigned long t_index = 0;
static char g_id[16], g_dir[512], g_variant[64], g_tier[32];

extern "C" void mc_guard_case(const char *section, unsigned long index) { t_section = section; t_index = index; }

static void handler(int sig)
{
	if (!t_section) { signal(sig, SIG_DFL); raise(sig); return; }
	char path[800], buf[2400];
	snprintf(path, sizeof path, "%s/%s-%s-%s-%lu.txt", g_dir, g_id, g_variant, t_section, t_index);
	int n = snprintf(buf, sizeof buf, "property=%s\nvariant=%s\ntier=%s\ncase=%s:%lu\nmessage=killed by signal %d (%s)\n", g_id, g_variant, g_tier, t_section, t_index, sig, strsignal(sig));
	int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
	if (fd >= 0) { if (write(fd, buf, n) < 0) {} close(fd); }
	n = snprintf(buf, sizeof buf, "\nsignal %d in case %s:%lu\nVIOLATION property=%s replay=%s\n", sig, t_section, t_index, g_id, path);
	if (write(1, buf, n) < 0) {}
	_exit(1);
}
extern "C" void mc_guard_altstack()
{
	stack_t ss; memset(&ss, 0, sizeof ss);
	ss.ss_size = 65536; ss.ss_sp = malloc(ss.ss_size);
	sigaltstack(&ss, nullptr);
}
extern "C" void mc_guard_install(const char *id, const char *dir, const char *variant, const char *tier)
{
	snprintf(g_id, sizeof g_id, "%s", id); snprintf(g_dir, sizeof g_dir, "%s", dir);
	snprintf(g_variant, sizeof g_variant, "%s", variant); snprintf(g_tier, sizeof g_tier, "%s", tier);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_handler = handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP};
	for (int s : sigs) sigaction(s, &sa, nullptr);
}

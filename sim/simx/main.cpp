// Zygote: loads the program copies once, then runs one simulation per request in a forked child.
#include "image.h"
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>

static void wr(const char *s) { rsys(SYS_write, 1, (long)s, strlen(s)); }
static std::string *run_one(char *line, size_t n) {
  JParse jp(std::string(line, n)); G.sc = jp.val();
  if (!jp.ok) { wr("{\"e\":\"harness\",\"d\":\"bad scenario\"}\n"); rsys(SYS_exit_group, 3); }
  rsys(SYS_alarm, G.sc["wall_s"].num(120));
  setup_scenario();
  G.on = true;
  schedule();
  return nullptr;
}
int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: simx IMAGEDIR NCTL NREM\n"); return 2; }
  if (!getenv("SIMX_STAGE")) {
    personality(ADDR_NO_RANDOMIZE);
    // a fixed environment and argument block: the stack and the arguments of every run look the same
    static char pad[80]; memset(pad, 'x', 79);
    std::vector<char *> av; av.push_back(argv[0]); av.push_back(argv[1]); av.push_back(argv[2]); av.push_back(argv[3]); for (int i = 0; i < 60; i++) av.push_back(pad); av.push_back(nullptr);
    char st[] = "SIMX_STAGE=2", p[] = "PATH=/usr/bin:/bin", h[] = "HOME=/root", l[] = "LANG=C.UTF-8", tz[] = "TZ=UTC";
    char *ev[] = {st, p, h, l, tz, nullptr};
    rsys(SYS_execve, (long)"/proc/self/exe", (long)av.data(), (long)ev);
    perror("execve"); return 2;
  }
  mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30);
  real_argv = argv; real_argc = argc;
  covmap = (unsigned char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t cap = 64 << 20; char *buf = (char *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!load_images(argv[1], atoi(argv[2]), atoi(argv[3]))) return 2;
  wr("@@READY\n");
  size_t have = 0;
  for (;;) {
    char *nl;
    while (!(nl = (char *)memchr(buf, '\n', have))) { long r = rsys(SYS_read, 0, (long)(buf + have), cap - have); if (r <= 0) return 0; have += r; }
    size_t n = nl - buf;
    char msg[64]; 
    if (n == 4 && !memcmp(buf, "@cov", 4)) {
      uint32_t c = 0; for (uint32_t i = 0; i < (1 << 20); i++) c += covmap[i]; snprintf(msg, 64, "@@COV %u %u\n", c, covn); wr(msg);
    } else {
      long pid = rsys(SYS_fork);
      if (pid == 0) run_one(buf, n);
      int st = 0; rsys(SYS_wait4, pid, (long)&st, 0, 0);
      snprintf(msg, 64, "\n@@DONE %d\n", st); wr(msg);
    }
    memmove(buf, nl + 1, have - n - 1); have -= n + 1;
  }
}

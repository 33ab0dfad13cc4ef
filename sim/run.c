// wsim-run: exec a program under the simulator without address randomisation.
//   wsim-run <libwsim.so> <plan> <log> <prog> args...
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>
int main(int argc, char **argv) {
  if (argc < 5) return 96;
  personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);  // best effort
  struct rlimit r = {0, 0};
  setrlimit(RLIMIT_CORE, &r);
  setenv("LD_PRELOAD", argv[1], 1);
  setenv("WSIM_PLAN", argv[2], 1);
  setenv("WSIM_LOG", argv[3], 1);
  execv(argv[4], argv + 4);
  perror("exec");
  return 96;
}

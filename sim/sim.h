/* Control block shared between the simulated process (sim.c) and the driver
 * (harness/src/proc.rs mirrors this layout; keep both in step). */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64;

#define SIM_MAGIC   0x43534e49u
#define MAX_RULES   48
#define MAX_DEC     32768
#define MAX_EV      2048      /* ring of the latest events */
#define MAX_PATHS   1024
#define PATH_LEN    232
#define MAX_T       512

/* operations (bit mask in rules) */
enum { OP_OPEN=1, OP_READ=2, OP_WRITE=4, OP_SEEK=8, OP_CLOSE=16, OP_META=32,
       OP_FUTEX=64, OP_SPAWN=128, OP_STDOUT=256, OP_GETRANDOM=512, OP_SYNC=1024, OP_STDERR=2048 };
/* actions */
enum { ACT_ERR=1, ACT_SHORT=2, ACT_CRASH=3, ACT_TORN=4, ACT_SPURIOUS=5, ACT_STALL=6 };
/* path flags */
enum { PF_READ=1, PF_WOPEN=2, PF_WROTE=4, PF_MUTATED=8, PF_ESCAPE=16, PF_HARD=32, PF_SOFT=64, PF_TRUNC=128 };
/* end states */
enum { END_RUNNING=0, END_CRASHED=1, END_DEADLOCK=2, END_STEPCAP=3 };

struct sim_rule {
  u32 op, action, nth, count;   /* fires on matches nth .. nth+count-1 */
  i64 arg;
  u32 seen, fired;              /* out */
  char path[PATH_LEN];          /* "" any; trailing '*': prefix */
};
struct sim_dec  { u64 pos; u32 tid; u32 pad; };
struct sim_ev   { u64 pos; u32 tid; u32 op; i64 ret; u32 path; u32 len; };
struct sim_path { char name[PATH_LEN]; u32 flags; u32 nwrites; u64 bytes; u64 nreads; };

struct sim_ctl {
  /* in */
  u32 magic, mode;              /* mode: 0 default, 1 random, 2 pct, 3 rare */
  u64 sched_seed, rng_seed;
  u64 step_cap, crash_pos;      /* crash_pos 0: none */
  u64 edge_mean;                /* mode 1/3: mean distance of edge preemptions, 0 none */
  u32 sys_num, depth;           /* p(switch at a system point) = sys_num/1024; pct depth */
  u64 pct_len;                  /* assumed run length for pct change points */
  u64 quota;                    /* bytes that fit on the disk; ~0 unlimited */
  u32 quota_back, replay;       /* after that many ENOSPC the disk has room again (0 never) */
  u32 nrules, ndec_in;
  u32 ncpu, cov_on;
  u64 mem_cap;                  /* live heap bytes before allocations fail, 0 unlimited */
  u32 fd_cap, spare;            /* files open at the same time before opening fails, 0 unlimited */
  char root[PATH_LEN];
  struct sim_rule rules[MAX_RULES];
  struct sim_dec  dec_in[MAX_DEC];
  /* out */
  u64 pos, edges, syspoints, switches, hash, sim_ns;
  u32 ndec, dec_overflow;
  u32 end, nthreads, npaths, nev, nescape, quota_hits;
  u64 nfutex_wait, nfutex_wake, ngetrandom, stdout_bytes, max_runnable;
  u64 edge_kinds;               /* distinct guards hit */
  u64 pair_hash;                /* hash over (site,from,to) of the switches taken: interleaving id */
  u64 mem_peak, mem_base;       /* since, and when, the first input was opened */
  u32 mem_hits, fd_peak, fd_hits, spare2;
  struct sim_dec  dec[MAX_DEC];
  struct sim_ev   ev[MAX_EV];
  struct sim_path paths[MAX_PATHS];
};
#endif

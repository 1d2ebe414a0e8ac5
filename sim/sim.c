/* Deterministic process simulator, linked into the program under test.
 *
 * It takes over, by symbol interposition: thread creation, join, every futex
 * operation, yields and sleeps, clocks, randomness, and all file I/O. One thread
 * runs at a time; who runs next is decided at every intercepted call and at
 * every basic-block edge of the instrumented crate by one seeded generator (or by
 * a recorded list of decisions on replay). Faults come from an explicit list.
 * Without SIM_CTL in the environment everything passes through. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <time.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <linux/futex.h>
#include "sim.h"

static inline long raw6(long n,long a,long b,long c,long d,long e,long f){
  long r; register long r10 __asm__("r10")=d, r8 __asm__("r8")=e, r9 __asm__("r9")=f;
  __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}
#define RAW(n,...) RAW_(n,##__VA_ARGS__,0,0,0,0,0,0)
#define RAW_(n,a,b,c,d,e,f,...) raw6(n,(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))
static long ret_(long r){ if(r<0 && r>-4096){ errno=(int)-r; return -1;} return r; }

/* ------------------------------------------------------------------ state */
enum { ST_RUN, ST_FUTEX, ST_JOIN, ST_SLEEP, ST_DONE };
struct th {
  int id, state; u32 *faddr; u32 fbits; u64 deadline; int timed, timedout;
  int joinwait; u32 gate; u64 prio, stall_until; u64 rngctr;
  void *(*fn)(void*); void *arg; pthread_t pt; int started;
};
static struct sim_ctl *C;
static struct th T[MAX_T];
static int nT, cur;
static __thread struct th *self;
static pthread_key_t exit_key;
static u64 next_pos = ~0ull, next_rand, sched_rng;
static u64 pct_points[64]; static u32 pct_n, pct_i; static u64 pct_low;
static u32 dec_i;
static u64 rand_seq;
static u32 *hits; static u32 nguards;
static int rare;
static u64 disk_used;

static u64 mix(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ull; x^=x>>27; x*=0x94d049bb133111ebull; x^=x>>31; return x; }
static u64 rnd(void){ sched_rng+=0x9e3779b97f4a7c15ull; return mix(sched_rng); }
static u64 below(u64 n){ return n? rnd()%n : 0; }
static void hash(u64 x){ C->hash = mix(C->hash ^ (x + 0x9e3779b97f4a7c15ull)); }

__attribute__((noreturn)) static void die(int code){ for(;;) RAW(SYS_exit_group,code); }
__attribute__((noreturn)) static void end(int why){ C->end=why; die(96+why); }

/* -------------------------------------------------------------- scheduler */
static void gate_wait(struct th *t){
  while(!__atomic_load_n(&t->gate,__ATOMIC_ACQUIRE)) RAW(SYS_futex,&t->gate,FUTEX_WAIT|FUTEX_PRIVATE_FLAG,0,0);
  __atomic_store_n(&t->gate,0,__ATOMIC_RELAXED);
}
static void gate_open(struct th *t){
  __atomic_store_n(&t->gate,1,__ATOMIC_RELEASE);
  RAW(SYS_futex,&t->gate,FUTEX_WAKE|FUTEX_PRIVATE_FLAG,1);
}
static void set_next(void){
  u64 n=~0ull;
  if(C->step_cap) n=C->step_cap;
  if(C->crash_pos && C->crash_pos>=C->pos && C->crash_pos<n) n=C->crash_pos;
  if(C->replay){
    while(dec_i<C->ndec_in && C->dec_in[dec_i].pos<=C->pos) dec_i++;
    if(dec_i<C->ndec_in && C->dec_in[dec_i].pos<n) n=C->dec_in[dec_i].pos;
  } else {
    if(next_rand && next_rand<n) n=next_rand;
    if(pct_i<pct_n && pct_points[pct_i]<n) n=pct_points[pct_i];
  }
  next_pos=n;
}
static int runnable(int i){ return T[i].state==ST_RUN; }
/* deterministic fallback: the current thread goes on; otherwise the next one in id order */
static int dflt(int avoid){
  if(!avoid && runnable(cur)) return cur;
  for(int k=1;k<=nT;k++){ int i=(cur+k)%nT; if(runnable(i)) return i; }
  return -1;
}
static void expire(void){
  /* nobody can run: jump the clock to the earliest deadline */
  u64 best=~0ull; int b=-1;
  for(int i=0;i<nT;i++) if((T[i].state==ST_SLEEP||(T[i].state==ST_FUTEX&&T[i].timed)) && T[i].deadline<best){ best=T[i].deadline; b=i; }
  if(b<0) end(END_DEADLOCK);
  if(best>C->sim_ns) C->sim_ns=best;
  T[b].state=ST_RUN; T[b].timedout=1; T[b].faddr=0;
}
/* pick the next thread. forced: current cannot (or must not) continue */
static int pick(u32 site,int forced,int edge,int replayhit){
  int nr=0, list[MAX_T];
  for(;;){
    nr=0; for(int i=0;i<nT;i++) if(runnable(i)) list[nr++]=i;
    if(nr) break;
    expire();
  }
  if((u64)nr>C->max_runnable) C->max_runnable=nr;
  int avoid = forced && nr>1;
  int d=dflt(avoid), t=d;
  if(nr>1){
    if(C->replay){
      if(replayhit>=0 && replayhit<nT && runnable(replayhit)) t=replayhit;
    } else switch(C->mode){
      case 1: case 3: {
        int sw = forced || edge || below(1024)<C->sys_num;
        if(sw){
          t=list[below(nr)];
          if(avoid) while(t==cur) t=list[below(nr)];
          /* a stalled thread keeps out of the way as long as others can run */
          if(T[t].stall_until>C->pos){ for(int k=0;k<nr;k++) if(T[list[k]].stall_until<=C->pos && !(avoid&&list[k]==cur)) { t=list[k]; break; } }
        }
        break; }
      case 2: {
        if(forced && runnable(cur)) T[cur].prio = --pct_low;
        int best=-1;
        for(int k=0;k<nr;k++){ int i=list[k]; if(avoid&&i==cur) continue; if(best<0||T[i].prio>T[best].prio) best=i; }
        t=best; break; }
      default: break;
    }
  }
  if(t!=d){
    if(C->ndec<MAX_DEC){ C->dec[C->ndec].pos=C->pos; C->dec[C->ndec].tid=t; C->ndec++; } else C->dec_overflow=1;
  }
  (void)site;
  return t;
}
static void go(int t,u32 site){
  struct th *me=self;
  if(t==me->id) return;
  C->switches++; hash(((u64)site<<32)|((u64)me->id<<16)|t);
  C->pair_hash=mix(C->pair_hash^(((u64)site<<24)|(me->id<<8)|t));
  cur=t; gate_open(&T[t]); gate_wait(me);
}
static void limits(void){
  if(C->step_cap && C->pos>=C->step_cap) end(END_STEPCAP);
  if(C->crash_pos && C->pos>=C->crash_pos){ hash(0xdead); end(END_CRASHED); }
}
static int replay_hit(void){
  if(!C->replay) return -1;
  while(dec_i<C->ndec_in && C->dec_in[dec_i].pos<C->pos) dec_i++;
  if(dec_i<C->ndec_in && C->dec_in[dec_i].pos==C->pos) return (int)C->dec_in[dec_i++].tid;
  return -1;
}
static void arm_random(void){
  if(C->edge_mean) next_rand = C->pos + 1 + below(2*C->edge_mean);
}
/* a scheduling point at an intercepted call */
static void point(u32 site,int forced){
  if(!self) return;
  C->pos++; C->syspoints++; C->sim_ns+=1000;
  limits();
  int h=replay_hit();
  int t=pick(site,forced,0,h);
  set_next();
  go(t,site);
}
/* slow path of an edge */
static void edge_slow(u32 g){
  limits();
  int hit=replay_hit(), want=0;
  if(C->replay) want = hit>=0;
  else {
    if(next_rand && C->pos>=next_rand){ want=1; arm_random(); }
    if(rare && below(4)==0) want=1;
    if(pct_i<pct_n && C->pos>=pct_points[pct_i]){ pct_i++; T[cur].prio=--pct_low; want=1; }
  }
  set_next();
  if(!want) return;
  int t=pick(g|0x80000000u,0,1,hit);
  go(t,g|0x80000000u);
}
void __sanitizer_cov_trace_pc_guard_init(u32 *a,u32 *b){
  if(a==b||*a) return;
  for(u32 *p=a;p<b;p++) *p=++nguards;
}
void __sanitizer_cov_trace_pc_guard(u32 *g){
  if(!self) return;
  C->pos++; C->edges++;
  u32 c=++hits[*g];
  if(c==1) C->edge_kinds++;
  if(__builtin_expect(C->pos>=next_pos,0) || (rare && !(c&(c-1)) && !C->replay)) edge_slow(*g);
}
/* block the current thread (state already set) */
static void block(u32 site){ point(site,1); }

/* ----------------------------------------------------------------- paths */
static void norm(const char *in,char *out){
  char buf[4096]; size_t rl=strlen(C->root);
  const char *p=in;
  if(!strncmp(in,"/proc/self/cwd/",15)) in=p=in+15;
  if(!strncmp(in,C->root,rl)&&(in[rl]=='/'||!in[rl])){ p=in+rl; while(*p=='/')p++; buf[0]=0; strncpy(buf,p,sizeof buf-1); }
  else { strncpy(buf,in,sizeof buf-1); }
  buf[sizeof buf-1]=0;
  /* lexical normalisation */
  char *comp[256]; int n=0; int abs=buf[0]=='/';
  char *save,*c=strtok_r(buf,"/",&save);
  while(c){
    if(!strcmp(c,".")){}
    else if(!strcmp(c,"..")){ if(n&&strcmp(comp[n-1],"..")) n--; else if(!abs) comp[n++]=c; }
    else if(n<255) comp[n++]=c;
    c=strtok_r(0,"/",&save);
  }
  size_t o=0; if(abs) out[o++]='/';
  for(int i=0;i<n;i++){ size_t l=strlen(comp[i]); if(o+l+2>=PATH_LEN){ l=PATH_LEN-2>o? PATH_LEN-2-o:0; } memcpy(out+o,comp[i],l); o+=l; if(i+1<n&&o<PATH_LEN-1) out[o++]='/'; }
  out[o]=0;
}
static u32 path_id(const char *n){
  for(u32 i=0;i<C->npaths;i++) if(!strcmp(C->paths[i].name,n)) return i;
  if(C->npaths<MAX_PATHS){ strcpy(C->paths[C->npaths].name,n); return C->npaths++; }
  return MAX_PATHS-1;
}
static int outside(const char *n){ return n[0]=='/' || (n[0]=='.'&&n[1]=='.'&&(n[2]=='/'||!n[2])); }
#define MAXFD 4096
static short fdp[MAXFD]; static unsigned char fdw[MAXFD];
static void ev(u32 op,u32 path,i64 r,u32 len){
  struct sim_ev *e=&C->ev[C->nev%MAX_EV]; C->nev++;
  e->pos=C->pos; e->tid=self?self->id:0; e->op=op; e->ret=r; e->path=path; e->len=len;
  hash(((u64)op<<48)^((u64)path<<32)^((u64)r*31+len)^(C->pos<<1));
}
static int pmatch(const char *pat,const char *n){
  if(!pat[0]) return 1;
  size_t l=strlen(pat);
  if(pat[l-1]=='*') return !strncmp(pat,n,l-1);
  const char *star=strchr(pat,'*');
  if(star){
    size_t k=star-pat, m=l-k-1, ln=strlen(n);
    return ln>=k+m && !strncmp(pat,n,k) && !strcmp(n+ln-m,star+1);
  }
  return !strcmp(pat,n);
}
static struct sim_rule *fault(u32 op,const char *n){
  struct sim_rule *hit=0;
  for(u32 i=0;i<C->nrules;i++){
    struct sim_rule *r=&C->rules[i];
    if(!(r->op&op)||!pmatch(r->path,n)) continue;
    u32 k=r->seen++;
    if(!hit && k>=r->nth && (r->count==~0u || k<r->nth+r->count)){
      r->fired++; hit=r; hash(0xfa017ull^i);
    }
  }
  if(hit){
    if(hit->action==ACT_CRASH) end(END_CRASHED);
    if(hit->action==ACT_STALL){ if(self) self->stall_until=C->pos+(u64)hit->arg; return 0; }
  }
  return hit;
}
static void flag_fault(u32 pid,struct sim_rule *r){
  if(r->action==ACT_SHORT || (r->action==ACT_ERR && r->arg==EINTR)) C->paths[pid].flags|=PF_SOFT;
  else C->paths[pid].flags|=PF_HARD;
}
static int active(void){ return C && self; }

/* ------------------------------------------------------------------ heap */
/* called by the allocator of the subject before it takes (or after it gives back) memory */
static i64 heap_live;
u64 sim_seed(void){ return C? C->rng_seed:0; }
int sim_mem(i64 delta){
  i64 live=__atomic_add_fetch(&heap_live,delta,__ATOMIC_SEQ_CST);
  if(!C||delta<=0) return 1;
  if(C->mem_cap && C->mem_base && live>(i64)(C->mem_base+C->mem_cap)){ __atomic_sub_fetch(&heap_live,delta,__ATOMIC_SEQ_CST); C->mem_hits++; return 0; }
  if(C->mem_base && live>(i64)C->mem_peak) C->mem_peak=live;
  return 1;
}
static u32 nopen;

/* -------------------------------------------------------------- file I/O */
static long do_open(int dfd,const char *path,int flags,mode_t mode){
  if(!active()) return ret_(RAW(SYS_openat,dfd,path,flags,mode));
  if((!strncmp(path,"/proc/",6)&&strncmp(path,"/proc/self/cwd/",15))||!strncmp(path,"/sys/",5)){ errno=ENOENT; return -1; }
  char n[PATH_LEN]; norm(path,n);
  int w=(flags&O_ACCMODE)!=O_RDONLY || (flags&(O_CREAT|O_TRUNC));
  u32 p=path_id(n);
  point(OP_OPEN,0);
  if(w && outside(n)){ C->paths[p].flags|=PF_ESCAPE; C->nescape++; ev(OP_OPEN,p,-EACCES,flags); errno=EACCES; return -1; }
  struct sim_rule *r=fault(OP_OPEN,n);
  if(r && r->action==ACT_ERR){ flag_fault(p,r); ev(OP_OPEN,p,-r->arg,flags); errno=(int)r->arg; return -1; }
  if(C->fd_cap && nopen>=C->fd_cap){ C->fd_hits++; C->paths[p].flags|=PF_HARD; ev(OP_OPEN,p,-EMFILE,flags); errno=EMFILE; return -1; }
  long fd=RAW(SYS_openat,dfd,path,flags,mode);
  ev(OP_OPEN,p,fd<0?fd:0,flags);
  if(fd>=0&&fd<MAXFD){ nopen++; if(nopen>C->fd_peak) C->fd_peak=nopen; fdp[fd]=p+1; fdw[fd]=w; if(w){ C->paths[p].flags|=PF_WOPEN; if(flags&O_TRUNC) C->paths[p].flags|=PF_TRUNC; } else { C->paths[p].flags|=PF_READ; if(!C->mem_base) C->mem_base=heap_live>0?heap_live:1; } }
  return ret_(fd);
}
int open(const char *p,int f,...){ mode_t m=0; if(f&(O_CREAT|__O_TMPFILE)){ va_list a; va_start(a,f); m=va_arg(a,mode_t); va_end(a);} return do_open(AT_FDCWD,p,f,m); }
int open64(const char *p,int f,...){ mode_t m=0; if(f&(O_CREAT|__O_TMPFILE)){ va_list a; va_start(a,f); m=va_arg(a,mode_t); va_end(a);} return do_open(AT_FDCWD,p,f,m); }
int openat(int d,const char *p,int f,...){ mode_t m=0; if(f&(O_CREAT|__O_TMPFILE)){ va_list a; va_start(a,f); m=va_arg(a,mode_t); va_end(a);} return do_open(d,p,f,m); }
int openat64(int d,const char *p,int f,...){ mode_t m=0; if(f&(O_CREAT|__O_TMPFILE)){ va_list a; va_start(a,f); m=va_arg(a,mode_t); va_end(a);} return do_open(d,p,f,m); }
int creat(const char *p,mode_t m){ return do_open(AT_FDCWD,p,O_CREAT|O_WRONLY|O_TRUNC,m); }
int creat64(const char *p,mode_t m){ return do_open(AT_FDCWD,p,O_CREAT|O_WRONLY|O_TRUNC,m); }

static const char *pname(int fd){ return fd>=0&&fd<MAXFD&&fdp[fd]? C->paths[fdp[fd]-1].name : 0; }

static long do_read(int fd,void *b,size_t n,i64 off){
  if(!active()||!pname(fd)) return ret_(off<0?RAW(SYS_read,fd,b,n):RAW(SYS_pread64,fd,b,n,off));
  u32 p=fdp[fd]-1; size_t want=n;
  point(OP_READ,0);
  struct sim_rule *r=fault(OP_READ,C->paths[p].name);
  if(r && r->action==ACT_ERR){ flag_fault(p,r); ev(OP_READ,p,-r->arg,n); errno=(int)r->arg; return -1; }
  if(r && r->action==ACT_SHORT && n>1){ flag_fault(p,r); if((i64)n>r->arg) n=r->arg>0?r->arg:1; }
  long k=off<0?RAW(SYS_read,fd,b,n):RAW(SYS_pread64,fd,b,n,off);
  C->paths[p].nreads++; (void)want;
  ev(OP_READ,p,k,n);
  return ret_(k);
}
ssize_t read(int fd,void *b,size_t n){ return do_read(fd,b,n,-1); }
ssize_t pread(int fd,void *b,size_t n,off_t o){ return do_read(fd,b,n,o); }
ssize_t pread64(int fd,void *b,size_t n,off_t o){ return do_read(fd,b,n,o); }
ssize_t readv(int fd,const struct iovec *v,int c){
  if(!active()||!pname(fd)) return ret_(RAW(SYS_readv,fd,v,c));
  for(int i=0;i<c;i++) if(v[i].iov_len) return do_read(fd,v[i].iov_base,v[i].iov_len,-1);
  return 0;
}
static long do_write(int fd,const void *b,size_t n,i64 off){
  if(!active()) return ret_(off<0?RAW(SYS_write,fd,b,n):RAW(SYS_pwrite64,fd,b,n,off));
  if(fd==1||(fd==2&&!pname(2))){
    u32 op=fd==1?OP_STDOUT:OP_STDERR;
    point(op,0);
    struct sim_rule *r=fault(op,fd==1?"<stdout>":"<stderr>");
    if(r && r->action==ACT_ERR){
      hash(r->arg);
      if(r->arg==EPIPE){ long me=RAW(SYS_getpid); RAW(SYS_kill,me,13); } /* ignored, unless the program has changed that */
      errno=(int)r->arg; return -1;
    }
    if(r && r->action==ACT_SHORT && n>1 && (i64)n>r->arg) n=r->arg>0?r->arg:1;
    if(r && r->action==ACT_TORN) end(END_CRASHED);
    if(fd==1){ C->stdout_bytes+=n; return n; }
    return ret_(RAW(SYS_write,fd,b,n));
  }
  if(!pname(fd)) return ret_(off<0?RAW(SYS_write,fd,b,n):RAW(SYS_pwrite64,fd,b,n,off));
  u32 p=fdp[fd]-1;
  point(OP_WRITE,0);
  struct sim_rule *r=fault(OP_WRITE,C->paths[p].name);
  if(r && r->action==ACT_ERR){ flag_fault(p,r); ev(OP_WRITE,p,-r->arg,n); errno=(int)r->arg; return -1; }
  size_t m=n; int torn=0;
  if(r && r->action==ACT_SHORT && n>1){ flag_fault(p,r); if((i64)m>r->arg) m=r->arg>0?r->arg:1; }
  if(r && r->action==ACT_TORN){ torn=1; if((i64)m>r->arg) m=r->arg>0?r->arg:0; }
  if(!torn && C->quota!=~0ull && n){
    u64 room=disk_used<C->quota? C->quota-disk_used:0;
    if(!room){
      if(!C->quota_back || C->quota_hits<C->quota_back){ C->quota_hits++; C->paths[p].flags|=PF_HARD; hash(0xe05); ev(OP_WRITE,p,-ENOSPC,n); errno=ENOSPC; return -1; }
    } else if(m>room){ m=room; C->paths[p].flags|=PF_SOFT; }
  }
  long k= m? (off<0?RAW(SYS_write,fd,b,m):RAW(SYS_pwrite64,fd,b,m,off)) : 0;
  if(k>0){ disk_used+=k; C->paths[p].bytes+=k; C->paths[p].nwrites++; C->paths[p].flags|=PF_WROTE; }
  ev(OP_WRITE,p,k,n);
  if(torn) end(END_CRASHED);
  return ret_(k);
}
ssize_t write(int fd,const void *b,size_t n){ return do_write(fd,b,n,-1); }
ssize_t pwrite(int fd,const void *b,size_t n,off_t o){ return do_write(fd,b,n,o); }
ssize_t pwrite64(int fd,const void *b,size_t n,off_t o){ return do_write(fd,b,n,o); }
ssize_t writev(int fd,const struct iovec *v,int c){
  if(!active()) return ret_(RAW(SYS_writev,fd,v,c));
  /* as one write: gather */
  size_t tot=0; for(int i=0;i<c;i++) tot+=v[i].iov_len;
  char *buf=malloc(tot?tot:1); size_t o=0;
  for(int i=0;i<c;i++){ memcpy(buf+o,v[i].iov_base,v[i].iov_len); o+=v[i].iov_len; }
  long k=do_write(fd,buf,tot,-1); int e=errno; free(buf); errno=e; return k;
}
static long do_seek(int fd,off_t o,int wh){
  if(!active()||!pname(fd)) return ret_(RAW(SYS_lseek,fd,o,wh));
  u32 p=fdp[fd]-1;
  point(OP_SEEK,0);
  struct sim_rule *r=fault(OP_SEEK,C->paths[p].name);
  if(r && r->action==ACT_ERR){ flag_fault(p,r); ev(OP_SEEK,p,-r->arg,0); errno=(int)r->arg; return -1; }
  long k=RAW(SYS_lseek,fd,o,wh); ev(OP_SEEK,p,k,(u32)o); return ret_(k);
}
off_t lseek(int fd,off_t o,int w){ return do_seek(fd,o,w); }
off_t lseek64(int fd,off_t o,int w){ return do_seek(fd,o,w); }
int close(int fd){
  if(!active()||!pname(fd)) return ret_(RAW(SYS_close,fd));
  u32 p=fdp[fd]-1;
  point(OP_CLOSE,0);
  struct sim_rule *r=fault(OP_CLOSE,C->paths[p].name);
  fdp[fd]=0; fdw[fd]=0; nopen--;
  long k=RAW(SYS_close,fd);
  if(r && r->action==ACT_ERR){ ev(OP_CLOSE,p,-r->arg,0); errno=(int)r->arg; return -1; }
  ev(OP_CLOSE,p,k,0); return ret_(k);
}
static long fd_sync(int nr,int fd){
  if(!active()||!pname(fd)) return ret_(RAW(nr,fd));
  u32 p=fdp[fd]-1; point(OP_SYNC,0);
  struct sim_rule *r=fault(OP_SYNC,C->paths[p].name);
  if(r && r->action==ACT_ERR){ flag_fault(p,r); ev(OP_SYNC,p,-r->arg,0); errno=(int)r->arg; return -1; }
  ev(OP_SYNC,p,0,0); return 0;
}
int fsync(int fd){ return fd_sync(SYS_fsync,fd); }
int fdatasync(int fd){ return fd_sync(SYS_fdatasync,fd); }
static long do_ftrunc(int fd,off_t l){
  if(!active()||!pname(fd)) return ret_(RAW(SYS_ftruncate,fd,l));
  u32 p=fdp[fd]-1; point(OP_META,0);
  struct sim_rule *r=fault(OP_META,C->paths[p].name);
  if(r && r->action==ACT_ERR){ flag_fault(p,r); ev(OP_META,p,-r->arg,0); errno=(int)r->arg; return -1; }
  C->paths[p].flags|=PF_MUTATED;
  long k=RAW(SYS_ftruncate,fd,l); ev(OP_META,p,k,(u32)l); return ret_(k);
}
int ftruncate(int fd,off_t l){ return do_ftrunc(fd,l); }
int ftruncate64(int fd,off_t l){ return do_ftrunc(fd,l); }
int fallocate(int fd,int m,off_t o,off_t l){ if(!active()||!pname(fd)) return ret_(RAW(SYS_fallocate,fd,m,o,l)); errno=EOPNOTSUPP; return -1; }
int fallocate64(int fd,int m,off_t o,off_t l){ return fallocate(fd,m,o,l); }
ssize_t copy_file_range(int a,off64_t *b,int c,off64_t *d,size_t e,unsigned f){ if(!active()) return ret_(RAW(SYS_copy_file_range,a,b,c,d,e,f)); errno=ENOSYS; return -1; }
ssize_t sendfile(int a,int b,off_t *c,size_t d){ if(!active()) return ret_(RAW(SYS_sendfile,a,b,c,d)); errno=ENOSYS; return -1; }
ssize_t sendfile64(int a,int b,off64_t *c,size_t d){ if(!active()) return ret_(RAW(SYS_sendfile,a,b,c,d)); errno=ENOSYS; return -1; }

/* name-space changes: confined to the scratch folder, recorded */
static int meta1(const char *path,u32 *pid){ /* returns 0 to go on, errno otherwise */
  char n[PATH_LEN]; norm(path,n); *pid=path_id(n);
  if(outside(n)){ C->paths[*pid].flags|=PF_ESCAPE; C->nescape++; ev(OP_META,*pid,-EACCES,0); return EACCES; }
  struct sim_rule *r=fault(OP_META,n);
  if(r && r->action==ACT_ERR){ flag_fault(*pid,r); ev(OP_META,*pid,-r->arg,0); return (int)r->arg; }
  return 0;
}
static long meta(int nargs,const char *a,const char *b,long nr,long x1,long x2,long x3,long x4,long x5){
  if(!active()) return ret_(raw6(nr,x1,x2,x3,x4,x5,0));
  u32 p,q; point(OP_META,0);
  int e=meta1(a,&p); if(e){ errno=e; return -1; }
  if(nargs==2){ e=meta1(b,&q); if(e){ errno=e; return -1; } }
  long k=raw6(nr,x1,x2,x3,x4,x5,0);
  if(k>=0){ C->paths[p].flags|=PF_MUTATED; if(nargs==2) C->paths[q].flags|=PF_MUTATED; }
  ev(OP_META,p,k,nr); return ret_(k);
}
int unlink(const char *a){ return meta(1,a,0,SYS_unlink,(long)a,0,0,0,0); }
int unlinkat(int d,const char *a,int f){ return meta(1,a,0,SYS_unlinkat,d,(long)a,f,0,0); }
int rmdir(const char *a){ return meta(1,a,0,SYS_rmdir,(long)a,0,0,0,0); }
int mkdir(const char *a,mode_t m){ return meta(1,a,0,SYS_mkdir,(long)a,m,0,0,0); }
int mkdirat(int d,const char *a,mode_t m){ return meta(1,a,0,SYS_mkdirat,d,(long)a,m,0,0); }
int rename(const char *a,const char *b){ return meta(2,a,b,SYS_rename,(long)a,(long)b,0,0,0); }
int renameat(int d,const char *a,int e,const char *b){ return meta(2,a,b,SYS_renameat,d,(long)a,e,(long)b,0); }
int renameat2(int d,const char *a,int e,const char *b,unsigned f){ return meta(2,a,b,SYS_renameat2,d,(long)a,e,(long)b,f); }
int link(const char *a,const char *b){ return meta(2,a,b,SYS_link,(long)a,(long)b,0,0,0); }
int linkat(int d,const char *a,int e,const char *b,int f){ return meta(2,a,b,SYS_linkat,d,(long)a,e,(long)b,f); }
int symlink(const char *a,const char *b){ return meta(1,b,0,SYS_symlink,(long)a,(long)b,0,0,0); }
int symlinkat(const char *a,int d,const char *b){ return meta(1,b,0,SYS_symlinkat,(long)a,d,(long)b,0,0); }
int chmod(const char *a,mode_t m){ return meta(1,a,0,SYS_chmod,(long)a,m,0,0,0); }
int chown(const char *a,uid_t u,gid_t g){ return meta(1,a,0,SYS_chown,(long)a,u,g,0,0); }
int truncate(const char *a,off_t l){ return meta(1,a,0,SYS_truncate,(long)a,l,0,0,0); }
int truncate64(const char *a,off_t l){ return meta(1,a,0,SYS_truncate,(long)a,l,0,0,0); }
int utimensat(int d,const char *a,const struct timespec t[2],int f){ if(!a) return ret_(RAW(SYS_utimensat,d,a,t,f)); return meta(1,a,0,SYS_utimensat,d,(long)a,(long)t,f,0); }
int mknod(const char *a,mode_t m,dev_t v){ return meta(1,a,0,SYS_mknod,(long)a,m,v,0,0); }

/* no child processes, signals or new roots from a simulated process */
pid_t fork(void){ if(!active()) return ret_(RAW(SYS_fork)); errno=EAGAIN; return -1; }
pid_t vfork(void){ errno=EAGAIN; return -1; }
int execve(const char *p,char *const a[],char *const e[]){ if(!active()) return ret_(RAW(SYS_execve,p,a,e)); errno=EACCES; return -1; }
int posix_spawn(pid_t *p,const char *q,const void *a,const void *b,char *const c[],char *const d[]){ return EAGAIN; }
int posix_spawnp(pid_t *p,const char *q,const void *a,const void *b,char *const c[],char *const d[]){ return EAGAIN; }
int kill(pid_t p,int s){ if(!active()||p==(pid_t)RAW(SYS_getpid)) return ret_(RAW(SYS_kill,p,s)); errno=EPERM; return -1; }
int chdir(const char *p){ if(!active()) return ret_(RAW(SYS_chdir,p)); errno=EACCES; return -1; }
int chroot(const char *p){ errno=EPERM; return -1; }

/* ------------------------------------------------------------- randomness */
static void fill(void *b,size_t n){
  unsigned char *p=b;
  while(n){
    u64 x=mix(C->rng_seed ^ mix(((u64)(self?self->id:0)<<40) ^ ++(*(self?&self->rngctr:&rand_seq))));
    size_t k=n<8?n:8; memcpy(p,&x,k); p+=k; n-=k;
  }
  C->ngetrandom++;
}
ssize_t getrandom(void *b,size_t n,unsigned f){
  if(!active()) return ret_(RAW(SYS_getrandom,b,n,f));
  point(OP_GETRANDOM,0);
  struct sim_rule *r=fault(OP_GETRANDOM,"<getrandom>");
  if(r && r->action==ACT_ERR){ errno=(int)r->arg; return -1; }
  fill(b,n); return n;
}
/* ----------------------------------------------------------------- clocks */
int clock_gettime(clockid_t c,struct timespec *t){
  if(!active()) return ret_(RAW(SYS_clock_gettime,c,t));
  static u64 looks; looks++;
  if((C->rng_seed&1) && mix(C->rng_seed^looks^0x7374616c)%8==0){ /* a stall, 1 us to 100 s */
    u64 r=mix(C->rng_seed^looks^0x6c6c),k=1000; for(u32 i=0;i<r%8;i++) k*=10;
    C->sim_ns+=k*(1+(r>>8)%10);
  }
  u64 ns=C->sim_ns+1000000000ull;
  if(c==CLOCK_REALTIME || c==CLOCK_REALTIME_COARSE){ /* between 2001 and 2033, jumping by up to an hour */
    static u64 calls;
    ns+=1000000000ull*(978307200ull+mix(C->rng_seed^0x64617465)%1000000000ull);
    ns+=mix(C->rng_seed^++calls)%7200000000000ull; ns-=3600000000000ull;
  }
  t->tv_sec=ns/1000000000ull; t->tv_nsec=ns%1000000000ull; return 0;
}
static int do_sleep(u64 ns){ self->deadline=C->sim_ns+ns; self->timedout=0; self->state=ST_SLEEP; block(0x51ee9); return 0; }
int nanosleep(const struct timespec *a,struct timespec *b){ if(!active()) return ret_(RAW(SYS_nanosleep,a,b)); return do_sleep(a->tv_sec*1000000000ull+a->tv_nsec); }
int clock_nanosleep(clockid_t c,int f,const struct timespec *a,struct timespec *b){
  if(!active()) return -RAW(SYS_clock_nanosleep,c,f,a,b);
  u64 ns=a->tv_sec*1000000000ull+a->tv_nsec;
  if(f&TIMER_ABSTIME){ u64 now=C->sim_ns+1000000000ull; ns=ns>now?ns-now:0; }
  return do_sleep(ns);
}
int usleep(useconds_t u){ if(!active()){ struct timespec t={u/1000000,(u%1000000)*1000}; return ret_(RAW(SYS_nanosleep,&t,0)); } return do_sleep((u64)u*1000); }
int sched_yield(void){ if(!active()) return ret_(RAW(SYS_sched_yield)); point(0x71e1d,1); return 0; }
int sched_getaffinity(pid_t p,size_t n,cpu_set_t *s){
  if(!active()) return RAW(SYS_sched_getaffinity,p,n,s)<0?-1:0;
  memset(s,0,n); for(u32 i=0;i<C->ncpu&&i<8*n;i++) CPU_SET_S(i,n,s); return 0;
}
long sysconf(int k){
  static long (*real)(int); if(!real) real=dlsym(RTLD_NEXT,"sysconf");
  if(active() && (k==84||k==83)) return C->ncpu;
  return real(k);
}
/* ------------------------------------------------------------------ futex */
static long sim_futex(u32 *addr,int op,u32 val,const struct timespec *ts,u32 *addr2,u32 val3){
  int cmd=op&FUTEX_CMD_MASK;
  switch(cmd){
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
      C->nfutex_wait++;
      point(0xf0,0);
      if(__atomic_load_n(addr,__ATOMIC_SEQ_CST)!=val){ errno=EAGAIN; return -1; }
      struct sim_rule *r=fault(OP_FUTEX,"<futex>");
      if(r && r->action==ACT_SPURIOUS){ if(r->arg){ errno=EINTR; return -1; } return 0; }
      self->faddr=addr; self->fbits=cmd==FUTEX_WAIT_BITSET?val3:~0u; self->timed=0; self->timedout=0;
      if(ts){
        u64 ns=(u64)ts->tv_sec*1000000000ull+ts->tv_nsec;
        if(cmd==FUTEX_WAIT_BITSET){ u64 now=1000000000ull; self->deadline= ns>now? ns-now:0; }
        else self->deadline=C->sim_ns+ns;
        self->timed=1;
      }
      self->state=ST_FUTEX;
      block(0xf1);
      if(self->timedout){ errno=ETIMEDOUT; return -1; }
      return 0; }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
      C->nfutex_wake++;
      u32 bits=cmd==FUTEX_WAKE_BITSET?val3:~0u; long n=0;
      int list[MAX_T],m=0;
      for(int i=0;i<nT;i++) if(T[i].state==ST_FUTEX&&T[i].faddr==addr&&(T[i].fbits&bits)) list[m++]=i;
      /* the order of wake-ups is the simulator's choice; derived from the decision
         stream in search and from the wake counter on replay alike */
      u64 o=mix(C->rng_seed^C->nfutex_wake);
      while(m&&n<(long)(int)val){
        int k=o%m; o=mix(o);
        T[list[k]].state=ST_RUN; T[list[k]].faddr=0; n++;
        list[k]=list[--m];
      }
      point(0xf2,0);
      return n; }
    default:
      return ret_(RAW(SYS_futex,addr,op,val,ts,addr2,val3));
  }
}
int getpid(void);
int gettid(void){ return active()? getpid()+self->id : (int)RAW(SYS_gettid); }
int getpid(void){ return active()? (int)(2+mix(C->rng_seed^0x706964)%30000) : (int)RAW(SYS_getpid); }
long syscall(long nr,...){
  va_list a; va_start(a,nr);
  long x1=va_arg(a,long),x2=va_arg(a,long),x3=va_arg(a,long),x4=va_arg(a,long),x5=va_arg(a,long),x6=va_arg(a,long); va_end(a);
  if(active()) switch(nr){
    case SYS_futex: return sim_futex((u32*)x1,(int)x2,(u32)x3,(const struct timespec*)x4,(u32*)x5,(u32)x6);
    case SYS_getrandom: return getrandom((void*)x1,x2,x3);
    case SYS_copy_file_range: errno=ENOSYS; return -1;
    case SYS_write: return do_write(x1,(void*)x2,x3,-1);
    case SYS_openat: return do_open(x1,(char*)x2,x3,x4);
    case SYS_gettid: return gettid();
    case SYS_getpid: return getpid();
    case SYS_sched_yield: return sched_yield();
    case SYS_unlink: return unlink((char*)x1);
    case SYS_unlinkat: return unlinkat(x1,(char*)x2,x3);
    case SYS_rename: return rename((char*)x1,(char*)x2);
    case SYS_renameat2: return renameat2(x1,(char*)x2,x3,(char*)x4,x5);
  }
  return ret_(raw6(nr,x1,x2,x3,x4,x5,x6));
}
/* ---------------------------------------------------------------- threads */
static int (*real_create)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static int (*real_join)(pthread_t,void**);
static void on_exit_key(void *v){
  struct th *t=v; if(!self) return;
  t->state=ST_DONE; C->pos++; C->syspoints++;
  for(int i=0;i<nT;i++) if(T[i].state==ST_JOIN&&T[i].joinwait==t->id) T[i].state=ST_RUN;
  limits();
  int h=replay_hit();
  int n=pick(0xdd,1,0,h); set_next();
  C->switches++; hash(0xdd0000ull|(t->id<<8)|n);
  self=0; cur=n; gate_open(&T[n]);
}
static void *trampoline(void *v){
  struct th *t=v; gate_wait(t); self=t;
  pthread_setspecific(exit_key,t);
  return t->fn(t->arg);
}
int pthread_create(pthread_t *p,const pthread_attr_t *a,void*(*fn)(void*),void *arg){
  if(!real_create) real_create=dlsym(RTLD_NEXT,"pthread_create");
  if(!active()) return real_create(p,a,fn,arg);
  point(OP_SPAWN,0);
  struct sim_rule *r=fault(OP_SPAWN,"<spawn>");
  if(r && r->action==ACT_ERR) return (int)r->arg;
  if(nT>=MAX_T) return EAGAIN;
  struct th *t=&T[nT]; memset(t,0,sizeof *t);
  t->id=nT; t->fn=fn; t->arg=arg; t->state=ST_RUN; t->prio=(rnd()>>8)|(1ull<<60);
  int e=real_create(p,a,trampoline,t);
  if(e) return e;
  t->pt=*p; nT++; C->nthreads=nT;
  point(0x5b,0);
  return 0;
}
int pthread_join(pthread_t p,void **r){
  if(!real_join) real_join=dlsym(RTLD_NEXT,"pthread_join");
  /* identifiers come back: the latest thread of that name */
  if(active()) for(int i=nT-1;i>0;i--) if(T[i].pt==p){
    point(0x10,0);
    if(T[i].state!=ST_DONE){ self->joinwait=i; self->state=ST_JOIN; block(0x11); }
    break;
  }
  return real_join(p,r);
}
/* -------------------------------------------------------------------- init */
__attribute__((constructor)) static void init(void){
  const char *p=getenv("SIM_CTL"); if(!p) return;
  int fd=RAW(SYS_openat,AT_FDCWD,p,O_RDWR,0); if(fd<0) die(120);
  struct sim_ctl *c=(void*)RAW(SYS_mmap,0,sizeof(struct sim_ctl),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
  if((long)c<0&&(long)c>-4096) die(121);
  RAW(SYS_close,fd);
  if(c->magic!=SIM_MAGIC) die(122);
  hits=calloc(nguards+2,sizeof *hits); if(!hits) die(123);
  real_create=dlsym(RTLD_NEXT,"pthread_create"); real_join=dlsym(RTLD_NEXT,"pthread_join");
  sysconf(30);
  pthread_key_create(&exit_key,on_exit_key);
  unsetenv("SIM_CTL");
  { u64 l[2]={60,60}; RAW(SYS_prlimit64,0,0,l,0); l[0]=l[1]=0; RAW(SYS_prlimit64,0,4,l,0);
    l[0]=l[1]=5ull<<30; RAW(SYS_prlimit64,0,9,l,0); }
  mallopt(M_ARENA_MAX,8); /* arenas of many threads reserve addresses by the gigabyte */
  RAW(SYS_alarm,300);
  C=c; sched_rng=c->sched_seed; rare=c->mode==3;
  memset(&T[0],0,sizeof T[0]); nT=1; cur=0; C->nthreads=1;
  T[0].pt=pthread_self(); T[0].prio=(rnd()>>8)|(1ull<<60);
  pct_low=1ull<<59;
  if(c->mode==2){
    pct_n=c->depth>64?64:c->depth;
    for(u32 i=0;i<pct_n;i++) pct_points[i]=1+below(c->pct_len?c->pct_len:1);
    for(u32 i=0;i<pct_n;i++) for(u32 j=i+1;j<pct_n;j++) if(pct_points[j]<pct_points[i]){ u64 x=pct_points[i]; pct_points[i]=pct_points[j]; pct_points[j]=x; }
  } else if(c->mode) arm_random();
  self=&T[0];
  set_next();
}

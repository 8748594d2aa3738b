// Driver: search / run / replay / shrink.
namespace sim {
enum { kMaxHarness = 32 };
static const Harness* g_harness[kMaxHarness];
static int g_nharness = 0;
void register_harness(const Harness* h) { g_harness[g_nharness++] = h; }
static const Harness* find_harness(const char* n) {
  for (int i = 0; i < g_nharness; ++i)
    if (!strcmp(g_harness[i]->name, n)) return g_harness[i];
  return nullptr;
}
static bool list_has(const char* list, const char* item) {
  const size_t n = strlen(item);
  for (const char* p = list; *p;) {
    const char* e = strchr(p, ',');
    const size_t k = e ? static_cast<size_t>(e - p) : strlen(p);
    if (k == n && !strncmp(p, item, n)) return true;
    p += k;
    if (*p) ++p;
  }
  return false;
}

// The property that the runs of this process decide; empty: all.
static char g_prop[32] = "";
bool deciding(const char* props) {
  return !g_prop[0] || list_has(props, g_prop);
}

struct Run {
  const Harness* h;
  Plan plan;
  Env env;
  Params params;
};
static Run g_run;        // current run
static Plan g_plan_copy; // what the child executes

template <int N>
static int64_t pick(Rng& r, const int64_t (&v)[N]) {
  return v[r.below(N)];
}
static void draw_params(uint64_t seed, Params* p, const Env& env) {
  Rng r(Rng::mix(seed ^ 0x70617261ull));
  fill_bytes(p, 0, sizeof(*p));
  p->seed = seed;
  const uint64_t s = r.below(100);
  p->strategy = s < 50 ? ST_RANDOM : s < 88 ? ST_PCT : ST_ROUND;
  p->p_sync_ppm = static_cast<int>(
      pick(r, {600000, 300000, 150000, 70000, 30000, 10000}));
  if (p->strategy == ST_PCT)
    p->mem_mean = static_cast<int>(pick(r, {0, 0, 30, 150, 600}));
  else
    p->mem_mean = static_cast<int>(pick(r, {0, 4, 15, 60, 250, 1000}));
  p->mem_shared = r.below(10) < 7;
  p->pct_depth = static_cast<int>(r.range(1, 6));
  p->pct_len = static_cast<int>(pick(r, {40, 120, 300, 800, 2000}));
  p->p_spur_ppm =
      env.spurious ? static_cast<int>(pick(r, {0, 0, 3000, 20000, 100000})) : 0;
  p->p_time_ppm =
      env.time_advance ? static_cast<int>(pick(r, {0, 1000, 20000, 100000})) : 0;
  p->p_stall_ppm =
      env.stalls ? static_cast<int>(pick(r, {0, 0, 1000, 6000})) : 0;
  p->p_clock_ppm =
      env.clock_jumps ? static_cast<int>(pick(r, {0, 30000, 200000, 500000})) : 0;
  p->p_alloc_ppm =
      env.alloc_fail ? static_cast<int>(pick(r, {0, 5000, 30000, 100000})) : 0;
  p->p_fault_permille = static_cast<int>(pick(r, {300, 1000, 1000, 2000}));
  p->random_signal = r.below(2);
  p->tick_ns = pick(r, {100, 1000, 20000});
  p->clock_res_ns =
      env.coarse_clock ? pick(r, {1, 1, 1000, 1000000, 10000000, 1000000000}) : 1;
  p->wall_base_ns = 1600000000000000000ll +
                    static_cast<int64_t>(r.below(100000000ull)) * 1000000ll +
                    static_cast<int64_t>(r.below(1000000));
  p->mono_base_ns = static_cast<int64_t>(r.below(1000000000000000ull));
  p->fair_after = env.fair_after;
  p->max_extra = env.max_extra;
}

static void (*g_child_setup)() = nullptr;
void set_child_setup(void (*f)()) { g_child_setup = f; }

static void* run_body(void*) {
  g_run.h->run(g_plan_copy);
  return nullptr;
}
static void cpu_limit(int) {
  if (!R || !g_active) _exit(73);
  g_in_fail = true;
  if (t_self) ++t_self->in_rt;
  fail(g_stuck_props[0] ? g_stuck_props : g_default_props, "hang",
       "the run burns CPU without reaching an instrumented point");
}

static void child_main(const ReplaySpec* rp) {
  load_real();
  // Allocations of the run start at a fixed address, whatever the parent did.
  const uintptr_t zone = kHeapBase + (48ull << 20);
  if (g_heap_next > zone) internal_error("parent heap too large");
  g_heap_next = zone;
  g_thr = static_cast<Thr*>(arena_alloc(sizeof(Thr) * kMaxSimThreads));
  g_sync = static_cast<SyncVar*>(arena_alloc(sizeof(SyncVar) * kSyncTable));
  P = g_run.params;
  g_env = g_run.env;
  copy_bytes(&g_plan_copy, &g_run.plan, sizeof(Plan));
  if (rp) g_replay = *rp;
  g_rng.reseed(Rng::mix(P.seed ^ 0x73636865ull));
  if (P.strategy == ST_PCT) {
    g_pct_n = P.pct_depth;
    for (int i = 0; i < g_pct_n; ++i)
      g_pct_points[i] = 1 + g_rng.below(static_cast<uint64_t>(P.pct_len));
  }
  draw_mem_left();
  // Alternate stack for crash reports.
  stack_t ss;
  ss.ss_sp = arena_alloc(65536);
  ss.ss_size = 65536;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  fill_bytes(&sa, 0, sizeof(sa));
  sa.sa_sigaction = crash_handler;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
  struct itimerval it;
  fill_bytes(&it, 0, sizeof(it));
  it.it_value.tv_sec = 25;
  signal(SIGPROF, cpu_limit);
  setitimer(ITIMER_PROF, &it, nullptr);
  copy_str(g_default_props, sizeof(g_default_props), g_run.h->properties);
  Thr* t = new_thread(run_body, nullptr);
  start_real(t);
  g_active = true;
  __atomic_store_n(&t->token, 1, __ATOMIC_SEQ_CST);
  raw_futex_wake(&t->token);
  for (;;) raw_futex_wait(&g_exit_futex, 0);
}

static Result* g_result = nullptr;  // shared with the child

// The kernel may free the memory of ended children late.  Waits while little
// memory is available, so that the backlog cannot grow without bound.
static void memory_brake() {
  for (int i = 0; i < 400; ++i) {
    const int fd = static_cast<int>(raw_syscall(SYS_open, reinterpret_cast<long>("/proc/meminfo"), O_RDONLY));
    if (fd < 0) return;
    char buf[512];
    const long n = raw_syscall(SYS_read, fd, reinterpret_cast<long>(buf), sizeof(buf) - 1);
    raw_syscall(SYS_close, fd);
    if (n <= 0) return;
    buf[n] = 0;
    const char* p = strstr(buf, "MemAvailable:");
    if (!p || strtoll(p + 13, nullptr, 10) > 9000000) return;
    struct timespec ts = {0, 25000000};
    raw_syscall(SYS_nanosleep, reinterpret_cast<long>(&ts), 0);
  }
}

// Executes one run in a forked child.
static void execute(const ReplaySpec* rp, bool verbose = false) {
  Result* r = g_result;
  r->status = S_NONE;
  r->props[0] = r->kind[0] = r->msg[0] = 0;
  r->trace_hash = r->switch_hash = r->sync_steps = r->mem_steps = 0;
  r->switches = r->preemptions = 0;
  r->sim_ns = 0;
  r->threads = r->nprobes = r->nfaults = r->overflow = 0;
  r->nchoices = 0;
  raw_syscall(SYS_ftruncate, g_stderr_fd, 0);
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    R = r;
    g_verbose = verbose;
    dup2(g_stderr_fd, 2);
    child_main(rp);
    _exit(74);
  }
  if (pid < 0) {
    r->status = S_INTERNAL;
    copy_str(r->msg, sizeof(r->msg), "fork failed");
    return;
  }
  int st = 0;
  const int64_t t0 = real_now_ns();
  for (int spins = 0;; ++spins) {
    // Block; a watchdog in the driver bounds the total time.
    const pid_t w = waitpid(pid, &st, spins == 0 ? 0 : WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) break;
    if (real_now_ns() - t0 > 120000000000ll) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
  }
  if (r->status == S_NONE) {
    r->status = S_INTERNAL;
    snprintf(r->msg, sizeof(r->msg),
             "child ended without a result (wait status 0x%x)", st);
  }
}

// --------------------------------------------------------------- replay files
static const int kEnvN = 9;
static void env_to(const Env& e, int64_t* v) {
  int i = 0;
  v[i++] = e.spurious;
  v[i++] = e.clock_jumps;
  v[i++] = e.coarse_clock;
  v[i++] = e.time_advance;
  v[i++] = e.alloc_fail;
  v[i++] = e.io_faults;
  v[i++] = e.stalls;
  v[i++] = e.fair_after;
  v[i++] = e.max_extra;
}
static void env_from(Env* e, const int64_t* v) {
  int i = 0;
  e->spurious = v[i++];
  e->clock_jumps = v[i++];
  e->coarse_clock = v[i++];
  e->time_advance = v[i++];
  e->alloc_fail = v[i++];
  e->io_faults = v[i++];
  e->stalls = v[i++];
  e->fair_after = static_cast<int>(v[i++]);
  e->max_extra = static_cast<int>(v[i++]);
}
static void params_to(const Params& p, int64_t* v) {
  int i = 0;
  v[i++] = static_cast<int64_t>(p.seed);
  v[i++] = p.strategy;
  v[i++] = p.p_sync_ppm;
  v[i++] = p.mem_mean;
  v[i++] = p.mem_shared;
  v[i++] = p.pct_depth;
  v[i++] = p.pct_len;
  v[i++] = p.p_spur_ppm;
  v[i++] = p.p_time_ppm;
  v[i++] = p.p_stall_ppm;
  v[i++] = p.p_clock_ppm;
  v[i++] = p.p_alloc_ppm;
  v[i++] = p.p_fault_permille;
  v[i++] = p.random_signal;
  v[i++] = p.tick_ns;
  v[i++] = p.clock_res_ns;
  v[i++] = p.wall_base_ns;
  v[i++] = p.mono_base_ns;
  v[i++] = p.fair_after;
  v[i++] = p.max_extra;
}
static void params_from(Params* p, const int64_t* v) {
  int i = 0;
  p->seed = static_cast<uint64_t>(v[i++]);
  p->strategy = static_cast<int>(v[i++]);
  p->p_sync_ppm = static_cast<int>(v[i++]);
  p->mem_mean = static_cast<int>(v[i++]);
  p->mem_shared = static_cast<int>(v[i++]);
  p->pct_depth = static_cast<int>(v[i++]);
  p->pct_len = static_cast<int>(v[i++]);
  p->p_spur_ppm = static_cast<int>(v[i++]);
  p->p_time_ppm = static_cast<int>(v[i++]);
  p->p_stall_ppm = static_cast<int>(v[i++]);
  p->p_clock_ppm = static_cast<int>(v[i++]);
  p->p_alloc_ppm = static_cast<int>(v[i++]);
  p->p_fault_permille = static_cast<int>(v[i++]);
  p->random_signal = static_cast<int>(v[i++]);
  p->tick_ns = v[i++];
  p->clock_res_ns = v[i++];
  p->wall_base_ns = v[i++];
  p->mono_base_ns = v[i++];
  p->fair_after = static_cast<int>(v[i++]);
  p->max_extra = static_cast<int>(v[i++]);
}

struct ReplayFile {
  char harness[64];
  char property[32];
  char kind[64];
  uint64_t hash;
  Run run;
  uint32_t n;
  Choice c[kMaxChoices];
};
static ReplayFile* g_rf = nullptr;

static bool save_replay(const char* path, const ReplayFile& f, const char* msg) {
  FILE* o = real_fopen(path, "w");
  if (!o) return false;
  fprintf(o, "simreplay 1\nharness %s\nproperty %s\nkind %s\nhash %016lx\n",
          f.harness, f.property, f.kind, static_cast<unsigned long>(f.hash));
  int64_t v[32];
  params_to(f.run.params, v);
  fprintf(o, "params %d", kNumParams);
  for (int i = 0; i < kNumParams; ++i) fprintf(o, " %ld", static_cast<long>(v[i]));
  env_to(f.run.env, v);
  fprintf(o, "\nenv %d", kEnvN);
  for (int i = 0; i < kEnvN; ++i) fprintf(o, " %ld", static_cast<long>(v[i]));
  const Plan& p = f.run.plan;
  fprintf(o, "\ncfg %d", p.ncfg);
  for (int i = 0; i < p.ncfg; ++i)
    fprintf(o, " %ld:%ld", static_cast<long>(p.cfg[i]),
            static_cast<long>(p.cfg_min[i]));
  fprintf(o, "\nthreads %d\n", p.nthreads);
  for (int t = 0; t < p.nthreads; ++t) {
    fprintf(o, "thread %d %d\n", t, p.th[t].n);
    for (int i = 0; i < p.th[t].n; ++i) {
      const Op& op = p.th[t].ops[i];
      fprintf(o, "op %d %ld %ld %ld %ld\n", op.code, static_cast<long>(op.a[0]),
              static_cast<long>(op.a[1]), static_cast<long>(op.a[2]),
              static_cast<long>(op.a[3]));
    }
  }
  fprintf(o, "choices %u\n", f.n);
  for (uint32_t i = 0; i < f.n; ++i)
    fprintf(o, "c %s %d %lu %u\n", kChoiceNames[f.c[i].kind], f.c[i].tid,
            static_cast<unsigned long>(f.c[i].ctr), f.c[i].val);
  fprintf(o, "end\n");
  for (const char* s = msg; s && *s;) {
    const char* e = strchr(s, '\n');
    const int k = e ? static_cast<int>(e - s) : static_cast<int>(strlen(s));
    fprintf(o, "# %.*s\n", k, s);
    s += k;
    if (*s) ++s;
  }
  return real_fclose(o) == 0;
}
static int choice_cmp(const void* a, const void* b) {
  const Choice* x = static_cast<const Choice*>(a);
  const Choice* y = static_cast<const Choice*>(b);
  if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1;
  if (x->kind != y->kind) return x->kind < y->kind ? -1 : 1;
  if (x->ctr != y->ctr) return x->ctr < y->ctr ? -1 : 1;
  return 0;
}
static void sort_choices(Choice* c, uint32_t n) {
  qsort(c, n, sizeof(Choice), choice_cmp);
}
static bool load_replay(const char* path, ReplayFile* f) {
  FILE* in = real_fopen(path, "r");
  if (!in) return false;
  int ver = 0;
  unsigned long h = 0;
  bool ok = fscanf(in, "simreplay %d harness %63s property %31s kind %63s hash %lx",
                   &ver, f->harness, f->property, f->kind, &h) == 5;
  f->hash = h;
  int n = 0;
  int64_t v[32];
  ok = ok && fscanf(in, " params %d", &n) == 1 && n == kNumParams;
  for (int i = 0; ok && i < n; ++i) ok = fscanf(in, " %ld", &v[i]) == 1;
  if (ok) params_from(&f->run.params, v);
  ok = ok && fscanf(in, " env %d", &n) == 1 && n == kEnvN;
  for (int i = 0; ok && i < n; ++i) ok = fscanf(in, " %ld", &v[i]) == 1;
  if (ok) env_from(&f->run.env, v);
  Plan& p = f->run.plan;
  p.clear();
  ok = ok && fscanf(in, " cfg %d", &p.ncfg) == 1 && p.ncfg <= kMaxCfg;
  for (int i = 0; ok && i < p.ncfg; ++i)
    ok = fscanf(in, " %ld:%ld", &p.cfg[i], &p.cfg_min[i]) == 2;
  ok = ok && fscanf(in, " threads %d", &p.nthreads) == 1 &&
       p.nthreads <= kMaxThreads;
  for (int t = 0; ok && t < p.nthreads; ++t) {
    int id;
    ok = fscanf(in, " thread %d %d", &id, &p.th[t].n) == 2 &&
         p.th[t].n <= kMaxOps;
    for (int i = 0; ok && i < p.th[t].n; ++i) {
      Op& op = p.th[t].ops[i];
      ok = fscanf(in, " op %d %ld %ld %ld %ld", &op.code, &op.a[0], &op.a[1],
                  &op.a[2], &op.a[3]) == 5;
    }
  }
  ok = ok && fscanf(in, " choices %u", &f->n) == 1 && f->n <= kMaxChoices;
  for (uint32_t i = 0; ok && i < f->n; ++i) {
    char k[32];
    int tid;
    unsigned long ctr;
    unsigned val;
    ok = fscanf(in, " c %31s %d %lu %u", k, &tid, &ctr, &val) == 4;
    int kind = -1;
    for (int j = 0; j < C_KINDS; ++j)
      if (!strcmp(kChoiceNames[j], k)) kind = j;
    ok = ok && kind >= 0;
    if (ok) {
      f->c[i].kind = static_cast<uint8_t>(kind);
      f->c[i].tid = static_cast<uint8_t>(tid);
      f->c[i].ctr = ctr;
      f->c[i].val = val;
    }
  }
  real_fclose(in);
  if (ok) sort_choices(f->c, f->n);
  return ok;
}

// ---------------------------------------------------------------------- search
static void make_run(const Harness* h, uint64_t seed, bool thorough) {
  g_run.h = h;
  g_run.env = Env();
  g_run.plan.clear();
  Rng r(Rng::mix(seed ^ 0x706c616eull));
  h->gen(r, &g_run.plan, &g_run.env, thorough);
  draw_params(seed, &g_run.params, g_run.env);
}
static void add_counters(Counter* dst, int* n, const Counter* src, int m) {
  for (int i = 0; i < m; ++i) {
    int j = 0;
    for (; j < *n; ++j)
      if (!strcmp(dst[j].name, src[i].name)) break;
    if (j == *n) {
      if (*n >= 256) continue;
      copy_str(dst[j].name, kNameLen, src[i].name);
      dst[j].n = 0;
      ++*n;
    }
    dst[j].n += src[i].n;
  }
}
static void json_counters(FILE* o, const Counter* c, int n) {
  fprintf(o, "{");
  for (int i = 0; i < n; ++i)
    fprintf(o, "%s\"%s\": %lu", i ? ", " : "", c[i].name,
            static_cast<unsigned long>(c[i].n));
  fprintf(o, "}");
}
static void json_string(FILE* o, const char* s) {
  fputc('"', o);
  for (; *s; ++s) {
    if (*s == '"' || *s == '\\')
      fprintf(o, "\\%c", *s);
    else if (*s == '\n')
      fprintf(o, "\\n");
    else if (static_cast<unsigned char>(*s) < 32)
      fprintf(o, " ");
    else
      fputc(*s, o);
  }
  fputc('"', o);
}

static const char* arg(int argc, char** argv, const char* name,
                       const char* def) {
  for (int i = 1; i + 1 < argc; ++i)
    if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
static bool flag(int argc, char** argv, const char* name) {
  for (int i = 1; i < argc; ++i)
    if (!strcmp(argv[i], name)) return true;
  return false;
}

struct Stats {
  uint64_t runs, ok, inconclusive, internal, other, violations;
  uint64_t switches, preemptions, steps, memsteps, nontrivial, unrepro;
  int64_t sim_ns;
  Counter probes[256];
  int nprobes;
  Counter faults[256];
  int nfaults;
  Counter other_kinds[256];
  int nother;
};
static Stats S;

// One core per worker: only one thread of a run is ever runnable, and handing
// the token over is cheapest on the same core.
static void pin_to_cpu(uint64_t worker) {
  cpu_set_t have, want;
  CPU_ZERO(&have);
  if (sched_getaffinity(0, sizeof(have), &have)) return;
  const int n = CPU_COUNT(&have);
  if (n <= 1) return;
  int k = static_cast<int>(worker % static_cast<uint64_t>(n));
  for (int i = 0; i < CPU_SETSIZE; ++i)
    if (CPU_ISSET(i, &have) && k-- == 0) {
      CPU_ZERO(&want);
      CPU_SET(i, &want);
      sched_setaffinity(0, sizeof(want), &want);
      return;
    }
}

static void capture(ReplayFile* f, const char* prop) {
  copy_str(f->harness, sizeof(f->harness), g_run.h->name);
  copy_str(f->property, sizeof(f->property), prop);
  copy_str(f->kind, sizeof(f->kind), g_result->kind);
  f->hash = g_result->trace_hash;
  copy_bytes(&f->run, &g_run, sizeof(Run));
  f->n = g_result->nchoices;
  copy_bytes(f->c, g_result->choices, sizeof(Choice) * f->n);
  sort_choices(f->c, f->n);
}

// A few of the runs, written out as JSON.
static char g_samples[2][4000];
static int g_nsamples = 0;
static void add_sample(uint64_t index, uint64_t seed) {
  if (g_nsamples >= 2) return;
  char* b = g_samples[g_nsamples];
  const int cap = sizeof(g_samples[0]);
  int n = snprintf(b, cap,
                   "{\"harness\": \"%s\", \"run\": %lu, \"seed\": \"%lu\", "
                   "\"strategy\": \"%s\", \"preemptions\": %lu, "
                   "\"switches\": %lu, \"sim_ns\": %ld, \"cfg\": [",
                   g_run.h->name, (unsigned long)index, (unsigned long)seed,
                   g_run.params.strategy == ST_RANDOM  ? "random"
                   : g_run.params.strategy == ST_PCT ? "pct" : "round",
                   (unsigned long)g_result->preemptions,
                   (unsigned long)g_result->switches, (long)g_result->sim_ns);
  const Plan& p = g_run.plan;
  for (int i = 0; i < p.ncfg; ++i)
    n += snprintf(b + n, cap - n, "%s%ld", i ? ", " : "", (long)p.cfg[i]);
  n += snprintf(b + n, cap - n, "], \"ops\": {");
  for (int t = 0; t < p.nthreads && n < cap - 300; ++t) {
    n += snprintf(b + n, cap - n, "%s\"%d\": \"", t ? ", " : "", t);
    for (int i = 0; i < p.th[t].n && n < cap - 300; ++i)
      n += snprintf(b + n, cap - n, "%s%d(%ld %ld %ld)", i ? " " : "",
                    p.th[t].ops[i].code, (long)p.th[t].ops[i].a[0],
                    (long)p.th[t].ops[i].a[1], (long)p.th[t].ops[i].a[2]);
    n += snprintf(b + n, cap - n, "\"");
  }
  n += snprintf(b + n, cap - n, "}, \"faults\": {");
  for (int i = 0; i < g_result->nfaults && n < cap - 100; ++i)
    n += snprintf(b + n, cap - n, "%s\"%s\": %lu", i ? ", " : "",
                  g_result->faults[i].name, (unsigned long)g_result->faults[i].n);
  snprintf(b + n, cap - n, "}}");
  ++g_nsamples;
}

// search --harness H --prop P --seed S --worker w --nworkers n --runs N
//        --wall SEC --out PREFIX [--thorough] [--hashes]
static int cmd_search(int argc, char** argv) {
  const Harness* h = find_harness(arg(argc, argv, "--harness", ""));
  const char* prop = arg(argc, argv, "--prop", "");
  copy_str(g_prop, sizeof(g_prop), prop);
  const uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
  const uint64_t worker = strtoull(arg(argc, argv, "--worker", "0"), nullptr, 10);
  const uint64_t nworkers =
      strtoull(arg(argc, argv, "--nworkers", "1"), nullptr, 10);
  const uint64_t runs = strtoull(arg(argc, argv, "--runs", "1000"), nullptr, 10);
  const double wall = atof(arg(argc, argv, "--wall", "60"));
  const char* out = arg(argc, argv, "--out", "");
  const bool thorough = flag(argc, argv, "--thorough");
  const bool log_hashes = flag(argc, argv, "--hashes");
  if (!h) {
    fprintf(stderr, "no such harness\n");
    return 2;
  }
  pin_to_cpu(worker);
  char path[1024];
  snprintf(path, sizeof(path), "%s.hash", out);
  FILE* hf = out[0] ? real_fopen(path, "wb") : nullptr;
  uint64_t name_hash = 0xcbf29ce484222325ull;
  for (const char* c = h->name; *c; ++c)
    name_hash = (name_hash ^ static_cast<unsigned char>(*c)) * 0x100000001b3ull;
  const int64_t t0 = real_now_ns();
  int rc = 0;
  char vmsg[6000] = "";
  uint64_t vseed = 0;
  for (uint64_t i = worker; i < runs; i += nworkers) {
    if (real_now_ns() - t0 > static_cast<int64_t>(wall * 1e9)) break;
    const uint64_t rs = Rng::mix(seed * 1000003ull + i) ^
                        Rng::mix(name_hash);
    make_run(h, rs, thorough);
    if (S.runs % 8 == 0) memory_brake();
    execute(nullptr);
    Result* r = g_result;
    ++S.runs;
    S.switches += r->switches;
    S.preemptions += r->preemptions;
    S.steps += r->sync_steps;
    S.memsteps += r->mem_steps;
    S.sim_ns += r->sim_ns;
    add_counters(S.probes, &S.nprobes, r->probes, r->nprobes);
    add_counters(S.faults, &S.nfaults, r->faults, r->nfaults);
    if (r->preemptions > 0 || r->nfaults > 0) {
      ++S.nontrivial;
      // Distinctness: workload, context-switch sequence with the code
      // locations it happened at, and faults.
      uint64_t hh = r->switch_hash;
      for (int t = 0; t < g_run.plan.nthreads; ++t)
        for (int k = 0; k < g_run.plan.th[t].n; ++k)
          hash_in(&hh, static_cast<uint64_t>(g_run.plan.th[t].ops[k].code) * 31 +
                           static_cast<uint64_t>(g_run.plan.th[t].ops[k].a[0]));
      for (int k = 0; k < r->nfaults; ++k) hash_in(&hh, r->faults[k].n + k);
      if (hf) fwrite(&hh, 8, 1, hf);
    }
    if (log_hashes)
      printf("%lu %016lx %d %s\n", static_cast<unsigned long>(i),
             static_cast<unsigned long>(r->trace_hash), r->status, r->kind);
    if (r->status == S_OK) {
      ++S.ok;
      if (r->preemptions > 0 && S.ok >= 5) add_sample(i, rs);
    } else if (r->status == S_INCONCLUSIVE) {
      ++S.inconclusive;
    } else if (r->status == S_INTERNAL) {
      ++S.internal;
      fprintf(stderr, "internal error in run %lu (seed %lu): %s\n",
              static_cast<unsigned long>(i), static_cast<unsigned long>(rs),
              r->msg);
      if (S.internal > 3) {
        rc = 3;
        break;
      }
    } else if (!list_has(r->props, prop)) {
      ++S.other;
      Counter c;
      snprintf(c.name, kNameLen, "%.20s:%.17s", r->props, r->kind);
      c.n = 1;
      add_counters(S.other_kinds, &S.nother, &c, 1);
    } else {
      ++S.violations;
      copy_str(vmsg, sizeof(vmsg), r->msg);
      vseed = rs;
      capture(g_rf, prop);
      const bool hang = !strcmp(r->kind, "hang");
      // Same seed again: must be the same execution.
      make_run(h, rs, thorough);
      execute(nullptr);
      if (g_result->status != S_VIOLATION ||
          (!hang && g_result->trace_hash != g_rf->hash)) {
        fprintf(stderr, "run with seed %lu is not reproducible\n",
                static_cast<unsigned long>(rs));
        rc = 4;
        vmsg[0] = 0;
        --S.violations;
        if (++S.unrepro >= 4) break;
        continue;
      }
      snprintf(path, sizeof(path), "%s.replay", out);
      if (out[0]) save_replay(path, *g_rf, vmsg);
      rc = 1;
      break;
    }
  }
  if (hf) real_fclose(hf);
  FILE* o = stdout;
  if (out[0]) {
    snprintf(path, sizeof(path), "%s.json", out);
    o = real_fopen(path, "w");
  }
  fprintf(o,
          "{\"runs\": %lu, \"ok\": %lu, \"inconclusive\": %lu, \"internal\": "
          "%lu, \"other\": %lu, \"violations\": %lu, \"switches\": %lu, "
          "\"preemptions\": %lu, \"sync_steps\": %lu, \"mem_steps\": %lu, "
          "\"nontrivial\": %lu, \"sim_ns\": %ld, \"wall_s\": %.3f, \"rc\": %d, "
          "\"violation_seed\": %lu, \"message\": ",
          (unsigned long)S.runs, (unsigned long)S.ok,
          (unsigned long)S.inconclusive, (unsigned long)S.internal,
          (unsigned long)S.other, (unsigned long)S.violations,
          (unsigned long)S.switches, (unsigned long)S.preemptions,
          (unsigned long)S.steps, (unsigned long)S.memsteps,
          (unsigned long)S.nontrivial, (long)S.sim_ns,
          (real_now_ns() - t0) / 1e9, rc, (unsigned long)vseed);
  json_string(o, vmsg);
  fprintf(o, ", \"unreproducible\": %lu, \"samples\": [",
          (unsigned long)S.unrepro);
  for (int i = 0; i < g_nsamples; ++i) fprintf(o, "%s%s", i ? ", " : "", g_samples[i]);
  fprintf(o, "], \"probes\": ");
  json_counters(o, S.probes, S.nprobes);
  fprintf(o, ", \"faults\": ");
  json_counters(o, S.faults, S.nfaults);
  fprintf(o, ", \"other_kinds\": ");
  json_counters(o, S.other_kinds, S.nother);
  fprintf(o, "}\n");
  if (o != stdout) real_fclose(o);
  return rc;
}

// ---------------------------------------------------------------------- shrink
static bool same_failure(const ReplayFile& f) {
  return g_result->status == S_VIOLATION && !g_result->overflow &&
         list_has(g_result->props, f.property) &&
         !strcmp(g_result->kind, f.kind);
}
static Choice* g_try = nullptr;
static char g_last_msg[6000];
static void accept(ReplayFile* f) {
  f->n = g_result->nchoices;
  copy_bytes(f->c, g_result->choices, sizeof(Choice) * f->n);
  sort_choices(f->c, f->n);
  f->hash = g_result->trace_hash;
  copy_bytes(&f->run, &g_run, sizeof(Run));
  copy_str(g_last_msg, sizeof(g_last_msg), g_result->msg);
}
static bool try_replay(ReplayFile* f, const Choice* c, uint32_t n) {
  ReplaySpec rp;
  rp.on = true;
  rp.n = n;
  rp.c = const_cast<Choice*>(c);
  execute(&rp);
  return same_failure(*f);
}
// The plan in g_run changed: same choices first, then fresh seeds.
static bool try_plan(ReplayFile* f, int reseeds, uint64_t* ctr) {
  const Params keep = g_run.params;
  if (try_replay(f, f->c, f->n)) {
    accept(f);
    return true;
  }
  for (int i = 0; i < reseeds; ++i) {
    const uint64_t s = Rng::mix(++*ctr * 7919 + 17);
    if (i % 2 == 0) {
      g_run.params.seed = s;
    } else {
      draw_params(s, &g_run.params, g_run.env);
    }
    execute(nullptr);
    if (same_failure(*f)) {
      accept(f);
      return true;
    }
    g_run.params = keep;
  }
  return false;
}
static int cmd_shrink(int argc, char** argv) {
  const char* in = argv[2];
  const char* out = argv[3];
  const double wall = atof(arg(argc, argv, "--wall", "60"));
  ReplayFile* f = g_rf;
  if (!load_replay(in, f)) {
    fprintf(stderr, "cannot read %s\n", in);
    return 2;
  }
  const Harness* h = find_harness(f->harness);
  if (!h) return 2;
  copy_bytes(&g_run, &f->run, sizeof(Run));
  copy_str(g_prop, sizeof(g_prop), f->property);
  g_run.h = h;
  f->run.h = h;
  pin_to_cpu(strtoull(arg(argc, argv, "--worker", "0"), nullptr, 10));
  const int64_t t0 = real_now_ns();
  const int64_t tend = t0 + static_cast<int64_t>(wall * 1e9);
  if (!try_replay(f, f->c, f->n)) {
    fprintf(stderr, "the unminimised replay does not fail: %s %s\n",
            g_result->kind, g_result->msg);
    return 4;
  }
  accept(f);
  uint64_t ctr = 0;
  bool progress = true;
  const int64_t tplan = t0 + static_cast<int64_t>(wall * 0.6e9);
  while (progress && real_now_ns() < tplan) {
    progress = false;
    for (int t = 0; t < f->run.plan.nthreads && real_now_ns() < tplan; ++t) {
      for (int chunk = f->run.plan.th[t].n; chunk >= 1; chunk /= 2) {
        for (int at = f->run.plan.th[t].n - chunk; at >= 0;) {
          if (real_now_ns() > tplan) break;
          copy_bytes(&g_run, &f->run, sizeof(Run));
          PlanThread& pt = g_run.plan.th[t];
          for (int i = at; i + chunk < pt.n; ++i) pt.ops[i] = pt.ops[i + chunk];
          pt.n -= chunk;
          if (try_plan(f, 24, &ctr)) progress = true;
          at -= chunk;
          if (at > f->run.plan.th[t].n - chunk) at = f->run.plan.th[t].n - chunk;
        }
      }
    }
    for (int i = 0; i < f->run.plan.ncfg && real_now_ns() < tplan; ++i) {
      const int64_t cur = f->run.plan.cfg[i];
      const int64_t mn = f->run.plan.cfg_min[i];
      if (cur == mn) continue;
      const int64_t cands[2] = {mn, mn + (cur - mn) / 2};
      for (int k = 0; k < 2; ++k) {
        if (cands[k] == cur) continue;
        copy_bytes(&g_run, &f->run, sizeof(Run));
        g_run.plan.cfg[i] = cands[k];
        if (try_plan(f, 16, &ctr)) {
          progress = true;
          break;
        }
      }
    }
  }
  // Schedule and faults: drop decisions.
  copy_bytes(&g_run, &f->run, sizeof(Run));
  for (uint32_t chunk = f->n; chunk >= 1 && real_now_ns() < tend;) {
    bool any = false;
    for (uint32_t at = 0; at < f->n && real_now_ns() < tend;) {
      uint32_t n = 0;
      for (uint32_t i = 0; i < f->n; ++i)
        if (i < at || i >= at + chunk) g_try[n++] = f->c[i];
      const uint32_t before = f->n;
      if (n < before && try_replay(f, g_try, n) && g_result->nchoices < before) {
        accept(f);
        any = true;
      } else {
        at += chunk;
      }
    }
    if (chunk == 1 && !any) break;
    chunk = chunk > 1 ? (chunk + 1) / 2 : 1;
    if (chunk > f->n && f->n) chunk = f->n;
    if (!f->n) break;
  }
  copy_bytes(&g_run, &f->run, sizeof(Run));
  if (!try_replay(f, f->c, f->n)) {
    fprintf(stderr, "minimised replay does not fail\n");
    return 4;
  }
  accept(f);
  if (!save_replay(out, *f, g_last_msg)) return 2;
  int ops = 0;
  for (int t = 0; t < f->run.plan.nthreads; ++t) ops += f->run.plan.th[t].n;
  printf("shrunk: %d ops, %u decisions\n", ops, f->n);
  return 1;
}

static int cmd_replay(int argc, char** argv) {
  ReplayFile* f = g_rf;
  if (!load_replay(argv[2], f)) {
    fprintf(stderr, "cannot read %s\n", argv[2]);
    return 2;
  }
  const Harness* h = find_harness(f->harness);
  if (!h) {
    fprintf(stderr, "no harness %s\n", f->harness);
    return 2;
  }
  copy_bytes(&g_run, &f->run, sizeof(Run));
  copy_str(g_prop, sizeof(g_prop), f->property);
  g_run.h = h;
  ReplaySpec rp;
  rp.on = true;
  rp.n = f->n;
  rp.c = f->c;
  execute(&rp, flag(argc, argv, "--trace"));
  Result* r = g_result;
  printf("status %d kind %s props %s hash %016lx\n%s\n", r->status, r->kind,
         r->props, static_cast<unsigned long>(r->trace_hash), r->msg);
  if (r->status != S_VIOLATION || strcmp(r->kind, f->kind)) {
    printf("NOT REPRODUCED\n");
    return r->status == S_OK ? 0 : 3;
  }
  if (r->trace_hash != f->hash && strcmp(f->kind, "hang")) {
    printf("REPRODUCED WITH A DIFFERENT TRACE (expected %016lx)\n",
           static_cast<unsigned long>(f->hash));
    return 4;
  }
  printf("REPRODUCED EXACTLY\n");
  return 1;
}

static int cmd_run(int argc, char** argv) {
  const Harness* h = find_harness(arg(argc, argv, "--harness", ""));
  if (!h) return 2;
  const uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
  copy_str(g_prop, sizeof(g_prop), arg(argc, argv, "--prop", ""));
  make_run(h, seed, flag(argc, argv, "--thorough"));
  execute(nullptr, flag(argc, argv, "--trace"));
  printf("status %d kind %s props %s hash %016lx steps %lu mem %lu switches %lu "
         "choices %u simns %ld\n%s\n",
         g_result->status, g_result->kind, g_result->props,
         (unsigned long)g_result->trace_hash, (unsigned long)g_result->sync_steps,
         (unsigned long)g_result->mem_steps, (unsigned long)g_result->switches,
         g_result->nchoices, (long)g_result->sim_ns, g_result->msg);
  return 0;
}

void zygote_setup();  // harness support code (logging flags, warm-up)

}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // Same addresses in every process.
  // ... and the same environment.
  const int pers = personality(0xffffffff);
  if (!getenv("SIM_REEXEC")) {
    personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE);
    static char lib[4096];
    snprintf(lib, sizeof(lib), "LD_LIBRARY_PATH=%s", getenv("LD_LIBRARY_PATH") ? getenv("LD_LIBRARY_PATH") : "");
    static char reexec[] = "SIM_REEXEC=1", tz[] = "TZ=UTC", lc[] = "LC_ALL=C";
    char* env[] = {reexec, tz, lc, getenv("LD_LIBRARY_PATH") ? lib : nullptr, nullptr};
    execve("/proc/self/exe", argv, env);
  }
  unsetenv("SIM_REEXEC");
  init_regions();
  load_real();
  dl_iterate_phdr(phdr_cb, nullptr);
  g_result = static_cast<Result*>(mmap(nullptr, sizeof(Result),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_rf = static_cast<ReplayFile*>(arena_alloc(sizeof(ReplayFile)));
  g_try = static_cast<Choice*>(arena_alloc(sizeof(Choice) * kMaxChoices));
  g_stderr_fd = static_cast<int>(raw_syscall(
      SYS_memfd_create, reinterpret_cast<long>("simstderr"), MFD_CLOEXEC));
  setvbuf(stdout, nullptr, _IOLBF, 4096);
  zygote_setup();
  const char* cmd = argc > 1 ? argv[1] : "";
  if (!strcmp(cmd, "list")) {
    for (int i = 0; i < g_nharness; ++i)
      printf("%s %s\n", g_harness[i]->name, g_harness[i]->properties);
    return 0;
  }
  if (!strcmp(cmd, "search")) return cmd_search(argc, argv);
  if (!strcmp(cmd, "run")) return cmd_run(argc, argv);
  if (!strcmp(cmd, "replay") && argc > 2) return cmd_replay(argc, argv);
  if (!strcmp(cmd, "shrink") && argc > 3) return cmd_shrink(argc, argv);
  fprintf(stderr, "usage: %s list|search|run|replay FILE|shrink IN OUT\n", argv[0]);
  return 2;
}

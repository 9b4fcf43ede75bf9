#include "engine.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>

Ctx *g_ctx;

u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p;
  h ^= mix64(n);
  while (n >= 8) { u64 w; memcpy(&w, b, 8); h = (h ^ w) * 0x9fb21c651e98df25ull; h ^= h >> 29; b += 8; n -= 8; }
  u64 w = 0;
  if (n) memcpy(&w, b, n);
  return mix64(h ^ w);
}

void fill_bytes(u64 seed, void *p, size_t n) {
  Rng r(seed ^ 0x5eedb17e5ull);
  u8 *b = (u8 *)p;
  while (n >= 8) { u64 w = r.next(); memcpy(b, &w, 8); b += 8; n -= 8; }
  if (n) { u64 w = r.next(); memcpy(b, &w, n); }
}
Bytes seed_bytes(u64 seed, size_t n) { Bytes b(n); if (n) fill_bytes(seed, b.data(), n); return b; }

std::string hex(const void *p, size_t n, size_t max) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n && i < max; i++) { u8 c = ((const u8 *)p)[i]; s += d[c >> 4]; s += d[c & 15]; }
  if (n > max) s += "..";
  return s;
}

void Ctx::fail(const char *cls, const char *fmt, ...) {
  char buf[1500];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
  throw Violation{cls, buf};
}
static void bump(NamedCount *t, const char *name, u64 n) {
  for (int i = 0; i < MAX_COUNTS; i++) {
    if (t[i].name[0] == 0) { snprintf(t[i].name, sizeof(t[i].name), "%s", name); t[i].n = n; return; }
    if (strncmp(t[i].name, name, sizeof(t[i].name) - 1) == 0) { t[i].n += n; return; }
  }
}
void Ctx::fault(const char *kind, u64 n) { bump(st->fault, kind, n); interesting = true; if (verbose) log("fault %s", kind); }
void Ctx::probe(const char *name, u64 n) { bump(st->probe, name, n); }
void Ctx::state(u64 v) {
  v = mix64(v);
  u32 i = v >> (64 - HLL_BITS);
  u64 rest = (v << HLL_BITS) | (1ull << (HLL_BITS - 1));
  u8 rank = (u8)(__builtin_clzll(rest) + 1);
  if (rank > st->hll[i]) st->hll[i] = rank;
}
void Ctx::log(const char *fmt, ...) {
  if (!verbose) return;
  char buf[1200];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
  note += buf; note += "\n";
}

// ---------------------------------------------------------------- plan text
static std::string plan_text(const Plan &p) {
  std::string s;
  for (auto &st : p.steps) {
    s += scenario.ops[st.op];
    for (auto a : st.a) { char b[32]; snprintf(b, sizeof b, " %lld", (long long)a); s += b; }
    s += "\n";
  }
  return s;
}
static int op_by_name(const std::string &n) {
  for (int i = 0; scenario.ops[i]; i++) if (n == scenario.ops[i]) return i;
  return -1;
}
static bool plan_parse(const char *path, Plan &p) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  char *line = nullptr; size_t cap = 0; bool in = false; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    std::string l(line, n);
    while (!l.empty() && (l.back() == '\n' || l.back() == '\r' || l.back() == ' ')) l.pop_back();
    if (!in) { if (l == "steps") in = true; continue; }
    if (l.empty() || l[0] == '#') continue;
    if (l == "end") break;
    size_t sp = l.find(' ');
    Step st;
    st.op = op_by_name(l.substr(0, sp));
    if (st.op < 0) { fprintf(stderr, "unknown op in plan: %s\n", l.c_str()); exit(3); }
    while (sp != std::string::npos) {
      const char *q = l.c_str() + sp + 1; char *e;
      long long v = strtoll(q, &e, 10);
      if (e == q) break;
      st.a.push_back(v);
      sp = l.find(' ', sp + 1);
    }
    p.steps.push_back(st);
  }
  free(line);
  fclose(f);
  return in;
}

// ---------------------------------------------------------------- execution
static SharedStats *g_st;
static Cfg g_cfg;
static std::vector<std::string> g_known;
static std::string g_errfile;

static const size_t SHAPES_CAP = 1 << 20;
static void alloc_shared() {
  size_t sz = sizeof(SharedStats) + SHAPES_CAP * 8;
  g_st = (SharedStats *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_st == MAP_FAILED) { perror("mmap"); exit(3); }
  g_st->shapes_cap = SHAPES_CAP;
}

static void on_cpu(int) { _exit(97); }
static void arm_cpu(unsigned s) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static u64 run_seed(u64 index) { return hash2(hash2(g_cfg.seed, hash_bytes(scenario.prop, strlen(scenario.prop))), index); }
static Plan gen_plan(u64 index) { Rng r(run_seed(index)); return scenario.gen(r, g_cfg, index); }

// Every run starts as a fresh process would: the library's writable static memory is put back to
// what it was after initialisation, so that no run can depend on the ones before it.
extern "C" {
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
}
struct Image { char *p; size_t n; char *copy; };
static std::vector<Image> g_image;
static __attribute__((no_sanitize("address"), noinline)) void raw_copy(volatile char *d, const volatile char *s, size_t n) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) *(volatile u64 *)(d + i) = *(const volatile u64 *)(s + i);
  for (; i < n; i++) d[i] = s[i];
}
static void image_save() {
  if (__start_libdata && __stop_libdata > __start_libdata) g_image.push_back({__start_libdata, (size_t)(__stop_libdata - __start_libdata), nullptr});
  if (__start_libbss && __stop_libbss > __start_libbss) g_image.push_back({__start_libbss, (size_t)(__stop_libbss - __start_libbss), nullptr});
  for (auto &i : g_image) { i.copy = (char *)malloc(i.n); raw_copy(i.copy, i.p, i.n); }
}
static __attribute__((no_sanitize("address"), noinline)) void image_restore() {
  for (auto &i : g_image) {
    bool same = true;
    for (size_t k = 0; k < i.n && same; k++) same = ((volatile char *)i.p)[k] == ((volatile char *)i.copy)[k];
    if (!same) raw_copy(i.p, i.copy, i.n);
  }
}
void image_reset() { image_restore(); }

// Runs one plan in this process. Returns true if no violation.
static bool exec_plan(const Plan &p, u64 index, bool verbose, std::string *note, std::string *cls, std::string *msg, u64 *hash_out) {
  Ctx c; c.st = g_st; c.cfg = g_cfg; c.verbose = verbose; c.h = 0; g_ctx = &c;
  bool ok = true;
  image_restore();
  arm_cpu(scenario.cpu_limit ? scenario.cpu_limit : 20);
  try { scenario.exec(p, c); }
  catch (const Violation &v) {
    bool known = false;
    for (size_t i = 0; i < g_known.size() && i < KNOWN_MAX; i++) if (g_known[i] == v.cls) {
      known = true;
      snprintf(g_st->known[i].name, sizeof g_st->known[i].name, "%s", v.cls.c_str());
      if (!g_st->known[i].n++) snprintf(g_st->known_msg[i], sizeof g_st->known_msg[i], "%s", v.msg.c_str());
    }
    c.tr(hash_bytes(v.cls.data(), v.cls.size()));
    if (!known) { ok = false; if (cls) *cls = v.cls; if (msg) *msg = v.msg; }
  }
  g_st->steps += p.steps.size();
  g_st->run_hash = c.h;
  g_st->all_hash += hash2(index, c.h);
  if (hash_out) *hash_out = c.h;
  if (note) *note = c.note;
  if (c.interesting) {
    g_st->nontrivial++;
    if (g_st->nshapes < g_st->shapes_cap) g_st->shapes[g_st->nshapes++] = c.shape ? c.shape : c.h;
  }
  g_ctx = nullptr;
  return ok;
}

static void child_setup() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_cpu;
  sigaction(SIGPROF, &sa, nullptr);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  int fd = open(g_errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static std::string crash_class(int status, std::string *msg) {
  std::string cls;
  char buf[128];
  std::string err;
  FILE *f = fopen(g_errfile.c_str(), "r");
  if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { err.append(b, n); if (err.size() > 60000) break; } fclose(f); }
  size_t a = err.find("ERROR: AddressSanitizer: ");
  size_t u = err.find("runtime error: ");
  if (a != std::string::npos) {
    size_t s = a + strlen("ERROR: AddressSanitizer: ");
    size_t e = err.find_first_of(" \n", s);
    cls = "memory-error:" + err.substr(s, e - s);
  } else if (u != std::string::npos && WIFEXITED(status) && WEXITSTATUS(status) != 97) {
    cls = "undefined-behaviour";
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 97) cls = "hang";
  else if (WIFSIGNALED(status)) { snprintf(buf, sizeof buf, "crash:signal-%d", WTERMSIG(status)); cls = buf; }
  else { snprintf(buf, sizeof buf, "exit:%d", WEXITSTATUS(status)); cls = buf; }
  if (msg) {
    std::string m;
    // first frames inside the library help the reader
    size_t pos = 0; int k = 0;
    while (k < 4 && (pos = err.find("    #", pos)) != std::string::npos) {
      size_t e = err.find('\n', pos); std::string l = err.substr(pos + 4, e - pos - 4);
      size_t in = l.find(" in "); if (in != std::string::npos) { m += l.substr(in + 4) + "; "; k++; }
      pos = e;
    }
    if (m.empty()) m = err.substr(0, 300);
    for (auto &ch : m) if (ch == '\n') ch = ' ';
    *msg = cls + " " + m;
  }
  return cls;
}

struct Outcome { bool ok; std::string cls, msg; u64 hash; std::string note; };

// Executes a plan in a forked child. The result is a pure function of plan and code.
static Outcome exec_forked(const Plan &p, u64 index, bool verbose) {
  struct Res { int state; u64 hash; char cls[80]; char msg[1600]; u32 nlen; char note[60000]; };
  Res *r = (Res *)mmap(nullptr, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(r, 0, offsetof(Res, note));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup();
    std::string cls, msg, note; u64 h = 0;
    bool ok = exec_plan(p, index, verbose, verbose ? &note : nullptr, &cls, &msg, &h);
    snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
    snprintf(r->msg, sizeof r->msg, "%s", msg.c_str());
    r->hash = h;
    r->nlen = (u32)std::min(note.size(), sizeof r->note); memcpy(r->note, note.data(), r->nlen);
    r->state = ok ? 1 : 2;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  Outcome o; o.ok = true; o.hash = 0;
  if (r->state == 1) { o.ok = true; o.hash = r->hash; }
  else if (r->state == 2) { o.ok = false; o.cls = r->cls; o.msg = r->msg; o.hash = r->hash; }
  else { o.ok = false; o.cls = crash_class(status, &o.msg); o.hash = hash_bytes(o.cls.data(), o.cls.size()); }
  o.note.assign(r->note, r->nlen);
  munmap(r, sizeof(Res));
  return o;
}

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); }
    else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf(f, "\\u%04x", (unsigned char)*s);
    else fputc(*s, f);
  }
  fputc('"', f);
}
static void json_counts(FILE *f, const NamedCount *t, int max) {
  fputc('{', f);
  for (int i = 0, first = 1; i < max; i++) if (t[i].name[0]) {
    if (!first) fputc(',', f);
    first = 0; json_str(f, t[i].name); fprintf(f, ":%llu", (unsigned long long)t[i].n);
  }
  fputc('}', f);
}

static int cmd_run(u64 from, u64 to, u64 stride, double deadline, const char *out, bool list_hashes) {
  double t0 = now_s();
  u64 i = from;
  bool stop = false;
  std::string vcls, vmsg; u64 vidx = 0; bool viol = false;
  FILE *hf = list_hashes ? fopen((std::string(out) + ".hashes").c_str(), "w") : nullptr;
  while (i < to && !stop) {
    if (now_s() - t0 > deadline) break;
    g_st->current = i; g_st->have_violation = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_setup();
      u64 sampled = 0;
      for (u64 k = i; k < to; k += stride) {
        g_st->current = k;
        Plan p = gen_plan(k);
        std::string cls, msg; u64 h = 0;
        bool ok = exec_plan(p, k, false, nullptr, &cls, &msg, &h);
        if (hf) fprintf(hf, "%llu %016llx\n", (unsigned long long)k, (unsigned long long)h);
        if (!ok) {
          g_st->have_violation = 1; g_st->viol_index = k; g_st->viol_hash = h;
          snprintf(g_st->viol_cls, sizeof g_st->viol_cls, "%s", cls.c_str());
          snprintf(g_st->viol_msg, sizeof g_st->viol_msg, "%s", msg.c_str());
          if (hf) fflush(hf);
          _exit(0);
        }
        g_st->done = g_st->done + 1;
        if (sampled < MAX_SAMPLES && (k / stride) % 97 == sampled * 13) {
          std::string t = plan_text(p); for (auto &ch : t) if (ch == '\n') ch = ';';
          char pre[64]; snprintf(pre, sizeof pre, "run %llu: ", (unsigned long long)k);
          t = pre + t;
          snprintf(g_st->sample[sampled], sizeof g_st->sample[sampled], "%s", t.c_str()); sampled++;
        }
        if (now_s() - t0 > deadline) break;
      }
      if (hf) fflush(hf);
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (g_st->have_violation) { viol = true; vidx = g_st->viol_index; vcls = g_st->viol_cls; vmsg = g_st->viol_msg; stop = true; }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) stop = true;
    else {
      std::string cls = crash_class(status, &vmsg);
      bool known = false;
      for (size_t q = 0; q < g_known.size() && q < KNOWN_MAX; q++) if (g_known[q] == cls) {
        known = true; snprintf(g_st->known[q].name, sizeof g_st->known[q].name, "%s", cls.c_str());
        if (!g_st->known[q].n++) snprintf(g_st->known_msg[q], sizeof g_st->known_msg[q], "%s", vmsg.c_str());
      }
      if (!known) { viol = true; vidx = g_st->current; vcls = cls; stop = true; }
      else i = g_st->current + stride;
    }
  }
  if (hf) fclose(hf);
  FILE *f = fopen(out, "w");
  if (!f) { perror(out); return 3; }
  fprintf(f, "{\"prop\":\"%s\",\"flavour\":", scenario.prop); json_str(f, g_cfg.flavour);
  fprintf(f, ",\"rule\":"); json_str(f, scenario.rule ? scenario.rule : "");
  fprintf(f, ",\"runs\":%llu,\"steps\":%llu,\"evals\":%llu,\"sim_us\":%llu,\"nontrivial\":%llu,\"all_hash\":\"%016llx\",\"wall\":%.3f",
    (unsigned long long)g_st->done, (unsigned long long)g_st->steps, (unsigned long long)g_st->evals,
    (unsigned long long)g_st->sim_us, (unsigned long long)g_st->nontrivial, (unsigned long long)g_st->all_hash, now_s() - t0);
  fprintf(f, ",\"faults\":"); json_counts(f, g_st->fault, MAX_COUNTS);
  fprintf(f, ",\"probes\":"); json_counts(f, g_st->probe, MAX_COUNTS);
  fprintf(f, ",\"known\":{");
  for (int q = 0, first = 1; q < KNOWN_MAX; q++) if (g_st->known[q].n) {
    if (!first) fputc(',', f);
    first = 0; json_str(f, g_st->known[q].name); fprintf(f, ":{\"n\":%llu,\"msg\":", (unsigned long long)g_st->known[q].n);
    json_str(f, g_st->known_msg[q]); fputc('}', f);
  }
  fprintf(f, "},\"samples\":[");
  for (int q = 0, first = 1; q < MAX_SAMPLES; q++) if (g_st->sample[q][0]) { if (!first) fputc(',', f); first = 0; json_str(f, g_st->sample[q]); }
  fprintf(f, "],\"hll\":\"");
  for (int q = 0; q < (1 << HLL_BITS); q++) fputc('0' + g_st->hll[q], f);
  fprintf(f, "\"");
  if (viol) {
    fprintf(f, ",\"violation\":{\"index\":%llu,\"class\":", (unsigned long long)vidx); json_str(f, vcls.c_str());
    fprintf(f, ",\"msg\":"); json_str(f, vmsg.c_str()); fprintf(f, "}");
  }
  fprintf(f, "}\n");
  fclose(f);
  f = fopen((std::string(out) + ".shapes").c_str(), "wb");
  if (f) { fwrite((const void *)g_st->shapes, 8, g_st->nshapes, f); fclose(f); }
  return 0;
}

static void write_replay(const char *path, const Plan &p, u64 index, const Outcome &o, size_t orig) {
  FILE *f = fopen(path, "w");
  if (!f) { perror(path); exit(3); }
  fprintf(f, "property %s\nflavour %s\nseed %llu\nindex %llu\ntier %s\nclass %s\nhash %016llx\n", scenario.prop, g_cfg.flavour,
    (unsigned long long)g_cfg.seed, (unsigned long long)index, g_cfg.thorough ? "thorough" : "quick", o.cls.c_str(), (unsigned long long)o.hash);
  fprintf(f, "message %s\n", o.msg.c_str());
  fprintf(f, "minimised %zu -> %zu steps\nsteps\n", orig, p.steps.size());
  fputs(plan_text(p).c_str(), f);
  fprintf(f, "end\n");
  fclose(f);
}

// Delta debugging over steps, then argument shrinking, keeping the violation class.
static int cmd_minimize(u64 index, const char *in, const char *out, double budget) {
  Plan p;
  if (in) { if (!plan_parse(in, p)) { fprintf(stderr, "bad plan\n"); return 3; } }
  else p = gen_plan(index);
  size_t orig = p.steps.size();
  Outcome o = exec_forked(p, index, false);
  if (o.ok) { fprintf(stderr, "plan does not fail\n"); return 4; }
  std::string cls = o.cls;
  Outcome o2 = exec_forked(p, index, false);
  if (o2.ok || o2.cls != o.cls || o2.hash != o.hash) { fprintf(stderr, "plan not deterministic\n"); return 5; }
  double t0 = now_s();
  auto still = [&](const Plan &q) { if (now_s() - t0 > budget) return false; Outcome x = exec_forked(q, index, false); if (!x.ok && x.cls == cls) { o = x; return true; } return false; };
  bool progress = true;
  while (progress && now_s() - t0 < budget) {
    progress = false;
    size_t chunk = std::max<size_t>(p.steps.size() / 2, 1);
    while (true) {
      for (size_t i = 0; i < p.steps.size();) {
        Plan q;
        for (size_t j = 0; j < p.steps.size(); j++) if (j < i || j >= i + chunk) q.steps.push_back(p.steps[j]);
        if (q.steps.size() < p.steps.size() && still(q)) { p = q; progress = true; } else i += chunk;
        if (now_s() - t0 > budget) break;
      }
      if (chunk == 1 || now_s() - t0 > budget) break;
      chunk = std::max<size_t>(chunk / 2, 1);
    }
    for (size_t i = 0; i < p.steps.size(); i++)
      for (size_t k = 0; k < p.steps[i].a.size(); k++) {
        i64 v = p.steps[i].a[k];
        i64 cand[5] = {0, 1, v / 16, v / 2, v - 1};
        for (i64 c : cand) {
          if (c == v || (c > v && v >= 0)) continue;
          if (v == 0) break;
          Plan q = p; q.steps[i].a[k] = c;
          if (still(q)) { p = q; progress = true; break; }
        }
        if (now_s() - t0 > budget) break;
      }
  }
  o = exec_forked(p, index, false);
  if (o.ok || o.cls != cls) { fprintf(stderr, "minimised plan does not fail\n"); return 5; }
  write_replay(out, p, index, o, orig);
  return 0;
}

static int cmd_replay(const char *in, bool verbose) {
  Plan p;
  if (!plan_parse(in, p)) { fprintf(stderr, "bad plan\n"); return 3; }
  Outcome o = exec_forked(p, 0, verbose);
  printf("{\"ok\":%s,\"hash\":\"%016llx\",\"class\":", o.ok ? "true" : "false", (unsigned long long)o.hash);
  json_str(stdout, o.cls.c_str()); printf(",\"msg\":"); json_str(stdout, o.msg.c_str()); printf("}\n");
  if (verbose) printf("%s", o.note.c_str());
  return 0;
}

int main(int argc, char **argv) {
  std::string cmd = argc > 1 ? argv[1] : "";
  u64 from = 0, to = 1, stride = 1, index = 0;
  double deadline = 1e9, budget = 30;
  const char *out = "/dev/stdout", *in = nullptr;
  bool hashes = false, verbose = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)"0"; };
    if (a == "--seed") g_cfg.seed = strtoull(val(), 0, 10);
    else if (a == "--from") from = strtoull(val(), 0, 10);
    else if (a == "--to") to = strtoull(val(), 0, 10);
    else if (a == "--stride") stride = strtoull(val(), 0, 10);
    else if (a == "--index") index = strtoull(val(), 0, 10);
    else if (a == "--deadline") deadline = atof(val());
    else if (a == "--budget") budget = atof(val());
    else if (a == "--out") out = val();
    else if (a == "--in") in = val();
    else if (a == "--flavour") g_cfg.flavour = val();
    else if (a == "--thorough") g_cfg.thorough = 1;
    else if (a == "--hashes") hashes = true;
    else if (a == "--verbose") verbose = true;
    else if (a == "--known") { std::string k = val(); size_t s = 0; while (s < k.size()) { size_t e = k.find(',', s); if (e == std::string::npos) e = k.size(); g_known.push_back(k.substr(s, e - s)); s = e + 1; } }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  char ef[128]; snprintf(ef, sizeof ef, "/tmp/verif-sim-%d.err", (int)getpid()); g_errfile = ef;
  const char *td = getenv("VERIF_SCRATCH");
  if (td) { snprintf(ef, sizeof ef, "%s/err-%d", td, (int)getpid()); g_errfile = ef; }
  alloc_shared();
  if (scenario.init) scenario.init(g_cfg);
  image_save();
  int rc = 3;
  if (cmd == "run") rc = cmd_run(from, to, stride, deadline, out, hashes);
  else if (cmd == "minimize") rc = cmd_minimize(index, in, out, budget);
  else if (cmd == "replay") rc = cmd_replay(in, verbose);
  else if (cmd == "gen") { Plan p = gen_plan(index); fputs(plan_text(p).c_str(), stdout); rc = 0; }
  else if (cmd == "one") { Plan p = gen_plan(index); Outcome o = exec_forked(p, index, verbose); printf("%s %s %s %016llx\n%s", o.ok ? "ok" : "FAIL", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash, o.note.c_str()); rc = 0; }
  else fprintf(stderr, "usage: sim run|minimize|replay|gen|one ...\n");
  unlink(g_errfile.c_str());
  return rc;
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:fast_unwind_on_malloc=1:malloc_context_size=4:quarantine_size_mb=16"; }
#endif

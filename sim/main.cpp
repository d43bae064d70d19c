// Search, minimisation and replay. Every run is a forked copy of the initialised process.
#include "sim_int.h"
#include <fcntl.h>
#include <sched.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <glib.h>
#include <gio/gio.h>

void sim_install_handlers (void);
extern "C" void sim_zygote_warmup (void); extern "C" void alloc_warmup_done (void);
static SimWorkload *g_wl;
SimWorkload::SimWorkload (const char *p, SimWorkloadFn f) : prop (p), fn (f), next (g_wl) { g_wl = this; }

static double mono (void)
{
  struct timespec ts; syscall (SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
struct Input { std::vector<Sched> s; std::vector<Fault> f; std::vector<Gen> g; };

static SimWorkload *workload;
// returns SH->status
// The kernel frees what ended processes held a little later. With many runs per second on all cores it can fall
// behind by gigabytes: give it time to catch up.
static void let_kernel_catch_up (void)
{
  static unsigned n; if (++n % 32) return;
  for (int k = 0; k < 100; k++)
    {
      unsigned long total = 0, avail = 0; char l[128]; FILE *f = fopen ("/proc/meminfo", "r"); if (!f) return;
      while (fgets (l, sizeof l, f)) { sscanf (l, "MemTotal: %lu", &total); if (sscanf (l, "MemAvailable: %lu", &avail) == 1) break; }
      fclose (f);
      if (avail >= total / 2) return;
      struct timespec ts = { 0, 50000000 }; nanosleep (&ts, NULL);
    }
}

static int run_once (uint64_t seed, const Input *in)
{
  let_kernel_catch_up ();
  // only the header part: the lists are bounded by their counters
  memset (SH, 0, offsetof (Shared, sched));
  fflush (stdout);
  pid_t pid = fork ();
  if (pid == 0)
    {
      Replay rp; memset (&rp, 0, sizeof rp);
      if (in) { rp.on = true; rp.sched = in->s.data (); rp.nsched = in->s.size (); rp.fault = in->f.data (); rp.nfault = in->f.size (); rp.gen = in->g.data (); rp.ngen = in->g.size (); }
      if (!getenv ("DEXSIM_VERBOSE")) { int nul = open ("/dev/null", O_WRONLY); if (nul >= 0) { dup2 (nul, 1); syscall (SYS_close, nul); } }
      alloc_begin_run ();
      sim_begin (seed, rp);
      workload->fn ();
      sim_end_ok ();
    }
  if (pid < 0) { perror ("fork"); exit (3); }
  int st; while (waitpid (pid, &st, 0) < 0 && errno == EINTR) ;
  if (SH->status == 0)
    {
      snprintf (SH->cls, sizeof SH->cls, "internal"); snprintf (SH->msg, sizeof SH->msg, "run ended without a verdict (wait status %#x)", st);
      SH->status = 3;
    }
  return SH->status;
}
static Input taken (void)
{
  Input i;
  i.s.assign (SH->sched, SH->sched + SH->nsched); i.f.assign (SH->fault, SH->fault + SH->nfault); i.g.assign (SH->gen, SH->gen + SH->ngen);
  return i;
}
static std::string esc (const char *s)
{
  std::string o;
  for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if (*s == '\n') o += "\\n"; else if ((unsigned char) *s < 32 || (unsigned char) *s > 126) o += '?'; else o += *s; }
  return o;
}
static void write_replay (const char *path, uint64_t seed, const Input &in, const char *cls, const char *msg, const char *note, uint64_t hash)
{
  FILE *f = fopen (path, "w"); if (!f) { perror (path); exit (3); }
  fprintf (f, "dexsim-replay 1\nproperty %s\nbackend %s\nseed %lu\nclass %s\nhash %lx\n", workload->prop, g_backend_uring ? "uring" : "posix", (unsigned long) seed, cls, (unsigned long) hash);
  fprintf (f, "# %s\n# program: %s\n", esc (msg).c_str (), esc (note).c_str ());
  fprintf (f, "gen"); for (auto &g : in.g) fprintf (f, " %d/%d", g.val, g.n); fprintf (f, "\n");
  for (auto &s : in.s) fprintf (f, "switch thread %d step %lu to %d\n", s.tid, (unsigned long) s.lstep, s.next);
  for (auto &x : in.f) fprintf (f, "fault %s %u %d\n", sim_fault_names[x.kind], x.idx, x.val);
  fclose (f);
}

static Input minimise (uint64_t seed, Input cur, std::string cls, double budget, int *runs)
{
  double t0 = mono ();
  auto out_of_time = [&] { return mono () - t0 > budget || *runs > 6000; };
  auto attempt = [&] (const Input &c) { if (out_of_time ()) return false; (*runs)++; return run_once (seed, &c) == 2 && cls == SH->cls; };
  auto ddmin = [&] (auto get) {
    size_t chunk = get (cur).size ();
    while (chunk > 0 && !out_of_time ())
      {
        bool any = false;
        for (size_t at = 0; at < get (cur).size () && !out_of_time ();)
          {
            Input c = cur; auto &v = get (c); size_t e = std::min (v.size (), at + chunk);
            v.erase (v.begin () + at, v.begin () + e);
            if (attempt (c)) { cur = c; any = true; } else at += chunk;
          }
        if (!any || chunk == 1) { if (chunk == 1 && !any) break; chunk = chunk > 1 ? chunk / 2 : 1; }
      }
  };
  for (int round = 0; round < 4 && !out_of_time (); round++)
    {
      size_t before = cur.s.size () + cur.f.size () + cur.g.size ();
      int sum = 0; for (auto &g : cur.g) sum += g.val;
      ddmin ([] (Input &i) -> std::vector<Fault> & { return i.f; });
      ddmin ([] (Input &i) -> std::vector<Sched> & { return i.s; });
      // program: cut tails, drop spans, then lower values
      for (size_t cut = cur.g.size (); cut > 0 && !out_of_time (); cut /= 2)
        { Input c = cur; if (c.g.size () > cut) continue; size_t keep = c.g.size () - cut; c.g.resize (keep); if (attempt (c)) { cur = c; cut = cur.g.size () + 1; } }
      for (size_t i = 0; i < cur.g.size () && !out_of_time (); i++)
        {
          if (cur.g[i].val == 0) continue;
          Input c = cur; c.g[i].val = 0; if (attempt (c)) { cur = c; continue; }
          for (int v = cur.g[i].val / 2; v < cur.g[i].val && !out_of_time ();)
            { c = cur; c.g[i].val = v; if (attempt (c)) { cur = c; break; } int nv = (v + cur.g[i].val + 1) / 2; if (nv == v) break; v = nv; if (cur.g[i].val - v < 1) break; }
        }
      int sum2 = 0; for (auto &g : cur.g) sum2 += g.val;
      if (cur.s.size () + cur.f.size () + cur.g.size () == before && sum == sum2) break;
    }
  return cur;
}

static bool load_replay (const char *path, std::string &prop, std::string &backend, uint64_t &seed, std::string &cls, uint64_t &hash, Input &in)
{
  FILE *f = fopen (path, "r"); if (!f) return false;
  char *line = NULL; size_t cap = 0; ssize_t l; bool ok = false;
  while ((l = getline (&line, &cap, f)) > 0)
    {
      while (l && (line[l - 1] == '\n')) line[--l] = 0;
      unsigned long a; int x, y; char nm[64]; unsigned u;
      if (!strcmp (line, "dexsim-replay 1")) ok = true;
      else if (!strncmp (line, "property ", 9)) prop = line + 9;
      else if (!strncmp (line, "backend ", 8)) backend = line + 8;
      else if (!strncmp (line, "class ", 6)) cls = line + 6;
      else if (sscanf (line, "seed %lu", &a) == 1) seed = a;
      else if (sscanf (line, "hash %lx", &a) == 1) hash = a;
      else if (!strncmp (line, "gen", 3)) { char *p = line + 3; int v, n, k; while (sscanf (p, " %d/%d%n", &v, &n, &k) == 2) { in.g.push_back ({ v, n }); p += k; } }
      else if (sscanf (line, "switch thread %d step %lu to %d", &x, &a, &y) == 3) in.s.push_back ({ x, y, a });
      else if (sscanf (line, "fault %63s %u %d", nm, &u, &x) == 3)
        { for (int i = 0; i < F_NUM; i++) if (!strcmp (nm, sim_fault_names[i])) in.f.push_back ({ i, x, u }); }
    }
  free (line); fclose (f);
  return ok;
}

int main (int argc, char **argv)
{
  int per = personality (0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv ("DEXSIM_NOREEXEC") && personality (per | ADDR_NO_RANDOMIZE) != -1)
    {
      setenv ("DEXSIM_NOREEXEC", "1", 1);
      execv ("/proc/self/exe", argv);
    }
  std::string mode, arg, out, hashes, replay_dir = ".";
  std::vector<std::pair<std::string, std::string>> knowns; std::map<std::string, uint64_t> known_seen;
  uint64_t seed0 = 1, stride = 1, maxruns = 1000000000; double secs = 10; int cpu = -1; bool nomin = false; int twice = 0; double mintime = 60;
  for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      auto nx = [&] { if (i + 1 >= argc) { fprintf (stderr, "missing argument\n"); exit (64); } return std::string (argv[++i]); };
      if (a == "--search" || a == "--replay" || a == "--one") { mode = a; arg = nx (); }
      else if (a == "--list") mode = a;
      else if (a == "--seed0") seed0 = strtoull (nx ().c_str (), 0, 10);
      else if (a == "--stride") stride = strtoull (nx ().c_str (), 0, 10);
      else if (a == "--max") maxruns = strtoull (nx ().c_str (), 0, 10);
      else if (a == "--secs") secs = atof (nx ().c_str ());
      else if (a == "--out") out = nx ();
      else if (a == "--hashes") hashes = nx ();
      else if (a == "--replay-out") replay_dir = nx ();
      else if (a == "--known") { std::string c = nx (), m = nx (); knowns.push_back ({ c, m }); }
      else if (a == "--cpu") cpu = atoi (nx ().c_str ());
      else if (a == "--steps") g_steps_cap = strtoull (nx ().c_str (), 0, 10);
      else if (a == "--twice") twice = 1;          // determinism test: every seed twice, and once as a replay
      else if (a == "--nomin") nomin = true;
      else if (a == "--mintime") mintime = atof (nx ().c_str ());
      else if (a == "-v") g_verbose = 1;
      else if (a == "-vv") g_verbose = 2;
      else { fprintf (stderr, "unknown option %s\n", a.c_str ()); return 64; }
    }
  if (cpu >= 0) { cpu_set_t cs; CPU_ZERO (&cs); CPU_SET (cpu, &cs); sched_setaffinity (0, sizeof cs, &cs); }
  SH = (Shared *) mmap (NULL, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (SH == MAP_FAILED) { perror ("mmap"); return 3; }
  sim_install_handlers ();
  g_warming = 1; sim_zygote_warmup (); g_warming = 0; alloc_warmup_done ();
  if (mode == "--list") { for (SimWorkload *w = g_wl; w; w = w->next) puts (w->prop); return 0; }
  auto find_wl = [&] (const std::string &p) { for (SimWorkload *w = g_wl; w; w = w->next) if (p == w->prop) workload = w; if (!workload) { fprintf (stderr, "no workload for %s\n", p.c_str ()); exit (64); } };

  if (mode == "--replay")
    {
      Input in; std::string prop, backend, cls; uint64_t seed = 0, hash = 0;
      if (!load_replay (arg.c_str (), prop, backend, seed, cls, hash, in)) { fprintf (stderr, "cannot read replay file\n"); return 3; }
      if ((backend == "uring") != (g_backend_uring != 0))
        { if (getenv ("DEXSIM_SWITCHED")) { fprintf (stderr, "backend\n"); return 3; } setenv ("DEXSIM_SWITCHED", "1", 1); setenv ("DEXSIM_URING", backend == "uring" ? "1" : "0", 1); execv ("/proc/self/exe", argv); }
      find_wl (prop);
      int st = run_once (seed, &in);
      printf ("status=%d class=%s hash=%lx expected_class=%s expected_hash=%lx\nmessage: %s\nthreads: %s\nprogram: %s\n", st, SH->cls, (unsigned long) SH->hash, cls.c_str (), (unsigned long) hash, SH->msg, SH->where, SH->note);
      if (st == 2 && cls == SH->cls && hash == SH->hash) return 1;
      return st == 1 ? 0 : 3;
    }
  if (mode == "--one")
    {
      find_wl (arg);
      int st = run_once (seed0, NULL);
      printf ("seed=%lu status=%d class=%s hash=%lx steps=%lu switches=%lu threads=%lu\nmessage: %s\nthreads: %s\nprogram: %s\n", (unsigned long) seed0, st, SH->cls, (unsigned long) SH->hash, SH->steps, SH->switches, SH->nthreads, SH->msg, SH->where, SH->note);
      return st == 1 ? 0 : 1;
    }
  if (mode != "--search") { fprintf (stderr, "nothing to do\n"); return 64; }
  find_wl (arg);
  double t0 = mono ();
  uint64_t runs = 0, steps = 0, switches = 0, preempts = 0, evals = 0, simus = 0, nontrivial = 0, threads = 0, internal = 0, nondet = 0, maxsteps = 0;
  uint64_t fired[F_NUM] = { 0 }, opps[F_NUM] = { 0 }, runs_with[F_NUM] = { 0 };
  std::map<std::string, uint64_t> probes; std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples; std::string viol, ierr;
  uint64_t seed = seed0;
  for (; runs < maxruns && mono () - t0 < secs; seed += stride)
    {
      int st = run_once (seed, NULL);
      runs++;
      steps += SH->steps; switches += SH->switches; preempts += SH->preempts; evals += SH->evals; simus += SH->sim_us > 100000000000ull ? SH->sim_us - 100000000000ull : 0; threads += SH->nthreads;
      if (SH->steps > maxsteps) maxsteps = SH->steps;
      for (int i = 0; i < F_NUM; i++) { fired[i] += SH->fired[i]; opps[i] += SH->opps[i]; runs_with[i] += SH->fired[i] > 0; }
      for (auto &p : SH->probe) if (p.name[0]) probes[p.name] += p.n; else break;
      if ((SH->preempts > 0 || SH->nfault > 0 || SH->switches > 1) && SH->evals > 0 && seen.insert (SH->hash).second) nontrivial++;
      if (samples.size () < 3 && st == 1 && (runs % 7) == 3)
        {
          char b[1600]; snprintf (b, sizeof b, "seed %lu (%s): %s | %lu threads, %lu steps, %lu switches (%lu preemptive), %u faults, hash %lx", (unsigned long) seed, g_backend_uring ? "io_uring" : "posix", SH->note, SH->nthreads, SH->steps, SH->switches, SH->preempts, SH->nfault, (unsigned long) SH->hash);
          samples.push_back (esc (b));
        }
      if (twice && st != 3)
        {
          uint64_t h = SH->hash; int s1 = st; Input in = taken ();
          run_once (seed, NULL);
          if (SH->hash != h || SH->status != s1) { nondet++; fprintf (stderr, "nondeterministic: seed %lu %lx/%lx\n", (unsigned long) seed, (unsigned long) h, (unsigned long) SH->hash); }
          run_once (seed, &in);
          if (SH->hash != h || SH->status != s1) { nondet++; fprintf (stderr, "replay differs: seed %lu %lx/%lx status %d/%d %s\n", (unsigned long) seed, (unsigned long) h, (unsigned long) SH->hash, s1, SH->status, SH->msg); }
          SH->status = st;
          if (st == 2) { fprintf (stderr, "seed %lu: violation\n", (unsigned long) seed); }
          continue;
        }
      if (st == 3) { internal++; if (ierr.empty ()) ierr = "seed " + std::to_string (seed) + ": " + esc (SH->cls) + " " + esc (SH->msg); if (internal > 5) break; }
      if (st == 2)
        {
          bool kn = false;
          for (auto &k : knowns) if (k.first == SH->cls && (k.second.empty () || strstr (SH->msg, k.second.c_str ()))) { known_seen[k.first]++; kn = true; break; }
          if (kn) continue;
          std::string cls = SH->cls; Input in = taken ();
          char orig[1500]; snprintf (orig, sizeof orig, "%s", SH->msg);
          uint64_t h1 = SH->hash;
          // gate 1: the same seed again gives the same history
          run_once (seed, NULL);
          if (SH->status != 2 || SH->hash != h1) { ierr = "seed " + std::to_string (seed) + " is not reproducible: " + esc (orig); internal++; break; }
          // gate 2: the recorded decisions alone give the same failure
          run_once (seed, &in);
          if (SH->status != 2 || cls != SH->cls) { ierr = "seed " + std::to_string (seed) + " does not replay from its decisions: " + esc (orig) + " / " + esc (SH->cls) + " " + esc (SH->msg); internal++; break; }
          int mr = 0; size_t b_s = in.s.size (), b_f = in.f.size (), b_g = in.g.size ();
          Input m = nomin ? in : minimise (seed, in, cls, mintime, &mr);
          run_once (seed, &m);
          if (SH->status != 2 || cls != SH->cls) { m = in; run_once (seed, &m); }
          // keep the normalised program, drop ineffective entries
          char path[600]; snprintf (path, sizeof path, "%s/%s-%s-%lu.replay", replay_dir.c_str (), workload->prop, g_backend_uring ? "uring" : "posix", (unsigned long) seed);
          write_replay (path, seed, m, SH->cls, SH->msg, SH->note, SH->hash);
          char b[4000];
          snprintf (b, sizeof b, "{\"seed\":%lu,\"class\":\"%s\",\"message\":\"%s\",\"program\":\"%s\",\"replay\":\"%s\",\"switches\":[%zu,%zu],\"faults\":[%zu,%zu],\"choices\":[%zu,%zu],\"min_runs\":%d}", (unsigned long) seed, esc (SH->cls).c_str (), esc (SH->msg).c_str (), esc (SH->note).c_str (), path, b_s, m.s.size (), b_f, m.f.size (), b_g, m.g.size (), mr);
          viol = b;
          break;
        }
    }
  double wall = mono () - t0;
  FILE *f = out.empty () ? stdout : fopen (out.c_str (), "w");
  if (!f) { perror ("out"); return 3; }
  fprintf (f, "{\"property\":\"%s\",\"backend\":\"%s\",\"seed0\":%lu,\"stride\":%lu,\"last_seed\":%lu,\"runs\":%lu,\"nontrivial\":%lu,\"distinct\":%zu,\"steps\":%lu,\"max_steps\":%lu,\"switches\":%lu,\"preemptions\":%lu,\"threads\":%lu,\"evals\":%lu,\"sim_us\":%lu,\"wall\":%.3f,\"internal\":%lu,\"nondet\":%lu,",
           workload->prop, g_backend_uring ? "uring" : "posix", seed0, stride, seed, runs, nontrivial, seen.size (), steps, maxsteps, switches, preempts, threads, evals, simus, wall, internal, nondet);
  fprintf (f, "\"internal_msg\":\"%s\",\"faults\":{", ierr.c_str ());
  bool first = true;
  for (int i = 0; i < F_NUM; i++) if (opps[i] || fired[i]) { fprintf (f, "%s\"%s\":{\"fired\":%lu,\"opportunities\":%lu,\"runs_with\":%lu}", first ? "" : ",", sim_fault_names[i], fired[i], opps[i], runs_with[i]); first = false; }
  fprintf (f, "},\"probes\":{"); first = true;
  for (auto &p : probes) { fprintf (f, "%s\"%s\":%lu", first ? "" : ",", esc (p.first.c_str ()).c_str (), p.second); first = false; }
  fprintf (f, "},\"samples\":["); first = true;
  for (auto &s : samples) { fprintf (f, "%s\"%s\"", first ? "" : ",", s.c_str ()); first = false; }
  fprintf (f, "],\"known\":{"); first = true;
  for (auto &k : known_seen) { fprintf (f, "%s\"%s\":%lu", first ? "" : ",", esc (k.first.c_str ()).c_str (), k.second); first = false; }
  fprintf (f, "},\"violation\":%s}\n", viol.empty () ? "null" : viol.c_str ());
  if (f != stdout) fclose (f);
  if (!hashes.empty ()) { FILE *h = fopen (hashes.c_str (), "wb"); if (h) { for (uint64_t v : seen) fwrite (&v, 8, 1, h); fclose (h); } }
  return internal || nondet ? 3 : viol.empty () ? 0 : 1;
}

#ifdef VH_GCOV   // tools/cov.py: the children end with _exit, which writes no coverage counts
#include <unistd.h>
extern "C" void __gcov_dump(); static void vh_exit(int c) { __gcov_dump(); (_exit)(c); }
#define _exit(c) vh_exit(c)
#endif
#include "vh.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unordered_set>
#include <dirent.h>

namespace vh {
uint64_t * g_sink = 0;
std::vector<Sub> & registry() { static std::vector<Sub> r; return r; }
}
using namespace vh;

static const int CASE_CPU_SECONDS = 30;   // a case normally needs milliseconds

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
static uint64_t hash_str(std::string const & s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }
static uint64_t case_seed(uint64_t seed, std::string const & sub, uint64_t idx) { return mix(mix(mix(0x1234, seed), hash_str(sub)), idx); }

static void cpu_limit(int sec) {
  struct itimerval tv; std::memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &tv, 0);
}
static void clean_dir(std::string const & d) {
  if (d.empty()) return;
  DIR * p = opendir(d.c_str()); if (!p) return;
  while (struct dirent * e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; unlink((d + "/" + n).c_str()); }
  closedir(p);
}

// returns empty string when the property held
static std::string run_case(Sub const & sub, Src & src, Case & c, std::string const & scratch) {
  c.scratch = scratch;
  try { sub.fn(src, c); }
  catch (Failure const & f) { return f.msg.empty() ? std::string("failure") : f.msg; }
  catch (std::exception const & e) { return std::string("unexpected exception escaped"); }
  catch (...) { return "unexpected non-standard exception escaped"; }
  return "";
}

static Sub const * find_sub(std::string const & n) { for (Sub const & s : registry()) if (s.name == n) return &s; return 0; }

static std::string oneline(std::string s) { for (char & ch : s) if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' '; return s; }

// run a choice sequence in a forked child; outcome: 0 held, 1 failed (msg), 2 crashed/hung
static int forked(Sub const & sub, std::vector<uint64_t> const & buf, std::string const & scratch, std::string & msg, std::vector<uint64_t> * rec, std::string * desc) {
  int fd[2]; if (pipe(fd)) return 0;
  fflush(0);
  if (g_sink) g_sink[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    cpu_limit(CASE_CPU_SECONDS);
    Src src(buf); Case c;
    std::string m = run_case(sub, src, c, scratch);
    std::string out = (m.empty() ? "H" : "F") + oneline(m) + "\n";
    for (uint64_t v : src.record()) out += std::to_string(v) + " ";
    out += "\n" + oneline(c.desc.str()) + "\n";
    size_t off = 0; while (off < out.size()) { ssize_t w = write(fd[1], out.data() + off, out.size() - off); if (w <= 0) break; off += (size_t)w; }
    _exit(0);
  }
  close(fd[1]);
  std::string all; char b[4096]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) all.append(b, (size_t)n);
  close(fd[0]);
  int st = 0; waitpid(pid, &st, 0);
  clean_dir(scratch);
  if (all.empty()) {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF)) msg = "did not terminate within " + std::to_string(CASE_CPU_SECONDS) + " s of CPU time";
    else if (WIFSIGNALED(st)) msg = "crashed with signal " + std::to_string(WTERMSIG(st));
    else msg = "aborted by sanitizer or exit status " + std::to_string(WEXITSTATUS(st));
    if (rec) { if (g_sink) rec->assign(g_sink + 1, g_sink + 1 + g_sink[0]); else *rec = buf; }
    return 2;
  }
  std::istringstream is(all); std::string l1, l2, l3; std::getline(is, l1); std::getline(is, l2); std::getline(is, l3);
  if (rec) { rec->clear(); std::istringstream r(l2); uint64_t v; while (r >> v) rec->push_back(v); }
  if (desc) *desc = l3;
  if (l1[0] == 'H') return 0;
  msg = l1.substr(1);
  return 1;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

static std::vector<uint64_t> shrink(Sub const & sub, std::vector<uint64_t> best, std::string const & scratch, std::string & msg, double budget) {
  double t0 = now(); int evals = 0;
  bool hang = msg.find("did not terminate") != std::string::npos;
  int max_evals = hang ? 6 : 4000;
  auto over = [&]() { return evals > max_evals || now() - t0 > budget; };
  auto attempt = [&](std::vector<uint64_t> const & cand) -> bool {
    ++evals; std::string m; std::vector<uint64_t> rec;
    int r = forked(sub, cand, scratch, m, &rec, 0);
    if (r == 0) return false;
    best = rec.size() <= cand.size() ? rec : cand;
    msg = m; return true;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.size() / 2); ; chunk /= 2) {           // delete chunks
      for (size_t i = best.size(); i > 0 && !over(); ) {
        size_t start = i >= chunk ? i - chunk : 0;
        if (start >= best.size()) { i = best.size(); if (i == 0) break; start = i >= chunk ? i - chunk : 0; }
        std::vector<uint64_t> cand(best);
        cand.erase(cand.begin() + (long)start, cand.begin() + (long)std::min(start + chunk, cand.size()));
        if (cand.size() < best.size() && attempt(cand)) progress = true;
        i = start;
      }
      if (chunk <= 1 || over()) break;
    }
    for (size_t i = 0; i < best.size() && !over(); ++i) {                                 // lower values
      if (best[i] == 0) continue;
      std::vector<uint64_t> cand(best); cand[i] = 0;
      if (attempt(cand)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (hi - lo > 1 && !over() && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2; cand = best; cand[i] = mid;
        if (attempt(cand)) { progress = true; hi = mid; } else lo = mid;
      }
    }
  }
  return best;
}

static int usage() { std::fprintf(stderr, "bad arguments\n"); return 2; }

int main(int argc, char ** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) { std::string k = argv[i]; if (k.compare(0, 2, "--")) return usage(); size_t e = k.find('='); if (e == std::string::npos) a[k.substr(2)] = "1"; else a[k.substr(2, e - 2)] = k.substr(e + 1); }
  std::sort(registry().begin(), registry().end(), [](Sub const & x, Sub const & y) { return x.name < y.name; });
  std::string scratch = a["scratch"];
  if (!a.count("verbose")) { int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); if (!a.count("stderr")) {} } }
  std::cerr.rdbuf(0); std::clog.rdbuf(0);
  if (a.count("list")) { for (Sub const & s : registry()) std::fprintf(stderr, "%s\n", s.name.c_str()); return 0; }
  if (a.count("run")) {
    uint64_t seed = strtoull(a["seed"].c_str(), 0, 10), cases = strtoull(a["cases"].c_str(), 0, 10), shard = strtoull(a["shard"].c_str(), 0, 10), nshards = strtoull(a["nshards"].c_str(), 0, 10);
    std::string out = a["out"];
    int sfd = open((out + ".status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (sfd < 0 || ftruncate(sfd, 64)) return 2;
    uint64_t * status = (uint64_t *)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, sfd, 0);
    status[0] = 0; // 1 = in case
    std::unordered_set<uint64_t> seen;
    std::map<std::string, uint64_t> labels;
    std::ofstream rep((out + ".report").c_str());
    FILE * hf = fopen((out + ".hashes").c_str(), "wb");
    for (size_t si = 0; si < registry().size(); ++si) {
      Sub const & sub = registry()[si];
      if (a.count("only") && sub.name != a["only"]) continue;
      uint64_t n = (uint64_t)((double)cases * sub.weight + 0.5), evals = 0, nontriv = 0; int samples = 0;
      for (uint64_t idx = shard; idx < n; idx += nshards) {
        status[1] = si; status[2] = idx; status[0] = 1;
        cpu_limit(CASE_CPU_SECONDS);
        Src src(case_seed(seed, sub.name, idx)); Case c;
        std::string m = run_case(sub, src, c, scratch);
        clean_dir(scratch);
        ++evals;
        if (!m.empty()) { std::ofstream f((out + ".fail").c_str()); f << oneline(m) << "\n"; f.close(); rep.flush(); _exit(3); }
        if (c.nontrivial) {
          uint64_t h = hash_str(sub.name); for (uint64_t v : src.record()) h = mix(h, v);
          if (seen.insert(h).second) { ++nontriv; fwrite(&h, 8, 1, hf); }
          if (samples < 2 && shard == 0) { std::string d = oneline(c.desc.str()); if (!d.empty()) { if (d.size() > 600) d = d.substr(0, 600) + "..."; rep << "SAMPLE\t" << sub.name << "\t" << d << "\n"; ++samples; } }
        }
        for (std::string const & l : c.labels) ++labels[sub.name + ":" + l];
        status[0] = 0;
      }
      rep << "SUB\t" << sub.name << "\t" << evals << "\t" << nontriv << "\n";
    }
    for (auto const & l : labels) rep << "LABEL\t" << l.first << "\t" << l.second << "\n";
    rep << "DONE\n"; rep.close(); fclose(hf);
    _exit(0);
  }
  if (a.count("shrink")) {
    Sub const * sub = 0;
    if (a.count("sub")) sub = find_sub(a["sub"]); else if (a.count("subindex")) { size_t i = (size_t)atol(a["subindex"].c_str()); if (i < registry().size()) sub = &registry()[i]; }
    if (!sub) return 2;
    uint64_t seed = strtoull(a["seed"].c_str(), 0, 10), idx = strtoull(a["case"].c_str(), 0, 10);
    g_sink = (uint64_t *)mmap(0, (SINK_CAP + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<uint64_t> rec; std::string msg, desc;
    g_sink[0] = 0;
    pid_t pid = fork();
    if (pid == 0) { cpu_limit(CASE_CPU_SECONDS); Src src(case_seed(seed, sub->name, idx)); Case c; std::string m = run_case(*sub, src, c, scratch); _exit(m.empty() ? 0 : 3); }
    int st; waitpid(pid, &st, 0); clean_dir(scratch);
    rec.assign(g_sink + 1, g_sink + 1 + g_sink[0]);
    std::ofstream f(a["out"].c_str());
    f << "# replay of a generated case; run:  <binary> --replay=<this file>\n";
    f << "sub " << sub->name << "\n";
    if (rec.empty()) {           // crashed: replay by seed (the record died with the process)
      f << "seeded " << seed << " " << idx << "\n";
      f.close(); return 0;
    }
    int r = forked(*sub, rec, scratch, msg, 0, &desc);
    if (r == 0) { f << "seeded " << seed << " " << idx << "\n"; return 0; }
    rec = shrink(*sub, rec, scratch, msg, 45.0);
    std::vector<uint64_t> rr; r = forked(*sub, rec, scratch, msg, &rr, &desc);
    f << "message " << oneline(msg) << "\n" << "case " << desc << "\n" << "choices";
    for (uint64_t v : rec) f << " " << v;
    f << "\n";
    return 0;
  }
  if (a.count("replay")) {
    std::ifstream f(a["replay"].c_str()); std::string line, name; std::vector<uint64_t> buf; bool have = false, seeded = false; uint64_t seed = 0, idx = 0;
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "sub") is >> name;
      else if (k == "choices") { have = true; uint64_t v; while (is >> v) buf.push_back(v); }
      else if (k == "seeded") { seeded = true; is >> seed >> idx; }
    }
    Sub const * sub = find_sub(name); if (!sub || (!have && !seeded)) { std::fprintf(stderr, "cannot replay\n"); return 2; }
    cpu_limit(CASE_CPU_SECONDS);
    Case c; std::string m;
    if (have) { Src src(buf); m = run_case(*sub, src, c, scratch); }
    else { Src src(case_seed(seed, sub->name, idx)); m = run_case(*sub, src, c, scratch); }
    clean_dir(scratch);
    if (m.empty()) { std::fprintf(stderr, "held: %s\n", name.c_str()); _exit(0); }
    std::fprintf(stderr, "FAILED %s: %s\ncase: %s\n", name.c_str(), m.c_str(), c.desc.str().c_str());
    _exit(3);
  }
  return usage();
}

#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <typeinfo>
#include <cxxabi.h>

#include "pbt.h"

namespace pbt {
std::vector<Sub> &subs() {
  static std::vector<Sub> s;
  return s;
}

uint32_t G::raw(uint32_t bound) {
  if (bound == 0) throw Discard{};
  uint32_t pos = *len_;
  if (pos >= kMaxTape) throw Discard{};
  uint32_t v;
  if (is_rep_) {
    v = pos < rep_len_ ? rep_[pos] : 0;
    if (v >= bound) v = bound - 1;
  } else {
    v = static_cast<uint32_t>((static_cast<unsigned __int128>(next()) * bound) >> 64);
  }
  tape_[pos] = v;
  *len_ = pos + 1;
  return v;
}
namespace {
sigjmp_buf g_jmp;
void OnAbort(int) { siglongjmp(g_jmp, 1); }
}  // namespace
bool Rejects(const std::function<void()> &f) {
  struct sigaction sa {}, old {};
  sa.sa_handler = OnAbort;
  sigemptyset(&sa.sa_mask);
  sigaction(SIGABRT, &sa, &old);
  volatile bool rej = false;
  if (sigsetjmp(g_jmp, 1) == 0) {
    try {
      f();
    } catch (const Fail &) {
      sigaction(SIGABRT, &old, nullptr);
      throw;
    } catch (const Discard &) {
      sigaction(SIGABRT, &old, nullptr);
      throw;
    } catch (const std::exception &) {
      rej = true;
    }
  } else {
    rej = true;
  }
  sigaction(SIGABRT, &old, nullptr);
  return rej;
}
}  // namespace pbt

using namespace pbt;

namespace {
constexpr int kMaxSubs = 64;
constexpr int kMaxLabels = 512;
constexpr int kMaxSamples = 64;
constexpr size_t kMaxHash = 1u << 22;

enum Outcome { kOk = 0, kDiscard = 1, kFail = 2, kHang = 3, kCrash = 4 };

struct Shm {  // one per worker
  volatile uint32_t sub, case_idx, tape_len, state;  // state 1 = running a case
  uint32_t tape[G::kMaxTape];
  volatile uint32_t outcome;
  char key[512];
  char msg[8192];
  // statistics
  uint64_t evals[kMaxSubs], nontriv[kMaxSubs], discards[kMaxSubs];
  volatile uint64_t nhash;
  uint64_t hash[kMaxHash];
  char label[kMaxLabels][96];
  uint64_t label_cnt[kMaxLabels];
  uint32_t nlabel;
  char sample[kMaxSamples][1200];
  uint32_t nsample;
  volatile uint32_t next;  // next schedule position
};

std::string g_tmpdir;
int g_hang_s = 30;
Shm *g_cur = nullptr;

void OnProf(int) {
  if (g_cur) g_cur->outcome = kHang;
  _exit(12);
}

uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
uint64_t HashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return h;
}

void CopyStr(char *dst, size_t n, const std::string &s) {
  size_t k = std::min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}

void RunOne(Shm *m, G &g, const Sub &s) {
  m->outcome = kCrash;
  m->key[0] = m->msg[0] = 0;
  try {
    s.fn(g);
    m->outcome = kOk;
  } catch (const Discard &) {
    m->outcome = kDiscard;
  } catch (const Fail &f) {
    m->outcome = kFail;
    CopyStr(m->key, sizeof m->key, f.key);
    CopyStr(m->msg, sizeof m->msg, f.msg);
  } catch (const std::exception &e) {
    m->outcome = kFail;
    int st = 0;
    char *dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    CopyStr(m->key, sizeof m->key, std::string("unexpected exception"));
    CopyStr(m->msg, sizeof m->msg, std::string(dn ? dn : "?") + ": " + e.what());
    free(dn);
  } catch (...) {
    m->outcome = kFail;
    CopyStr(m->key, sizeof m->key, "unexpected exception");
    CopyStr(m->msg, sizeof m->msg, "unknown type");
  }
}

void SetTimer(int secs) {
  struct itimerval it {};
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}

void RedirectOutput(const std::string &path) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
}
void TrimOutput() {
  static int cnt = 0;
  if (++cnt % 64) return;
  struct stat st {};
  if (fstat(2, &st) == 0 && st.st_size > (1 << 20)) (void)!ftruncate(2, 0);
}
std::string Tail(const std::string &path) {
  std::ifstream in(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  if (s.size() > 3000) s = s.substr(s.size() - 3000);
  for (auto &c : s)
    if (static_cast<unsigned char>(c) < 9) c = '?';
  return s;
}

struct Item {
  uint32_t sub, idx;
};

void Stat(Shm *m, G &g, uint32_t sub, const std::string &prefix, uint64_t subhash) {
  m->evals[sub]++;
  if (m->outcome == kDiscard) {
    m->discards[sub]++;
    return;
  }
  for (auto &l : g.labels_) {
    std::string full = prefix + ": " + l;
    uint32_t k = 0;
    for (; k < m->nlabel; ++k)
      if (full == m->label[k]) break;
    if (k == m->nlabel && k < kMaxLabels) {
      CopyStr(m->label[k], sizeof m->label[k], full);
      full = m->label[k];
      m->nlabel++;
    }
    if (k < kMaxLabels) m->label_cnt[k]++;
  }
  if (g.nontrivial_) {
    m->nontriv[sub]++;
    uint64_t h = subhash;
    for (uint32_t i = 0; i < m->tape_len; ++i) h = Mix(h, m->tape[i]);
    if (m->nhash < kMaxHash) m->hash[m->nhash++] = h;
  }
}

double Now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

/// run a fixed tape in a child process. returns outcome; key/msg in m
Outcome RunTape(Shm *m, uint32_t sub, const std::vector<uint32_t> &tape, std::string *err, std::string *desc = nullptr) {
  std::string out = g_tmpdir + "/replay.out";
  std::string dpath = g_tmpdir + "/replay.desc";
  pid_t p = fork();
  if (p == 0) {
    g_cur = m;
    RedirectOutput(out);
    signal(SIGPROF, OnProf);
    SetTimer(g_hang_s);
    m->tape_len = 0;
    G g(0, m->tape, &m->tape_len, tape.data(), tape.size(), true);
    RunOne(m, g, subs()[sub]);
    if (desc) {
      std::ofstream f(dpath);
      f << g.desc_.str();
    }
    fflush(nullptr);
    _exit(0);
  }
  int st = 0;
  m->outcome = kCrash;
  waitpid(p, &st, 0);
  Outcome o = static_cast<Outcome>(m->outcome);
  if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 12))) {
    o = kCrash;
    CopyStr(m->key, sizeof m->key, WIFSIGNALED(st) ? std::string("crash: ") + strsignal(WTERMSIG(st)) : std::string("crash: exit"));
    m->msg[0] = 0;
  }
  if (o == kHang) CopyStr(m->key, sizeof m->key, "hang: case exceeds its CPU time limit");
  if (err) *err = (o == kCrash || o == kFail) ? Tail(out) : "";
  if (desc) {
    std::ifstream f(dpath);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    *desc = s;
  }
  return o;
}

std::string Esc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c == '\t') {
      o += "\\t";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

struct Finding {
  uint32_t sub;
  std::vector<uint32_t> tape;
  std::string key, msg, out, desc;
};

}  // namespace

int main(int argc, char **argv) {
  std::string prop = "C00", tier = "quick", outfile, replaydir = ".", known, replay, only;
  uint64_t seed = 1;
  int jobs = 8;
  double scale = 1.0, budget = -1;
  bool stats = false, keep = false;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto val = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out") outfile = val();
    else if (a == "--replaydir") replaydir = val();
    else if (a == "--known") known = val();
    else if (a == "--replay") replay = val();
    else if (a == "--only") only = val();
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--hang") g_hang_s = atoi(val().c_str());
    else if (a == "--stats") stats = true;
    else if (a == "--keep-going") keep = true;
  }
  if (const char *w = getenv("PBT_HANG")) g_hang_s = atoi(w);
  const bool quick = tier == "quick";
  if (budget < 0) budget = quick ? 150 : 780;
  const double t0 = Now();
  char tmpl[] = "/tmp/pbtXXXXXX";
  g_tmpdir = mkdtemp(tmpl);
  setenv("PBT_TMP", g_tmpdir.c_str(), 1);
  auto cleanup = [&]() {
    // the directory only contains files this program created
    std::string cmd = "rm -rf '" + g_tmpdir + "'";
    if (g_tmpdir.rfind("/tmp/pbt", 0) == 0) (void)!system(cmd.c_str());
  };
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);

  auto &S = subs();
  auto mk = []() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    return static_cast<Shm *>(p);
  };
  Shm *rm = mk();

  // known findings: lines  <prop> TAB <sub> TAB <key substring> TAB <msg substring> TAB <text>
  struct Known {
    std::string sub, key, msg, text;
    uint64_t hits = 0;
  };
  std::vector<Known> kn;
  if (!known.empty()) {
    std::ifstream in(known);
    std::string line;
    while (std::getline(in, line)) {
      std::vector<std::string> f;
      std::stringstream ss(line);
      std::string x;
      while (std::getline(ss, x, '\t')) f.push_back(x);
      if (f.size() >= 5 && f[0] == prop) kn.push_back({f[1], f[2], f[3], f[4]});
    }
  }
  auto is_known = [&](const std::string &sub, const std::string &key, const std::string &msg) -> Known * {
    for (auto &k : kn)
      if ((k.sub == sub) && key.find(k.key) != std::string::npos && (msg.find(k.msg) != std::string::npos)) return &k;
    return nullptr;
  };

  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line, subname;
    std::vector<uint32_t> tape;
    while (std::getline(in, line)) {
      if (line.rfind("sub: ", 0) == 0) subname = line.substr(5);
      if (line.rfind("tape:", 0) == 0) {
        std::stringstream ss(line.substr(5));
        uint32_t v;
        while (ss >> v) tape.push_back(v);
      }
    }
    uint32_t si = 0;
    while (si < S.size() && S[si].name != subname) ++si;
    if (si == S.size()) {
      std::cerr << "unknown sub " << subname << "\n";
      cleanup();
      return 3;
    }
    std::string err, desc;
    Outcome o = RunTape(rm, si, tape, &err, &desc);
    std::cout << "outcome " << o << " key: " << rm->key << "\n" << rm->msg << "\n" << err << "\ncase: " << desc << "\n";
    cleanup();
    if (o == kFail || o == kCrash || o == kHang) {
      std::cout << "VIOLATION property=" << prop << " replay=" << replay << std::endl;
      return 1;
    }
    return 0;
  }

  // deterministic schedule
  std::vector<Item> sched;
  {
    std::vector<double> done(S.size(), 0);
    std::vector<int> n(S.size());
    for (size_t k = 0; k < S.size(); ++k) {
      n[k] = (!only.empty() && only != S[k].name) ? 0 : std::max(1, static_cast<int>((quick ? S[k].quick : S[k].thorough) * scale));
    }
    const int R = 2000;
    std::vector<int> emitted(S.size(), 0);
    for (int r = 1; r <= R; ++r)
      for (uint32_t k = 0; k < S.size(); ++k) {
        int want = static_cast<int>(static_cast<double>(n[k]) * r / R + 0.5);
        if (r == R) want = n[k];
        while (emitted[k] < want) sched.push_back({k, static_cast<uint32_t>(emitted[k]++)});
      }
  }
  std::vector<Shm *> W(jobs);
  std::vector<pid_t> pid(jobs, -1);
  for (int w = 0; w < jobs; ++w) {
    W[w] = mk();
    W[w]->next = w;
  }
  auto worker = [&](int w) {
    Shm *m = W[w];
    g_cur = m;
    RedirectOutput(g_tmpdir + "/w" + std::to_string(w));
    signal(SIGPROF, OnProf);
    std::string wd = g_tmpdir + "/d" + std::to_string(w);
    mkdir(wd.c_str(), 0700);
    (void)!chdir(wd.c_str());
    while (m->next < sched.size()) {
      if (Now() - t0 > budget) break;
      Item it = sched[m->next];
      const Sub &s = S[it.sub];
      m->sub = it.sub;
      m->case_idx = it.idx;
      m->tape_len = 0;
      uint64_t sh = HashStr(s.name);
      G g(Mix(Mix(Mix(sh, seed), it.idx), 0x1234567), m->tape, &m->tape_len, nullptr, 0, false);
      SetTimer(g_hang_s);
      m->state = 1;
      m->next = m->next + jobs;
      RunOne(m, g, s);
      m->state = 0;
      Stat(m, g, it.sub, s.name, sh);
      if (m->outcome == kFail) {
        fflush(nullptr);
        _exit(10);
      }
      std::string d = g.desc_.str();
      if (g.nontrivial_ && m->outcome == kOk && !d.empty() && m->nsample < 8 && (it.idx % 7 == 3 || m->nsample < 1)) {
        // keep samples small; at most two per sub and worker
        int cnt = 0;
        for (uint32_t k = 0; k < m->nsample; ++k)
          if (std::string(m->sample[k]).rfind(s.name + ":", 0) == 0) ++cnt;
        if (cnt < 1) {
          if (d.size() > 900) d = d.substr(0, 900) + "...";
          CopyStr(m->sample[m->nsample], sizeof m->sample[0], s.name + ": " + d);
          m->nsample++;
        }
      }
      TrimOutput();
    }
    SetTimer(0);
    fflush(nullptr);
    _exit(0);
  };
  auto spawn = [&](int w) {
    pid_t p = fork();
    if (p == 0) worker(w);
    pid[w] = p;
  };
  for (int w = 0; w < jobs; ++w) spawn(w);
  int alive = jobs;
  std::vector<Finding> findings;
  uint64_t flaky = 0;
  std::map<std::string, int> flaky_keys;
  std::set<std::string> seen_keys;
  bool stop = false;
  while (alive > 0) {
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int w = -1;
    for (int k = 0; k < jobs; ++k)
      if (pid[k] == p) w = k;
    if (w < 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      --alive;
      pid[w] = -1;
      continue;
    }
    Shm *m = W[w];
    if (stop) {
      --alive;
      continue;
    }
    Finding f;
    f.sub = m->sub;
    f.tape.assign(m->tape, m->tape + m->tape_len);
    bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 10);
    if (crashed) m->evals[m->sub]++;
    std::string wout = Tail(g_tmpdir + "/w" + std::to_string(w));
    // confirm by replay (3 times)
    int rep = 0;
    Outcome o = kOk;
    for (int t = 0; t < 3; ++t) {
      std::string err;
      o = RunTape(rm, f.sub, f.tape, &err);
      if (o == kFail || o == kCrash || o == kHang) {
        ++rep;
        f.key = rm->key;
        f.msg = rm->msg;
        f.out = err;
      }
    }
    if (rep == 0) {
      ++flaky;
      std::string fk = S[f.sub].name + ": " + (crashed ? "crash" : m->key);
      if (flaky_keys[fk]++ == 0)
        std::cout << "NOTE unreproducible failure in " << fk << " " << m->msg << "\n" << wout << std::endl;
      spawn(w);
      continue;
    }
    std::string full = f.msg + "\n" + f.out;
    if (Known *k = is_known(S[f.sub].name, f.key, full)) {
      k->hits++;
      spawn(w);
      continue;
    }
    if (keep) {
      std::string k = S[f.sub].name + "|" + f.key;
      if (seen_keys.insert(k).second) findings.push_back(f);
      spawn(w);
      if (findings.size() > 12) {
        stop = true;
        for (int k2 = 0; k2 < jobs; ++k2)
          if (pid[k2] > 0) kill(pid[k2], SIGKILL);
      }
      continue;
    }
    findings.push_back(f);
    stop = true;
    --alive;
    pid[w] = -1;
    for (int k = 0; k < jobs; ++k)
      if (pid[k] > 0) kill(pid[k], SIGKILL);
  }
  // shrink
  mkdir(replaydir.c_str(), 0755);
  int nviol = 0;
  for (auto &f : findings) {
    const double ts = Now();
    const double lim = quick ? 40 : 90;
    std::vector<uint32_t> best = f.tape;
    auto attempt = [&](const std::vector<uint32_t> &t) {
      if (Now() - ts > lim) return false;
      std::string err;
      Outcome o = RunTape(rm, f.sub, t, &err);
      if (!(o == kFail || o == kCrash || o == kHang)) return false;
      if (o == kHang && f.key.rfind("hang", 0) != 0) return false;
      if (std::string(rm->key) != f.key) return false;
      if (is_known(S[f.sub].name, rm->key, std::string(rm->msg) + "\n" + err)) return false;
      std::vector<uint32_t> used(rm->tape, rm->tape + rm->tape_len);
      // accept if not larger
      if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) return false;
      best = used;
      f.msg = rm->msg;
      f.out = err;
      return true;
    };
    bool progress = f.key.rfind("hang", 0) != 0;
    while (progress && Now() - ts < lim) {
      progress = false;
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
        for (size_t a = 0; a + len <= best.size();) {
          std::vector<uint32_t> t = best;
          t.erase(t.begin() + a, t.begin() + a + len);
          if (attempt(t)) progress = true;
          else a += len;
          if (Now() - ts > lim) break;
        }
        if (Now() - ts > lim) break;
      }
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
        for (size_t a = 0; a + len <= best.size(); a += len) {
          std::vector<uint32_t> t = best;
          bool nz = false;
          for (size_t k = a; k < a + len; ++k) {
            nz |= t[k] != 0;
            t[k] = 0;
          }
          if (nz && attempt(t)) progress = true;
          if (Now() - ts > lim) break;
        }
        if (Now() - ts > lim) break;
      }
      for (size_t a = 0; a < best.size() && Now() - ts < lim; ++a) {
        uint32_t lo = 0;
        while (a < best.size() && best[a] > lo && Now() - ts < lim) {
          uint32_t mid = lo + (best[a] - lo) / 2;
          std::vector<uint32_t> t = best;
          t[a] = mid;
          if (attempt(t)) progress = true;
          else {
            if (mid == lo) break;
            lo = mid;
          }
          if (best.size() <= a) break;
        }
      }
    }
    std::string err, desc;
    RunTape(rm, f.sub, best, &err, &desc);
    std::string key = f.key;
    std::string subname = S[f.sub].name;
    for (char &ch : subname)
      if (!isalnum(static_cast<unsigned char>(ch))) ch = '_';
    std::string path = replaydir + "/" + prop + "_" + subname + (findings.size() > 1 ? "_" + std::to_string(nviol) : "") + ".replay";
    std::ofstream o(path);
    o << "property: " << prop << "\nsub: " << S[f.sub].name << "\nseed: " << seed << "\ntier: " << tier
      << "\ntape:";
    for (auto v : best) o << ' ' << v;
    o << "\nkey: " << key << "\n--- message\n" << f.msg << "\n--- output\n" << f.out << "\n--- case\n" << desc << "\n";
    o.close();
    std::cout << "FAILED " << prop << "/" << S[f.sub].name << ": " << key << "\n" << f.msg << "\n"
              << f.out << "\ncase: " << desc << "\n";
    std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl;
    ++nviol;
  }
  for (auto &k : kn)
    if (k.hits > 0 || true) std::cout << "KNOWN-FINDING: property=" << prop << " " << k.text << (k.hits ? " [hit]" : "") << std::endl;

  // evidence
  uint64_t ev = 0, nt = 0;
  std::vector<uint64_t> hs;
  std::map<std::string, uint64_t> lab;
  std::ostringstream rule, subsj, samples;
  for (auto *m : W) {
    hs.insert(hs.end(), m->hash, m->hash + m->nhash);
    for (uint32_t k = 0; k < m->nlabel; ++k) lab[m->label[k]] += m->label_cnt[k];
  }
  std::sort(hs.begin(), hs.end());
  uint64_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
  bool first = true;
  for (size_t k = 0; k < S.size(); ++k) {
    uint64_t e = 0, n = 0, d = 0;
    for (auto *m : W) {
      e += m->evals[k];
      n += m->nontriv[k];
      d += m->discards[k];
    }
    ev += e;
    nt += n;
    if (!first) {
      rule << " | ";
      subsj << ", ";
    }
    first = false;
    rule << S[k].name << ": " << S[k].rule;
    subsj << Esc(S[k].name) << ": {\"evaluations\": " << e << ", \"nontrivial\": " << n << ", \"discarded\": " << d << "}";
    if (stats) std::cout << "  " << S[k].name << ": " << e << " cases, " << n << " non-trivial, " << d << " discarded\n";
  }
  int ns = 0;
  std::set<std::string> have;
  for (auto *m : W)
    for (uint32_t k = 0; k < m->nsample; ++k) {
      std::string s = m->sample[k];
      std::string nm = s.substr(0, s.find(':'));
      if (!have.insert(nm).second || ns > 20) continue;
      samples << (ns++ ? ", " : "") << Esc(s);
    }
  if (ns == 0) samples << "\"(no non-trivial case completed)\"";
  bool complete = true;
  for (auto *m : W) complete = complete && m->next >= sched.size();
  if (!complete && findings.empty())
    std::cout << "NOTE time budget reached before all scheduled cases ran: " << ev << " of " << sched.size() << std::endl;
  if (stats)
    for (auto &l : lab) std::cout << "    " << l.first << " = " << l.second << "\n";
  const double wall = Now() - t0;
  std::cout << prop << " " << tier << " seed " << seed << ": " << ev << " cases, " << distinct
            << " distinct non-trivial, " << nviol << " violations, " << flaky << " unreproducible, " << wall << " s" << std::endl;
  if (!outfile.empty()) {
    std::ofstream o(outfile);
    o << "{\n \"property\": " << Esc(prop) << ",\n \"tier\": " << Esc(tier) << ",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
      << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"scheduled\": " << sched.size()
      << ",\n  \"rule\": " << Esc(rule.str()) << ",\n  \"subchecks\": {" << subsj.str() << "},\n  \"classes\": {";
    bool fl = true;
    for (auto &l : lab) {
      o << (fl ? "" : ", ") << Esc(l.first) << ": " << l.second;
      fl = false;
    }
    o << "},\n  \"samples\": [" << samples.str() << "]\n },\n \"assumptions\": [\"x86-64 Linux, g++ -O1, library assertions enabled\", \"tolerances as stated in the harness\"],\n \"wall_s\": "
      << wall << ",\n \"violations\": " << nviol << "\n}\n";
  }
  cleanup();
  return nviol ? 1 : 0;
}

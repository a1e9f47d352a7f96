// C35: timers and log formatting report what happened
#include <lf/base/base.h>
#include <lf/base/timer.h>
#include <spdlog/pattern_formatter.h>
#include <spdlog/sinks/base_sink.h>
#include <sys/times.h>
#include <unistd.h>

#include <sstream>
#include <thread>

#include "engine/pbt.h"
using lf::base::AutoTimer;
using lf::base::Timer;

namespace {
struct Now {
  double w, u, s;
};
Now Clock() {
  static const double f = 1.0 / static_cast<double>(::sysconf(_SC_CLK_TCK));
  tms t;
  ::times(&t);
  Now n;
  n.u = static_cast<double>(t.tms_utime + t.tms_cutime) * f;
  n.s = static_cast<double>(t.tms_stime + t.tms_cstime) * f;
  n.w = 1e-9 * static_cast<double>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
  return n;
}
struct Iv {  // an interval for a quantity
  double lo = 0, hi = 0;
};
/// model: what is known about the elapsed times of a timer
struct Model {
  bool stopped = true;
  Iv acc[3];       // accumulated while running
  double since[2][3];  // last (re)start happened between these
  static std::array<double, 3> arr(const Now &n) { return {n.w, n.u, n.s}; }
  void begin(const Now &a, const Now &b) {
    for (int k = 0; k < 3; ++k) since[0][k] = arr(a)[k], since[1][k] = arr(b)[k];
    stopped = false;
  }
  void start(const Now &a, const Now &b) {
    for (auto &x : acc) x = Iv{};
    begin(a, b);
  }
  void resume(const Now &a, const Now &b) {
    if (stopped) begin(a, b);
  }
  Iv elapsed(int k, const Now &a, const Now &b) const {
    if (stopped) return acc[k];
    return {acc[k].lo + arr(a)[k] - since[1][k], acc[k].hi + arr(b)[k] - since[0][k]};
  }
  void stop(const Now &a, const Now &b) {
    if (stopped) return;
    for (int k = 0; k < 3; ++k) acc[k] = elapsed(k, a, b);
    stopped = true;
  }
};
void Check(const Model &m, int k, double v, const Now &a, const Now &b, const char *what, double rel = 1e-6) {
  const Iv i = m.elapsed(k, a, b);
  // wall clock values are differences of numbers of size 1e9 s
  const double tol = 2e-6 + rel * std::abs(i.hi);
  if (!(v >= i.lo - tol && v <= i.hi + tol)) FAIL(what, "component " << k << (m.stopped ? " (stopped)" : " (running)") << ": " << v << " not in [" << i.lo << "," << i.hi << "]");
}
double Sec(std::chrono::nanoseconds n) { return 1e-9 * static_cast<double>(n.count()); }
void Pass(pbt::G &g) {
  switch (g.raw(6)) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds(g.i(1, 800))); break;
    case 1: {  // CPU time
      const double t = Clock().w + 1e-3 * g.i(1, 6);
      volatile double x = 0;
      while (Clock().w < t)
        for (int k = 0; k < 100; ++k) x = x + k;
      break;
    }
    default: break;
  }
}
std::string RandText(pbt::G &g, int n, const char *alphabet) {
  std::string s;
  const int l = static_cast<int>(std::string(alphabet).size());
  for (int k = 0; k < n; ++k) s += alphabet[g.i(0, l - 1)];
  return s;
}
struct Capture final : spdlog::sinks::base_sink<std::mutex> {
  std::vector<std::pair<int, std::string>> got;
  void sink_it_(const spdlog::details::log_msg &m) override { got.emplace_back(static_cast<int>(m.level), std::string(m.payload.begin(), m.payload.end())); }
  void flush_() override {}
};
}  // namespace

PBT_SUB("timer", 1500, 15000,
        "history of starting, stopping, resuming, copying, querying and formatting a timer with pauses and computations in between: state and elapsed wall, user and system times "
        "must lie in the intervals measured around the calls; non-trivial: the timer was resumed after a stop and queried") {
  const Now c0 = Clock();
  const bool run = g.b(0.7);
  Timer t = g.b(0.3) && run ? Timer() : Timer(run);
  const Now c1 = Clock();
  Model m;
  if (run) m.start(c0, c1);
  g.desc() << (run ? "running; " : "stopped; ");
  const int n = g.i(1, 12);
  bool resumed = false;
  for (int k = 0; k < n; ++k) {
    Pass(g);
    const int op = m.stopped && g.b(0.5) ? 2 : g.i(0, 6);
    if (op == 5) {
      Timer u(g.b());
      u = t;
      t = Timer(u);
      g.desc() << "copy; ";
    } else if (op <= 2) {
      const Now a = Clock();
      if (op == 0) t.Start();
      else if (op == 1) t.Stop();
      else t.Resume();
      const Now b = Clock();
      if (op == 0) m.start(a, b);
      else if (op == 1) m.stop(a, b);
      else {
        if (m.stopped && m.acc[0].hi > 0) resumed = true;
        m.resume(a, b);
      }
      g.desc() << (op == 0 ? "start; " : op == 1 ? "stop; " : "resume; ");
    }
    CHECK(t.IsStopped() == m.stopped, "IsStopped", t.IsStopped());
    const Now a = Clock();
    if (op == 4 || g.b(0.3)) {
      const std::string f = t.Format("{w:.9e} {u:.9e} {s:.9e} {t:.9e} {p:.9e}");
      const Now b = Clock();
      std::istringstream is(f);
      double w = -1, u = -1, s = -1, tt = -1, p = -1;
      std::string ps;
      is >> w >> u >> s >> tt >> ps;
      CHECK(!is.fail(), "formatted times are numbers", f);
      Check(m, 0, w, a, b, "formatted wall time");
      Check(m, 1, u, a, b, "formatted user time");
      Check(m, 2, s, a, b, "formatted system time");
      CHECK_NEAR(tt, u + s, 1e-8 * (1 + u + s), "formatted total time", f);
      if (w > 0) {
        p = std::stod(ps);
        CHECK_NEAR(p, (u + s) / w * 100, 1e-6 * (1 + p), "formatted percentage", f);
      }
      g.label("format");
      if (resumed) g.nontrivial();
    } else {
      const Timer::cpu_times e = t.Elapsed();
      const Now b = Clock();
      Check(m, 0, Sec(e.wall), a, b, "elapsed wall time");
      Check(m, 1, Sec(e.user), a, b, "elapsed user time");
      Check(m, 2, Sec(e.system), a, b, "elapsed system time");
      if (resumed) g.nontrivial();
    }
    CHECK(t.IsStopped() == m.stopped, "queries do not change the state", t.IsStopped());
  }
}

PBT_SUB("auto timer", 1500, 15000,
        "automatic timer on a stream or logger with a random format string: reports while running and exactly one report at the end of its life, at the given level, with the "
        "time since construction; non-trivial: report with time before the end") {
  const std::string pre = RandText(g, g.i(0, 5), "abc xyz"), post = RandText(g, g.i(0, 3), "s;% ");
  const std::string fmt = pre + "|{w:.9e}|" + post;
  const bool logger = g.b();
  std::ostringstream os;
  auto sink = std::make_shared<Capture>();
  auto lg = std::make_shared<spdlog::logger>("c35", sink);
  lg->set_level(spdlog::level::trace);
  const int level = g.i(0, 5);
  auto parse = [&](const std::string &s) {
    CHECK(s.size() > pre.size() + 2 && s.substr(0, pre.size() + 1) == pre + "|", "report follows the format", s);
    const size_t e = s.find('|', pre.size() + 1);
    CHECK(e != std::string::npos && s.substr(e + 1) == post, "report follows the format (end)", s);
    return std::stod(s.substr(pre.size() + 1, e - pre.size() - 1));
  };
  std::vector<std::string> want;
  std::vector<std::array<double, 2>> bounds;
  Model m;
  Now last;
  {
    const Now a = Clock();
    auto t = logger ? std::make_unique<AutoTimer>(lg, static_cast<spdlog::level::level_enum>(level), fmt) : std::make_unique<AutoTimer>(os, fmt);
    m.start(a, Clock());
    CHECK(t->FormatString() == fmt, "FormatString", t->FormatString());
    bool thrown = false;
    try {
      if (logger) (void)t->ostream();
      else (void)t->logger();
    } catch (const std::bad_variant_access &) {
      thrown = true;
    }
    CHECK(thrown, "asking for the other kind of output is an error", logger);
    if (logger) CHECK(t->logger() == lg, "logger()", "");
    else CHECK(&t->ostream() == &os, "ostream()", "");
    const int n = g.i(0, 3);
    for (int k = 0; k < n; ++k) {
      Pass(g);
      const Now x = Clock();
      const int op = g.i(0, 2);
      if (op == 0) {
        t->Report();
        const Iv i = m.elapsed(0, x, Clock());
        bounds.push_back({i.lo, i.hi});
        g.nontrivial();
      } else if (op == 1) {
        const double w = parse(t->Format(fmt));
        Check(m, 0, w, x, Clock(), "Format of a running automatic timer");
      } else {
        const auto e = t->Elapsed();
        Check(m, 0, Sec(e.wall), x, Clock(), "Elapsed of an automatic timer");
      }
    }
    last = Clock();
    t.reset();
    const Iv i = m.elapsed(0, last, Clock());
    bounds.push_back({i.lo, i.hi});
  }
  std::vector<std::string> lines;
  if (logger) {
    CHECK(os.str().empty(), "nothing on other streams", os.str());
    for (auto &[l, s] : sink->got) {
      CHECK(l == level, "log level", l << " instead of " << level);
      lines.push_back(s);
    }
  } else {
    CHECK(sink->got.empty(), "nothing in the log", "");
    std::istringstream is(os.str());
    std::string s;
    while (std::getline(is, s)) lines.push_back(s);
    CHECK(os.str().empty() || os.str().back() == '\n', "report ends with a newline", os.str());
  }
  CHECK(lines.size() == bounds.size(), "number of reports", lines.size() << " instead of " << bounds.size());
  for (size_t k = 0; k < lines.size(); ++k) {
    const double w = parse(lines[k]);
    if (!(w >= bounds[k][0] - 2e-6 && w <= bounds[k][1] + 2e-6)) FAIL("reported time", "report " << k << ": " << w << " not in [" << bounds[k][0] << "," << bounds[k][1] << "]");
  }
}

PBT_SUB("multi-line messages", 40000, 400000,
        "log messages of random lines (also empty ones) formatted behind a random prefix pattern, appended to a non-empty buffer, also through a clone: the first line carries the prefix, the "
        "others are indented to the same column and no text is lost; non-trivial: at least 3 lines") {
  std::string pat;
  const int np = g.i(0, 3);
  for (int k = 0; k < np; ++k) {
    const char *parts[] = {"[%n] ", "[%l] ", "<%L>", "%s:%# ", "text ", " "};
    pat += parts[g.i(0, 5)];
  }
  const std::string name = RandText(g, g.i(0, 8), "abcdef");
  const int level = g.i(0, 5);
  const int nl = g.i(1, 5);
  std::vector<std::string> lines;
  std::string msg;
  for (int k = 0; k < nl; ++k) {
    lines.push_back(RandText(g, g.i(0, 12), "ab {}%v01"));
    msg += (k ? "\n" : "") + lines.back();
  }
  if (nl >= 3) g.nontrivial();
  const spdlog::source_loc loc("dir/file.cc", 17, "f");
  auto prefix_of = [&]() {
    std::string p;
    for (size_t i = 0; i < pat.size(); ++i) {
      if (pat[i] != '%') {
        p += pat[i];
        continue;
      }
      ++i;
      static const char *names[] = {"trace", "debug", "info", "warning", "error", "critical"};
      if (pat[i] == 'n') p += name;
      else if (pat[i] == 'l') p += names[level];
      else if (pat[i] == 'L') p += "TDIWEC"[level];
      else if (pat[i] == 's') p += "file.cc";
      else if (pat[i] == '#') p += "17";
    }
    return p;
  };
  const std::string prefix = prefix_of();
  std::unique_ptr<spdlog::formatter> f = std::make_unique<lf::base::LineFeedFormatter>(std::make_unique<spdlog::pattern_formatter>(pat + "%v", spdlog::pattern_time_type::local, "\n"));
  if (g.b()) f = f->clone();
  const int times = g.i(1, 2);
  spdlog::memory_buf_t buf;
  std::string want = RandText(g, g.i(0, 4), "xyz");
  buf.append(want.data(), want.data() + want.size());
  for (int r = 0; r < times; ++r) {
    spdlog::details::log_msg m(std::chrono::system_clock::now(), loc, name, static_cast<spdlog::level::level_enum>(level), msg);
    f->format(m, buf);
    for (int k = 0; k < nl; ++k) want += (k ? std::string(prefix.size(), ' ') : prefix) + lines[k] + "\n";
  }
  const std::string got(buf.data(), buf.data() + buf.size());
  g.desc() << "pattern '" << pat << "' " << nl << " lines";
  if (got != want) FAIL("formatted message", "pattern '" << pat << "'\n" << got << "<- instead of ->\n" << want);
}

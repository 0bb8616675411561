// Executes scenarios of several threads on the real code under many schedules
// and logs the different runs. Usage: sched SCENARIOS OUT PROGRESS LIMIT_MS RUNS SEED
#include <fcntl.h>
#include <signal.h>
#include <string.h>

#include <fstream>
#include <iostream>
#include <mutex>
#include <set>

#include "scenario.h"
#include "sched_rt.h"

namespace {

std::atomic<int64_t> g_deadline{0};
sched::Schedule g_schedule;
char g_schedule_text[512];
long g_s, g_f;  // points in the last run

// One of the clients that threads use.
class ParScenario : public ClientScenario {
 public:
  void Start() {
    records_.clear();
    records_.push_back("{\"c\":\"par\",\"t\":" + T() + "}");
    par_ = true;
  }
  string Stop() {
    par_ = false;
    records_.push_back("{\"c\":\"seq\"}");
    return Flat(records_);
  }
 protected:
  void Event(const string& json) override {
    if (!par_) {
      ClientScenario::Event(json);
      return;
    }
    records_.push_back("{\"c\":\"x\",\"th\":" + Me() + ",\"ev\":" + json + "}");
  }
  void Hold(bool on) override {
    if (!par_) return;
    sched::Atomic(on);
    if (on) return;
    sched::Release();  // what was sent here may be answered by any thread
    sched::Point();
  }
  void WaitTimer() override {
    if (!par_) return;
    ticking_.lock();
    ticking_.unlock();
  }

 private:
  vector<string> records_;
  bool par_ = false;
  std::recursive_mutex ticking_;

  static string Me() { return std::to_string(sched::Self()); }
  static string Flat(const vector<string>& v) {
    string o;
    for (const auto& s : v) o += (o.empty() ? "" : ",") + s;
    return o;
  }
  void Begin(const string& what) {
    records_.push_back("{\"c\":\"b\",\"th\":" + Me() + "," + what + "}");
  }

 public:
  void Op(const vector<string>& w) {
    const string& c = w[0];
    sched::Atomic(true);
    sched::Acquire();
    std::function<void()> f;
    if (c == "call") {
      int n = atoi(w[1].c_str());
      Begin("\"op\":\"call\",\"call\":" + CallJson(n));
      f = [this, n]() { DoCall(n); };
    } else if (c == "fin") {
      auto& of = out_[w[1]];
      if (of.empty()) {
        Begin("\"op\":\"idle\",\"k\":" + JStr(w[1]));
      } else {
        auto it = of.begin();
        std::advance(it, atoi(w[2].c_str()) % of.size());
        Begin("\"op\":\"fin\",\"k\":" + JStr(w[1]) + ",\"id\":" + std::to_string(it->first) +
              ",\"st\":" + JStr(w[3]) + ",\"resp\":" + RespJson(w[1], w[4]));
        auto g = it->second;
        of.erase(it);
        f = [g, w]() { g(w[3], w[4]); };
      }
    } else if (c == "tick") {
      Begin(tick_ ? "\"op\":\"tick\"" : "\"op\":\"notimer\"");
      f = tick_;
      if (f && cfg.timer_waits) {
        auto g = f;
        f = [this, g]() {
          std::lock_guard<std::recursive_mutex> lock(ticking_);
          g();
        };
      }
    } else if (c == "destroy") {
      Begin("\"op\":\"destroy\"");
      f = [this]() { client_.reset(); };
    } else {
      Fatal("thread command " + c);
    }
    sched::Atomic(false);
    sched::Point();
    if (f) f();
    sched::Atomic(true);
    f = nullptr;
    records_.push_back("{\"c\":\"e\",\"th\":" + Me() + "}");
    sched::Release();
    sched::Atomic(false);
    sched::Point();
  }
  bool Stalled() {
    for (const string& k : {"check", "quota", "report"}) {
      if (!out_[k].empty()) {
        Op({"fin", k, "0", "OK", "-"});
        return true;
      }
    }
    return false;
  }
};

// A command for client N may start with "@N", N > 1 for the other clients.
class Group {
 public:
  void Run(vector<string> w, const string& text) {
    if (w[0] == "par") {
      Threads();
      return;
    }
    size_t t = 0;
    if (w[0] == "th") {
      t = atoi(w[1].c_str());
      if (t < 1 || t > 4) Fatal("thread " + w[1]);
      w.erase(w.begin(), w.begin() + 2);
    }
    size_t n = 1;
    if (w[0][0] == '@') {
      n = atoi(w[0].c_str() + 1);
      if (n < 1 || n > 4) Fatal("client " + w[0]);
      w.erase(w.begin());
    }
    while (clients_.size() < n) clients_.emplace_back(new Client);
    Client* c = clients_[n - 1].get();
    if (t) {
      if (prog_.size() < t) prog_.resize(t);
      prog_[t - 1].push_back({c, w});
    } else {
      c->Log(c->sc.Run(w, text));
    }
  }
  // The configuration and records of each client.
  vector<std::pair<string, string>> Result() {
    vector<std::pair<string, string>> r;
    for (auto& c : clients_) r.push_back({c->sc.CfgJson(), Join(c->ev)});
    return r;
  }

 private:
  struct Client {
    ParScenario sc;
    vector<string> ev;
    void Log(const string& x) {
      if (!x.empty()) ev.push_back(x);
    }
  };
  vector<std::unique_ptr<Client>> clients_;
  vector<vector<std::pair<Client*, vector<string>>>> prog_;

  void Threads() {
    for (auto& c : clients_) c->sc.Start();
    vector<std::function<void()>> bodies;
    for (const auto& p : prog_) {
      const auto* ops = &p;
      bodies.push_back([ops]() {
        for (const auto& w : *ops) w.first->sc.Op(w.second);
      });
    }
    sched::Run(bodies, g_schedule, [this]() {
      for (auto& c : clients_) {
        if (c->sc.Stalled()) return true;
      }
      return false;
    });
    g_s = sched::CountS();
    g_f = sched::CountF();
    prog_.clear();
    for (auto& c : clients_) c->Log(c->sc.Stop());
  }
};

struct Line {
  vector<string> w;
  string text;
};

// One run of the scenario: configuration and records of each client.
using Outcome = vector<std::pair<string, string>>;
Outcome Execute(const vector<Line>& lines) {
  snprintf(g_schedule_text, sizeof g_schedule_text, "%s", g_schedule.Text().c_str());
  g_unit = 1;
  ClockReset();
  ClockAdvance(1000000);
  sched::Quarantine(true);
  Outcome r;
  {
    Group g;
    for (const auto& l : lines) g.Run(l.w, l.text);
    r = g.Result();
  }
  sched::Quarantine(false);
  return r;
}

void Crash(int sig) {
  const char a[] = "CRASH under schedule ";
  (void)!write(2, a, sizeof a - 1);
  (void)!write(2, g_schedule_text, strlen(g_schedule_text));
  (void)!write(2, "\n", 1);
  _exit(98);
}

void Watchdog() {
  for (;;) {
    RealSleepMs(200);
    int64_t d = g_deadline;
    if (d && RealMs() > d) {
      fprintf(stderr, "HANG under schedule %s\n", g_schedule_text);
      fflush(stderr);
      _exit(97);
    }
  }
}

uint64_t g_rand;
uint64_t Rand() {
  g_rand ^= g_rand << 13;
  g_rand ^= g_rand >> 7;
  g_rand ^= g_rand << 17;
  return g_rand;
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 7) Fatal("usage");
  int limit_ms = atoi(argv[4]), runs = atoi(argv[5]);
  uint64_t seed = strtoull(argv[6], nullptr, 10);
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2], std::ios::app);
  string progress = argv[3];
  google::protobuf::SetLogHandler(nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE}) signal(s, Crash);
  std::thread(Watchdog).detach();
  string line, id, only;
  long each = 0;
  vector<Line> lines;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    Line l;
    size_t bar = line.find(" | ");
    if (bar != string::npos) {
      l.text = line.substr(bar + 3);
      line.resize(bar);
    }
    std::istringstream is(line);
    for (string x; is >> x;) l.w.push_back(x);
    if (l.w[0] == "scenario") {
      id = l.w[1];
      only = "";
      each = 0;
      lines.clear();
    } else if (l.w[0] == "sched") {
      only = l.w[1];
    } else if (l.w[0] == "each") {  // all single switches, and so many others
      each = atol(l.w[1].c_str());
    } else if (l.w[0] == "end") {
      std::ofstream(progress) << id << std::endl;
      g_deadline = RealMs() + limit_ms;
      std::set<size_t> seen;
      string recs;
      long n = 0, done = 0;
      auto run = [&](const sched::Schedule& sc) {
        g_schedule = sc;
        auto r = Execute(lines);
        ++done;
        bool fresh = false;
        for (size_t i = 0; i < r.size(); ++i) {
          string who = i ? "#" + std::to_string(i + 1) : "";
          if (!seen.insert(std::hash<string>()(who + r[i].second)).second) continue;
          recs += "{\"id\":" + JStr(id + who + "@" + sc.Text()) + ",\"comp\":\"conc\",\"cfg\":" +
                  r[i].first + ",\"ev\":" + r[i].second + "}\n";
          fresh = true;
        }
        n += fresh;
      };
      // What is initialized once would make the first run a different one.
      g_schedule = sched::Schedule();
      Execute(lines);
      if (!only.empty()) {
        run(sched::Schedule::Parse(only));
      } else if (each) {
        g_rand = (seed + 1) * 0x9e3779b97f4a7c15ull ^ std::hash<string>()(id);
        long S = 0, F = 0;
        for (long first = 1; first <= 2; ++first) {
          sched::Schedule sc;
          sc.first = first;
          run(sc);
          S = std::max(1L, g_s), F = std::max(1L, g_f);
          for (long s = 0; s < S && s < 400; ++s) {
            sc.s = {s};
            run(sc);
          }
        }
        for (long i = 0; i < each; ++i) {
          sched::Schedule sc;
          sc.first = 1 + Rand() % 2;
          if (i % 2) sc.f = {(long)(Rand() % F)};
          else sc.s = {(long)(Rand() % S)};
          sc.s.push_back(Rand() % S);
          run(sc);
        }
      } else {
        g_rand = (seed + 1) * 0x9e3779b97f4a7c15ull ^ std::hash<string>()(id);
        sched::Schedule sc;
        sc.seed = Rand() % 1000;
        run(sc);
        long S = std::max(1L, g_s), F = std::max(1L, g_f);
        // Every single switch at a synchronizing step, if there is time.
        long step = std::max(1L, 3 * S / std::max(1, runs));
        for (long s = 0; s < S; s += step) {
          sc = sched::Schedule();
          sc.seed = Rand() % 1000;
          sc.s = {s};
          run(sc);
        }
        while (done < runs) {
          sc = sched::Schedule();
          sc.seed = Rand() % 1000;
          switch (Rand() % 6) {
            case 0:
            case 1:
              for (int k = 2 + Rand() % 3; k; --k) sc.s.push_back(Rand() % S);
              break;
            case 2:
              for (int k = 1 + Rand() % 2; k; --k) sc.f.push_back(Rand() % F);
              break;
            case 3:
              sc.f.push_back(Rand() % F);
              sc.s.push_back(Rand() % S);
              break;
            case 4:
              sc.ws = 2 + Rand() % 8;
              break;
            default:
              sc.wf = 1 + F / (5 + Rand() % 100);
          }
          run(sc);
        }
      }
      g_deadline = 0;
      out << recs << "{\"id\":" << JStr(id) << ",\"runs\":" << done << ",\"different\":" << n
          << ",\"s\":" << g_s << ",\"f\":" << g_f << "}" << std::endl;
    } else {
      lines.push_back(l);
    }
  }
  std::ofstream(progress) << "-" << std::endl;
  out.flush();
  _exit(0);
}

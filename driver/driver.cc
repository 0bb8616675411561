// Executes scenarios on the real code and logs what can be observed, one JSON
// line per scenario. Usage: driver SCENARIOS OUT PROGRESS
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <list>
#include <limits>
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>

#include "scenario.h"
#include "src/aggregator_interface.h"
#include "src/money_utils.h"
#include "utils/distribution_helper.h"
#include "utils/simple_lru_cache.h"
#include "utils/simple_lru_cache_inl.h"

namespace {

std::atomic<int64_t> g_deadline{0};  // real ms; 0: none
string g_progress;

// -------------------------------------------------------------------------
// The aggregators on their own.
string Ans(const Status& st) {
  if (st.ok()) return "\"ok\"";
  if (st.code() == StatusCode::kNotFound) return "\"send\"";
  if (st.code() == StatusCode::kInvalidArgument) return "\"invalid\"";
  return "\"other\"";
}

class AggScenario : public Scenario {
 public:
  explicit AggScenario(const string& comp) : comp_(comp) {}
  string Run(const vector<string>& w, const string& text) override {
    if (Common(w, text)) return "";
    const string& c = w[0];
    fl_.clear();
    string t = T(), head = "\"c\":" + JStr(c);
    if (c == "new") {
      auto rec = [this](string s) { fl_.push_back(std::move(s)); };
      int interval = 0;
      if (comp_ == "chkagg") {
        chk_ = scc::CreateCheckAggregator(
            cfg.svc, cfg.cid,
            scc::CheckAggregationOptions(cfg.chk[0], cfg.chk[1], cfg.chk[2]),
            cfg.KindMap());
        chk_->SetFlushCallback([rec](const v1::CheckRequest& r) { rec(JCheckReq(r)); });
        interval = chk_->GetNextFlushInterval();
      } else if (comp_ == "quoagg") {
        quo_ = scc::CreateAllocateQuotaAggregator(
            cfg.svc, cfg.cid,
            scc::QuotaAggregationOptions(cfg.quo[0], cfg.quo[1], cfg.quo[2]));
        quo_->SetFlushCallback(
            [rec](const v1::AllocateQuotaRequest& r) { rec(JQuotaReq(r)); });
        interval = quo_->GetNextFlushInterval();
      } else {
        rep_ = scc::CreateReportAggregator(
            cfg.svc, cfg.cid, scc::ReportAggregationOptions(cfg.rep[0], cfg.rep[1]),
            cfg.KindMap());
        rep_->SetFlushCallback([rec](const v1::ReportRequest& r) { rec(JReportReq(r)); });
        interval = rep_->GetNextFlushInterval();
      }
      head += ",\"ms\":" + std::to_string(interval);
    } else if (c == "call") {
      string resp = JCheckResp(v1::CheckResponse());
      if (comp_ == "chkagg") {
        const auto& r = Get(defs.check, w[1]);
        v1::CheckResponse rsp;
        head += ",\"req\":" + JCheckReq(r) + ",\"ans\":" + Ans(chk_->Check(r, &rsp));
        resp = JCheckResp(rsp);
      } else if (comp_ == "quoagg") {
        const auto& r = Get(defs.quota, w[1]);
        v1::AllocateQuotaResponse rsp;
        head += ",\"req\":" + JQuotaReq(r) + ",\"ans\":" + Ans(quo_->Quota(r, &rsp));
        resp = JQuotaResp(rsp);
      } else {
        const auto& r = Get(defs.report, w[1]);
        head += ",\"req\":" + JReportReq(r) + ",\"ans\":" + Ans(rep_->Report(r));
      }
      head += ",\"resp\":" + resp;
    } else if (c == "resp") {
      if (comp_ == "chkagg") {
        const auto& r = Get(defs.check, w[1]);
        v1::CheckResponse rsp;
        if (w[2] != "-") rsp = Get(defs.cresp, w[2]);
        head += ",\"req\":" + JCheckReq(r) + ",\"resp\":" + JCheckResp(rsp) +
                ",\"ans\":" + Ans(chk_->CacheResponse(r, rsp));
      } else {
        const auto& r = Get(defs.quota, w[1]);
        v1::AllocateQuotaResponse rsp;
        if (w[2] != "-") rsp = Get(defs.qresp, w[2]);
        head += ",\"req\":" + JQuotaReq(r) + ",\"resp\":" + JQuotaResp(rsp) +
                ",\"ans\":" + Ans(quo_->CacheResponse(r, rsp));
      }
    } else if (c == "flush" || c == "flushall") {
      bool all = c == "flushall";
      Status st = chk_   ? (all ? chk_->FlushAll() : chk_->Flush())
                  : quo_ ? (all ? quo_->FlushAll() : quo_->Flush())
                         : (all ? rep_->FlushAll() : rep_->Flush());
      head += ",\"ans\":" + Ans(st);
    } else if (c == "destroy") {
      chk_.reset();
      quo_.reset();
      rep_.reset();
    } else {
      Fatal("command " + c);
    }
    return "{" + head + ",\"t\":" + t + ",\"fl\":" + Join(fl_) + "}";
  }

 private:
  string comp_;
  vector<string> fl_;
  std::unique_ptr<scc::CheckAggregator> chk_;
  std::unique_ptr<scc::QuotaAggregator> quo_;
  std::unique_ptr<scc::ReportAggregator> rep_;
};

// -------------------------------------------------------------------------
// The LRU cache.
struct Val {
  string id;
  vector<string>* gone;
};
struct ValDeleter {
  void operator()(Val* v) {
    v->gone->push_back(JStr(v->id));
    delete v;
  }
};
class LruScenario : public Scenario {
 public:
  using Cache = scc::SimpleLRUCacheWithDeleter<string, Val, ValDeleter>;
  string CfgJson() override {
    return "{\"max\":" + std::to_string(max_) + ",\"mode\":" + JStr(mode_) +
           ",\"idle\":" + std::to_string(idle_ < 0 ? idle_ : InUnits(idle_)) + "}";
  }
  string Run(const vector<string>& w, const string& text) override {
    if (Common(w, text)) return "";
    const string& c = w[0];
    if (c == "mode") {  // mode none|lru|age|inf-lru|inf-age idle_us max
      mode_ = w[1];
      idle_ = atoll(w[2].c_str());
      max_ = atoll(w[3].c_str());
      return "";
    }
    if (c == "scale") {  // sizes are logged in units of so many units
      scale_ = atoll(w[1].c_str());
      return "";
    }
    gone_.clear();
    string head = "\"c\":" + JStr(c), t = T(), res = "\"\"";
    if (c == "new") {
      cache_.reset(new Cache(max_ * scale_));
      double inf = std::numeric_limits<double>::infinity();
      double sec = idle_ / 1e6;
      if (mode_ == "lru") cache_->SetMaxIdleSeconds(sec);
      if (mode_ == "age") cache_->SetAgeBasedEviction(sec);
      if (mode_ == "inf-lru") cache_->SetMaxIdleSeconds(idle_ < -1 ? inf : -1.0);
      if (mode_ == "inf-age") cache_->SetAgeBasedEviction(idle_ < -1 ? inf : -1.0);
    } else if (c == "insert" || c == "insertp") {  // insert KEY UNITS
      string id = "v" + std::to_string(++nid_);
      Val* v = new Val{id, &gone_};
      head += ",\"k\":" + JStr(w[1]) + ",\"id\":" + JStr(id) + ",\"u\":" + w[2];
      if (c == "insert") {
        cache_->Insert(w[1], v, atoi(w[2].c_str()) * scale_);
      } else {
        pins_.push_back({w[1], id, v, true});
        cache_->InsertPinned(w[1], v, atoi(w[2].c_str()) * scale_);
      }
    } else if (c == "lookup" || c == "touch") {  // lookup KEY UPDATE
      bool upd = w[2] == "1";
      // The options of all pins of an entry have to agree.
      for (const auto& p : pins_) if (p.k == w[1]) upd = p.upd;
      scc::SimpleLRUCacheOptions o;
      o.set_update_eviction_order(upd);
      head += ",\"k\":" + JStr(w[1]) + ",\"upd\":" + (upd ? "true" : "false");
      if (c == "lookup") {
        Val* v = upd ? cache_->Lookup(w[1]) : cache_->LookupWithOptions(w[1], o);
        res = JStr(v ? v->id : "");
        if (v) pins_.push_back({w[1], v->id, v, upd});
      } else if (upd) {
        Cache::ScopedLookup l(cache_.get(), w[1]);
        res = JStr(l.Found() ? l.value()->id : "");
      } else {
        Cache::ScopedLookup l(cache_.get(), w[1], o);
        res = JStr(l.Found() ? l.value()->id : "");
      }
    } else if (c == "release") {  // release INDEX: of the outstanding pins
      if (pins_.empty()) return "";
      auto it = pins_.begin() + atoi(w[1].c_str()) % pins_.size();
      Pin p = *it;
      pins_.erase(it);
      scc::SimpleLRUCacheOptions o;
      o.set_update_eviction_order(p.upd);
      // Its value must still exist.
      head += ",\"k\":" + JStr(p.k) + ",\"id\":" + JStr(p.v->id) +
              ",\"upd\":" + (p.upd ? "true" : "false");
      if (p.upd) cache_->Release(p.k, p.v);
      else cache_->ReleaseWithOptions(p.k, p.v, o);
    } else if (c == "remove") {
      head += ",\"k\":" + JStr(w[1]);
      cache_->Remove(w[1]);
    } else if (c == "setmax") {
      head += ",\"u\":" + w[1];
      cache_->SetMaxSize(atoll(w[1].c_str()) * scale_);
    } else if (c == "idle") {  // idle US: negative for no time out, in one of its forms
      int64_t us = atoll(w[1].c_str());
      double sec = us == -1   ? -1.0
                   : us == -2 ? std::numeric_limits<double>::infinity()
                   : us == -3 ? 1e300
                              : us / 1e6;
      head += ",\"u\":" + std::to_string(us < 0 ? -1 : InUnits(us));
      if (mode_ == "age" || mode_ == "inf-age") cache_->SetAgeBasedEviction(sec);
      else cache_->SetMaxIdleSeconds(sec);
    } else if (c == "resize") {  // resize KEY -|cur|def|bogus UNITS
      static Val bogus{"?", nullptr};
      Val *v = nullptr, *cur = Current(w[1]);
      if (w[2] == "cur") v = cur ? cur : &bogus;
      if (w[2] == "bogus") v = &bogus;
      if (w[2] == "def") {
        v = &bogus;
        for (const auto& p : pins_) if (p.k == w[1] && p.v != cur) v = p.v;
      }
      head += ",\"k\":" + JStr(w[1]) + ",\"id\":" + JStr(v ? v->id : "") + ",\"u\":" + w[3];
      cache_->UpdateSize(w[1], v, atoi(w[3].c_str()) * scale_);
    } else if (c == "removeall") {
      cache_->RemoveAll();
    } else if (c == "removeunpinned") {
      cache_->RemoveUnpinned();
    } else if (c == "expire") {
      cache_->RemoveExpiredEntries();
    } else if (c == "clear" || c == "destroy") {
      if (!pins_.empty()) return "";  // requires that nothing is pinned
      cache_->Clear();
      if (c == "destroy") cache_.reset();
    } else if (c == "inuse") {
      // inuse KEY [-|cur|def|bogus]
      static Val bogus{"?", nullptr};
      Val* v = nullptr;
      Val* cur = Current(w[1]);
      string which = w.size() > 2 ? w[2] : "-";
      if (which == "cur") v = cur ? cur : &bogus;
      if (which == "bogus") v = &bogus;
      if (which == "def") {
        v = &bogus;
        for (const auto& p : pins_) if (p.k == w[1] && p.v != cur) v = p.v;
      }
      head += ",\"k\":" + JStr(w[1]) + ",\"id\":" + JStr(v ? v->id : "");
      bool used = which == "-" ? cache_->StillInUse(w[1]) : cache_->StillInUse(w[1], v);
      res = used ? "\"yes\"" : "\"no\"";
    } else if (c == "usetime") {
      head += ",\"k\":" + JStr(w[1]);
      int64_t u = mode_ == "age" || mode_ == "inf-age" ? cache_->GetInsertionTime(w[1])
                                                       : cache_->GetLastUseTime(w[1]);
      if (u >= 0) u = InUnits(u - kEpochSeconds * 1000000);
      res = JStr(std::to_string(u));
    } else if (c == "age") {
      res = JStr(std::to_string(InUnits(cache_->AgeOfLRUItemInMicroseconds())));
    } else {
      Fatal("command " + c);
    }
    string o = "{" + head + ",\"t\":" + t + ",\"res\":" + res + ",\"gone\":" + Join(gone_);
    if (!cache_) return o + ",\"live\":false}";
    vector<string> ks;
    for (auto it = cache_->begin(); it != cache_->end(); ++it) {
      int64_t use = mode_ == "age" || mode_ == "inf-age" ? it.insertion_time() : it.last_use_time();
      ks.push_back("[" + JStr(it->first) + "," + JStr(it->second->id) + "," +
                   std::to_string(InUnits(use - kEpochSeconds * 1000000)) + "]");
    }
    std::sort(ks.begin(), ks.end());
    return o + ",\"live\":true,\"obs\":{\"size\":" + Scaled(cache_->Size()) +
           ",\"n\":" + std::to_string(cache_->Entries()) +
           ",\"pin\":" + Scaled(cache_->PinnedSize()) +
           ",\"dsize\":" + Scaled(cache_->DeferredSize()) +
           ",\"dn\":" + std::to_string(cache_->DeferredEntries()) +
           ",\"max\":" + Scaled(cache_->MaxSize()) + ",\"tab\":" + Join(ks) + "}}";
  }
  ~LruScenario() {
    // Pinned values may be left; a cache that is not empty must not be
    // destroyed, so it is leaked.
    cache_.release();
  }

 private:
  Val* Current(const string& key) {
    Val* cur = nullptr;
    for (auto it = cache_->begin(); it != cache_->end(); ++it) if (it->first == key) cur = it->second;
    return cur;
  }
  string Scaled(int64_t units) {
    return std::to_string(units % scale_ ? -777 : units / scale_);
  }
  int64_t scale_ = 1;
  std::unique_ptr<Cache> cache_;
  vector<string> gone_;
  struct Pin {
    string k, id;
    Val* v;
    bool upd;
  };
  vector<Pin> pins_;
  int nid_ = 0;
  string mode_ = "none";
  int64_t idle_ = -1, max_ = 0;
};

// -------------------------------------------------------------------------
// Money and distributions.
class MoneyScenario : public Scenario {
 public:
  string CfgJson() override { return "{}"; }
  static string J(const google::type::Money& m) {
    return "{\"cur\":" + JStr(m.currency_code()) + ",\"u\":" + JInt(m.units()) +
           ",\"n\":" + JInt(m.nanos()) + "}";
  }
  string Run(const vector<string>& w, const string& text) override {
    if (Common(w, text)) return "";
    // add CUR UNITS NANOS CUR UNITS NANOS
    auto money = [&w](int i) {
      google::type::Money m;
      if (w[i] != "-") m.set_currency_code(w[i]);
      m.set_units(atoll(w[i + 1].c_str()));
      m.set_nanos(atoi(w[i + 2].c_str()));
      return m;
    };
    google::type::Money a = money(1);
    string head = "{\"c\":" + JStr(w[0]) + ",\"a\":" + J(a);
    if (w[0] == "check") {
      return head + ",\"st\":" + JStatus(scc::ValidateMoney(a)) +
             ",\"sign\":" + std::to_string(scc::GetAmountSign(a)) + "}";
    }
    google::type::Money b = money(4), sum;
    sum.set_currency_code("XXX");
    sum.set_units(77);
    sum.set_nanos(77);
    head += ",\"b\":" + J(b);
    if (w[0] == "add") {
      Status st = scc::TryAddMoney(a, b, &sum);
      string name = st.ok() ? "OK" : st.code() == StatusCode::kOutOfRange ? "OUT_OF_RANGE"
                    : st.code() == StatusCode::kInvalidArgument ? "INVALID_ARGUMENT" : "OTHER";
      return head + ",\"st\":" + JStr(name) + ",\"sum\":" + J(sum) + "}";
    }
    if (w[0] == "alias") {  // the sum is stored over the first amount
      google::type::Money c = a;
      Status st = scc::TryAddMoney(c, b, &c);
      string name = st.ok() ? "OK" : st.code() == StatusCode::kOutOfRange ? "OUT_OF_RANGE"
                    : st.code() == StatusCode::kInvalidArgument ? "INVALID_ARGUMENT" : "OTHER";
      return head + ",\"st\":" + JStr(name) + ",\"sum\":" + J(c) + "}";
    }
    sum = scc::SaturatedAddMoney(a, b);
    return head + ",\"st\":\"\",\"sum\":" + J(sum) + "}";
  }
};

class DistScenario : public Scenario {
 public:
  string CfgJson() override { return "{}"; }
  string Run(const vector<string>& w, const string& text) override {
    if (Common(w, text)) return "";
    const string& c = w[0];
    string head = "{\"c\":" + JStr(c);
    auto st = [](const Status& s) {
      return string(s.ok() ? "\"OK\"" : s.code() == StatusCode::kInvalidArgument
                                            ? "\"INVALID_ARGUMENT\"" : "\"OTHER\"");
    };
    auto num = [](const string& s) { return strtod(s.c_str(), nullptr); };
    if (c == "init") {  // init NAME exp|lin|expl ...
      v1::Distribution* d = &d_[w[1]];
      Status s;
      if (w[2] == "exp") {
        s = scc::DistributionHelper::InitExponential(atoi(w[3].c_str()), num(w[4]), num(w[5]), d);
      } else if (w[2] == "lin") {
        s = scc::DistributionHelper::InitLinear(atoi(w[3].c_str()), num(w[4]), num(w[5]), d);
      } else if (w[2] == "expl") {
        vector<double> b;
        for (size_t i = 3; i < w.size(); ++i) b.push_back(num(w[i]));
        s = scc::DistributionHelper::InitExplicit(b, d);
      }
      // The parameters on the grid, for the specification.
      string ps;
      for (size_t i = 3; i < w.size(); ++i) {
        double x = num(w[i]) * 8;
        ps += string(i > 3 ? "," : "") + std::to_string((long)x);
      }
      return head + ",\"n\":" + JStr(w[1]) + ",\"kind\":" + JStr(w[2]) + ",\"p\":[" + ps +
             "],\"st\":" + st(s) + ",\"d\":" + JDist(*d) + ",\"o\":" + Options(*d) + "}";
    }
    if (c == "load") {  // load NAME | textproto
      ParseInto(text, &d_[w[1]]);
      return head + ",\"n\":" + JStr(w[1]) + ",\"d\":" + JDist(d_[w[1]]) +
             ",\"o\":" + Options(d_[w[1]]) + "}";
    }
    if (c == "add") {
      double x = num(w[2]);
      Status s = scc::DistributionHelper::AddSample(x, &d_[w[1]]);
      return head + ",\"n\":" + JStr(w[1]) + ",\"x\":" + std::to_string((long)(x * 8)) +
             ",\"st\":" + st(s) + ",\"d\":" + JDist(d_[w[1]]) + "}";
    }
    // Buckets and count only: special NAME inf|-inf|nan|..., or
    // near NAME VALUE below|above I: the next number to the I-th bound.
    if (c == "special" || c == "near") {
      double x = num(w[2]);
      if (c == "near") head += ",\"i\":" + w[4];
      v1::Distribution before = d_[w[1]];
      v1::Distribution* d = &d_[w[1]];
      Status s = scc::DistributionHelper::AddSample(x, d);
      string b = "[";
      for (int i = 0; i < d->bucket_counts_size(); ++i)
        b += (i ? "," : "") + JInt(d->bucket_counts(i));
      string r = head + ",\"n\":" + JStr(w[1]) + ",\"x\":" + JStr(w[c == "near" ? 3 : 2]) + ",\"st\":" + st(s) +
                 ",\"cnt\":" + JInt(d->count()) + ",\"b\":" + b + "]}";
      *d = before;  // the statistics are off the grid from here on
      return r;
    }
    if (c == "merge") {  // merge FROM TO
      Status s = scc::DistributionHelper::Merge(d_[w[1]], &d_[w[2]]);
      return head + ",\"f\":" + JStr(w[1]) + ",\"n\":" + JStr(w[2]) + ",\"st\":" + st(s) +
             ",\"d\":" + JDist(d_[w[2]]) + ",\"fd\":" + JDist(d_[w[1]]) + "}";
    }
    Fatal("command " + c);
  }

  // The bucket options on the grid.
  static string Options(const v1::Distribution& d) {
    auto g = [](double x) { return std::to_string((long)(x * 8)); };
    if (d.has_exponential_buckets()) {
      const auto& e = d.exponential_buckets();
      return "[\"exp\",[" + g(e.num_finite_buckets()) + "," + g(e.growth_factor()) + "," +
             g(e.scale()) + "]]";
    }
    if (d.has_linear_buckets()) {
      const auto& e = d.linear_buckets();
      return "[\"lin\",[" + g(e.num_finite_buckets()) + "," + g(e.width()) + "," +
             g(e.offset()) + "]]";
    }
    if (d.has_explicit_buckets()) {
      vector<string> b;
      for (double x : d.explicit_buckets().bounds()) b.push_back(g(x));
      return "[\"expl\"," + Join(b) + "]";
    }
    return "[\"none\",[]]";
  }

 private:
  std::map<string, v1::Distribution> d_;
};

// Several clients at the same time, on one clock. "@N COMMAND" is a command of
// the N-th one; every one has a trace of its own.
class ClientsScenario : public Scenario {
 public:
  string Run(const vector<string>& w, const string& text) override {
    if (w[0][0] != '@') {
      if (!Common(w, text)) Fatal("command " + w[0]);
      return "";
    }
    size_t n = atoi(w[0].c_str() + 1);
    if (n > 3) Fatal("client " + w[0]);
    while (all_.size() <= n) all_.emplace_back(new ClientScenario);
    ev_.resize(all_.size());
    string r = all_[n]->Run(vector<string>(w.begin() + 1, w.end()), text);
    if (!r.empty()) ev_[n].push_back(r);
    return "";
  }
  std::vector<std::unique_ptr<ClientScenario>> all_;
  vector<vector<string>> ev_;
};

std::unique_ptr<Scenario> Make(const string& comp) {
  if (comp == "clients") return std::unique_ptr<Scenario>(new ClientsScenario);
  if (comp == "client") return std::unique_ptr<Scenario>(new ClientScenario);
  if (comp == "lru") return std::unique_ptr<Scenario>(new LruScenario);
  if (comp == "money") return std::unique_ptr<Scenario>(new MoneyScenario);
  if (comp == "dist") return std::unique_ptr<Scenario>(new DistScenario);
  if (comp == "chkagg" || comp == "quoagg" || comp == "repagg")
    return std::unique_ptr<Scenario>(new AggScenario(comp));
  Fatal("component " + comp);
}

void Watchdog() {
  for (;;) {
    RealSleepMs(200);
    int64_t d = g_deadline;
    if (d && RealMs() > d) {
      fprintf(stderr, "HANG: the scenario did not finish\n");
      fflush(stderr);
      _exit(97);
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 4) Fatal("usage");
  int limit_ms = argc > 4 ? atoi(argv[4]) : 30000;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2], std::ios::app);
  g_progress = argv[3];
  google::protobuf::SetLogHandler(nullptr);
  std::thread(Watchdog).detach();
  string line, id, comp;
  vector<string> ev;
  std::unique_ptr<Scenario> sc;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    string text;
    size_t bar = line.find(" | ");
    if (bar != string::npos) {
      text = line.substr(bar + 3);
      line.resize(bar);
    }
    std::istringstream is(line);
    vector<string> w;
    for (string x; is >> x;) w.push_back(x);
    if (w[0] == "scenario") {
      id = w[1];
      comp = w[2];
      g_unit = 1;
      ClockReset();
      ClockAdvance(1000000);
      sc = Make(comp);
      ev.clear();
      std::ofstream(g_progress) << id << std::endl;
      g_deadline = RealMs() + limit_ms;
    } else if (w[0] == "end") {
      string cfg = sc->CfgJson();
      if (auto* cs = dynamic_cast<ClientsScenario*>(sc.get())) {
        string o;
        for (size_t n = 0; n < cs->all_.size(); ++n)
          o += "{\"id\":" + JStr(id + "#" + std::to_string(n)) + ",\"comp\":\"client\",\"cfg\":" +
               cs->all_[n]->CfgJson() + ",\"ev\":" + Join(cs->ev_[n]) + "}\n";
        sc.reset();
        g_deadline = 0;
        out << o << "{\"id\":" << JStr(id) << ",\"comp\":\"clients\"}" << std::endl;
        continue;
      }
      sc.reset();
      g_deadline = 0;
      out << "{\"id\":" << JStr(id) << ",\"comp\":" << JStr(comp) << ",\"cfg\":" << cfg
          << ",\"ev\":" << Join(ev) << "}" << std::endl;
    } else {
      string r = sc->Run(w, text);
      if (!r.empty()) ev.push_back(r);
    }
  }
  std::ofstream(g_progress) << "-" << std::endl;
  out.flush();
  _exit(0);
}

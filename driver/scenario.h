// Scenarios of the client, shared by the drivers.
#ifndef VERIF_DRIVER_SCENARIO_H_
#define VERIF_DRIVER_SCENARIO_H_

#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <thread>

#include "common.h"
#include "google/protobuf/text_format.h"
#include "include/service_control_client.h"

namespace scc = ::google::service_control_client;
using google::protobuf::TextFormat;
using std::string;
using std::vector;

namespace {

int64_t g_unit = 1;  // times are logged in units of so many microseconds

[[noreturn]] void Fatal(const string& s) {
  fprintf(stderr, "DRIVER-ERROR %s\n", s.c_str());
  fflush(stderr);
  _exit(96);
}

// -------------------------------------------------------------------------
struct Defs {
  std::map<string, v1::CheckRequest> check;
  std::map<string, v1::AllocateQuotaRequest> quota;
  std::map<string, v1::ReportRequest> report;
  std::map<string, v1::CheckResponse> cresp;
  std::map<string, v1::AllocateQuotaResponse> qresp;
  std::map<string, v1::ReportResponse> rresp;
};
template <class M>
void ParseInto(const string& text, M* m) {
  if (!TextFormat::ParseFromString(text, m)) Fatal("bad textproto: " + text);
}
template <class M>
const typename M::mapped_type& Get(const M& m, const string& k) {
  auto it = m.find(k);
  if (it == m.end()) Fatal("no definition of " + k);
  return it->second;
}

struct Config {
  string svc = "svc", cid = "cid";
  int chk[3] = {10, 1000, 2000};
  int quo[3] = {10, 1000, 60000};
  int rep[2] = {10, 1000};
  vector<std::pair<string, string>> kinds;
  vector<string> gt = {"check", "quota", "report"};
  bool timer = true, timer_waits = false;

  std::shared_ptr<scc::MetricKindMap> KindMap() const {
    auto m = std::make_shared<scc::MetricKindMap>();
    for (const auto& k : kinds) {
      (*m)[k.first] = k.second == "GAUGE" ? ::google::api::MetricDescriptor::GAUGE
                      : k.second == "CUMULATIVE"
                          ? ::google::api::MetricDescriptor::CUMULATIVE
                          : ::google::api::MetricDescriptor::DELTA;
    }
    return m;
  }
  bool Has(const string& kind) const {
    return std::find(gt.begin(), gt.end(), kind) != gt.end();
  }
  string Json() const {
    string ks = "[", gs = "[";
    for (size_t i = 0; i < kinds.size(); ++i)
      ks += string(i ? "," : "") + "[" + JStr(kinds[i].first) + "," +
            JStr(kinds[i].second) + "]";
    for (size_t i = 0; i < gt.size(); ++i) gs += string(i ? "," : "") + JStr(gt[i]);
    ks += "]";
    string id = "{\"svc\":" + JStr(svc) + ",\"cid\":" + JStr(cid) +
                ",\"ms\":" + std::to_string(1000 / g_unit);
    return "{\"chk\":" + id + ",\"n\":" + std::to_string(chk[0]) +
           ",\"flushms\":" + std::to_string(chk[1]) +
           ",\"expms\":" + std::to_string(chk[2]) + ",\"kinds\":" + ks + "}" +
           ",\"quo\":" + id + ",\"n\":" + std::to_string(quo[0]) +
           ",\"refreshms\":" + std::to_string(quo[1]) +
           ",\"expms\":" + std::to_string(quo[2]) + "}" + ",\"rep\":" + id +
           ",\"n\":" + std::to_string(rep[0]) +
           ",\"flushms\":" + std::to_string(rep[1]) + ",\"kinds\":" + ks + "}" +
           ",\"gt\":" + gs + "],\"timer\":" + (timer ? "true" : "false") + "}";
  }
};

int64_t InUnits(int64_t us) {
  if (us % g_unit) Fatal("time is not a multiple of the unit");
  return us / g_unit;
}
string T() { return std::to_string(InUnits(ClockNow())); }

struct Plan {
  string how = "store";  // store, inplace, thread
  int64_t delay = 0;
  string st = "OK", resp = "-";
  bool rep = false;
};

struct Decl {
  int n = 0;
  string kind, req;
  bool own = false, sync = false;
  int then = 0;
};

class Scenario {
 public:
  virtual ~Scenario() {}
  // Executes one command and returns its log record, or "" for none.
  virtual string Run(const vector<string>& w, const string& text) = 0;
  virtual string CfgJson() { return cfg.Json(); }

  Defs defs;
  Config cfg;

  bool Common(const vector<string>& w, const string& text) {
    const string& c = w[0];
    if (c == "def") {
      const string &kind = w[1], &name = w[2];
      if (kind == "check") ParseInto(text, &defs.check[name]);
      else if (kind == "quota") ParseInto(text, &defs.quota[name]);
      else if (kind == "report") ParseInto(text, &defs.report[name]);
      else if (kind == "cresp") ParseInto(text, &defs.cresp[name]);
      else if (kind == "qresp") ParseInto(text, &defs.qresp[name]);
      else if (kind == "rresp") ParseInto(text, &defs.rresp[name]);
      else Fatal("def " + kind);
    } else if (c == "svc") {
      cfg.svc = w[1];
      cfg.cid = w.size() > 2 ? w[2] : "";
    } else if (c == "chk") {
      for (int i = 0; i < 3; ++i) cfg.chk[i] = atoi(w[1 + i].c_str());
    } else if (c == "quo") {
      for (int i = 0; i < 3; ++i) cfg.quo[i] = atoi(w[1 + i].c_str());
    } else if (c == "rep") {
      for (int i = 0; i < 2; ++i) cfg.rep[i] = atoi(w[1 + i].c_str());
    } else if (c == "kind") {
      cfg.kinds.push_back({w[1], w[2]});
    } else if (c == "gt") {
      cfg.gt.assign(w.begin() + 1, w.end());
    } else if (c == "timer") {
      cfg.timer = w[1] != "0";
      cfg.timer_waits = w[1] == "2";
    } else if (c == "unit") {
      g_unit = atoll(w[1].c_str());
    } else if (c == "adv") {
      ClockAdvance(InUnits(atoll(w[1].c_str())) * g_unit);
    } else {
      return false;
    }
    return true;
  }
};


// -------------------------------------------------------------------------
// The client.
class ClientScenario : public Scenario {
 public:
  string Run(const vector<string>& w, const string& text) override {
    if (Common(w, text)) return "";
    const string& c = w[0];
    if (c == "decl") {
      Decl d;
      d.n = atoi(w[1].c_str());
      d.kind = w[2];
      d.req = w[3];
      d.own = w[4] == "1";
      d.sync = w[5] == "1";
      d.then = atoi(w[6].c_str());
      decls_[d.n] = d;
      return "";
    }
    if (c == "plan") {
      plans_[w[1]].clear();
      string o;
      for (size_t i = 2; i < w.size(); ++i) {
        Plan p;
        std::istringstream is(w[i]);
        string f;
        std::getline(is, p.how, ':');
        if (p.how[0] == '*') {
          p.rep = true;
          p.how.erase(0, 1);
        }
        if (std::getline(is, f, ':')) p.delay = atoll(f.c_str());
        std::getline(is, p.st, ':');
        std::getline(is, p.resp, ':');
        plans_[w[1]].push_back(p);
        o += string(i > 2 ? "," : "") + "{\"how\":" +
             JStr(p.how == "store" ? "store" : "inplace") +
             ",\"d\":" + std::to_string(InUnits(p.delay)) + ",\"st\":" + JStr(p.st) +
             ",\"resp\":" + RespJson(w[1], p.resp) +
             ",\"rep\":" + (p.rep ? "true" : "false") + "}";
      }
      return "{\"c\":\"plan\",\"k\":" + JStr(w[1]) + ",\"p\":[" + o + "]}";
    }
    ev_.clear();
    string t = T(), head;
    if (c == "new") {
      head = "\"c\":\"new\"";
      New();
    } else if (c == "call") {
      int n = atoi(w[1].c_str());
      head = "\"c\":\"call\",\"call\":" + CallJson(n);
      DoCall(n);
    } else if (c == "fin") {
      // fin KIND INDEX STATUS RESPONSE: the INDEX-th oldest outstanding one
      auto& of = out_[w[1]];
      if (of.empty()) return "{\"c\":\"idle\",\"k\":" + JStr(w[1]) + "}";
      auto it = of.begin();
      std::advance(it, atoi(w[2].c_str()) % of.size());
      int id = it->first;
      auto f = it->second;
      of.erase(it);
      head = "\"c\":\"fin\",\"k\":" + JStr(w[1]) + ",\"id\":" + std::to_string(id) +
             ",\"st\":" + JStr(w[3]) + ",\"resp\":" + RespJson(w[1], w[4]);
      f(w[3], w[4]);
    } else if (c == "tick") {
      head = "\"c\":\"tick\"";
      if (tick_) tick_();
      else head = "\"c\":\"notimer\"";
    } else if (c == "destroy") {
      head = "\"c\":\"destroy\"";
      client_.reset();
    } else {
      Fatal("command " + c);
    }
    return "{" + head + ",\"t\":" + t + ",\"ev\":" + Join(ev_) + ",\"t2\":" + T() +
           Tail() + "}";
  }
  ~ClientScenario() {
    plans_.clear();
    client_.reset();
    tick_ = nullptr;
    // The outstanding requests are never completed; whatever they hold leaks.
    new std::map<string, std::map<int, Out>>(std::move(out_));
  }

 protected:
  // Something can be observed.
  virtual void Event(const string& json) { ev_.push_back(json); }
  // What happens in between is one step.
  virtual void Hold(bool) {}
  // Stopping the timer may wait for a running tick.
  virtual void WaitTimer() {}

  using Out = std::function<void(const string&, const string&)>;
  std::unique_ptr<scc::ServiceControlClient> client_;
  std::map<string, std::vector<Plan>> plans_;
  std::map<int, Decl> decls_;
  std::map<string, std::map<int, Out>> out_;
  std::function<void()> tick_;
  vector<string> ev_;
  std::map<string, int> nid_;

  string Tail() {
    if (!client_) return ",\"live\":false";
    scc::Statistics s;
    (void)client_->GetStatistics(&s);
    auto n = [](uint64_t v) { return std::to_string(v > 2000000000 ? 2000000000 : v); };
    return ",\"live\":true,\"stat\":{\"tc\":" + n(s.total_called_checks) +
           ",\"fc\":" + n(s.send_checks_by_flush) + ",\"ic\":" +
           n(s.send_checks_in_flight) + ",\"tq\":" + n(s.total_called_quotas) +
           ",\"fq\":" + n(s.send_quotas_by_flush) + ",\"iq\":" +
           n(s.send_quotas_in_flight) + ",\"tr\":" + n(s.total_called_reports) +
           ",\"fr\":" + n(s.send_reports_by_flush) + ",\"ir\":" +
           n(s.send_reports_in_flight) + ",\"ops\":" + n(s.send_report_operations) +
           "}";
  }
  string RespJson(const string& kind, const string& name) {
    if (kind == "check") return JCheckResp(name == "-" ? v1::CheckResponse() : Get(defs.cresp, name));
    if (kind == "quota") return JQuotaResp(name == "-" ? v1::AllocateQuotaResponse() : Get(defs.qresp, name));
    return JReportResp(name == "-" ? v1::ReportResponse() : Get(defs.rresp, name));
  }
  void Fill(v1::CheckResponse* r, const string& n) {
    r->Clear();
    if (n != "-") *r = Get(defs.cresp, n);
  }
  void Fill(v1::AllocateQuotaResponse* r, const string& n) {
    r->Clear();
    if (n != "-") *r = Get(defs.qresp, n);
  }
  void Fill(v1::ReportResponse* r, const string& n) {
    r->Clear();
    if (n != "-") *r = Get(defs.rresp, n);
  }
  static string ReqJson(const v1::CheckRequest& r) { return JCheckReq(r); }
  static string ReqJson(const v1::AllocateQuotaRequest& r) { return JQuotaReq(r); }
  static string ReqJson(const v1::ReportRequest& r) { return JReportReq(r); }

  template <class Req, class Rsp>
  void OnSend(const string& kind, const string& via, const Req& req, Rsp* rsp,
              scc::TransportDoneFunc done) {
    Hold(true);
    int id = ++nid_[kind];
    Event("{\"e\":\"send\",\"k\":" + JStr(kind) + ",\"via\":" + JStr(via) +
                  ",\"id\":" + std::to_string(id) + ",\"req\":" + ReqJson(req) + "}");
    Plan p;
    auto& q = plans_[kind];
    if (!q.empty()) {
      p = q.front();
      if (!p.rep) q.erase(q.begin());
    }
    if (p.how == "store") {
      out_[kind][id] = [this, rsp, done](const string& st, const string& name) {
        Fill(rsp, name);
        done(MakeStatus(st));
      };
      Hold(false);
      return;
    }
    ClockAdvance(p.delay);
    Hold(false);
    Fill(rsp, p.resp);
    if (p.how == "inplace") {
      done(MakeStatus(p.st));
    } else {  // thread: the caller is waiting for it
      std::thread([done, p]() { done(MakeStatus(p.st)); }).detach();
    }
  }

  template <class Req, class Rsp>
  std::function<void(const Req&, Rsp*, scc::TransportDoneFunc)> Transport(
      const string& kind, const string& via) {
    return [this, kind, via](const Req& req, Rsp* rsp, scc::TransportDoneFunc done) {
      OnSend(kind, via, req, rsp, done);
    };
  }
  scc::TransportCheckFunc CheckT(const string& via) {
    return Transport<v1::CheckRequest, v1::CheckResponse>("check", via);
  }
  scc::TransportQuotaFunc QuotaT(const string& via) {
    return Transport<v1::AllocateQuotaRequest, v1::AllocateQuotaResponse>("quota", via);
  }
  scc::TransportReportFunc ReportT(const string& via) {
    return Transport<v1::ReportRequest, v1::ReportResponse>("report", via);
  }

  class Timer : public scc::PeriodicTimer {
   public:
    explicit Timer(ClientScenario* s) : s_(s) {}
    void Stop() override {
      if (s_->cfg.timer_waits) s_->WaitTimer();
      s_->Hold(true);
      s_->Event("{\"e\":\"stop\"}");
      s_->Hold(false);
    }

   private:
    ClientScenario* s_;
  };

  void New() {
    scc::ServiceControlClientOptions o(
        scc::CheckAggregationOptions(cfg.chk[0], cfg.chk[1], cfg.chk[2]),
        scc::QuotaAggregationOptions(cfg.quo[0], cfg.quo[1], cfg.quo[2]),
        scc::ReportAggregationOptions(cfg.rep[0], cfg.rep[1]));
    o.metric_kinds = cfg.KindMap();
    if (cfg.Has("check")) o.check_transport = CheckT("default");
    if (cfg.Has("quota")) o.quota_transport = QuotaT("default");
    if (cfg.Has("report")) o.report_transport = ReportT("default");
    if (cfg.timer) {
      o.periodic_timer = [this](int ms, std::function<void()> f) {
        Event("{\"e\":\"timer\",\"ms\":" + std::to_string(ms) + "}");
        tick_ = f;
        return std::unique_ptr<scc::PeriodicTimer>(new Timer(this));
      };
    }
    client_ = scc::CreateServiceControlClient(cfg.svc, cfg.cid, o);
  }

  const Decl& DeclOf(int n) {
    auto it = decls_.find(n);
    if (it == decls_.end()) Fatal("no call " + std::to_string(n));
    return it->second;
  }
  string CallJson(int n) {
    if (n == 0) return "";
    const Decl& d = DeclOf(n);
    string req = d.kind == "check"   ? JCheckReq(Get(defs.check, d.req))
                 : d.kind == "quota" ? JQuotaReq(Get(defs.quota, d.req))
                                     : JReportReq(Get(defs.report, d.req));
    return "{\"n\":" + std::to_string(n) + ",\"k\":" + JStr(d.kind) +
           ",\"own\":" + (d.own ? "true" : "false") +
           ",\"sync\":" + (d.sync ? "true" : "false") + ",\"then\":[" +
           CallJson(d.then) + "],\"req\":" + req + "}";
  }
  // Callers may hand in a response that was used before.
  static void Dirty(v1::CheckResponse* r) {
    r->set_operation_id("stale");
    r->add_check_errors()->set_detail("stale");
  }
  static void Dirty(v1::AllocateQuotaResponse* r) {
    r->set_operation_id("stale");
    r->add_allocate_errors()->set_subject("stale");
  }
  static void Dirty(v1::ReportResponse* r) {
    r->add_report_errors()->set_operation_id("stale");
  }
  template <class Rsp>
  static string After(bool dirty, const Rsp& rsp, const std::function<string(const Rsp&)>& json) {
    if (dirty) {
      Rsp d;
      Dirty(&d);
      if (d.SerializeAsString() == rsp.SerializeAsString())
        return "{\"t\":\"untouched\",\"err\":0}";
    }
    return json(rsp);
  }
  void LogDone(int n, const Status& st, const string& resp) {
    Hold(true);
    Event("{\"e\":\"done\",\"call\":" + std::to_string(n) + ",\"st\":" +
                  JStatus(st) + ",\"resp\":" + resp + "}");
    Hold(false);
  }
  template <class Req, class Rsp>
  void Issue(const Decl& d, const Req& req0,
             std::function<string(const Rsp&)> json,
             void (scc::ServiceControlClient::*async)(const Req&, Rsp*,
                                                      scc::TransportDoneFunc),
             void (scc::ServiceControlClient::*own)(
                 const Req&, Rsp*, scc::TransportDoneFunc,
                 std::function<void(const Req&, Rsp*, scc::TransportDoneFunc)>),
             Status (scc::ServiceControlClient::*sync)(const Req&, Rsp*)) {
    int n = d.n, then = d.then;
    // The request need not outlive the call, and may be used for another one.
    static Req* slot = new Req;
    static bool used = false;
    struct Lease {
      Req* r;
      bool mine;
      Lease(bool want) : mine(want && !used) {
        r = mine ? slot : new Req;
        used |= mine;
      }
      ~Lease() {
        if (!mine) {
          delete r;
        } else {
          r->Clear();
          used = false;
        }
      }
    } lease(n % 3 == 0);
    *lease.r = req0;
    const Req& req = *lease.r;
    // A completion within the call may make the request ready for another use.
    auto within = std::make_shared<Req*>(n % 4 < 2 ? lease.r : nullptr);
    struct Within {
      Req** r;
      ~Within() { *r = nullptr; }
    } leave{within.get()};
    // The response need not outlive the completion.
    Rsp* rsp = new Rsp;
    bool dirty = n % 2;
    if (dirty) Dirty(rsp);
    if (d.sync) {
      Status st = (client_.get()->*sync)(req, rsp);
      LogDone(n, st, After<Rsp>(dirty, *rsp, json));
      delete rsp;
      if (then) DoCall(then);
      return;
    }
    auto gone = std::make_shared<bool>(false);
    scc::TransportDoneFunc done = [this, n, then, rsp, dirty, gone, within, json](const Status& st) {
      LogDone(n, st, *gone ? json(Rsp()) : After<Rsp>(dirty, *rsp, json));
      if (*within) (*within)->Clear();
      if (!*gone) delete rsp;
      *gone = true;
      if (then && client_) DoCall(then);
    };
    if (d.own) {
      (client_.get()->*own)(req, rsp, done, Transport<Req, Rsp>(d.kind, "own"));
    } else {
      (client_.get()->*async)(req, rsp, done);
    }
  }
  void DoCall(int n) {
    const Decl& d = DeclOf(n);
    using C = scc::ServiceControlClient;
    if (d.kind == "check") {
      Issue<v1::CheckRequest, v1::CheckResponse>(d, Get(defs.check, d.req), JCheckResp, &C::Check, &C::Check, &C::Check);
    } else if (d.kind == "quota") {
      Issue<v1::AllocateQuotaRequest, v1::AllocateQuotaResponse>(
          d, Get(defs.quota, d.req), JQuotaResp, &C::Quota, &C::Quota,
          &C::Quota);
    } else {
      Issue<v1::ReportRequest, v1::ReportResponse>(d, Get(defs.report, d.req), JReportResp, &C::Report,
                                                   &C::Report, &C::Report);
    }
  }
};

}  // namespace

#endif

#include "common.h"

#include <math.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>

#include "google/protobuf/text_format.h"

// ---------------------------------------------------------------------------
// Virtual clock.
const int64_t kEpochSeconds = 1000000000;
static std::atomic<int64_t> g_now_us{0};

void ClockReset() { g_now_us = 0; }
void ClockAdvance(int64_t us) { g_now_us += us; }
int64_t ClockNow() { return g_now_us; }

static int64_t VirtualUs() { return kEpochSeconds * 1000000 + g_now_us; }

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  int64_t us = VirtualUs();
  tv->tv_sec = us / 1000000;
  tv->tv_usec = us % 1000000;
  return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC &&
      id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC_COARSE &&
      id != CLOCK_MONOTONIC_RAW && id != CLOCK_BOOTTIME) {
    return syscall(SYS_clock_gettime, id, ts);
  }
  int64_t us = VirtualUs();
  ts->tv_sec = us / 1000000;
  ts->tv_nsec = (us % 1000000) * 1000;
  return 0;
}
extern "C" time_t time(time_t* t) noexcept {
  time_t s = VirtualUs() / 1000000;
  if (t) *t = s;
  return s;
}
int64_t RealMs() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
void RealSleepMs(int ms) {
  struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
  syscall(SYS_nanosleep, &ts, nullptr);
}

// ---------------------------------------------------------------------------
// JSON.
std::string JStr(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
std::string Join(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + v[i];
  return o + "]";
}
std::string JWide(__int128 v) {
  const int64_t kBase = 1000000000;
  __int128 c = v % kBase, q = v / kBase;
  if (c < 0) c += kBase, q -= 1;
  __int128 b = q % kBase, a = q / kBase;
  if (b < 0) b += kBase, a -= 1;
  if (a > 2000000000 || a < -2000000000) return "[2000000000,0,0]";
  char buf[80];
  snprintf(buf, sizeof buf, "[%ld,%ld,%ld]", (long)a, (long)b, (long)c);
  return buf;
}
std::string JInt(int64_t v) { return JWide(v); }

static std::string Text(const google::protobuf::Message& m) {
  google::protobuf::TextFormat::Printer p;
  p.SetSingleLineMode(true);
  std::string s;
  p.PrintToString(m, &s);
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
static std::string JTs(bool has, const google::protobuf::Timestamp& t) {
  if (!has) return "[]";
  char b[64];
  int64_t s = t.seconds(), g = 1000000000;
  int64_t lo = (s % g + g) % g;
  snprintf(b, sizeof b, "[%ld,%ld,%d]", (long)((s - lo) / g), (long)lo, t.nanos());
  return b;
}
template <class M>
static std::string JMap(const M& m) {
  std::vector<std::pair<std::string, std::string>> v(m.begin(), m.end());
  std::sort(v.begin(), v.end());
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    o += std::string(i ? "," : "") + "[" + JStr(v[i].first) + "," +
         JStr(v[i].second) + "]";
  }
  return o + "]";
}
// A double on the grid of 1/grid, as a wide number; ok is cleared if it is not
// close to a point of the grid.
static std::string JGrid(double v, double grid, double tol, bool* ok) {
  double x = v * grid;
  if (!(fabs(x) < 1e24)) {
    *ok = false;
    return "[0,0,0]";
  }
  double r = nearbyint(x);
  if (fabs(x - r) > tol) *ok = false;
  return JWide((__int128)r);
}
static std::string G17(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
// <<count, sum, sum of squares, min, max, buckets, options>> on a grid of 1/8.
std::string JDist(const v1::Distribution& d) {
  bool ok = true;
  std::string opt = "none";
  if (d.has_exponential_buckets()) {
    const auto& e = d.exponential_buckets();
    opt = "exp " + std::to_string(e.num_finite_buckets()) + " " +
          G17(e.growth_factor()) + " " + G17(e.scale());
  } else if (d.has_linear_buckets()) {
    const auto& e = d.linear_buckets();
    opt = "lin " + std::to_string(e.num_finite_buckets()) + " " +
          G17(e.width()) + " " + G17(e.offset());
  } else if (d.has_explicit_buckets()) {
    opt = "explicit";
    for (double b : d.explicit_buckets().bounds()) opt += " " + G17(b);
  }
  double n = d.count();
  double sum = d.mean() * n;
  double sq = d.sum_of_squared_deviation() + d.mean() * d.mean() * n;
  std::string o = "[" + JInt(d.count()) + ",";
  double tol = 1e-3 + 1e-9 * fabs(sum);
  o += JGrid(sum, 8, tol, &ok) + ",";
  tol = 1e-2 + 1e-9 * fabs(sq);
  o += JGrid(sq, 64, tol, &ok) + ",";
  o += JGrid(d.minimum(), 8, 0, &ok) + "," + JGrid(d.maximum(), 8, 0, &ok) + ",[";
  for (int i = 0; i < d.bucket_counts_size(); ++i) {
    o += (i ? "," : "") + JInt(d.bucket_counts(i));
  }
  if (!ok) opt = "OFFGRID mean " + G17(d.mean()) + " ssd " +
                 G17(d.sum_of_squared_deviation()) + " " + opt;
  return o + "]," + JStr(opt) + "]";
}
static std::string JMv(const v1::MetricValue& m) {
  std::string k = "none", w = "[0,0,0]", t, d = "[]";
  bool ok = true;
  switch (m.value_case()) {
    case v1::MetricValue::kBoolValue:
      k = "bool";
      t = m.bool_value() ? "true" : "false";
      break;
    case v1::MetricValue::kInt64Value:
      k = "int64";
      w = JInt(m.int64_value());
      break;
    case v1::MetricValue::kDoubleValue:
      k = "double";
      w = JGrid(m.double_value(), 8, 0, &ok);
      if (!ok) t = "OFFGRID " + G17(m.double_value());
      break;
    case v1::MetricValue::kStringValue:
      k = "string";
      t = m.string_value();
      break;
    case v1::MetricValue::kDistributionValue:
      k = "dist";
      d = JDist(m.distribution_value());
      break;
    default:
      break;
  }
  v1::MetricValue rest(m);
  rest.clear_labels();
  rest.clear_start_time();
  rest.clear_end_time();
  rest.clear_value();
  return "{\"l\":" + JMap(m.labels()) + ",\"s\":" +
         JTs(m.has_start_time(), m.start_time()) + ",\"e\":" +
         JTs(m.has_end_time(), m.end_time()) + ",\"k\":" + JStr(k) + ",\"w\":" + w +
         ",\"t\":" + JStr(t) + ",\"d\":" + d + ",\"r\":" + JStr(Text(rest)) + "}";
}
template <class S>
static std::string JSets(const S& sets) {
  std::vector<std::string> v;
  for (const auto& s : sets) {
    std::vector<std::string> w;
    for (const auto& m : s.metric_values()) w.push_back(JMv(m));
    v.push_back("{\"n\":" + JStr(s.metric_name()) + ",\"vs\":" + Join(w) + "}");
  }
  return Join(v);
}
static std::string JOp(const v1::Operation& op) {
  v1::Operation rest(op);
  rest.clear_labels();
  rest.clear_metric_value_sets();
  rest.clear_log_entries();
  rest.clear_operation_id();
  rest.clear_operation_name();
  rest.clear_consumer_id();
  rest.clear_start_time();
  rest.clear_end_time();
  rest.clear_importance();
  std::vector<std::string> logs;
  for (const auto& l : op.log_entries()) logs.push_back(JStr(Text(l)));
  return "{\"id\":" + JStr(op.operation_id()) + ",\"name\":" +
         JStr(op.operation_name()) + ",\"cons\":" + JStr(op.consumer_id()) +
         ",\"imp\":" +
         JStr(op.importance() == v1::Operation::LOW
                  ? "LOW"
                  : "IMP" + std::to_string((int)op.importance())) +
         ",\"r\":" + JStr(Text(rest)) + ",\"s\":" +
         JTs(op.has_start_time(), op.start_time()) + ",\"e\":" +
         JTs(op.has_end_time(), op.end_time()) + ",\"l\":" + JMap(op.labels()) +
         ",\"logs\":" + Join(logs) + ",\"m\":" + JSets(op.metric_value_sets()) + "}";
}
std::string JCheckReq(const v1::CheckRequest& r) {
  v1::CheckRequest rest(r);
  rest.clear_service_name();
  rest.clear_service_config_id();
  rest.clear_operation();
  return "{\"svc\":" + JStr(r.service_name()) + ",\"cid\":" +
         JStr(r.service_config_id()) + ",\"r\":" + JStr(Text(rest)) +
         ",\"hasop\":" + (r.has_operation() ? "true" : "false") +
         ",\"op\":" + JOp(r.operation()) + "}";
}
std::string JQuotaReq(const v1::AllocateQuotaRequest& r) {
  v1::AllocateQuotaRequest rest(r);
  rest.clear_service_name();
  rest.clear_service_config_id();
  rest.clear_allocate_operation();
  const v1::QuotaOperation& op = r.allocate_operation();
  v1::QuotaOperation orest(op);
  orest.clear_operation_id();
  orest.clear_method_name();
  orest.clear_consumer_id();
  orest.clear_labels();
  orest.clear_quota_metrics();
  orest.clear_quota_mode();
  return "{\"svc\":" + JStr(r.service_name()) + ",\"cid\":" +
         JStr(r.service_config_id()) + ",\"r\":" + JStr(Text(rest)) +
         ",\"hasop\":" + (r.has_allocate_operation() ? "true" : "false") +
         ",\"op\":{\"id\":" + JStr(op.operation_id()) + ",\"method\":" +
         JStr(op.method_name()) + ",\"cons\":" + JStr(op.consumer_id()) +
         ",\"mode\":" + JStr(v1::QuotaOperation_QuotaMode_Name(op.quota_mode())) +
         ",\"l\":" + JMap(op.labels()) + ",\"r\":" + JStr(Text(orest)) +
         ",\"m\":" + JSets(op.quota_metrics()) + "}}";
}
std::string JReportReq(const v1::ReportRequest& r) {
  v1::ReportRequest rest(r);
  rest.clear_service_name();
  rest.clear_service_config_id();
  rest.clear_operations();
  std::vector<std::string> v;
  for (const auto& op : r.operations()) v.push_back(JOp(op));
  return "{\"svc\":" + JStr(r.service_name()) + ",\"cid\":" +
         JStr(r.service_config_id()) + ",\"r\":" + JStr(Text(rest)) +
         ",\"ops\":" + Join(v) + "}";
}
static std::string JResp(const std::string& t, int err) {
  return "{\"t\":" + JStr(t) + ",\"err\":" + std::to_string(err) + "}";
}
std::string JCheckResp(const v1::CheckResponse& r) {
  return JResp(Text(r), r.check_errors_size());
}
std::string JQuotaResp(const v1::AllocateQuotaResponse& r) {
  return JResp(Text(r), r.allocate_errors_size());
}
std::string JReportResp(const v1::ReportResponse& r) { return JResp(Text(r), 0); }

static const struct {
  const char* name;
  StatusCode code;
} kCodes[] = {
    {"OK", StatusCode::kOk},
    {"CANCELLED", StatusCode::kCancelled},
    {"UNKNOWN", StatusCode::kUnknown},
    {"INVALID_ARGUMENT", StatusCode::kInvalidArgument},
    {"DEADLINE_EXCEEDED", StatusCode::kDeadlineExceeded},
    {"NOT_FOUND", StatusCode::kNotFound},
    {"PERMISSION_DENIED", StatusCode::kPermissionDenied},
    {"RESOURCE_EXHAUSTED", StatusCode::kResourceExhausted},
    {"INTERNAL", StatusCode::kInternal},
    {"UNAVAILABLE", StatusCode::kUnavailable},
    {"OUT_OF_RANGE", StatusCode::kOutOfRange},
    {"ABORTED", StatusCode::kAborted},
    {"ALREADY_EXISTS", StatusCode::kAlreadyExists},
    {"FAILED_PRECONDITION", StatusCode::kFailedPrecondition},
    {"UNIMPLEMENTED", StatusCode::kUnimplemented},
    {"DATA_LOSS", StatusCode::kDataLoss},
    {"UNAUTHENTICATED", StatusCode::kUnauthenticated},
};
static std::string CodeName(const Status& s) {
  for (const auto& c : kCodes) {
    if (c.code == s.code()) return c.name;
  }
  return "CODE" + std::to_string((int)s.code());
}
// The code; with a mark if the message of a status that a transport was told to
// return is not the one it returned. A name with "~" stands for no message; the
// client itself makes INVALID_ARGUMENT, with any message, transports INVALID.
std::string JStatus(const Status& s) {
  std::string name = CodeName(s);
  std::string msg(s.message().data(), s.message().size());
  if (msg.empty() && !s.ok() && s.code() != StatusCode::kInvalidArgument) return JStr(name + "~");
  if (msg == "scripted INVALID") return JStr("INVALID");
  if (s.ok() || s.code() == StatusCode::kInvalidArgument ||
      msg == "scripted " + name) {
    return JStr(name);
  }
  return JStr(name + " BUT " + msg);
}
Status MakeStatus(const std::string& name) {
  if (name == "OK") return Status();
  if (name == "INVALID") return Status(StatusCode::kInvalidArgument, "scripted INVALID");
  if (name.back() == '~') {
    return Status(MakeStatus(name.substr(0, name.size() - 1)).code(), "");
  }
  for (const auto& c : kCodes) {
    if (name == c.name) return Status(c.code, "scripted " + name);
  }
  return Status(StatusCode::kUnknown, "scripted " + name);
}

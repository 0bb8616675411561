// Shared by the drivers: virtual clock, JSON encoding of the messages.
#ifndef VERIF_DRIVER_COMMON_H_
#define VERIF_DRIVER_COMMON_H_

#include <string>
#include <vector>

#include "google/api/servicecontrol/v1/distribution.pb.h"
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"
#include "google/protobuf/stubs/status.h"
#include "google/type/money.pb.h"

namespace v1 = ::google::api::servicecontrol::v1;
using Status = ::google::protobuf::util::Status;
using StatusCode = ::google::protobuf::util::StatusCode;

// The virtual clock: what gettimeofday, clock_gettime and time return in the
// whole process. Microseconds since kEpoch.
void ClockReset();
void ClockAdvance(int64_t us);
int64_t ClockNow();
extern const int64_t kEpochSeconds;
// The real clock, in milliseconds, and a real sleep.
int64_t RealMs();
void RealSleepMs(int ms);

// JSON.
std::string JStr(const std::string& s);
std::string JWide(__int128 v);
std::string JInt(int64_t v);  // as a wide number
std::string JCheckReq(const v1::CheckRequest& r);
std::string JQuotaReq(const v1::AllocateQuotaRequest& r);
std::string JReportReq(const v1::ReportRequest& r);
std::string JCheckResp(const v1::CheckResponse& r);
std::string JQuotaResp(const v1::AllocateQuotaResponse& r);
std::string JReportResp(const v1::ReportResponse& r);
std::string JDist(const v1::Distribution& d);
std::string JStatus(const Status& s);
Status MakeStatus(const std::string& name);
std::string Join(const std::vector<std::string>& v);

#endif

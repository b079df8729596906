// Stand-in for the parts of roscpp the curve interfaces use, or may come to use.
#pragma once
#include <cmath>
#include <cstdint>
#include <memory>
#include <string>
namespace ros {
struct Duration {
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) { norm((int64_t)s, (int64_t)n); }
  explicit Duration(double t) : sec(0), nsec(0) { fromSec(t); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  Duration& fromSec(double t) {
    int64_t s = (int64_t)std::floor(t);
    norm(s, (int64_t)std::round((t - (double)s) * 1e9));
    return *this;
  }
  Duration& fromNSec(int64_t t) { norm(0, t); return *this; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double f) const { return Duration(toSec() * f); }
  Duration& operator+=(const Duration& o) { return *this = *this + o; }
  Duration& operator-=(const Duration& o) { return *this = *this - o; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }
 private:
  void norm(int64_t s, int64_t n) {
    s += n / 1000000000ll; n %= 1000000000ll;
    if (n < 0) { n += 1000000000ll; s--; }
    sec = (int32_t)s; nsec = (int32_t)n;
  }
};
struct Time {
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
};
}
#define ROS_STANDIN_LOG(...) do {} while (0)
#define ROS_DEBUG ROS_STANDIN_LOG
#define ROS_INFO ROS_STANDIN_LOG
#define ROS_WARN ROS_STANDIN_LOG
#define ROS_ERROR ROS_STANDIN_LOG
#define ROS_FATAL ROS_STANDIN_LOG
#define ROS_DEBUG_STREAM ROS_STANDIN_LOG
#define ROS_INFO_STREAM ROS_STANDIN_LOG
#define ROS_WARN_STREAM ROS_STANDIN_LOG
#define ROS_ERROR_STREAM ROS_STANDIN_LOG
#define ROS_FATAL_STREAM ROS_STANDIN_LOG
#define ROS_INFO_ONCE ROS_STANDIN_LOG
#define ROS_WARN_ONCE ROS_STANDIN_LOG
#define ROS_ERROR_ONCE ROS_STANDIN_LOG
#define ROS_INFO_NAMED ROS_STANDIN_LOG
#define ROS_WARN_NAMED ROS_STANDIN_LOG
#define ROS_ERROR_NAMED ROS_STANDIN_LOG
#define ROS_WARN_THROTTLE ROS_STANDIN_LOG
#define ROS_ERROR_THROTTLE ROS_STANDIN_LOG
#define ROS_INFO_THROTTLE ROS_STANDIN_LOG
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }

// Functional fake of the part of rclcpp the package uses (for replaying on the real code)
#ifndef FAKE_RCLCPP_
#define FAKE_RCLCPP_
#include <any>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace builtin_interfaces { namespace msg { struct Time { int sec = 0; unsigned nanosec = 0; bool operator==(const Time & o) const { return sec == o.sec && nanosec == o.nanosec; } }; } }
namespace fake
{
inline std::map<std::string, std::any> params;
inline std::function<bool()> ok = [] { return true; };
inline double now = 1.0;
inline std::mutex mtx;
template <class M> std::vector<M> & published() { static std::vector<M> v; return v; }
template <class M> std::function<void(const M &)> & on_publish() { static std::function<void(const M &)> f; return f; }
inline int warnings = 0;
}
namespace rclcpp
{
inline bool ok() { return fake::ok(); }
struct Duration { double s_; explicit Duration(double s = 0) : s_(s) {} static Duration from_seconds(double s) { return Duration(s); } };
struct Time
{
  double t_;
  Time() : t_(0) {}
  Time(const builtin_interfaces::msg::Time & t) : t_(double(t.sec) + 1e-9 * double(t.nanosec)) {}
  explicit Time(double t) : t_(t) {}
  operator builtin_interfaces::msg::Time() const { builtin_interfaces::msg::Time t; t.sec = int(t_); t.nanosec = unsigned((t_ - t.sec) * 1e9); return t; }
  Time operator+(const Duration & d) const { return Time(t_ + d.s_); }
  double seconds() const { return t_; }
};
struct Logger {};
inline Logger get_logger(const char *) { return Logger(); }
struct NodeOptions {};
struct Clock { using SharedPtr = std::shared_ptr<Clock>; };
struct KeepLast { explicit KeepLast(int) {} };
struct QoS { QoS() {} QoS(const KeepLast &) {} QoS(int) {} QoS & transient_local() { return *this; } QoS & reliable() { return *this; } QoS & best_effort() { return *this; } };
struct SystemDefaultsQoS : QoS {};
struct SensorDataQoS : QoS {};
template <class M> struct Publisher
{
  using SharedPtr = std::shared_ptr<Publisher>;
  void publish(const M & m) { { std::lock_guard<std::mutex> l(fake::mtx); fake::published<M>().push_back(m); } if (fake::on_publish<M>()) fake::on_publish<M>()(m); }
  size_t get_subscription_count() const { return 1; }
};
template <class M> struct Subscription { using SharedPtr = std::shared_ptr<Subscription>; };
template <class S> struct Service { using SharedPtr = std::shared_ptr<Service>; };
struct Node
{
  Node(const char *, const NodeOptions &) {}
  explicit Node(const char *) {}
  virtual ~Node() {}
  template <class T> T declare_parameter(const std::string & name, const T & d)
  {
    auto it = fake::params.find(name);
    return it == fake::params.end() ? d : std::any_cast<T>(it->second);
  }
  Clock::SharedPtr get_clock() { return std::make_shared<Clock>(); }
  Time now() { return Time(fake::now); }
  Logger get_logger() const { return Logger(); }
  template <class M> std::shared_ptr<Publisher<M>> create_publisher(const std::string &, const QoS &) { return std::make_shared<Publisher<M>>(); }
  template <class M, class F> std::shared_ptr<Subscription<M>> create_subscription(const std::string &, const QoS &, F) { return std::make_shared<Subscription<M>>(); }
  template <class S, class F> std::shared_ptr<Service<S>> create_service(const std::string &, F) { return std::make_shared<Service<S>>(); }
};
}
namespace fake { template <class... A> inline void log(const char * f, A... a) { char b[512]; (void)snprintf(b, sizeof b, f, a...); } inline void log(const char *) {} }
#define RCLCPP_INFO(l, ...) do { (void)(l); fake::log(__VA_ARGS__); } while (0)
#define RCLCPP_WARN(l, ...) do { (void)(l); ++fake::warnings; fake::log(__VA_ARGS__); } while (0)
#define RCLCPP_ERROR(l, ...) do { (void)(l); ++fake::warnings; fake::log(__VA_ARGS__); } while (0)
#define RCLCPP_DEBUG(l, ...) do { (void)(l); } while (0)
#endif

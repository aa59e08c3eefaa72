// Verification stand-in for rclcpp: the interface the package uses
#ifndef VSTUB_RCLCPP_
#define VSTUB_RCLCPP_
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace builtin_interfaces { namespace msg { struct Time { int sec = 0; unsigned nanosec = 0; }; } }
namespace rclcpp
{
bool ok() noexcept;                          // unconstrained
struct Duration { double s_; explicit Duration(double s = 0) noexcept : s_(s) {} static Duration from_seconds(double s) noexcept { return Duration(s); } };
struct Time
{
  double t_;
  Time() noexcept : t_(0) {}
  Time(const builtin_interfaces::msg::Time & t) noexcept : t_(double(t.sec) + 1e-9 * double(t.nanosec)) {}
  explicit Time(double t) noexcept : t_(t) {}
  operator builtin_interfaces::msg::Time() const noexcept;
  Time operator+(const Duration & d) const noexcept { return Time(t_ + d.s_); }
};
struct Logger {};
inline Logger get_logger(const char *) noexcept { return Logger(); }
struct NodeOptions {};
struct Clock { using SharedPtr = std::shared_ptr<Clock>; };
struct KeepLast { explicit KeepLast(int) noexcept {} };
struct QoS { QoS() noexcept {} QoS(const KeepLast &) noexcept {} QoS(int) noexcept {} QoS & transient_local() noexcept { return *this; } QoS & reliable() noexcept { return *this; } };
struct SystemDefaultsQoS : QoS {};
struct SensorDataQoS : QoS {};
template <class M> void __verif_publish(const M & m) noexcept;
template <class M> struct Publisher { using SharedPtr = std::shared_ptr<Publisher>; void publish(const M & m) noexcept { __verif_publish<M>(m); } };
template <class M> struct Subscription { using SharedPtr = std::shared_ptr<Subscription>; };
template <class S> struct Service { using SharedPtr = std::shared_ptr<Service>; };
template <class T> T __verif_param(const std::string & name, const T & d) noexcept;      // any value
struct Node
{
  Node(const char *, const NodeOptions &) noexcept {}
  virtual ~Node() {}
  template <class T> T declare_parameter(const std::string & name, const T & d) noexcept { return __verif_param<T>(name, d); }
  Clock::SharedPtr get_clock() noexcept { return Clock::SharedPtr(); }
  Time now() noexcept;
  Logger get_logger() const noexcept { return Logger(); }
  template <class M> std::shared_ptr<Publisher<M>> create_publisher(const char *, const QoS &) noexcept { return std::make_shared<Publisher<M>>(); }
  template <class M, class F> std::shared_ptr<Subscription<M>> create_subscription(const char *, const QoS &, F) noexcept { return std::make_shared<Subscription<M>>(); }
  template <class S, class F> std::shared_ptr<Service<S>> create_service(const char *, F) noexcept { return std::make_shared<Service<S>>(); }
};
}
#define RCLCPP_INFO(l, ...) do { (void)(l); } while (0)
#define RCLCPP_WARN(l, ...) do { (void)(l); } while (0)
#define RCLCPP_ERROR(l, ...) do { (void)(l); } while (0)
#define RCLCPP_DEBUG(l, ...) do { (void)(l); } while (0)
#endif

// Stand-in for rclcpp: a node, its parameters, generic subscriptions and publishers as plain objects. The harness plays
// the middleware: it calls the subscriptions' callbacks and receives what publishers publish.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

struct rcutils_uint8_array_t {
  uint8_t* buffer = nullptr;
  size_t buffer_length = 0;
  size_t buffer_capacity = 0;
};
using rcl_serialized_message_t = rcutils_uint8_array_t;
enum rmw_rel { RMW_QOS_POLICY_RELIABILITY_RELIABLE = 1, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT };
enum rmw_dur { RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL = 1, RMW_QOS_POLICY_DURABILITY_VOLATILE };
struct rmw_qos_profile_t {
  size_t depth = 10;
  rmw_rel reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  rmw_dur durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
};
inline const rmw_qos_profile_t rmw_qos_profile_default{};

namespace rosstub {
inline void (*onForeignBuffer)() = nullptr;  // a serialized message would free memory it does not own
template <class... A>
inline void print(int level, const char* fmt, A... a) {
  char b[256];
  if constexpr (sizeof...(A) == 0) snprintf(b, sizeof b, "%s", fmt);
  else snprintf(b, sizeof b, fmt, a...);
  (void)level;
}
}  // namespace rosstub
#define RCLCPP_DEBUG(l, ...) ((void)(l), rosstub::print(0, __VA_ARGS__))
#define RCLCPP_INFO(l, ...) ((void)(l), rosstub::print(0, __VA_ARGS__))
#define RCLCPP_WARN(l, ...) ((void)(l), rosstub::print(1, __VA_ARGS__))
#define RCLCPP_ERROR(l, ...) ((void)(l), rosstub::print(2, __VA_ARGS__))
#define RCLCPP_FATAL(l, ...) ((void)(l), rosstub::print(3, __VA_ARGS__))
#define RCLCPP_WARN_THROTTLE(l, c, d, ...) ((void)(l), rosstub::print(1, __VA_ARGS__))
#define RCLCPP_ERROR_THROTTLE(l, c, d, ...) ((void)(l), rosstub::print(2, __VA_ARGS__))

namespace rclcpp {
struct Logger {};
class SerializedMessage {
 public:
  SerializedMessage() = default;
  explicit SerializedMessage(size_t cap) { reserve(cap); }
  SerializedMessage(const SerializedMessage& o) { *this = o; }
  SerializedMessage& operator=(const SerializedMessage& o) {
    if (this != &o) {
      reserve(o.m_.buffer_length);
      if (o.m_.buffer_length) memcpy(m_.buffer, o.m_.buffer, o.m_.buffer_length);
      m_.buffer_length = o.m_.buffer_length;
    }
    return *this;
  }
  SerializedMessage(SerializedMessage&& o) noexcept : m_(o.m_), own_(o.own_) {
    o.m_ = {};
    o.own_ = nullptr;
  }
  ~SerializedMessage() {
    if (m_.buffer && m_.buffer != own_ && rosstub::onForeignBuffer) rosstub::onForeignBuffer();
    free(own_);
  }
  rcl_serialized_message_t& get_rcl_serialized_message() { return m_; }
  const rcl_serialized_message_t& get_rcl_serialized_message() const { return m_; }
  size_t size() const { return m_.buffer_length; }
  size_t capacity() const { return m_.buffer_capacity; }
  void reserve(size_t cap) {  // exact size, so that accesses beyond the message are noticed
    free(own_);
    own_ = static_cast<uint8_t*>(malloc(cap ? cap : 1));
    m_.buffer = own_;
    m_.buffer_capacity = cap;
  }

 private:
  rcl_serialized_message_t m_;
  uint8_t* own_ = nullptr;
};
class QoS {
 public:
  explicit QoS(size_t depth) { p_.depth = depth; }
  QoS& reliable() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE; return *this; }
  QoS& best_effort() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT; return *this; }
  QoS& transient_local() { p_.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL; return *this; }
  QoS& durability_volatile() { p_.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; return *this; }
  const rmw_qos_profile_t& get_rmw_qos_profile() const { return p_; }

 private:
  rmw_qos_profile_t p_;
};
class SensorDataQoS : public QoS {
 public:
  SensorDataQoS() : QoS(5) { best_effort(); }
};
struct TopicEndpointInfo {
  QoS q{10};
  const QoS& qos_profile() const { return q; }
};
class Parameter {
 public:
  using Value = std::variant<std::monostate, bool, int64_t, double, std::string>;
  Parameter() = default;
  Parameter(std::string n, Value v) : n_(std::move(n)), v_(std::move(v)) {}
  const std::string& get_name() const { return n_; }
  bool as_bool() const { return std::get<bool>(v_); }
  int64_t as_int() const { return std::get<int64_t>(v_); }
  double as_double() const { return std::get<double>(v_); }
  std::string as_string() const { return std::get<std::string>(v_); }
  const Value& value() const { return v_; }

 private:
  std::string n_;
  Value v_;
};
class NodeOptions {
 public:
  NodeOptions& use_intra_process_comms(bool) { return *this; }
  NodeOptions& parameter_overrides(std::vector<Parameter> p) { ov = std::move(p); return *this; }
  std::vector<Parameter> ov;
};
class SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<SubscriptionBase>;
  virtual ~SubscriptionBase() = default;
  const char* get_topic_name() const { return topic.c_str(); }
  std::string topic, type;
};
class GenericSubscription : public SubscriptionBase {
 public:
  using SharedPtr = std::shared_ptr<GenericSubscription>;
  std::function<void(std::shared_ptr<SerializedMessage>)> callback;
};
class GenericPublisher {
 public:
  using SharedPtr = std::shared_ptr<GenericPublisher>;
  size_t get_subscription_count() const { return subscribers; }
  void publish(const SerializedMessage& m) {
    if (sink) sink(m);
  }
  const char* get_topic_name() const { return topic.c_str(); }
  std::string topic, type;
  size_t subscribers = 1;
  std::function<void(const SerializedMessage&)> sink;
};
class Node : public std::enable_shared_from_this<Node> {
 public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string& name, const NodeOptions& o = NodeOptions()) : name_(name) {
    for (auto& p : o.ov) over_[p.get_name()] = p.value();
  }
  virtual ~Node() = default;
  Logger get_logger() const { return {}; }
  template <class T>
  T declare_parameter(const std::string& n, const T& def) {
    Parameter::Value v = def;
    auto it = over_.find(n);
    if (it != over_.end()) v = it->second;
    par_[n] = v;
    return std::get<T>(v);
  }
  Parameter get_parameter(const std::string& n) const {
    auto it = par_.find(n);
    if (it == par_.end()) throw std::runtime_error("parameter not declared");
    return Parameter(n, it->second);
  }
  void set_parameter(const Parameter& p) { par_[p.get_name()] = p.value(); }
  std::vector<TopicEndpointInfo> get_publishers_info_by_topic(const std::string&) const { return endpoints; }
  template <class F>
  GenericSubscription::SharedPtr create_generic_subscription(const std::string& t, const std::string& ty, const QoS&, F cb) {
    auto s = std::make_shared<GenericSubscription>();
    s->topic = t;
    s->type = ty;
    s->callback = cb;
    subs.push_back(s);
    return s;
  }
  GenericPublisher::SharedPtr create_generic_publisher(const std::string& t, const std::string& ty, const QoS&) {
    auto p = std::make_shared<GenericPublisher>();
    p->topic = t;
    p->type = ty;
    pubs.push_back(p);
    return p;
  }
  std::vector<std::weak_ptr<GenericSubscription>> subs;
  std::vector<std::weak_ptr<GenericPublisher>> pubs;
  std::vector<TopicEndpointInfo> endpoints;

 private:
  std::string name_;
  std::map<std::string, Parameter::Value> over_, par_;
};
}  // namespace rclcpp

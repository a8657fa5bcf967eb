// Stand-in for point_cloud_transport: the plugin base classes with the same calling sequence (results and errors are
// values; an exception of encodeTyped / decodeTyped is not caught).
#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <point_cloud_interfaces/msg/compressed_point_cloud2.hpp>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <string>
#include <variant>
#include <vector>
namespace rcl_interfaces::msg {
struct ParameterType {
  static constexpr uint8_t PARAMETER_DOUBLE = 3;
};
struct IntegerRange {
  int64_t from_value = 0, to_value = 0;
  IntegerRange& set__to_value(const int64_t& v) { to_value = v; return *this; }
  IntegerRange& set__from_value(const int64_t& v) { from_value = v; return *this; }
};
struct FloatingPointRange {
  double from_value = 0, to_value = 0;
  FloatingPointRange& set__to_value(const double& v) { to_value = v; return *this; }
  FloatingPointRange& set__from_value(const double& v) { from_value = v; return *this; }
};
struct ParameterDescriptor {
  std::string name;
  uint8_t type = 0;
  std::string description;
  std::vector<IntegerRange> integer_range;
  std::vector<FloatingPointRange> floating_point_range;
  ParameterDescriptor& set__integer_range(const std::vector<IntegerRange>& r) { integer_range = r; return *this; }
  ParameterDescriptor& set__floating_point_range(const std::vector<FloatingPointRange>& r) { floating_point_range = r; return *this; }
};
struct SetParametersResult {
  bool successful = false;
  std::string reason;
};
}  // namespace rcl_interfaces::msg
namespace tl {
template <class E>
struct unexpected {
  E e;
  explicit unexpected(E v) : e(std::move(v)) {}
};
template <class E>
unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>(std::forward<E>(e)); }
template <class T, class E>
class expected {
 public:
  using value_type = T;
  using error_type = E;
  using unexpected_type = unexpected<E>;
  template <class U, class = std::enable_if_t<std::is_convertible_v<U&&, T> && !std::is_same_v<std::decay_t<U>, expected>>>
  expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u)) {}
  template <class G>
  expected(const unexpected<G>& u) : v_(std::in_place_index<1>, u.e) {}
  bool has_value() const { return v_.index() == 0; }
  explicit operator bool() const { return has_value(); }
  const T& value() const { return std::get<0>(v_); }
  const E& error() const { return std::get<1>(v_); }

 private:
  std::variant<T, E> v_;
};
}  // namespace tl
namespace point_cloud_transport {
class PublisherPlugin {
 public:
  using ParamCallback = std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)>;
  virtual ~PublisherPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual std::string getDataType() const = 0;
  virtual void declareParameters(const std::string& base_topic) = 0;
  template <class T>
  bool declareParam(const std::string& name, const T& def, const rcl_interfaces::msg::ParameterDescriptor&) {
    if (!params.count(name)) params[name] = def;
    return true;
  }
  template <class T>
  bool getParam(const std::string& name, T& out) const {
    auto it = params.find(name);
    if (it == params.end()) return false;
    out = std::get<T>(it->second);
    return true;
  }
  void setParamCallback(ParamCallback cb) { param_callback = std::move(cb); }
  std::map<std::string, rclcpp::Parameter::Value> params;  // simulated node parameters
  ParamCallback param_callback;
};
template <class M>
class SimplePublisherPlugin : public PublisherPlugin {
 public:
  using TypedEncodeResult = tl::expected<std::optional<M>, std::string>;
  virtual TypedEncodeResult encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const = 0;
  using PublishFn = std::function<void(const M&)>;
  void publish(const sensor_msgs::msg::PointCloud2& m, const PublishFn& fn) const {
    const auto res = encodeTyped(m);
    if (!res) RCLCPP_ERROR(rclcpp::Logger{}, "Error encoding message by transport %s: %s.", getTransportName().c_str(), res.error().c_str());
    else if (res.value()) fn(res.value().value());
  }
};
class SubscriberPlugin {
 public:
  virtual ~SubscriberPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual std::string getDataType() const = 0;
  virtual void declareParameters() = 0;
};
template <class M>
class SimpleSubscriberPlugin : public SubscriberPlugin {
 public:
  using DecodeResult = tl::expected<std::optional<sensor_msgs::msg::PointCloud2::ConstSharedPtr>, std::string>;
  virtual DecodeResult decodeTyped(const M& compressed) const = 0;
  using Callback = std::function<void(const sensor_msgs::msg::PointCloud2::ConstSharedPtr&)>;
  void callback(const std::shared_ptr<const M>& m, const Callback& cb) {
    const DecodeResult res = decodeTyped(*m);
    if (!res) RCLCPP_ERROR(rclcpp::Logger{}, "Error decoding message by transport %s: %s.", getTransportName().c_str(), res.error().c_str());
    else if (res.value()) cb(res.value().value());
  }
};
}  // namespace point_cloud_transport

#pragma once
#include "../rclcpp/rclcpp.hpp"
// The harness loads the component through this factory.
#define RCLCPP_COMPONENTS_REGISTER_NODE(C) \
  std::shared_ptr<rclcpp::Node> rosstub_make_##C(const rclcpp::NodeOptions& o) { return std::make_shared<C>(o); }

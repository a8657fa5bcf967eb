// The command-line bag converter, callable from the harness.
#define main bag_tool_main
#include "cloudini_rosbag_converter.cpp"

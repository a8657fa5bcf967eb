// The command-line converter, its main() callable from the harness.
#define main pcd_tool_main
#include "pcd_to_cloudini_converter.cpp"

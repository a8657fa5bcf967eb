// The command-line header inspector, callable from the harness.
#define main inspector_tool_main
#include "mcap_header_inspector.cpp"

// The command-line bag cutter, callable from the harness.
#define main cutter_tool_main
#include "mcap_cutter.cpp"

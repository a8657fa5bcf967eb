// Stand-in used where no PCD file is read.
#pragma once
#include <pcl/PCLPointCloud2.h>
#include <fstream>
#include <string>
namespace pcl::io {
inline int loadPCDFile(const std::string&, pcl::PCLPointCloud2&) { return -1; }
}

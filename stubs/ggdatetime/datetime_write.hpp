#ifndef VF_GGDATETIME_WRITE
#define VF_GGDATETIME_WRITE
#include "dtcalendar.hpp"
namespace ngpt {
template <typename T> std::string strftime_ymd_hms(const datetime<T> &, char = ' ') { return std::string(); }
}
#endif

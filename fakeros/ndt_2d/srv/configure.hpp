#ifndef VSTUB_NDT_CONFIGURE_
#define VSTUB_NDT_CONFIGURE_
#include <geometry_msgs/msg/all.hpp>
namespace ndt_2d { namespace srv { struct Configure {
  struct Request { enum { ENABLE_MAPPING = 1, DISABLE_MAPPING = 2, LOAD_FROM_FILE = 4, SAVE_TO_FILE = 8 }; int action = 0; std::string filename; };
  struct Response {}; }; } }
#endif

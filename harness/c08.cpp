#include "dsim.hpp"
namespace dsim
{
const char* property_id = "C08";
}
#define CHECK_PACING 0
#define CHECK_METRICS 1
#include "timer_common.hpp"

#include "dsim.hpp"
namespace dsim
{
const char* property_id = "C07";
}
#define CHECK_PACING 1
#define CHECK_METRICS 0
#include "timer_common.hpp"

#ifndef PROXYFMU_STUB_FS_PORTABILITY_HPP
#define PROXYFMU_STUB_FS_PORTABILITY_HPP
#include <filesystem>
namespace proxyfmu
{
namespace filesystem = std::filesystem;
}
#endif

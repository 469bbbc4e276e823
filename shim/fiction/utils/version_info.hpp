// stand-in for the header CMake generates from include/fiction/utils/version_info.hpp.in
#pragma once
namespace fiction
{
inline constexpr const char* FICTION_VERSION = "fiction v0.7.0";
inline constexpr const char* FICTION_REPO    = "https://github.com/cda-tum/fiction";
inline constexpr const char* COMPILED_DATE   = "Jan  1 2026";
inline constexpr const char* COMPILED_TIME   = "00:00:00";
}  // namespace fiction

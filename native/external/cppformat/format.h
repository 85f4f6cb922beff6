// WORKSPACE pins cppformat 1.1.0 (since renamed fmt); apt has fmt 9.
#pragma once
#include <fmt/format.h>

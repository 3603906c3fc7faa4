#pragma once
#ifndef JS_STL_MAP
#define JS_STL_MAP 1
#endif
#define JS_STL_SET 1
#define JS_STL_UNORDERED_SET 1
#define JS_STL_ARRAY 1
#define JS_INT_128 1
#define JS_STD_UNORDERED_MAP 1
#define JS_STD_TIMEPOINT 1
#include <array>
#include <chrono>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <json_struct/json_struct.h>

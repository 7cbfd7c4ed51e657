// The JSON parser's functions over the symbols of a stream.
#include <algorithm>
#include <cstdint>
#include <istream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <variant>
#include <vector>
#define private public
#define protected public
#include "fly/parser/json_parser.hpp"
#undef private
#undef protected
#include "fly/parser/json_parser.cpp"

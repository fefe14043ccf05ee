#pragma once
#include <string_view>
namespace folly {
using StringPiece = std::string_view;
}

// Stub of folly/logging/xlog.h: logging is dropped.
#pragma once
#include <string>
#include <sstream>
namespace folly { namespace stub {
struct NullLog { template <class T> NullLog& operator<<(const T&) { return *this; } };
template <class... A> inline void ignore(const A&...) {}
}}
#define XLOG(level, ...) ::folly::stub::ignore(__VA_ARGS__)
#undef XLOG
#define XLOG(...) (::folly::stub::NullLog())
#define XLOGF(level, fmt, ...) ::folly::stub::ignore(fmt, ##__VA_ARGS__)
#define XLOG_EVERY_MS(...) (::folly::stub::NullLog())
#define XLOG_IF(...) (::folly::stub::NullLog())

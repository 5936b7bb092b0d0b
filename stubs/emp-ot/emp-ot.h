#pragma once
#include "emp-tool/emp-tool.h"
namespace emp { template <class IO> struct IKNP { explicit IKNP(IO*) {} void setup_send(const bool*, block* = nullptr) {} void setup_recv() {} void send_cot(block*, int64_t) {} void recv_cot(block*, const bool*, int64_t) {} block Delta; }; }

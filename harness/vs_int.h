#pragma once
#include <stdint.h>
#include <functional>
namespace vs {
static const int64_t REALTIME_BASE = 1700000000ll*1000000000ll;
void sp(); void sp_yield();
bool block(const std::function<bool()>& pred,bool has_dl,int64_t dl,const char* where);
bool is_env();
bool kern_next_deadline(int64_t& out);
void kern_tick();
}

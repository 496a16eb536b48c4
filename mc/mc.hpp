// Exhaustive exploration driver: every index of every space is executed, in forked workers.
#pragma once
#include "env.hpp"
#include <string>
#include <vector>
#include <functional>
#include <set>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <limits>
#include <algorithm>
namespace mc {
typedef uint64_t u64;
inline u64 fnv(const void* p, size_t n, u64 h=1469598103934665603ULL){ const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n;i++){ h^=c[i]; h*=1099511628211ULL; } return h; }

struct Ctx {            // one execution
  bool failed; std::string key, msg; u64 sig; bool nontrivial; u64 units; bool describe; std::string text;
  std::map<std::string,u64> tally;
  void reset(){ failed=false; key.clear(); msg.clear(); sig=0; nontrivial=false; units=1; text.clear(); }
  // key: stable identity of what failed (goes into the known-findings file); msg: details
  void fail(const std::string& k, const char* f, ...) __attribute__((format(printf,3,4)));
  void say(const char* f, ...) __attribute__((format(printf,2,3)));
  void count(const char* what, u64 n=1){ tally[what]+=n; }
};
struct Space { std::string name, about; u64 n; std::function<void(u64, Ctx&)> run; };

// mixed-radix decoder of an index
struct Digits { u64 v; explicit Digits(u64 i):v(i){} unsigned take(unsigned radix){ unsigned d=v%radix; v/=radix; return d; } };
inline u64 ipow(u64 a,int n){ u64 r=1; while(n--) r*=a; return r; }

int explore_main(int argc, char** argv, const char* property, const char* rule, std::vector<Space> (*spaces)(bool thorough));
}

#pragma once
#include <string>
#include <vector>
#include "e2e.pb.h"
#include "e2e3.pb.h"
namespace e2e_native {
struct Inner {
  int a = 0;
  double b = 0;
  e2e::Leaf leaf;
};
struct Sub {
  int k = 0;
  Inner inner;
  Inner* ptr = nullptr;
  std::vector<int> vec;
};
struct Native {
  int x = 0;
  float fl = 0;
  std::string str;
  Inner* inner = nullptr;
  Sub sub;
  Sub* subp = nullptr;
  e2e::Root proto;
  std::vector<int> ints;
  std::vector<Sub> subs;
  const e2e::Mid* mid = nullptr;
};
}  // namespace e2e_native

#ifndef SHIM_DOUBLE_CONVERSION_D2S_H_
#define SHIM_DOUBLE_CONVERSION_D2S_H_
// Shortest round-trip formatting on top of std::to_chars, laid out by
// double-conversion's documented rules.
#include <charconv>
#include <cmath>
#include <cstdlib>
#include <string>
#include "double-conversion/utils.h"
namespace double_conversion {
class DoubleToStringConverter {
 public:
  enum Flags {
    NO_FLAGS = 0,
    EMIT_POSITIVE_EXPONENT_SIGN = 1,
    EMIT_TRAILING_DECIMAL_POINT = 2,
    EMIT_TRAILING_ZERO_AFTER_POINT = 4,
    UNIQUE_ZERO = 8,
    NO_TRAILING_ZERO = 16,
    EMIT_TRAILING_DECIMAL_POINT_IN_EXPONENTIAL = 32,
    EMIT_TRAILING_ZERO_AFTER_POINT_IN_EXPONENTIAL = 64
  };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e,
                          int low, int high, int, int, int min_exp_width = 0)
      : flags_(flags), inf_(inf), nan_(nan), e_(e), low_(low), high_(high),
        min_exp_width_(min_exp_width) {}
  bool ToShortest(double v, StringBuilder* b) const { return Shortest(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Shortest(v, b); }

 private:
  template <typename F>
  bool Shortest(F v, StringBuilder* b) const {
    if (std::isinf(v)) {
      if (v < 0) b->AddCharacter('-');
      b->AddString(inf_);
      return true;
    }
    if (std::isnan(v)) {
      b->AddString(nan_);
      return true;
    }
    char buf[64];
    auto r = std::to_chars(buf, buf + sizeof(buf), std::fabs(v),
                           std::chars_format::scientific);
    std::string s(buf, r.ptr);
    size_t epos = s.find('e');
    std::string digits = s.substr(0, 1);
    if (epos > 2) digits += s.substr(2, epos - 2);
    int exp = std::atoi(s.c_str() + epos + 1);
    while (digits.size() > 1 && digits.back() == '0') digits.pop_back();
    const bool zero = v == 0;
    if (zero) exp = 0;
    if (std::signbit(v) && (!zero || !(flags_ & UNIQUE_ZERO))) b->AddCharacter('-');
    if (low_ <= exp && exp < high_) {
      int point = exp + 1;
      int n = digits.size();
      std::string out;
      if (point <= 0) {
        out = "0." + std::string(-point, '0') + digits;
      } else if (point >= n) {
        out = digits + std::string(point - n, '0');
        if (flags_ & EMIT_TRAILING_DECIMAL_POINT) out += '.';
        if (flags_ & EMIT_TRAILING_ZERO_AFTER_POINT) out += '0';
      } else {
        out = digits.substr(0, point) + "." + digits.substr(point);
      }
      b->AddString(out.c_str());
    } else {
      std::string out = digits.substr(0, 1);
      if (digits.size() > 1) {
        out += "." + digits.substr(1);
      } else {
        if (flags_ & EMIT_TRAILING_DECIMAL_POINT_IN_EXPONENTIAL) out += '.';
        if (flags_ & EMIT_TRAILING_ZERO_AFTER_POINT_IN_EXPONENTIAL) out += '0';
      }
      out += e_;
      if (exp < 0) out += '-';
      else if (flags_ & EMIT_POSITIVE_EXPONENT_SIGN) out += '+';
      std::string x = std::to_string(std::abs(exp));
      while (int(x.size()) < min_exp_width_) x = "0" + x;
      out += x;
      b->AddString(out.c_str());
    }
    return true;
  }
  int flags_;
  const char* inf_;
  const char* nan_;
  char e_;
  int low_, high_, min_exp_width_;
};
}  // namespace double_conversion
#endif

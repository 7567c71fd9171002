#ifndef SHIM_DOUBLE_CONVERSION_UTILS_H_
#define SHIM_DOUBLE_CONVERSION_UTILS_H_
#include <string>
#include <cstring>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* buf, int size) : buf_(buf), size_(size) {}
  ~StringBuilder() {
    if (!done_) Finalize();
  }
  void AddCharacter(char c) { s_.push_back(c); }
  void AddString(const char* s) { s_.append(s); }
  void AddSubstring(const char* s, int n) { s_.append(s, n); }
  void AddPadding(char c, int n) { s_.append(n, c); }
  int position() const { return s_.size(); }
  char* Finalize() {
    done_ = true;
    size_t n = s_.size() < size_t(size_) ? s_.size() : size_t(size_) - 1;
    std::memcpy(buf_, s_.data(), n);
    buf_[n] = 0;
    return buf_;
  }

 private:
  char* buf_;
  int size_;
  bool done_ = false;
  std::string s_;
};
}  // namespace double_conversion
#endif

#ifndef SHIM_RE2_RE2_H_
#define SHIM_RE2_RE2_H_
// The part of RE2's interface that arolla uses, over PCRE2.
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include <pcre2.h>
#include <cstdint>
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
namespace re2 {
class RE2 {
 public:
  enum CannedOptions { DefaultOptions, Latin1, POSIX, Quiet };
  class Arg {
   public:
    Arg() = default;
    explicit Arg(absl::string_view* v) : sv_(v) {}
    explicit Arg(std::string* v) : s_(v) {}
    void Set(absl::string_view v) const {
      if (sv_) *sv_ = v;
      if (s_) *s_ = std::string(v);
    }

   private:
    absl::string_view* sv_ = nullptr;
    std::string* s_ = nullptr;
  };
  explicit RE2(absl::string_view pattern, CannedOptions = DefaultOptions)
      : pattern_(pattern) {
    int err = 0;
    PCRE2_SIZE off = 0;
    code_ = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(pattern_.data()),
                          pattern_.size(), PCRE2_UTF, &err, &off, nullptr);
    if (!code_) {
      PCRE2_UCHAR buf[256];
      pcre2_get_error_message(err, buf, sizeof(buf));
      error_ = reinterpret_cast<char*>(buf);
      return;
    }
    uint32_t n = 0;
    pcre2_pattern_info(code_, PCRE2_INFO_CAPTURECOUNT, &n);
    groups_ = n;
  }
  ~RE2() {
    if (code_) pcre2_code_free(code_);
  }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  bool ok() const { return code_ != nullptr; }
  const std::string& error() const { return error_; }
  const std::string& pattern() const { return pattern_; }
  int NumberOfCapturingGroups() const { return code_ ? groups_ : -1; }

  static bool PartialMatch(absl::string_view text, const RE2& re) {
    std::vector<absl::string_view> m;
    return re.Match(text, 0, &m);
  }
  static bool PartialMatch(absl::string_view text, const RE2& re, std::string* out) {
    std::vector<absl::string_view> m;
    if (!re.Match(text, 0, &m) || m.size() < 2) return false;
    *out = std::string(m[1]);
    return true;
  }
  static bool FindAndConsumeN(absl::string_view* input, const RE2& re,
                              const Arg* const args[], int n) {
    std::vector<absl::string_view> m;
    if (!re.Match(*input, 0, &m) || int(m.size()) < n + 1) return false;
    for (int i = 0; i < n; ++i) args[i]->Set(m[i + 1]);
    input->remove_prefix(m[0].data() + m[0].size() - input->data());
    return true;
  }
  static int GlobalReplace(std::string* str, const RE2& re, absl::string_view rewrite) {
    // Like RE2, refuse a rewrite that names a group the pattern lacks.
    for (size_t i = 0; i + 1 < rewrite.size(); ++i) {
      if (rewrite[i] != '\\') continue;
      char c = rewrite[++i];
      if (c >= '0' && c <= '9' && c - '0' > re.groups_) return 0;
    }
    std::string out;
    absl::string_view text(*str);
    size_t pos = 0, last_end = size_t(-1);
    int count = 0;
    std::vector<absl::string_view> m;
    while (pos <= text.size() && re.Match(text, pos, &m)) {
      size_t b = m[0].data() - text.data(), e = b + m[0].size();
      out.append(text.data() + pos, b - pos);
      if (b == e && b == last_end) {
        if (b < text.size()) {
          size_t w = 1;
          while (b + w < text.size() && (text[b + w] & 0xC0) == 0x80) ++w;
          out.append(text.data() + b, w);
          pos = b + w;
        } else {
          pos = b + 1;
        }
        last_end = size_t(-1);
        continue;
      }
      for (size_t i = 0; i < rewrite.size(); ++i) {
        if (rewrite[i] == '\\' && i + 1 < rewrite.size()) {
          char c = rewrite[++i];
          if (c >= '0' && c <= '9') {
            if (size_t(c - '0') < m.size()) out += std::string(m[c - '0']);
          } else {
            out += c;
          }
        } else {
          out += rewrite[i];
        }
      }
      pos = e;
      last_end = e;
      ++count;
    }
    if (count == 0) return 0;
    if (pos < text.size()) out.append(text.data() + pos, text.size() - pos);
    *str = out;
    return count;
  }

 private:
  bool Match(absl::string_view text, size_t pos,
             std::vector<absl::string_view>* out) const {
    if (!code_) return false;
    auto* md = pcre2_match_data_create_from_pattern(code_, nullptr);
    const char* base = text.data() ? text.data() : "";
    int rc = pcre2_match(code_, reinterpret_cast<PCRE2_SPTR>(base), text.size(),
                         pos, 0, md, nullptr);
    bool found = rc > 0;
    if (found) {
      auto* ov = pcre2_get_ovector_pointer(md);
      out->clear();
      for (int i = 0; i <= groups_; ++i) {
        if (i < rc && ov[2 * i] != PCRE2_UNSET) {
          out->push_back(absl::string_view(base + ov[2 * i], ov[2 * i + 1] - ov[2 * i]));
        } else {
          out->push_back(absl::string_view());
        }
      }
    }
    pcre2_match_data_free(md);
    return found;
  }
  std::string pattern_, error_;
  pcre2_code* code_ = nullptr;
  int groups_ = 0;
};
}  // namespace re2
using re2::RE2;
#endif

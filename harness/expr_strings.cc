// E14 operators on strings against their documentation.
#include <regex>

#include "ops.h"
#include "arolla/qtype/standard_type_properties/properties.h"

#include "absl/strings/escaping.h"
#include "absl/strings/str_join.h"

namespace {
using namespace ops;  // NOLINT
using U = std::u32string;  // characters of a text, bytes of bytes
using OU = std::optional<U>;

std::string Utf8(const U& u) {
  std::string r;
  for (char32_t c : u) {
    if (c < 0x80) r += static_cast<char>(c);
    else if (c < 0x800) { r += static_cast<char>(0xC0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += static_cast<char>(0xE0 | c >> 12); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    else { r += static_cast<char>(0xF0 | c >> 18); r += static_cast<char>(0x80 | (c >> 12 & 63)); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
  }
  return r;
}
std::string Enc(const U& u, bool bytes) {
  if (!bytes) return Utf8(u);
  std::string r;
  for (char32_t c : u) r += static_cast<char>(c);
  return r;
}

const U kText = U"aaabbAB ,\t1-\u00a0\u00e9\u00c9\u0436\u0416\u20ac\U0001F600\u3000";
U GenU(Src& s, bool bytes, int max = 9) {
  int n = s.draw(max);
  bool few = s.boolean();
  U u;
  for (int i = 0; i < n; ++i) {
    if (few) u += s.boolean() ? U'a' : U'b';
    else if (bytes) u += s.chance(1, 4) ? static_cast<char32_t>(s.draw(255)) : U"aaabbAB ,\t\n\v1-\0"[s.draw(14)];
    else u += kText[s.draw(kText.size() - 1)];
  }
  return u;
}
bool Space(char32_t c, bool bytes) {
  if (c == ' ' || (c >= 9 && c <= 13)) return true;
  return !bytes && (c == 0xA0 || c == 0x3000);
}

TypedValue MakeS(Src& s, const OU& u, bool bytes) {
  auto f = [&]<class T>(T) {
    if (u && s.boolean()) return TypedValue::FromValue(T(Enc(*u, bytes)));
    return TypedValue::FromValue(u ? OptionalValue<T>(T(Enc(*u, bytes))) : OptionalValue<T>());
  };
  return bytes ? f(Bytes()) : f(Text());
}
TypedValue MakeA(Src& s, const std::vector<OU>& v, bool bytes, AK k) {
  Strs c;
  for (auto& u : v) c.push_back(u ? std::optional<std::string>(Enc(*u, bytes)) : std::nullopt);
  return MakeStrs(c, k, bytes);
}
std::string Quote(const U& u) { return absl::StrCat("'", absl::CHexEscape(Utf8(u)), "'"); }
std::string Quote(const OU& u) { return u ? Quote(*u) : "-"; }

using OI = std::optional<int64_t>;
TypedValue MakeI(Src& s, OI x) {
  NT t = s.boolean() ? I32 : I64;
  if (x && s.boolean()) return Scalar(t, *x);
  return Opt(t, x ? Num(*x) : Num());
}
OI GenIndex(Src& s) { return s.chance(1, 3) ? OI() : OI(s.range(-11, 12)); }

// The range [start, end) of a string, from the end where negative.
bool Range(int64_t n, OI& start, OI& end) {
  int64_t b = start.value_or(0), e = end.value_or(n);
  if (b < 0) b = std::max<int64_t>(b + n, 0);
  if (e < 0) e += n;
  e = std::min(e, n);
  start = b; end = e;
  return b <= e;
}

U Strip(U u, const OU& chars, bool bytes, bool left, bool right) {
  auto is = [&](char32_t c) { return chars ? chars->find(c) != U::npos : Space(c, bytes); };
  while (left && !u.empty() && is(u[0])) u.erase(0, 1);
  while (right && !u.empty() && is(u.back())) u.pop_back();
  return u;
}

std::vector<U> Split(const U& u, const OU& sep, bool bytes) {
  std::vector<U> r;
  if (!sep) {
    U cur;
    for (char32_t c : u) {
      if (Space(c, true)) { if (!cur.empty()) r.push_back(cur); cur.clear(); }
      else cur += c;
    }
    if (!cur.empty()) r.push_back(cur);
    return r;
  }
  size_t at = 0;
  while (true) {
    size_t p = u.find(*sep, at);
    if (p == U::npos) break;
    r.push_back(u.substr(at, p - at));
    at = p + sep->size();
  }
  r.push_back(u.substr(at));
  return r;
}

U Replace(const U& u, const U& a, const U& b, OI max) {
  int64_t n = max && *max >= 0 ? *max : 1000000;
  U r;
  if (a.empty()) {
    for (size_t i = 0; i <= u.size(); ++i) {
      if (n-- > 0) r += b;
      if (i < u.size()) r += u[i];
    }
    return r;
  }
  size_t at = 0;
  while (n-- > 0) {
    size_t p = u.find(a, at);
    if (p == U::npos) break;
    r += u.substr(at, p - at) + b;
    at = p + a.size();
  }
  return r + u.substr(at);
}

OI Count(const U& u, const U& sub) {
  int64_t k = 0;
  for (size_t i = 0; i + sub.size() <= u.size(); ++i) k += u.compare(i, sub.size(), sub) == 0;
  return k;
}

void ExpectNums(const std::string& what, const absl::StatusOr<TypedValue>& got, const std::vector<Num>& want) {
  PBT_ASSERT(got.ok(), got.status(), " for ", what);
  Col r = Read(got->AsRef());
  PBT_ASSERT(r == want, what, " is ", Show(r), " instead of ", Show(want));
}
void ExpectStrs(const std::string& what, const absl::StatusOr<TypedValue>& got, const std::vector<OU>& want, bool bytes) {
  PBT_ASSERT(got.ok(), got.status(), " for ", what);
  Strs r = ReadStrs(got->AsRef());
  Strs w;
  for (auto& u : want) w.push_back(u ? std::optional<std::string>(Enc(*u, bytes)) : std::nullopt);
  PBT_ASSERT(r == w, what, " is ", absl::CHexEscape(Show(r)), " instead of ", absl::CHexEscape(Show(w)));
}

PBT_TEST(E14_searching, 30000, 500000, "a string of three characters or more with something found or changed") {
  Init();
  static const std::vector<std::string> kOps = {"length", "find", "rfind", "substr", "count", "contains", "replace", "lstrip", "rstrip", "strip", "lower", "upper"};
  std::string op = s.pick(kOps);
  bool bytes = s.chance(2, 5);
  if (op == "lower" || op == "upper") bytes = false;
  bool one = s.boolean();
  int n = one ? 1 : s.range(0, 6);
  std::vector<OU> v(n);
  for (auto& u : v) if (!s.chance(1, 6)) u = GenU(s, bytes);
  AK k = static_cast<AK>(s.draw(3));
  std::vector<TypedValue> args = {one ? MakeS(s, v[0], bytes) : MakeA(s, v, bytes, k)};
  std::string what = absl::StrCat("strings.", op, bytes ? " of bytes" : " of text");
  for (auto& u : v) absl::StrAppend(&what, " ", Quote(u));
  // Part of one of the strings, or any.
  auto part = [&]() -> U {
    if (n && s.chance(2, 3)) {
      auto& u = v[s.draw(n - 1)];
      if (u && !u->empty()) { size_t b = s.draw(u->size()); return u->substr(b, s.draw(4)); }
    }
    return GenU(s, bytes, 3);
  };
  auto eval = [&] { return Call("strings." + op, args, s.chance(1, 4) ? s.draw(31) : 0); };
  auto nums = [&](auto f, auto call) {
    std::vector<Num> want;
    for (auto& u : v) {
      Num w;
      if (u) if (OI x = f(*u)) w = *x;
      want.push_back(w);
      if (w && u->size() >= 3) s.nontrivial();
    }
    ExpectNums(what, call(), want);
  };
  auto strs = [&](auto f) {
    std::vector<OU> want;
    for (auto& u : v) {
      want.push_back(u ? OU(f(*u)) : OU());
      if (u && u->size() >= 3 && want.back() != u) s.nontrivial();
    }
    ExpectStrs(what, eval(), want, bytes);
  };
  if (op == "length") {
    // As the library of Python calls it.
    nums([](const U& u) { return OI(u.size()); }, [&] { return InvokeOperator("strings.length", args, *WithScalarQType(args[0].GetType(), GetQType<int64_t>())); });
  } else if (op == "contains") {
    U sub = part();
    args.push_back(bytes ? TypedValue::FromValue(Bytes(Enc(sub, true))) : TypedValue::FromValue(Text(Enc(sub, false))));
    absl::StrAppend(&what, " and ", Quote(sub));
    nums([&](const U& u) { return u.find(sub) != U::npos ? OI(1) : OI(); }, eval);
  } else if (op == "find" || op == "rfind" || op == "count") {
    // As the library of Python calls it: all arrays, or all optional.
    std::vector<OU> subs(n);
    std::vector<OI> bs(n), es(n);
    Col bc(n), ec(n);
    std::vector<Num> want(n);
    for (int i = 0; i < n; ++i) {
      if (!s.chance(1, 9)) subs[i] = part();
      bs[i] = GenIndex(s); es[i] = GenIndex(s);
      if (bs[i]) bc[i] = *bs[i];
      if (es[i]) ec[i] = *es[i];
      absl::StrAppend(&what, "; ", Quote(subs[i]), " from ", bs[i] ? absl::StrCat(*bs[i]) : "-", " to ", es[i] ? absl::StrCat(*es[i]) : "-");
      if (op == "count") {
        if (!v[i] || !subs[i]) continue;
        want[i] = *Count(*v[i], *subs[i]);
        if (*want[i] >= 1 && v[i]->size() >= 3) s.nontrivial();
        continue;
      }
      OI b = bs[i], e = es[i];
      if (!v[i] || !subs[i] || !Range(v[i]->size(), b, e)) continue;
      U r = v[i]->substr(*b, *e - *b);
      size_t p = op == "find" ? r.find(*subs[i]) : r.rfind(*subs[i]);
      if (p == U::npos) continue;
      want[i] = *b + p;
      if (v[i]->size() >= 3) s.nontrivial();
    }
    if (one) {
      auto opt = [&](const OU& u) { return bytes ? TypedValue::FromValue(u ? OptionalValue<Bytes>(Bytes(Enc(*u, true))) : OptionalValue<Bytes>()) : TypedValue::FromValue(u ? OptionalValue<Text>(Text(Enc(*u, false))) : OptionalValue<Text>()); };
      args = {opt(v[0]), opt(subs[0]), Opt(I64, bc[0]), Opt(I64, ec[0])};
    } else {
      if (k == aDense) args = {args[0], MakeA(s, subs, bytes, aDense), Make(I64, bc, aDense), Make(I64, ec, aDense)};
      else args = {args[0], MakeA(s, subs, bytes, static_cast<AK>(s.range(1, 3))), Make(I64, bc, static_cast<AK>(s.range(1, 3))), Make(I64, ec, static_cast<AK>(s.range(1, 3)))};
    }
    if (op == "count") args.erase(args.begin() + 2, args.end());
    ExpectNums(what, InvokeOperator("strings." + op, args, *WithScalarQType(args[0].GetType(), GetQType<int64_t>())), want);
  } else if (op == "substr") {
    OI b = GenIndex(s), e = GenIndex(s);
    args.push_back(MakeI(s, b)); args.push_back(MakeI(s, e));
    absl::StrAppend(&what, " from ", b ? absl::StrCat(*b) : "-", " to ", e ? absl::StrCat(*e) : "-");
    strs([&](const U& u) {
      OI bb = b, ee = e;
      return Range(u.size(), bb, ee) ? u.substr(*bb, *ee - *bb) : U();
    });
  } else if (op == "replace") {
    U a = part(), b = GenU(s, bytes, 3);
    OI max = s.boolean() ? OI() : OI(s.range(-1, 5));
    for (auto* x : {&a, &b}) args.push_back(bytes ? TypedValue::FromValue(Bytes(Enc(*x, true))) : TypedValue::FromValue(Text(Enc(*x, false))));
    args.push_back(MakeI(s, max));
    absl::StrAppend(&what, " ", Quote(a), " by ", Quote(b), " max ", max ? absl::StrCat(*max) : "-");
    strs([&](const U& u) { return Replace(u, a, b, max); });
  } else if (op == "lower" || op == "upper") {
    auto map = [&](char32_t c) -> char32_t {
      static const U lo = U"abcdefghijklmnopqrstuvwxyz\u00e9\u0436", up = U"ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c9\u0416";
      auto& from = op == "lower" ? up : lo;
      auto& to = op == "lower" ? lo : up;
      size_t p = from.find(c);
      return p == U::npos ? c : to[p];
    };
    strs([&](U u) { for (auto& c : u) c = map(c); return u; });
  } else {
    OU chars;
    if (s.boolean()) chars = part();
    if (chars || s.boolean()) args.push_back(MakeS(s, chars, bytes));
    else if (s.boolean()) args.push_back(GetUnspecifiedQValue());
    absl::StrAppend(&what, " of ", Quote(chars));
    strs([&](const U& u) { return Strip(u, chars, bytes, op != "rstrip", op != "lstrip"); });
  }
}

PBT_TEST(E14_joining, 15000, 300000, "three strings or more, or pieces of at least two") {
  Init();
  bool bytes = s.chance(2, 5);
  auto val = [&](const U& u) { return bytes ? TypedValue::FromValue(Bytes(Enc(u, true))) : TypedValue::FromValue(Text(Enc(u, false))); };
  int mode = s.draw(3);
  if (mode == 0) {  // split
    bool one = false;
    int n = one ? 1 : s.range(0, 6);
    std::vector<OU> v(n);
    for (auto& u : v) if (one || !s.chance(1, 6)) u = GenU(s, bytes, 12);
    OU sep;
    if (s.boolean()) {
      sep = GenU(s, bytes, 2);
      if (sep->empty()) sep = U(U",");
    }
    std::vector<TypedValue> args = {one ? val(*v[0]) : MakeA(s, v, bytes, static_cast<AK>(s.draw(3)))};
    bool dense = !one && IsDenseArrayQType(args[0].GetType());
    args.push_back(sep ? val(*sep) : GetUnspecifiedQValue());
    std::string what = absl::StrCat("strings.split by ", Quote(sep), bytes ? " of bytes" : " of text");
    std::vector<OU> want;
    std::vector<Num> map;
    for (int i = 0; i < n; ++i) {
      absl::StrAppend(&what, " ", Quote(v[i]));
      if (!v[i]) continue;
      for (auto& p : Split(*v[i], sep, bytes)) { want.push_back(p); map.push_back(i); }
    }
    auto got = Call("strings.split", args, s.chance(1, 4) ? 3 : 2);
    PBT_ASSERT(got.ok(), got.status(), " for ", what);
    PBT_ASSERT(IsTupleQType(got->GetType()) && got->GetFieldCount() == 2);
    ExpectStrs(what, TypedValue(got->GetField(0)), want, bytes);
    std::vector<Num> gm;
    auto edge = got->GetField(1);
    if (one) {
      int64_t size = -1;
      if (edge.GetType() == GetQType<DenseArrayGroupScalarEdge>()) size = edge.UnsafeAs<DenseArrayGroupScalarEdge>().child_size();
      else if (edge.GetType() == GetQType<ArrayGroupScalarEdge>()) size = edge.UnsafeAs<ArrayGroupScalarEdge>().child_size();
      PBT_ASSERT(size == static_cast<int64_t>(want.size()), what, " over an edge of ", size);
    } else {
      DenseArrayEdge de = dense ? edge.UnsafeAs<DenseArrayEdge>() : AsDenseEdge(edge.UnsafeAs<ArrayEdge>());
      PBT_ASSERT(de.parent_size() == n && de.child_size() == static_cast<int64_t>(want.size()), what, ": sizes of the edge ", de.parent_size(), " ", de.child_size());
      auto m = de.ToMappingEdge();
      for (int64_t i = 0; i < m.edge_values().size(); ++i) gm.push_back(m.edge_values()[i].present ? Num(m.edge_values()[i].value) : Num());
      PBT_ASSERT(gm == map, what, " over ", Show(gm), " instead of ", Show(map));
    }
    if (want.size() >= 2) s.nontrivial();
  } else if (mode == 1 || mode == 2) {  // join
    int m = s.range(1, 5);
    bool one = s.boolean();
    int n = one ? 1 : s.range(0, 5);
    bool with = mode == 2;
    U sep = GenU(s, bytes, 3);
    std::vector<TypedValue> args;
    if (with) args.push_back(val(sep));
    std::vector<OU> want(n, U());
    std::string what = absl::StrCat(with ? "strings.join_with_separator " + Quote(sep) : "strings.join", bytes ? " of bytes" : " of text");
    bool dense = s.boolean();
    for (int j = 0; j < m; ++j) {
      std::vector<OU> v(n);
      bool same = !one && s.chance(1, 3);
      for (int i = 0; i < n; ++i) {
        if (same && i) v[i] = v[0];
        else if (!s.chance(1, 9)) v[i] = GenU(s, bytes, 4);
        absl::StrAppend(&what, " ", Quote(v[i]));
        if (!v[i] || !want[i]) want[i] = OU();
        else want[i] = *want[i] + (with && j ? sep : U()) + *v[i];
      }
      absl::StrAppend(&what, ";");
      if (one || (same && n && !(j == m - 1 && true && args.size() == (with ? 1u : 0u)))) args.push_back(MakeS(s, v[0], bytes));
      else args.push_back(MakeA(s, v, bytes, dense ? aDense : static_cast<AK>(s.range(1, 3))));
    }
    bool has_array = std::any_of(args.begin(), args.end(), [](auto& a) { return IsDenseArrayQType(a.GetType()) || IsArrayQType(a.GetType()); });
    if (!one && !has_array) want.resize(1, U());
    if (m >= 3) s.nontrivial();
    ExpectStrs(what, Call(with ? "strings.join_with_separator" : "strings.join", args, s.chance(1, 4) ? s.draw(15) : 0), want, bytes);
  } else {  // agg_join
    int n = s.range(0, 9), parents = s.range(n ? 1 : 0, 4);
    std::vector<OU> v(n), want(parents);
    std::vector<OptionalValue<int64_t>> m(n);
    U sep = GenU(s, bytes, 3);
    std::string what = absl::StrCat("strings.agg_join by ", Quote(sep), bytes ? " of bytes" : " of text");
    for (int i = 0; i < n; ++i) {
      if (!s.chance(1, 5)) v[i] = GenU(s, bytes, 4);
      if (!s.chance(1, 9)) m[i] = s.draw(parents - 1);
      absl::StrAppend(&what, " ", Quote(v[i]), ":", m[i].present ? absl::StrCat(m[i].value) : "-");
      if (!m[i].present || !v[i]) continue;
      auto& w = want[m[i].value];
      w = w ? *w + sep + *v[i] : *v[i];
    }
    bool dense = s.boolean();
    auto da = CreateDenseArray<int64_t>(m);
    std::vector<TypedValue> args = {MakeA(s, v, bytes, dense ? aDense : static_cast<AK>(s.range(1, 3))),
                                    dense ? TypedValue::FromValue(*DenseArrayEdge::FromMapping(da, parents)) : TypedValue::FromValue(*ArrayEdge::FromMapping(Array<int64_t>(da), parents)), val(sep)};
    if (n >= 3) s.nontrivial();
    ExpectStrs(what, Call("strings.agg_join", args, 4), want, bytes);
  }
}

// Valid UTF-8 as the standard has it.
bool ValidUtf8(const std::string& b) {
  for (size_t i = 0; i < b.size();) {
    auto at = [&](size_t k) { return i + k < b.size() ? static_cast<unsigned char>(b[i + k]) : 0; };
    unsigned c = at(0);
    auto cont = [&](size_t k) { return (at(k) & 0xC0) == 0x80; };
    if (c < 0x80) { i += 1; continue; }
    if (c >= 0xC2 && c <= 0xDF && cont(1)) { i += 2; continue; }
    if (c >= 0xE0 && c <= 0xEF && cont(1) && cont(2)) {
      unsigned v = (c & 15) << 12 | (at(1) & 63) << 6 | (at(2) & 63);
      if (v < 0x800 || (v >= 0xD800 && v <= 0xDFFF)) return false;
      i += 3; continue;
    }
    if (c >= 0xF0 && c <= 0xF4 && cont(1) && cont(2) && cont(3)) {
      unsigned v = (c & 7) << 18 | (at(1) & 63) << 12 | (at(2) & 63) << 6 | (at(3) & 63);
      if (v < 0x10000 || v > 0x10FFFF) return false;
      i += 4; continue;
    }
    return false;
  }
  return true;
}

// As the library of Python calls it.
absl::StatusOr<TypedValue> Decode(TypedValue x, const char* errors = "strict") {
  return InvokeOperator("strings.decode", {x, TypedValue::FromValue(Text(errors))}, x.GetType() == GetQType<Bytes>() ? GetQType<Text>() : GetOptionalQType<Text>());
}

PBT_TEST(E14_codecs, 15000, 300000, "text beyond ASCII, or bytes that are not UTF-8") {
  Init();
  if (s.boolean()) {
    U u = GenU(s, false);
    std::string t = Utf8(u);
    if (t.size() != u.size()) s.nontrivial();
    auto e = Call("strings.encode", {TypedValue::FromValue(Text(t))}, s.draw(1));
    PBT_ASSERT(e.ok() && e->GetType() == GetQType<Bytes>() && std::string(absl::string_view(e->UnsafeAs<Bytes>())) == t, "encoding of ", absl::CHexEscape(t));
    auto d = Decode(*e);
    PBT_ASSERT(d.ok() && ReadStrs(d->AsRef()) == Strs{t}, "decoding of ", absl::CHexEscape(t), " ", d.status());
    return;
  }
  // Bytes near UTF-8.
  std::string b;
  int n = s.draw(5);
  for (int i = 0; i < n; ++i) {
    switch (s.draw(4)) {
      case 0: b += 'a'; break;
      case 1: b += Utf8(U(1, s.boolean() ? kText[s.draw(kText.size() - 1)] : One<char32_t>(s, {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000}))); break;
      case 2: b += static_cast<char>(One<int>(s, {0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff})); break;
      case 3: b += static_cast<char>(0x80 | s.draw(63)); break;
      default: { std::string x = Utf8(U(1, kText[s.draw(kText.size() - 1)])); if (x.size() > 1) x.pop_back(); b += x; break; }
    }
  }
  bool ok = ValidUtf8(b);
  if (!ok) s.nontrivial();
  auto got = Decode(TypedValue::FromValue(Bytes(b)));
  PBT_ASSERT(got.ok() == ok, "decoding of ", absl::CHexEscape(b), ": ", got.status());
  if (ok) PBT_ASSERT(ReadStrs(got->AsRef()) == Strs{b}, "decoding of ", absl::CHexEscape(b));
  // Ill formed parts are skipped or replaced.
  for (const char* errors : {"ignore", "replace"}) {
    auto r = Decode(TypedValue::FromValue(OptionalValue<Bytes>(Bytes(b))), errors);
    PBT_ASSERT(r.ok(), r.status());
    std::string t = *ReadStrs(r->AsRef())[0];
    PBT_ASSERT(ValidUtf8(t) && (!ok || t == b), "decoding of ", absl::CHexEscape(b), " with ", errors, " is ", absl::CHexEscape(t));
    // The well formed characters stay.
    std::string rest = t;
    for (size_t p; (p = rest.find("\xef\xbf\xbd")) != std::string::npos;) rest.erase(p, 3);
    PBT_ASSERT((rest == t) == (ok || errors == std::string("ignore") || t.empty()), "decoding of ", absl::CHexEscape(b), " with ", errors, " is ", absl::CHexEscape(t));
    std::string ign = errors == std::string("ignore") ? t : rest;
    size_t j = 0;
    for (size_t i = 0; i < b.size() && j < ign.size(); ++i) if (b[i] == ign[j]) ++j;
    PBT_ASSERT(j == ign.size() && std::count(b.begin(), b.end(), 'a') == std::count(ign.begin(), ign.end(), 'a'), "decoding of ", absl::CHexEscape(b), " with ", errors, " is ", absl::CHexEscape(t));
  }
}

PBT_TEST(E14_numbers, 20000, 400000, "numbers of more than three characters") {
  Init();
  if (s.boolean()) {
    // Through text and back.
    NT t = One<NT>(s, {I32, I64, F32, F64, BOOL});
    auto x = ForNT(t, [&]<class T>(T) -> TypedValue {
      if constexpr (std::is_same_v<T, bool>) return TypedValue::FromValue(s.boolean());
      else if constexpr (std::is_same_v<T, float>) { uint32_t b = s.draw(UINT32_MAX); T v; if (s.boolean()) memcpy(&v, &b, 4); else v = s.range(-20, 20) / 4.0f; return TypedValue::FromValue(v); }
      else if constexpr (std::is_same_v<T, double>) { uint64_t b = s.draw(UINT64_MAX); T v; if (s.boolean()) memcpy(&v, &b, 8); else v = s.range(-2000, 2000) / 8.0; return TypedValue::FromValue(v); }
      else if constexpr (std::is_same_v<T, Unit>) return TypedValue::FromValue(kUnit);
      else return TypedValue::FromValue(static_cast<T>(s.boolean() ? s.draw(UINT64_MAX) : s.range(-5, 5)));
    });
    auto txt = Call("strings.as_text", {x}, s.draw(1));
    PBT_ASSERT(txt.ok(), txt.status());
    auto str = *ReadStrs(txt->AsRef())[0];
    if (str.size() > 3) s.nontrivial();
    long double v = *Read(x.AsRef())[0];
    if (t == BOOL) { PBT_ASSERT(str == (v ? "true" : "false"), str); return; }
    const char* parse = t == I32 ? "strings.parse_int32" : t == I64 ? "strings.parse_int64" : t == F32 ? "strings.parse_float32" : "strings.parse_float64";
    if (!IsF(t)) PBT_ASSERT(str == absl::StrCat(static_cast<int64_t>(v)), "the text of ", static_cast<int64_t>(v), " is ", str);
    auto back = Call(parse, {s.boolean() ? *txt : TypedValue::FromValue(Bytes(str))});
    PBT_ASSERT(back.ok() && Near(*Read(back->AsRef())[0], v, 0) && std::signbit(*Read(back->AsRef())[0]) == (std::isnan(v) ? std::signbit(*Read(back->AsRef())[0]) : std::signbit(v)), x.Repr(), " as text is ", str, " which parses as ", back.ok() ? back->Repr() : back.status().ToString());
    return;
  }
  // Near numbers.
  std::string str;
  int n = s.draw(7);
  static const std::vector<std::string> kTok = {"-", "+", "0", "1", "7", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", ".", "e", "E", "x", "inf", "nan", " ", "5", "00", "1e5", "-3", "infinity", "_"};
  for (int i = 0; i < n; ++i) { if (s.boolean()) str += s.pick(kTok); else str += static_cast<char>('0' + s.draw(9)); }
  if (str.size() > 3) s.nontrivial();
  auto arg = s.boolean() ? TypedValue::FromValue(Text(str)) : TypedValue::FromValue(Bytes(str));
  static const std::regex kInt("[+-]?[0-9]+");
  for (bool wide : {false, true}) {
    auto got = Call(wide ? "strings.parse_int64" : "strings.parse_int32", {arg});
    std::optional<__int128> v;
    if (std::regex_match(str, kInt)) {
      __int128 x = 0;
      bool big = false;
      for (char c : str) if (c >= '0' && c <= '9') { if (x < (static_cast<__int128>(1) << 100)) x = x * 10 + (c - '0'); else big = true; }
      if (str[0] == '-') x = -x;
      __int128 hi = wide ? INT64_MAX : INT32_MAX;
      if (!big && x <= hi && x >= -hi - 1) v = x;
    }
    PBT_ASSERT(got.ok() == v.has_value() && (!v || *Read(got->AsRef())[0] == static_cast<long double>(*v)), "parsing ", absl::CHexEscape(str), " gives ", got.ok() ? got->Repr() : got.status().ToString());
  }
  static const std::regex kFloat("[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?(inf|nan|infinity)", std::regex::icase);
  auto got = Call("strings.parse_float64", {arg});
  bool ok = std::regex_match(str, kFloat);
  PBT_ASSERT(got.ok() == ok, "parsing ", absl::CHexEscape(str), " gives ", got.ok() ? got->Repr() : got.status().ToString());
  auto got32 = Call("strings.parse_float32", {arg});
  PBT_ASSERT(got32.ok() == ok, "parsing ", absl::CHexEscape(str), " gives ", got32.ok() ? got32->Repr() : got32.status().ToString());
  if (ok) {
    PBT_ASSERT(Near(*Read(got->AsRef())[0], strtod(str.c_str(), nullptr), 0), "parsing ", str, " gives ", got->Repr());
    PBT_ASSERT(Near(*Read(got32->AsRef())[0], strtof(str.c_str(), nullptr), 0), "parsing ", str, " gives ", got32->Repr());
  }
}

PBT_TEST(E14_regex, 12000, 200000, "a match of a pattern of three parts or more") {
  Init();
  static const std::vector<std::string> kAtoms = {"a", "b", ".", "[ab]", "[^a]", "(?:ab)", "1"};
  static const std::vector<std::string> kReps = {"", "", "*", "+", "?", "{2}", "*?"};
  int m = s.range(1, 4);
  std::string pat = s.chance(1, 6) ? "^" : "";
  int at = s.draw(m - 1), groups = 0;
  bool group = s.boolean();
  for (int i = 0; i < m; ++i) {
    std::string x = s.pick(kAtoms) + s.pick(kReps);
    if (group && i == at) x = "(" + x + ")", groups++;
    pat += x;
    if (i + 1 < m && !group && s.chance(1, 8)) pat += "|";
  }
  if (s.chance(1, 6)) pat += "$";
  std::string text;
  int n = s.draw(7);
  for (int i = 0; i < n; ++i) text += "aab1"[s.draw(3)];
  std::regex re(pat);
  std::smatch sm;
  bool want = std::regex_search(text, sm, re);
  if (want && m >= 3) s.nontrivial();
  bool opt = s.boolean();
  auto arg = opt ? TypedValue::FromValue(OptionalValue<Text>(Text(text))) : TypedValue::FromValue(Text(text));
  auto re_arg = TypedValue::FromValue(Text(pat));
  auto got = Call("strings.contains_regex", {arg, re_arg}, 2);
  ExpectNums(absl::StrCat("strings.contains_regex of ", text, " and ", pat), got, {want ? Num(1) : Num()});
  auto ex = Call("strings.extract_regex", {arg, re_arg}, 2);
  if (groups != 1) {
    PBT_ASSERT(!ex.ok(), "strings.extract_regex with ", pat, " is ", ex->Repr());
    return;
  }
  PBT_ASSERT(ex.ok(), ex.status());
  Strs w = {want ? std::optional<std::string>(sm[1].str()) : std::nullopt};
  PBT_ASSERT(ReadStrs(ex->AsRef()) == w, "strings.extract_regex of ", text, " and ", pat, " is ", ex->Repr(), " instead of ", Show(w));
}

PBT_TEST(E14_format, 12000, 200000, "two arguments or more") {
  Init();
  int m = s.range(1, 4);
  std::string fmt, want;
  std::vector<TypedValue> args;
  bool missing = false;
  auto lit = [&] { std::string x = One<std::string>(s, {"", "a", " = ", "%%", "\xc3\xa9", "x:"}); fmt += x; want += x == "%%" ? "%" : x; };
  lit();
  for (int i = 0; i < m; ++i) {
    char buf[256];
    std::string flags = One<std::string>(s, {"", "-", "+", "0", " "}), width = s.boolean() ? "" : absl::StrCat(s.range(1, 7));
    if (flags == "-" || flags == "0") if (width.empty()) flags = "";
    bool gone = s.chance(1, 10);
    switch (s.draw(2)) {
      case 0: {
        int64_t v = s.range(-999, 999);
        std::string f = "%" + flags + width;
        snprintf(buf, sizeof buf, (f + "ld").c_str(), static_cast<long>(v));
        fmt += f + "d";
        NT t = s.boolean() ? I32 : I64;
        args.push_back(gone ? Opt(t, {}) : s.boolean() ? Scalar(t, v) : Opt(t, v));
        break;
      }
      case 1: {
        double v = s.range(-999, 999) / 8.0;
        std::string f = "%" + flags + width + (s.boolean() ? "" : absl::StrCat(".", s.range(0, 4)));
        char c = One<char>(s, {'f', 'e', 'g', 'G', 'E'});
        snprintf(buf, sizeof buf, (f + c).c_str(), v);
        fmt += f + c;
        NT t = s.boolean() ? F32 : F64;
        args.push_back(gone ? Opt(t, {}) : s.boolean() ? Scalar(t, v) : Opt(t, v));
        break;
      }
      default: {
        std::string v = One<std::string>(s, {"", "ab", "%d", "long text"});
        std::string f = "%" + (flags == "-" ? flags : "") + width;
        snprintf(buf, sizeof buf, (f + "s").c_str(), v.c_str());
        fmt += f + "s";
        args.push_back(gone ? TypedValue::FromValue(OptionalValue<Bytes>()) : TypedValue::FromValue(Bytes(v)));
        break;
      }
    }
    missing = missing || gone;
    want += buf;
    lit();
  }
  if (m >= 2) s.nontrivial();
  args.insert(args.begin(), TypedValue::FromValue(Bytes(fmt)));
  bool any_opt = std::any_of(args.begin(), args.end(), [](auto& a) { return IsOptionalQType(a.GetType()); });
  auto got = InvokeOperator("strings._printf_bytes", args, any_opt ? GetOptionalQType<Bytes>() : GetQType<Bytes>());
  PBT_ASSERT(got.ok(), got.status(), " for ", fmt);
  Strs w = {missing ? std::nullopt : std::optional<std::string>(want)};
  PBT_ASSERT(ReadStrs(got->AsRef()) == w, "strings.printf of ", fmt, " is ", got->Repr(), " instead of ", Show(w));
}


PBT_TEST(E14_format_named, 12000, 200000, "two fields or more") {
  Init();
  static const std::vector<std::string> kNames = {"a", "b", "long_name", "X1"};
  int m = s.range(1, 4);
  std::vector<std::string> names(kNames.begin(), kNames.begin() + m);
  for (int i = m; i > 1; --i) std::swap(names[i - 1], names[s.draw(i - 1)]);
  std::vector<TypedValue> vals;
  std::vector<int> kinds;
  std::vector<double> nums;
  bool missing = false;
  for (int i = 0; i < m; ++i) {
    bool gone = s.chance(1, 14);
    missing = missing || gone;
    int kind = s.draw(4);
    double v = s.range(-999, 999) / (kind >= 2 ? 8.0 : 1);
    NT t = kind == 0 ? I32 : kind == 1 ? I64 : kind == 2 ? F32 : F64;
    kinds.push_back(kind);
    nums.push_back(v);
    if (kind == 4) vals.push_back(gone ? TypedValue::FromValue(OptionalValue<Bytes>()) : s.boolean() ? TypedValue::FromValue(OptionalValue<Bytes>(Bytes("\xff{a}"))) : TypedValue::FromValue(Bytes("\xff{a}")));
    else vals.push_back(gone ? Opt(t, {}) : s.boolean() ? Scalar(t, v) : Opt(t, v));
  }
  std::string fmt, want;
  bool bad = false;
  int k = s.range(0, 6), fields = 0;
  for (int i = 0; i < k; ++i) {
    switch (s.draw(4)) {
      case 0: fmt += "{{"; want += "{"; break;
      case 1: fmt += "}}"; want += "}"; break;
      case 2: { std::string x = One<std::string>(s, {"a", " : ", "%d", "\xc3\xa9"}); fmt += x; want += x; break; }
      default: {
        int f = s.draw(m - 1);
        ++fields;
        char buf[200];
        std::string spec;
        if (kinds[f] == 4) {
          want += "\xff{a}";
          if (s.chance(1, 3)) spec = "v";
        } else {
          bool fl = kinds[f] >= 2;
          if (!fl && s.chance(1, 3)) {  // how floating ones look is not specified
            spec = s.boolean() ? "v" : "";
            want += absl::StrCat(static_cast<int64_t>(nums[f]));
          } else {
            spec = One<std::string>(s, {"", "0"}) + absl::StrCat(s.range(1, 8)) + (fl && s.boolean() ? absl::StrCat(".", s.range(0, 4)) : "");
            std::string sfx = !s.boolean() ? "" : fl ? One<std::string>(s, {"f", "e", "g"}) : "d";
            if (fl) snprintf(buf, sizeof buf, ("%" + spec + (sfx.empty() ? "f" : sfx)).c_str(), nums[f]);
            else snprintf(buf, sizeof buf, ("%" + spec + "ld").c_str(), static_cast<long>(nums[f]));
            spec += sfx;
            want += buf;
          }
        }
        fmt += "{" + names[f] + (spec.empty() ? "" : ":" + spec) + "}";
      }
    }
  }
  if (s.chance(1, 8)) {
    bad = true;
    fmt += One<std::string>(s, {"{", "}", "{nobody}", "{0}", "{}", "{ a}"});
  }
  if (fields >= 2) s.nontrivial();
  std::vector<TypedValue> args = {TypedValue::FromValue(Bytes(fmt)), TypedValue::FromValue(Text(absl::StrJoin(names, ",")))};
  args.insert(args.end(), vals.begin(), vals.end());
  bool any_opt = std::any_of(args.begin(), args.end(), [](auto& a) { return IsOptionalQType(a.GetType()); });
  auto got = InvokeOperator("strings._format_bytes", args, any_opt ? GetOptionalQType<Bytes>() : GetQType<Bytes>());
  if (bad && !missing) {
    PBT_ASSERT(!got.ok(), "strings.format of ", fmt, " is ", got->Repr());
    return;
  }
  if (bad) return;
  PBT_ASSERT(got.ok(), got.status(), " for ", fmt);
  Strs w = {missing ? std::nullopt : std::optional<std::string>(want)};
  PBT_ASSERT(ReadStrs(got->AsRef()) == w, "strings.format of ", fmt, " is ", absl::CHexEscape(got->Repr()), " instead of ", absl::CHexEscape(Show(w)));
}

}  // namespace

// I01-I03: input loaders, slot listeners and struct I/O.
#include <algorithm>
#include <charconv>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/io/accessors_input_loader.h"
#include "arolla/io/accessors_slot_listener.h"
#include "arolla/io/chain_slot_listener.h"
#include "arolla/io/delegating_input_loader.h"
#include "arolla/io/delegating_slot_listener.h"
#include "arolla/io/inplace_slot_builder.h"
#include "arolla/io/input_loader.h"
#include "arolla/io/slot_listener.h"
#include "arolla/io/span_input_loader.h"
#include "arolla/io/string_slot_listener.h"
#include "arolla/io/struct_io.h"
#include "arolla/io/tuple_input_loader.h"
#include "arolla/io/typed_refs_input_loader.h"
#include "arolla/io/wildcard_input_loader.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_ref.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/qtype/typed_value.h"
#include "pbt.h"

using namespace arolla;
using pbt::Src;

namespace {

using OptF = OptionalValue<float>;
using OptD = OptionalValue<double>;
using OptI = OptionalValue<int32_t>;
using OptL = OptionalValue<int64_t>;

struct In {
  int seed = 0;
  std::vector<In> subs;
};
In MakeIn(int seed, int depth) {
  In r{seed, {}};
  if (depth > 0) for (int k = 0; k < 2; ++k) r.subs.push_back(MakeIn(seed * 7 + k + 1, depth - 1));
  return r;
}
In CopySub(const In& in, int k) {
  In r = in;
  r.seed = in.seed * 5 + k + 3;
  return r;
}

uint32_t Mix(int seed, int id, const std::string& key) {
  uint32_t h = 2166136261u;
  auto add = [&](uint32_t x) { h = (h ^ x) * 16777619u; h ^= h >> 13; };
  add(seed); add(id); for (unsigned char c : key) add(c + 1);
  return h;
}
template <class T> T Val(uint32_t h);
template <> int32_t Val(uint32_t h) { return h; }
template <> int64_t Val(uint32_t h) { return int64_t{1} + h * int64_t{1000003}; }
template <> uint64_t Val(uint32_t h) { return h * uint64_t{0x9E3779B97F4A7C15}; }
template <> float Val(uint32_t h) { return (h % 4001) * 0.25f; }
template <> double Val(uint32_t h) { return h * 0.125; }
template <> bool Val(uint32_t h) { return h & 8; }
template <> Text Val(uint32_t h) { return Text(std::string(h % 40, 'a' + h % 26) + std::to_string(h)); }
template <> Bytes Val(uint32_t h) { return Bytes(std::to_string(h) + std::string(h % 30, '\0')); }
template <> OptF Val(uint32_t h) { return h % 3 ? OptF(Val<float>(h / 3)) : OptF(); }
template <> OptI Val(uint32_t h) { return h % 3 ? OptI(Val<int32_t>(h / 3)) : OptI(); }
template <> OptL Val(uint32_t h) { return h % 3 ? OptL(Val<int64_t>(h / 3)) : OptL(); }
template <> OptD Val(uint32_t h) { return h % 3 ? OptD(Val<double>(h / 3)) : OptD(); }
template <> OptionalValue<Text> Val(uint32_t h) { return h % 3 ? OptionalValue<Text>(Val<Text>(h / 3)) : OptionalValue<Text>(); }

struct TypeOps {
  QTypePtr qtype;
  std::function<TypedValue(uint32_t)> make;
};
template <class T> TypeOps Ops() { return {GetQType<T>(), [](uint32_t h) { return TypedValue::FromValue(Val<T>(h)); }}; }
const std::vector<TypeOps>& AllTypes() {
  static const auto* r = new std::vector<TypeOps>{
      Ops<int32_t>(), Ops<float>(), Ops<bool>(), Ops<int64_t>(), Ops<double>(), Ops<uint64_t>(), Ops<OptF>(), Ops<OptI>(),
      Ops<OptL>(), Ops<OptD>(), Ops<Text>(), Ops<Bytes>(), Ops<OptionalValue<Text>>()};
  return *r;
}
const TypeOps& OpsOf(QTypePtr t) {
  for (auto& o : AllTypes()) if (o.qtype == t) return o;
  abort();
}

const char* kNames[] = {"a", "b", "ab", "x", "y", "x.a", "x.b", "y.a", "x.x.a", "ba", "x.", "x.y.b", "aab", "bb", "xa", "7", "x.12", "-3"};
std::string GenName(Src& s) {
  std::string n = kNames[s.draw(std::size(kNames) - 1)];
  if (s.chance(1, 10)) n += "a";
  if (s.chance(1, 12)) n = "x." + n;
  return n;
}
template <class T> bool Has(const std::vector<T>& v, const T& x) { return std::find(v.begin(), v.end(), x) != v.end(); }

// ---------------------------------------------------------------- loaders

// What a loader is meant to do.
struct LM {
  std::function<QTypePtr(const std::string&)> type;
  // nullopt: an error at run time.
  std::function<std::optional<TypedValue>(const std::string&, const In&)> value;
  std::vector<std::string> names;
};
struct Built {
  LM model;
  std::unique_ptr<InputLoader<In>> loader;
};
struct Ctx {
  int next_id = 1;
  std::vector<std::unique_ptr<InputLoader<In>>> keep;
  bool multi = false;
  std::string show;
};

template <class T>
std::optional<TypedValue> Some(uint32_t h) { return TypedValue::FromValue(Val<T>(h)); }

std::optional<std::string> Strip(const std::string& name, const std::string& pre, const std::string& suf) {
  if (name.size() < pre.size() + suf.size()) return std::nullopt;
  if (name.substr(0, pre.size()) != pre || name.substr(name.size() - suf.size()) != suf) return std::nullopt;
  return name.substr(pre.size(), name.size() - pre.size() - suf.size());
}
std::string Escape(const std::string& t) {
  std::string r;
  for (char c : t) { r += c; if (c == '%') r += '%'; }
  return r;
}

Built GenAccessors(Src& s, Ctx& c) {
  int id = c.next_id++;
  int n = s.range(0, 4);
  std::vector<std::string> names;
  while (names.size() < static_cast<size_t>(n)) {
    auto nm = GenName(s);
    while (Has(names, nm)) nm += 'z';
    names.push_back(nm);
  }
  auto f0 = [id](const In& in) { return Val<int32_t>(Mix(in.seed, id, "0")); };
  auto f1 = [id](const In& in, RawBufferFactory* f) { if (!f) abort(); return Val<Text>(Mix(in.seed, id, "1")); };
  auto f2 = [id](const In& in, OptF* out) { *out = Val<OptF>(Mix(in.seed, id, "2")); };
  auto f3 = [id](const In& in, RawBufferFactory* f, double* out) { if (!f) abort(); *out = Val<double>(Mix(in.seed, id, "3")); };
  std::vector<QTypePtr> types = {GetQType<int32_t>(), GetQType<Text>(), GetQType<OptF>(), GetQType<double>()};
  absl::StatusOr<InputLoaderPtr<In>> l;
  std::vector<int> perm;
  if (n == 0) l = CreateAccessorsInputLoader<In>();
  if (n == 1) { l = CreateAccessorsInputLoader<In>(names[0], f2); perm = {2}; }
  if (n == 2) { l = CreateAccessorsInputLoader<In>(names[0], f1, names[1], f0); perm = {1, 0}; }
  if (n == 3) { l = CreateAccessorsInputLoader<In>(names[0], f3, names[1], f1, names[2], f2); perm = {3, 1, 2}; }
  if (n == 4) { l = CreateAccessorsInputLoader<In>(names[0], f0, names[1], f1, names[2], f2, names[3], f3); perm = {0, 1, 2, 3}; }
  PBT_ASSERT(l.ok(), l.status());
  Built b;
  b.loader = *std::move(l);
  std::map<std::string, int> which;
  for (int i = 0; i < n; ++i) which[names[i]] = perm[i];
  b.model.type = [which, types](const std::string& nm) -> QTypePtr { auto it = which.find(nm); return it == which.end() ? nullptr : types[it->second]; };
  b.model.value = [which, types, id](const std::string& nm, const In& in) -> std::optional<TypedValue> {
    int k = which.at(nm);
    return OpsOf(types[k]).make(Mix(in.seed, id, std::to_string(k)));
  };
  b.model.names = names;
  c.show += absl::StrCat("acc(", absl::StrJoin(names, ","), ")");
  return b;
}

Built GenWildcard(Src& s, Ctx& c) {
  int id = c.next_id++;
  static const char* kPre[] = {"", "x.", "a", "%", "x.x.", "ab"};
  static const char* kSuf[] = {"", "a", "b", ".", "ba", "%"};
  std::string pre = kPre[s.draw(5)], suf = kSuf[s.draw(5)];
  auto fmt = absl::ParsedFormat<'s'>::New(Escape(pre) + "%s" + Escape(suf));
  PBT_ASSERT(fmt != nullptr);
  Built b;
  int kind = s.range(0, 6);
  c.show += absl::StrCat("wild", kind, "(", pre, "*", suf, ")");
  b.model.names = {pre + "*" + suf};
  auto wild = [&](auto tag, std::function<bool(const std::string&, int)> fails) {
    using T = decltype(tag);
    b.model.type = [=](const std::string& nm) -> QTypePtr { return Strip(nm, pre, suf) ? GetQType<T>() : nullptr; };
    b.model.value = [=](const std::string& nm, const In& in) -> std::optional<TypedValue> {
      auto key = *Strip(nm, pre, suf);
      if (fails && fails(key, in.seed)) return std::nullopt;
      return Some<T>(Mix(in.seed, id, key));
    };
  };
  absl::StatusOr<InputLoaderPtr<In>> l;
  auto bad = [](const std::string& key, int seed) { return key.size() % 3 == 2 && seed % 4 == 1; };
  if (kind == 0) {
    wild(float{}, nullptr);
    l = WildcardInputLoader<In>::Build([id](const In& in, const std::string& k) { return Val<float>(Mix(in.seed, id, k)); }, *fmt);
  } else if (kind == 1) {
    wild(Text{}, bad);
    l = WildcardInputLoader<In>::Build([id, bad](const In& in, const std::string& k) -> absl::StatusOr<Text> {
      if (bad(k, in.seed)) return absl::OutOfRangeError("no such key");
      return Val<Text>(Mix(in.seed, id, k)); }, *fmt);
  } else if (kind == 2) {
    wild(OptI{}, nullptr);
    l = WildcardInputLoader<In>::Build([id](const In& in, const std::string& k, RawBufferFactory* f, OptI* out) { if (!f) abort(); *out = Val<OptI>(Mix(in.seed, id, k)); }, *fmt);
  } else if (kind == 3) {
    wild(int64_t{}, nullptr);
    l = WildcardInputLoader<In>::Build([id](const In& in, const std::string& k, int64_t* out) { *out = Val<int64_t>(Mix(in.seed, id, k)); }, *fmt);
  } else if (kind == 4) {
    wild(OptL{}, bad);
    l = WildcardInputLoader<In>::Build([id, bad](const In& in, const std::string& k, RawBufferFactory* f) -> absl::StatusOr<OptL> {
      if (!f || bad(k, in.seed)) return absl::OutOfRangeError("no such key");
      return Val<OptL>(Mix(in.seed, id, k)); }, *fmt);
  } else if (kind == 5) {
    // Keys of another type: decimal numbers.
    auto name2key = [](absl::string_view nm) -> std::optional<int> {
      int v; auto r = std::from_chars(nm.data(), nm.data() + nm.size(), v);
      if (r.ec != std::errc() || r.ptr != nm.data() + nm.size()) return std::nullopt;
      return v;
    };
    b.model.names = {"<number>"};
    b.model.type = [=](const std::string& nm) -> QTypePtr { return name2key(nm) ? GetQType<double>() : nullptr; };
    b.model.value = [=](const std::string& nm, const In& in) { return Some<double>(Mix(in.seed + *name2key(nm), id, "")); };
    l = WildcardInputLoader<In>::Build([id](const In& in, const int& k) { return Val<double>(Mix(in.seed + k, id, "")); }, name2key, {"<number>"});
  } else {
    // Callback accessors with a type per key.
    std::map<std::string, int> keys;
    int n = s.range(0, 5);
    for (int i = 0; i < n; ++i) {
      std::string k = s.chance(1, 8) ? "" : GenName(s);
      keys[k] = s.draw(AllTypes().size() - 1);
    }
    int wrong = s.chance(1, 6) ? s.range(0, 3) : -1;  // keys of this size get a value of a wrong type
    int fail = s.chance(1, 6) ? s.range(0, 3) : -1;
    absl::flat_hash_map<std::string, QTypePtr> key_types;
    b.model.names.clear();
    for (auto& [k, t] : keys) { key_types[k] = AllTypes()[t].qtype; b.model.names.push_back(pre + k + suf); }
    std::sort(b.model.names.begin(), b.model.names.end());
    b.model.type = [=](const std::string& nm) -> QTypePtr {
      auto k = Strip(nm, pre, suf);
      if (!k || !keys.count(*k)) return nullptr;
      return AllTypes()[keys.at(*k)].qtype;
    };
    b.model.value = [=](const std::string& nm, const In& in) -> std::optional<TypedValue> {
      auto k = *Strip(nm, pre, suf);
      if (static_cast<int>(k.size()) == wrong || static_cast<int>(k.size()) == fail) return std::nullopt;
      return AllTypes()[keys.at(k)].make(Mix(in.seed, id, k));
    };
    WildcardInputLoader<In>::CallbackAccessorFn acc = [=](const In& in, const std::string& k, WildcardInputLoaderCallback cb) -> absl::Status {
      if (static_cast<int>(k.size()) == fail) return absl::DataLossError("fails");
      QTypePtr t = AllTypes()[keys.at(k)].qtype;
      if (static_cast<int>(k.size()) == wrong) {
        if (in.seed % 2) return cb(TypedRef::FromValue(DenseArray<float>()));
        return cb(DenseArray<float>());
      }
      auto v = OpsOf(t).make(Mix(in.seed, id, k));
      if (in.seed % 2 && t == GetQType<Text>()) return cb(v.UnsafeAs<Text>());
      if (in.seed % 2 && t == GetQType<float>()) return cb(v.UnsafeAs<float>());
      return cb(v.AsRef());
    };
    if (s.boolean()) {
      l = WildcardInputLoader<In>::BuildFromCallbackAccessorFn(acc, key_types, *fmt);
    } else {
      l = WildcardInputLoader<In>::BuildFromCallbackAccessorFn(
          acc, [=](absl::string_view n) { return Strip(std::string(n.data(), n.size()), pre, suf); },
          [=](absl::string_view k) -> QTypePtr { auto it = key_types.find(k); return it == key_types.end() ? nullptr : it->second; },
          b.model.names);
    }
  }
  PBT_ASSERT(l.ok(), l.status());
  b.loader = *std::move(l);
  return b;
}

Built GenLoader(Src& s, Ctx& c, int depth);

Built GenCombined(Src& s, Ctx& c, int depth) {
  Built b;
  int kind = depth == 3 && s.boolean() ? 0 : s.range(0, 6);
  if (kind <= 1) {  // chain
    int n = depth == 3 ? s.range(1, 5) : s.range(0, 4);
    c.show += "chain[";
    auto models = std::make_shared<std::vector<LM>>();
    std::vector<std::unique_ptr<InputLoader<In>>> ls;
    for (int i = 0; i < n; ++i) {
      auto child = GenLoader(s, c, depth - 1);
      for (auto& x : child.model.names) b.model.names.push_back(x);
      models->push_back(child.model);
      ls.push_back(std::move(child.loader));
      c.show += " ";
    }
    c.show += "]";
    if (n > 1) c.multi = true;
    b.model.type = [models](const std::string& nm) -> QTypePtr {
      for (auto& m : *models) if (auto t = m.type(nm)) return t;
      return nullptr;
    };
    b.model.value = [models](const std::string& nm, const In& in) -> std::optional<TypedValue> {
      for (auto& m : *models) if (m.type(nm)) return m.value(nm, in);
      abort();
    };
    absl::StatusOr<std::unique_ptr<InputLoader<In>>> l;
    if (s.boolean()) l = ChainInputLoader<In>::Build(std::move(ls));
    else {
      l = ChainInputLoader<In>::Build(std::move(ls), [](absl::Span<const BoundInputLoader<In>> bound, const In& in, FramePtr frame, RawBufferFactory* f) -> absl::Status {
        if (bound.size() < 2) return absl::InternalError("one loader must not need the function");
        size_t half = bound.size() / 2;
        absl::Status st = ChainInputLoader<In>::InvokeBoundLoaders(bound.subspan(half), in, frame, f);
        if (!st.ok()) return st;
        return ChainInputLoader<In>::InvokeBoundLoaders(bound.subspan(0, half), in, frame, f);
      });
    }
    PBT_ASSERT(l.ok(), l.status());
    b.loader = *std::move(l);
  } else if (kind <= 3) {  // delegating
    static const char* kPre[] = {"", "x.", "a", "x", "y."};
    std::string pre = kPre[s.draw(4)];
    int k = s.range(0, 1);
    bool copy = s.boolean();
    c.show += absl::StrCat("deleg(", pre, copy ? " copy " : " ref ", k, " ");
    auto child = GenLoader(s, c, depth - 1);
    c.show += ")";
    auto m = std::make_shared<LM>(child.model);
    auto sub = [k, copy](const In& in) -> In { return copy ? CopySub(in, k) : in.subs.empty() ? in : in.subs[k]; };
    for (auto& x : child.model.names) b.model.names.push_back(pre + x);
    b.model.type = [m, pre](const std::string& nm) -> QTypePtr { auto r = Strip(nm, pre, ""); return r ? m->type(*r) : nullptr; };
    b.model.value = [m, pre, sub](const std::string& nm, const In& in) { return m->value(*Strip(nm, pre, ""), sub(in)); };
    absl::StatusOr<std::unique_ptr<InputLoader<In>>> l;
    if (copy) l = CreateDelegatingInputLoaderWithCopyAllowed<In, In>(std::move(child.loader), [k](const In& in) -> In { return CopySub(in, k); }, pre);
    else l = CreateDelegatingInputLoader<In, In>(std::move(child.loader), [k](const In& in) -> const In& { return in.subs.empty() ? in : in.subs[k]; }, pre);
    PBT_ASSERT(l.ok(), l.status());
    b.loader = *std::move(l);
  } else if (kind == 4) {  // filtering
    c.show += "filter(";
    auto child = GenLoader(s, c, depth - 1);
    auto m = std::make_shared<LM>(child.model);
    std::function<bool(const std::string&)> ok;
    if (s.boolean()) {
      std::vector<std::string> allowed;
      int n = s.range(0, 6);
      for (int i = 0; i < n; ++i) allowed.push_back(!m->names.empty() && s.boolean() ? s.pick(m->names) : GenName(s));
      ok = [allowed](const std::string& nm) { return Has(allowed, nm); };
      b.loader = MakeFilteringInputLoader(std::move(child.loader), absl::MakeConstSpan(allowed));
      c.show += absl::StrCat(" by ", absl::StrJoin(allowed, ","), ")");
    } else {
      int r = s.range(0, 2);
      ok = [r](const std::string& nm) { return static_cast<int>(nm.size() % 3) != r; };
      b.loader = MakeFilteringInputLoader(std::move(child.loader), [ok](absl::string_view nm) { return ok(std::string(nm.data(), nm.size())); });
      c.show += absl::StrCat(" size%3!=", r, ")");
    }
    for (auto& x : m->names) if (ok(x)) b.model.names.push_back(x);
    b.model.type = [m, ok](const std::string& nm) -> QTypePtr { return ok(nm) ? m->type(nm) : nullptr; };
    b.model.value = [m](const std::string& nm, const In& in) { return m->value(nm, in); };
  } else if (kind == 5) {  // (not) owning
    auto child = GenLoader(s, c, depth - 1);
    b.model = child.model;
    if (s.boolean()) {
      b.loader = MakeSharedOwningInputLoader(std::shared_ptr<const InputLoader<In>>(std::move(child.loader)));
    } else {
      b.loader = MakeNotOwningInputLoader(child.loader.get());
      c.keep.push_back(std::move(child.loader));
    }
  } else {  // a loader per key, made on demand
    auto models = std::make_shared<std::map<std::string, LM>>();
    auto loaders = std::make_shared<std::map<std::string, std::shared_ptr<InputLoader<In>>>>();
    c.show += "dyn{";
    for (std::string key : {"x", "a", "7"}) {
      if (s.chance(1, 4)) continue;
      c.show += key + ":";
      auto child = GenLoader(s, c, depth - 1);
      (*models)[key] = child.model;
      (*loaders)[key] = std::move(child.loader);
    }
    c.show += "}";
    bool fail7 = s.chance(1, 4);
    auto made = std::make_shared<std::set<std::string>>();
    auto name2key = [](absl::string_view nm) -> std::optional<std::string> {
      if (nm.empty() || nm[0] == 'b') return std::nullopt;
      return std::string(1, nm[0]);
    };
    b.model.names = {"x...", "a..."};
    b.model.type = [=](const std::string& nm) -> QTypePtr {
      auto k = name2key(nm);
      if (!k || !models->count(*k) || (fail7 && *k == "7")) return nullptr;
      return models->at(*k).type(nm);
    };
    b.model.value = [=](const std::string& nm, const In& in) { return models->at(*name2key(nm)).value(nm, in); };
    auto l = CreateDynamicDelegatingInputLoader<In>(
        [=](absl::string_view key_view) -> absl::StatusOr<std::unique_ptr<InputLoader<In>>> {
          std::string key(key_view.data(), key_view.size());
          if (!loaders->count(key) || (fail7 && key == "7")) return absl::NotFoundError("no loader");
          if (!made->insert(key).second) return absl::InternalError("made twice");
          return MakeSharedOwningInputLoader(std::shared_ptr<const InputLoader<In>>(loaders->at(key)));
        },
        name2key, b.model.names);
    PBT_ASSERT(l.ok(), l.status());
    b.loader = *std::move(l);
  }
  return b;
}

Built GenLoader(Src& s, Ctx& c, int depth) {
  if (depth == 0 || (depth < 3 && s.chance(1, 4))) return s.boolean() ? GenWildcard(s, c) : GenAccessors(s, c);
  return GenCombined(s, c, depth);
}

std::string NameFor(Src& s, const LM& m) {
  std::vector<std::string> known;
  if (s.chance(2, 3)) {
    for (auto& n : m.names) {
      if (auto p = n.find('*'); p != std::string::npos) { auto k = n; k.replace(p, 1, s.boolean() ? "" : GenName(s)); known.push_back(k); }
      else known.push_back(n);
    }
  }
  return known.empty() ? GenName(s) : s.pick(known);
}

PBT_TEST(I01_input_loaders, 60000, 800000, "a chain of several loaders, with at least two names bound") {
  Ctx c;
  auto b = GenLoader(s, c, 3);
  const LM& m = b.model;
  s.note(c.show);
  auto names = b.loader->SuggestAvailableNames();
  PBT_ASSERT(names == m.names, "names ", absl::StrJoin(names, ","), " instead of ", absl::StrJoin(m.names, ","));
  for (const char* n : kNames) PBT_ASSERT(b.loader->GetQTypeOf(n) == m.type(n), "type of ", n);
  for (auto& n : m.names) PBT_ASSERT(b.loader->GetQTypeOf(n) == m.type(n), "type of ", n);

  int rounds = s.range(1, 2);
  for (int round = 0; round < rounds; ++round) {
    std::set<std::string> wanted;
    int n = s.range(0, 10);
    bool sloppy = s.chance(1, 4);
    for (int i = 0; i < n; ++i) {
      auto nm = NameFor(s, m);
      if (!sloppy && !m.type(nm)) continue;
      wanted.insert(nm);
    }
    FrameLayout::Builder fb;
    absl::flat_hash_map<std::string, TypedSlot> slots;
    std::vector<std::pair<std::string, TypedSlot>> order;
    std::vector<TypedSlot> other;
    bool all_known = true, all_match = true, known_match = true;
    for (auto& nm : wanted) {
      QTypePtr t = m.type(nm);
      if (!t) all_known = false;
      QTypePtr slot_type = t && !s.chance(1, 25) ? t : AllTypes()[s.draw(AllTypes().size() - 1)].qtype;
      if (slot_type != t) { all_match = false; if (t) known_match = false; }
      auto slot = AddSlot(slot_type, &fb);
      slots.emplace(nm, slot);
      order.push_back({nm, slot});
      if (s.chance(1, 3)) other.push_back(AddSlot(AllTypes()[s.draw(AllTypes().size() - 1)].qtype, &fb));
    }
    FrameLayout layout = std::move(fb).Build();
    bool partial = s.chance(1, 3);
    absl::StatusOr<BoundInputLoader<In>> bound = absl::InternalError("");
    if (partial) {
      auto rest = slots;
      bound = b.loader->PartialBind(&rest);
      for (auto& [nm, slot] : order) {
        bool known = m.type(nm) != nullptr;
        PBT_ASSERT(rest.contains(nm) == !known, "PartialBind left ", nm);
        if (!known) slots.erase(nm);
      }
      PBT_ASSERT(bound.ok() == known_match, "PartialBind: ", bound.status());
    } else {
      bound = b.loader->Bind(slots);
      PBT_ASSERT(bound.ok() == (all_known && all_match), "Bind: ", bound.status(), " for ", absl::StrJoin(wanted, ","));
    }
    if (!bound.ok()) continue;
    if (c.multi && slots.size() > 1) s.nontrivial();
    std::vector<std::unique_ptr<MemoryAllocation>> allocs;
    for (int run = 0; run < 2; ++run) {
      MemoryAllocation alloc(&layout);
      // Everything is filled with something else first.
      auto fill = [&](TypedSlot slot, uint32_t h) { PBT_ASSERT(OpsOf(slot.GetType()).make(h).CopyToSlot(slot, alloc.frame()).ok()); };
      for (auto& [nm, slot] : order) fill(slot, 77 + nm.size());
      for (auto& o : other) fill(o, 99);
      In in = MakeIn(s.range(0, 1000), 2);
      absl::Status st = s.boolean() ? (*bound)(in, alloc.frame()) : (*bound)(in, alloc.frame(), GetHeapBufferFactory());
      bool fails = false;
      for (auto& [nm, slot] : order) if (slots.contains(nm) && !m.value(nm, in)) fails = true;
      PBT_ASSERT(st.ok() == !fails, "run: ", st);
      for (auto& o : other) {
        PBT_ASSERT(TypedValue::FromSlot(o, alloc.frame()).GetFingerprint() == OpsOf(o.GetType()).make(99).GetFingerprint(), "another slot was changed");
      }
      for (auto& [nm, slot] : order) {
        auto got = TypedValue::FromSlot(slot, alloc.frame()).GetFingerprint();
        if (!slots.contains(nm)) PBT_ASSERT(got == OpsOf(slot.GetType()).make(77 + nm.size()).GetFingerprint(), "slot of ", nm, " is not bound but changed");
        else if (!fails) PBT_ASSERT(got == m.value(nm, in)->GetFingerprint(), "value of ", nm, " is ", TypedValue::FromSlot(slot, alloc.frame()).Repr());
      }
    }
  }
}

// Damerau-Levenshtein distance at most one, by trying every edit.
bool OneTypo(const std::string& a, const std::string& b) {
  if (a == b) return true;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a.substr(0, i) + a.substr(i + 1) == b) return true;
    if (i < b.size() && a.size() == b.size()) {
      auto x = a; x[i] = b[i]; if (x == b) return true;
      if (i + 1 < a.size()) { x = a; std::swap(x[i], x[i + 1]); if (x == b) return true; }
    }
  }
  for (size_t i = 0; i < b.size(); ++i) if (b.substr(0, i) + b.substr(i + 1) == a) return true;
  return false;
}
std::string Short(const std::string& t) { return t.size() <= 200 ? t : t.substr(0, 197) + "..."; }

class TypesLoader final : public StaticInputLoader<In> {
 public:
  template <class A> explicit TypesLoader(A a) : StaticInputLoader<In>(std::move(a)) {}
  absl::StatusOr<BoundInputLoader<In>> BindImpl(const absl::flat_hash_map<std::string, TypedSlot>&) const final { return absl::UnimplementedError(""); }
};

PBT_TEST(I01_unknown_names, 60000, 600000, "a name that is unknown but close to a known one") {
  std::vector<std::pair<std::string, QTypePtr>> types;
  std::set<std::string> seen;
  auto gen = [&] {
    if (s.chance(1, 30)) return std::string(s.range(80, 200), 'q');
    std::string r;
    int n = s.range(0, 5);
    for (int i = 0; i < n; ++i) r += "abc."[s.draw(3)];
    return r;
  };
  int n = s.range(0, 6);
  for (int i = 0; i < n; ++i) {
    auto nm = gen();
    if (seen.insert(nm).second) types.push_back({nm, AllTypes()[s.draw(AllTypes().size() - 1)].qtype});
  }
  bool by_map = s.boolean();
  std::unique_ptr<TypesLoader> l;
  if (by_map) {
    l = std::make_unique<TypesLoader>(absl::flat_hash_map<std::string, QTypePtr>(types.begin(), types.end()));
    std::sort(types.begin(), types.end());
  } else {
    l = std::make_unique<TypesLoader>(types);
  }
  std::vector<std::string> names, available;
  for (auto& [nm, t] : types) available.push_back(nm);
  PBT_ASSERT(l->SuggestAvailableNames() == available);
  int k = s.range(0, 5);
  for (int i = 0; i < k; ++i) {
    auto nm = !available.empty() && s.chance(3, 4) ? s.pick(available) : gen();
    if (s.boolean() && !nm.empty()) {
      size_t p = s.draw(nm.size() - 1);
      int e = s.range(0, 3);
      if (e == 0) nm.erase(p, 1);
      if (e == 1) nm.insert(p, 1, 'b');
      if (e == 2) nm[p] = 'c';
      if (e == 3 && p + 1 < nm.size()) std::swap(nm[p], nm[p + 1]);
    }
    names.push_back(nm);
  }
  auto got = GetInputLoaderQTypes(*l, names);
  std::set<std::string> unknown, close;
  for (auto& nm : names) if (!seen.count(nm)) unknown.insert(nm);
  for (auto& u : unknown) for (auto& a : available) if (OneTypo(u, a)) close.insert(a);
  if (unknown.empty()) {
    PBT_ASSERT(got.ok(), got.status());
    std::set<std::string> distinct(names.begin(), names.end());
    PBT_ASSERT(got->size() == distinct.size());
    for (auto& [nm, t] : types) if (distinct.count(nm)) PBT_ASSERT(got->at(nm) == t);
  } else {
    if (!close.empty()) s.nontrivial();
    std::string want = "unknown inputs: " + Short(absl::StrJoin(unknown, ", ")) + " (available: " + Short(absl::StrJoin(available, ", ")) + ")";
    if (!close.empty()) want += "; did you mean: " + absl::StrJoin(close, ", ") + "?";
    PBT_ASSERT(!got.ok() && got.status().code() == absl::StatusCode::kInvalidArgument && std::string(got.status().message()) == want, got.status(), " instead of ", want);
  }
}

PBT_TEST(I01_positional, 40000, 600000, "two or more names, some of them not bound") {
  int n = s.range(0, 6);
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) {
    auto nm = GenName(s);
    while (Has(names, nm)) nm += 'z';
    names.push_back(nm);
  }
  int kind = s.range(0, 4);
  FrameLayout::Builder fb;
  absl::flat_hash_map<std::string, TypedSlot> slots;
  std::vector<std::pair<int, TypedSlot>> bound_ids;
  std::vector<TypedSlot> other;
  auto add = [&](int i, QTypePtr t, bool always) {
    if (s.chance(1, 3)) other.push_back(AddSlot(AllTypes()[s.draw(AllTypes().size() - 1)].qtype, &fb));
    if (!always && s.chance(1, 3)) return;
    auto slot = AddSlot(t, &fb);
    slots.emplace(names[i], slot);
    bound_ids.push_back({i, slot});
  };
  std::vector<QTypePtr> types;
  int seed = s.range(0, 100000);
  auto check = [&](auto loader, auto input, auto wrong_input, bool complete_only) {
    PBT_ASSERT(loader->SuggestAvailableNames() == names);
    for (size_t i = 0; i < types.size(); ++i) PBT_ASSERT(loader->GetQTypeOf(names[i]) == types[i]);
    PBT_ASSERT(loader->GetQTypeOf("nothing") == nullptr);
    for (size_t i = 0; i < types.size(); ++i) add(i, types[i], complete_only && s.chance(9, 10));
    if (bound_ids.size() < types.size() && !bound_ids.empty()) s.nontrivial();
    FrameLayout layout = std::move(fb).Build();
    MemoryAllocation alloc(&layout);
    for (auto& o : other) PBT_ASSERT(OpsOf(o.GetType()).make(99).CopyToSlot(o, alloc.frame()).ok());
    auto bound = loader->Bind(slots);
    if (complete_only && !slots.empty() && slots.size() < types.size()) { PBT_ASSERT(!bound.ok(), "unused arguments accepted"); return; }
    PBT_ASSERT(bound.ok(), bound.status());
    if (wrong_input) {
      auto st = (*bound)(*wrong_input, alloc.frame());
      PBT_ASSERT(st.ok() == slots.empty(), "a wrong input was accepted");
    }
    auto st = (*bound)(input, alloc.frame());
    PBT_ASSERT(st.ok(), st);
    for (auto& [i, slot] : bound_ids) {
      PBT_ASSERT(TypedValue::FromSlot(slot, alloc.frame()).GetFingerprint() == OpsOf(slot.GetType()).make(Mix(seed, i, "p")).GetFingerprint(), "value ", i);
    }
    for (auto& o : other) PBT_ASSERT(TypedValue::FromSlot(o, alloc.frame()).GetFingerprint() == OpsOf(o.GetType()).make(99).GetFingerprint());
  };
  int wrong_size = s.range(0, 7);
  if (kind == 0) {
    std::vector<Text> v;
    for (int i = 0; i < n; ++i) { v.push_back(Val<Text>(Mix(seed, i, "p"))); types.push_back(GetQType<Text>()); }
    std::vector<Text> w(wrong_size);
    std::optional<absl::Span<const Text>> wrong;
    if (wrong_size != n) wrong = absl::MakeConstSpan(w);
    check(SpanInputLoader<Text>::Create(names), absl::MakeConstSpan(v), wrong, false);
  } else if (kind == 1) {
    std::vector<std::optional<float>> v;
    for (int i = 0; i < n; ++i) { v.push_back(Val<OptF>(Mix(seed, i, "p")).AsOptional()); types.push_back(GetQType<OptF>()); }
    std::vector<std::optional<float>> w(wrong_size);
    std::optional<absl::Span<const std::optional<float>>> wrong;
    if (wrong_size != n) wrong = absl::MakeConstSpan(w);
    check(SpanInputLoader<std::optional<float>>::Create(names), absl::MakeConstSpan(v), wrong, false);
  } else if (kind == 2) {
    std::vector<TypedValue> v;
    std::vector<TypedRef> r, w;
    std::vector<std::pair<std::string, QTypePtr>> args;
    for (int i = 0; i < n; ++i) {
      auto& o = AllTypes()[s.draw(AllTypes().size() - 1)];
      types.push_back(o.qtype);
      args.push_back({names[i], o.qtype});
      v.push_back(o.make(Mix(seed, i, "p")));
    }
    for (auto& x : v) r.push_back(x.AsRef());
    static const auto* five = new TypedValue(TypedValue::FromValue(5));
    w.assign(wrong_size, five->AsRef());
    std::optional<absl::Span<const TypedRef>> wrong;
    if (wrong_size != n) wrong = absl::MakeConstSpan(w);
    check(CreateTypedRefsInputLoader(args), absl::MakeConstSpan(r), wrong, false);
  } else {
    using Tup = std::tuple<int32_t, Text, OptF>;
    auto loader = TupleInputLoader<Tup>::Create(names);
    PBT_ASSERT(loader.ok() == (n == 3), loader.status());
    if (n != 3) return;
    types = {GetQType<int32_t>(), GetQType<Text>(), GetQType<OptF>()};
    Tup t{Val<int32_t>(Mix(seed, 0, "p")), Val<Text>(Mix(seed, 1, "p")), Val<OptF>(Mix(seed, 2, "p"))};
    check(*std::move(loader), t, std::optional<Tup>(), true);
  }
}

PBT_TEST(I01_duplicates, 2000, 30000, "a name is used twice") {
  std::vector<std::string> n;
  for (int i = 0; i < 4; ++i) n.push_back(std::string(1, "abcdefgh"[s.draw(7)]));
  std::set<std::string> twice;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (n[i] == n[j]) twice.insert(n[i]);
  if (!twice.empty()) s.nontrivial();
  auto f = [](const In& in) { return in.seed; };
  auto g = [](const In& in) { return in.seed * 0.5f; };
  auto l = CreateAccessorsInputLoader<In>(n[0], f, n[1], g, n[2], f, n[3], g);
  auto h = [](int v, In* out) { out->seed = v; };
  auto k = [](float v, In* out) { out->seed = v; };
  auto sl = CreateAccessorsSlotListener<In>(n[0], h, n[1], k, n[2], h, n[3], k);
  PBT_ASSERT(l.ok() == twice.empty(), l.status());
  PBT_ASSERT(sl.ok() == twice.empty(), sl.status());
  if (!twice.empty()) {
    std::string want = "accessors have duplicated names: " + absl::StrJoin(twice, ", ");
    PBT_ASSERT(std::string(l.status().message()) == want, l.status());
    PBT_ASSERT(std::string(sl.status().message()) == want, sl.status());
  } else {
    PBT_ASSERT((*l)->SuggestAvailableNames() == n);
    PBT_ASSERT((*sl)->SuggestAvailableNames() == n);
  }
}

// -------------------------------------------------------------- listeners

struct Out {
  std::vector<std::string> log;  // leaf id : name : fingerprint of the value
  std::unique_ptr<Out> subs[2];
  Out* Sub(int k) {
    if (!subs[k]) subs[k] = std::make_unique<Out>();
    return subs[k].get();
  }
  void Flatten(const std::string& path, std::vector<std::string>& to) const {
    for (auto& l : log) to.push_back(path + l);
    for (int k = 0; k < 2; ++k) if (subs[k]) subs[k]->Flatten(path + char('0' + k) + "/", to);
  }
};
std::string Entry(int id, const std::string& name, TypedRef v) { return absl::StrCat(id, ":", name, "=", v.GetType()->name(), v.Repr()); }

struct SM {
  std::function<QTypePtr(const std::string&, QTypePtr)> type;
  // Whether slots of these types can be bound.
  using Slots = std::map<std::string, QTypePtr>;
  std::function<bool(const Slots&)> bind;  // given all names are known and of the type
  using Values = std::map<std::string, TypedValue>;
  std::function<bool(const Values&, const std::string& path, std::vector<std::string>&)> run;
  std::vector<std::string> names;
  bool Bind(const Slots& sl) const {
    for (auto& [n, t] : sl) if (type(n, t) != t) return false;
    return sl.empty() || bind(sl);
  }
};
struct SBuilt { SM model; std::unique_ptr<SlotListener<Out>> listener; };

// Accepts any type under names that start with a given letter.
class AnyListener final : public SlotListener<Out> {
 public:
  AnyListener(int id, char first, QTypePtr fallback, int fail) : id_(id), first_(first), fallback_(fallback), fail_(fail) {}
  const QType* GetQTypeOf(absl::string_view name, const QType* desired) const final {
    if (name.empty() || name[0] != first_) return nullptr;
    return desired ? desired : fallback_;
  }
  std::vector<std::string> SuggestAvailableNames() const final { return {std::string(1, first_) + "*"}; }

 private:
  absl::StatusOr<BoundSlotListener<Out>> BindImpl(const absl::flat_hash_map<std::string, TypedSlot>& slots) const final {
    std::map<std::string, TypedSlot> sl(slots.begin(), slots.end());
    if (sl.empty()) return absl::InternalError("nothing to bind");
    return BoundSlotListener<Out>([sl, id = id_, fail = fail_](ConstFramePtr frame, Out* out) -> absl::Status {
      for (auto& [n, slot] : sl) {
        if (static_cast<int>(n.size()) == fail) return absl::DataLossError("fails");
        out->log.push_back(Entry(id, n, TypedRef::FromSlot(slot, frame)));
      }
      return absl::OkStatus();
    });
  }
  int id_; char first_; QTypePtr fallback_; int fail_;
};

struct SCtx { int next_id = 1; std::vector<std::unique_ptr<SlotListener<Out>>> keep; bool multi = false; std::string show; };

SBuilt GenListener(Src& s, SCtx& c, int depth) {
  SBuilt b;
  int kind = depth == 0 ? s.range(0, 1) : depth == 3 && s.boolean() ? 2 : s.range(0, 6);
  if (kind == 0) {
    int id = c.next_id++;
    int n = s.range(0, 3);
    std::vector<std::string> names;
    while (names.size() < static_cast<size_t>(n)) {
      auto nm = GenName(s);
      while (Has(names, nm)) nm += 'z';
      names.push_back(nm);
    }
    auto name = [&](int i) { return i < n ? names[i] : std::string(); };
    auto f0 = [id, nm = name(0)](const Text& v, Out* o) { o->log.push_back(Entry(id, nm, TypedRef::FromValue(v))); };
    auto f1 = [id, nm = name(1)](OptF v, Out* o) { o->log.push_back(Entry(id, nm, TypedRef::FromValue(v))); };
    auto f2 = [id, nm = name(2)](const int32_t& v, Out* o) { o->log.push_back(Entry(id, nm, TypedRef::FromValue(v))); };
    std::vector<QTypePtr> types = {GetQType<Text>(), GetQType<OptF>(), GetQType<int32_t>()};
    absl::StatusOr<std::unique_ptr<SlotListener<Out>>> l;
    if (n == 0) l = CreateAccessorsSlotListener<Out>();
    if (n == 1) l = CreateAccessorsSlotListener<Out>(names[0], f0);
    if (n == 2) l = CreateAccessorsSlotListener<Out>(names[0], f0, names[1], f1);
    if (n == 3) l = CreateAccessorsSlotListener<Out>(names[0], f0, names[1], f1, names[2], f2);
    PBT_ASSERT(l.ok(), l.status());
    b.listener = *std::move(l);
    b.model.names = names;
    b.model.type = [=](const std::string& nm, QTypePtr) -> QTypePtr {
      for (int i = 0; i < n; ++i) if (names[i] == nm) return types[i];
      return nullptr;
    };
    b.model.bind = [](const SM::Slots&) { return true; };
    b.model.run = [=](const SM::Values& v, const std::string& path, std::vector<std::string>& to) {
      for (int i = 0; i < n; ++i) if (auto it = v.find(names[i]); it != v.end()) to.push_back(path + Entry(id, names[i], it->second.AsRef()));
      return true;
    };
    c.show += absl::StrCat("acc(", absl::StrJoin(names, ","), ")");
  } else if (kind == 1) {
    int id = c.next_id++;
    char first = "abxy"[s.draw(3)];
    QTypePtr fallback = s.boolean() ? GetQType<float>() : nullptr;
    int fail = s.chance(1, 4) ? s.range(1, 4) : -1;
    b.listener = std::make_unique<AnyListener>(id, first, fallback, fail);
    b.model.names = {std::string(1, first) + "*"};
    b.model.type = [=](const std::string& nm, QTypePtr desired) -> QTypePtr { return nm.empty() || nm[0] != first ? nullptr : desired ? desired : fallback; };
    b.model.bind = [](const SM::Slots&) { return true; };
    b.model.run = [=](const SM::Values& v, const std::string& path, std::vector<std::string>& to) {
      for (auto& [n, x] : v) { if (static_cast<int>(n.size()) == fail) return false; to.push_back(path + Entry(id, n, x.AsRef())); }
      return true;
    };
    c.show += absl::StrCat("any(", std::string(1, first), ")");
  } else if (kind <= 3) {
    int n = s.range(0, 4);
    if (n > 1) c.multi = true;
    auto ms = std::make_shared<std::vector<SM>>();
    std::vector<std::unique_ptr<SlotListener<Out>>> ls;
    c.show += "chain[";
    for (int i = 0; i < n; ++i) {
      auto child = GenListener(s, c, depth - 1);
      for (auto& x : child.model.names) b.model.names.push_back(x);
      ms->push_back(child.model);
      ls.push_back(std::move(child.listener));
      c.show += " ";
    }
    c.show += "]";
    auto l = ChainSlotListener<Out>::Build(std::move(ls));
    PBT_ASSERT(l.ok(), l.status());
    b.listener = *std::move(l);
    b.model.type = [ms](const std::string& nm, QTypePtr d) -> QTypePtr { for (auto& m : *ms) if (auto t = m.type(nm, d)) return t; return nullptr; };
    b.model.bind = [ms](const SM::Slots& sl) {
      for (auto& m : *ms) {
        SM::Slots part;
        for (auto& [nm, t] : sl) if (m.type(nm, t)) part.emplace(nm, t);
        if (!m.Bind(part)) return false;
      }
      return true;
    };
    b.model.run = [ms](const SM::Values& v, const std::string& path, std::vector<std::string>& to) {
      for (auto& m : *ms) {
        SM::Values part;
        for (auto& [nm, x] : v) if (m.type(nm, x.GetType())) part.emplace(nm, x);
        if (!part.empty() && !m.run(part, path, to)) return false;
      }
      return true;
    };
  } else if (kind <= 5) {
    static const char* kPre[] = {"", "x.", "a", "x", "y."};
    std::string pre = kPre[s.draw(4)];
    int k = s.range(0, 1);
    c.show += absl::StrCat("deleg(", pre, " ", k, " ");
    auto child = GenListener(s, c, depth - 1);
    c.show += ")";
    auto m = std::make_shared<SM>(child.model);
    auto l = CreateDelegatingSlotListener<Out, Out>(std::move(child.listener), [k](Out* o) -> Out* { return o->Sub(k); }, pre);
    PBT_ASSERT(l.ok(), l.status());
    b.listener = *std::move(l);
    for (auto& x : m->names) b.model.names.push_back(pre + x);
    b.model.type = [m, pre](const std::string& nm, QTypePtr d) -> QTypePtr { auto r = Strip(nm, pre, ""); return r ? m->type(*r, d) : nullptr; };
    b.model.bind = [m, pre](const SM::Slots& sl) {
      SM::Slots part;
      for (auto& [nm, t] : sl) part.emplace(*Strip(nm, pre, ""), t);
      return m->Bind(part);
    };
    b.model.run = [m, pre, k](const SM::Values& v, const std::string& path, std::vector<std::string>& to) {
      SM::Values part;
      for (auto& [nm, x] : v) part.emplace(*Strip(nm, pre, ""), x);
      return m->run(part, path + char('0' + k) + "/", to);
    };
  } else {
    auto child = GenListener(s, c, depth - 1);
    b.model = child.model;
    if (s.boolean()) b.listener = MakeSharedOwningSlotListener(std::shared_ptr<const SlotListener<Out>>(std::move(child.listener)));
    else {
      b.listener = MakeNotOwningSlotListener(child.listener.get());
      c.keep.push_back(std::move(child.listener));
    }
  }
  return b;
}

PBT_TEST(I02_slot_listeners, 60000, 800000, "a chain of several listeners, with at least two names bound") {
  SCtx c;
  auto b = GenListener(s, c, 3);
  const SM& m = b.model;
  s.note(c.show);
  PBT_ASSERT(b.listener->SuggestAvailableNames() == m.names, absl::StrJoin(b.listener->SuggestAvailableNames(), ","));
  for (const char* n : kNames) {
    PBT_ASSERT(b.listener->GetQTypeOf(n) == m.type(n, nullptr), "type of ", n);
    PBT_ASSERT(static_cast<const SlotListenerBase*>(b.listener.get())->GetQTypeOf(n, GetQType<OptF>()) == m.type(n, GetQType<OptF>()), "type of ", n);
  }
  int rounds = s.range(1, 2);
  for (int round = 0; round < rounds; ++round) {
    FrameLayout::Builder fb;
    absl::flat_hash_map<std::string, TypedSlot> slots;
    SM::Slots types;
    int n = s.range(0, 10);
    bool sloppy = s.chance(1, 4);
    bool all_known = true;
    for (int i = 0; i < n; ++i) {
      std::string nm;
      if (!m.names.empty() && s.chance(2, 3)) {
        nm = s.pick(m.names);
        if (auto p = nm.find('*'); p != std::string::npos) nm.replace(p, 1, s.boolean() ? "" : GenName(s));
      } else {
        nm = GenName(s);
      }
      if (types.count(nm)) continue;
      QTypePtr any = AllTypes()[s.draw(AllTypes().size() - 1)].qtype;
      QTypePtr t = m.type(nm, any);
      if (!t && !sloppy) continue;
      if (!t) all_known = false;
      if (!t || s.chance(1, 30)) t = any;
      auto slot = AddSlot(t, &fb);
      slots.emplace(nm, slot);
      types.emplace(nm, t);
    }
    FrameLayout layout = std::move(fb).Build();
    bool partial = s.chance(1, 3);
    std::optional<BoundSlotListener<Out>> bound;
    if (partial) {
      auto r = b.listener->PartialBind(slots);
      SM::Slots part;
      for (auto& [nm, t] : types) if (m.type(nm, t)) part.emplace(nm, t);
      types = part;
      PBT_ASSERT(r.ok() == m.Bind(part), r.status());
      if (!r.ok()) continue;
      PBT_ASSERT(r->has_value() == !part.empty(), "PartialBind");
      if (!r->has_value()) continue;
      bound = *std::move(r);
    } else {
      auto r = b.listener->Bind(slots);
      PBT_ASSERT(r.ok() == (all_known && m.Bind(types)), r.status());
      if (!r.ok()) continue;
      bound = *std::move(r);
    }
    if (c.multi && types.size() > 1) s.nontrivial();
    for (int run = 0; run < 2; ++run) {
      MemoryAllocation alloc(&layout);
      SM::Values v;
      uint32_t seed = s.draw(100000);
      for (auto& [nm, slot] : slots) {
        auto x = OpsOf(slot.GetType()).make(Mix(seed, 1, nm));
        PBT_ASSERT(x.CopyToSlot(slot, alloc.frame()).ok());
        if (types.count(nm)) v.emplace(nm, x);
      }
      Out out;
      auto st = (*bound)(alloc.frame(), &out);
      std::vector<std::string> want, got;
      bool ok = v.empty() || m.run(v, "", want);
      PBT_ASSERT(st.ok() == ok, st);
      out.Flatten("", got);
      if (ok) {
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        PBT_ASSERT(got == want, "got ", absl::StrJoin(got, " "), " instead of ", absl::StrJoin(want, " "));
      }
    }
  }
}

PBT_TEST(I02_order_and_strings, 30000, 300000, "a missing value, or a name listened to by several listeners") {
  // Later listeners of a chain see, and may override, what earlier ones did.
  int n = s.range(1, 5);
  std::vector<std::unique_ptr<SlotListener<std::string>>> ls;
  std::string want;
  int heard = 0;
  for (int i = 0; i < n; ++i) {
    bool same = s.boolean();
    ls.push_back(*CreateAccessorsSlotListener<std::string>(same ? "a" : "b", [i](const int32_t& v, std::string* o) { *o += absl::StrCat(i, "(", v, ")"); }));
    if (same) { want += absl::StrCat(i, "(5)"); ++heard; }
  }
  auto chain = *ChainSlotListener<std::string>::Build(std::move(ls));
  FrameLayout::Builder fb;
  auto slot = fb.AddSlot<int32_t>();
  auto ob = fb.AddSlot<OptionalValue<Bytes>>();
  auto ab = fb.AddSlot<DenseArray<Bytes>>();
  FrameLayout layout = std::move(fb).Build();
  MemoryAllocation alloc(&layout);
  alloc.frame().Set(slot, 5);
  auto bound = chain->Bind({{"a", TypedSlot::FromSlot(slot)}});
  PBT_ASSERT(bound.ok() == (heard > 0), bound.status());
  if (bound.ok()) {
    std::string out;
    PBT_ASSERT((*bound)(alloc.frame(), &out).ok());
    PBT_ASSERT(out == want, out, " instead of ", want);
  }
  if (heard > 1) s.nontrivial();
  // Bytes outputs.
  std::string text = s.bytes(40);
  bool present = s.boolean();
  alloc.frame().Set(ob, present ? OptionalValue<Bytes>(Bytes(text)) : OptionalValue<Bytes>());
  auto bl = BytesSlotListener("side");
  PBT_ASSERT(bl.ok());
  auto bb = (*bl)->Bind({{"side", TypedSlot::FromSlot(ob)}});
  PBT_ASSERT(bb.ok(), bb.status());
  std::string out = "before";
  PBT_ASSERT((*bb)(alloc.frame(), &out).ok());
  PBT_ASSERT(out == (present ? text : ""));
  std::vector<std::string> values;
  int rows = s.range(0, 40);
  DenseArrayBuilder<Bytes> builder(rows);
  for (int i = 0; i < rows; ++i) {
    std::string v;
    if (s.chance(2, 3)) { v = s.bytes(10); builder.Set(i, v); } else { s.nontrivial(); }
    values.push_back(v);
  }
  alloc.frame().Set(ab, std::move(builder).Build());
  auto al = BytesArraySlotListener("side");
  PBT_ASSERT(al.ok());
  auto ba = (*al)->Bind({{"side", TypedSlot::FromSlot(ab)}});
  PBT_ASSERT(ba.ok(), ba.status());
  std::vector<std::string> outs = {"before"};
  PBT_ASSERT((*ba)(alloc.frame(), &outs).ok());
  PBT_ASSERT(outs == values);
  // Both forms reject a slot of another type.
  PBT_ASSERT(!(*bl)->Bind({{"side", TypedSlot::FromSlot(ab)}}).ok());
  PBT_ASSERT(!(*al)->Bind({{"sid", TypedSlot::FromSlot(ab)}}).ok());
}

// --------------------------------------------------------------- struct io

struct alignas(16) Rec {
  char raw[120];
  Text t[2];
  Bytes b;
  OptionalValue<Text> ot;
  DenseArray<float> d;
};
#pragma clang diagnostic ignored "-Winvalid-offsetof"

PBT_TEST(I03_struct_io, 50000, 600000, "four fields or more of at least three types, some of them not bound") {
  struct Field { std::string name; QTypePtr type; size_t offset; };
  std::vector<Field> fields;
  size_t pos = 0;
  std::set<QTypePtr> kinds;
  int n = s.range(0, 14);
  for (int i = 0; i < n; ++i) {
    auto& o = AllTypes()[s.draw(9)];  // trivially copyable
    size_t al = o.qtype->type_layout().AllocAlignment(), sz = o.qtype->type_layout().AllocSize();
    if (s.chance(1, 4)) pos += s.range(0, 9);
    size_t off = (pos + al - 1) / al * al;
    if (off + sz > sizeof(Rec::raw)) break;
    fields.push_back({"f" + std::to_string(i), o.qtype, off});
    pos = off + sz;
  }
  if (s.boolean()) fields.push_back({"t0", GetQType<Text>(), offsetof(Rec, t)});
  if (s.boolean()) fields.push_back({"t1", GetQType<Text>(), offsetof(Rec, t) + sizeof(Text)});
  if (s.boolean()) fields.push_back({"b", GetQType<Bytes>(), offsetof(Rec, b)});
  if (s.boolean()) fields.push_back({"ot", GetQType<OptionalValue<Text>>(), offsetof(Rec, ot)});
  for (auto& f : fields) kinds.insert(f.type);
  InplaceSlotBuilder<Rec> inplace;
  absl::flat_hash_map<std::string, TypedSlot> struct_slots;
  for (auto& f : fields) {
    struct_slots.emplace(f.name, TypedSlot::UnsafeFromOffset(f.type, f.offset));
    PBT_ASSERT(inplace.AddUnsafeField(f.name, f.type, f.offset).ok());
  }
  if (!fields.empty()) PBT_ASSERT(!inplace.AddUnsafeField(s.pick(fields).name, GetQType<float>(), 0).ok(), "a duplicated field");
  PBT_ASSERT(AROLLA_ADD_INPLACE_SLOT_FIELD(inplace, d, "the d").ok());

  // A field that does not fit.
  if (s.chance(1, 4)) {
    auto& o = AllTypes()[s.draw(AllTypes().size() - 1)];
    size_t al = o.qtype->type_layout().AllocAlignment(), sz = o.qtype->type_layout().AllocSize();
    size_t off = sizeof(Rec) / al * al - al * s.range(0, 4);
    auto more = struct_slots;
    more.emplace("last", TypedSlot::UnsafeFromOffset(o.qtype, off));
    bool fits = off + sz <= sizeof(Rec);
    PBT_ASSERT(StructInputLoader<Rec>::Create(more).ok() == fits, "size ", sz, " at ", off, " of ", sizeof(Rec));
    PBT_ASSERT(StructSlotListener<Rec>::Create(more).ok() == fits, "size ", sz, " at ", off, " of ", sizeof(Rec));
  }
  auto loader = StructInputLoader<Rec>::Create(struct_slots);
  auto listener = StructSlotListener<Rec>::Create(struct_slots);
  PBT_ASSERT(loader.ok() && listener.ok());
  auto ln = (*loader)->SuggestAvailableNames(), sn = (*listener)->SuggestAvailableNames();
  std::vector<std::string> names;
  for (auto& f : fields) names.push_back(f.name);
  std::sort(ln.begin(), ln.end()); std::sort(sn.begin(), sn.end()); std::sort(names.begin(), names.end());
  PBT_ASSERT(ln == names && sn == names);
  for (auto& f : fields) PBT_ASSERT((*loader)->GetQTypeOf(f.name) == f.type && (*listener)->GetQTypeOf(f.name) == f.type);
  PBT_ASSERT((*loader)->GetQTypeOf("zz") == nullptr);

  FrameLayout::Builder fb;
  absl::flat_hash_map<std::string, TypedSlot> slots;
  std::vector<std::optional<TypedSlot>> at(fields.size());
  std::vector<TypedSlot> other;
  std::vector<int> order;
  for (size_t i = 0; i < fields.size(); ++i) order.push_back(i);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.draw(i - 1)]);
  for (int i : order) {
    if (s.chance(1, 4)) other.push_back(AddSlot(AllTypes()[s.draw(AllTypes().size() - 1)].qtype, &fb));
    if (s.chance(1, 4)) continue;
    at[i] = AddSlot(fields[i].type, &fb);
    slots.emplace(fields[i].name, *at[i]);
  }
  auto rec_slot = fb.AddSlot<Rec>();
  if (fields.size() >= 4 && kinds.size() >= 3 && slots.size() < fields.size()) s.nontrivial();
  FrameLayout layout = std::move(fb).Build();
  MemoryAllocation alloc(&layout);
  auto in = (*loader)->Bind(slots);
  auto out = (*listener)->Bind(slots);
  PBT_ASSERT(in.ok() && out.ok(), in.status(), out.status());

  uint32_t seed = s.draw(100000);
  auto at_struct = [](const Field& f, const Rec& r) { return TypedRef::UnsafeFromRawPointer(f.type, reinterpret_cast<const char*>(&r) + f.offset); };
  auto fill = [&](Rec& r, uint32_t sd) {
    memset(r.raw, sd % 251, sizeof(r.raw));
    r.t[0] = Text("zero"); r.t[1] = Text("one"); r.b = Bytes("b"); r.ot = Text("ot");
    for (size_t i = 0; i < fields.size(); ++i) fields[i].type->UnsafeCopy(OpsOf(fields[i].type).make(Mix(sd, i, "")).GetRawPointer(), reinterpret_cast<char*>(&r) + fields[i].offset);
  };
  auto is = [&](TypedRef r, uint32_t sd, size_t i) { return TypedValue(r).GetFingerprint() == OpsOf(fields[i].type).make(Mix(sd, i, "")).GetFingerprint(); };
  for (auto& o : other) PBT_ASSERT(OpsOf(o.GetType()).make(99).CopyToSlot(o, alloc.frame()).ok());
  Rec r;
  fill(r, seed);
  PBT_ASSERT((*in)(r, alloc.frame()).ok());
  for (size_t i = 0; i < fields.size(); ++i) {
    if (at[i]) PBT_ASSERT(is(TypedRef::FromSlot(*at[i], alloc.frame()), seed, i), "loaded ", fields[i].name);
    PBT_ASSERT(is(at_struct(fields[i], r), seed, i), "the struct changed");
  }
  for (auto& o : other) PBT_ASSERT(TypedValue::FromSlot(o, alloc.frame()).GetFingerprint() == OpsOf(o.GetType()).make(99).GetFingerprint(), "another slot changed");
  // Back into a struct with other values.
  Rec q;
  fill(q, seed + 1);
  char before[sizeof(Rec::raw)];
  memcpy(before, q.raw, sizeof(before));
  PBT_ASSERT((*out)(alloc.frame(), &q).ok());
  for (size_t i = 0; i < fields.size(); ++i) {
    PBT_ASSERT(is(at_struct(fields[i], q), at[i] ? seed : seed + 1, i), "stored ", fields[i].name);
    if (fields[i].offset < sizeof(before)) memcpy(before + fields[i].offset, q.raw + fields[i].offset, fields[i].type->type_layout().AllocSize());
  }
  PBT_ASSERT(memcmp(before, q.raw, sizeof(before)) == 0, "bytes between the fields changed");
  // Fields of a struct that lives in a frame.
  fill(*alloc.frame().GetMutable(rec_slot), seed + 2);
  auto sub = inplace.OutputSlots(rec_slot);
  PBT_ASSERT(sub.size() == fields.size() + 1);
  PBT_ASSERT(sub.at("the d").GetType() == GetDenseArrayQType<float>() && alloc.frame().GetRawPointer(sub.at("the d").byte_offset()) == &alloc.frame().Get(rec_slot).d);
  for (size_t i = 0; i < fields.size(); ++i) {
    auto sl = sub.at(fields[i].name);
    PBT_ASSERT(sl.GetType() == fields[i].type);
    PBT_ASSERT(is(TypedRef::UnsafeFromRawPointer(sl.GetType(), alloc.frame().GetRawPointer(sl.byte_offset())), seed + 2, i));
  }
}

}  // namespace

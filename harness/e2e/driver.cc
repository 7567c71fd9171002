// Interprets the path table with protobuf reflection and compares with what
// the generated loaders and listeners do.
#include "driver.h"

#include <algorithm>
#include <cmath>
#include <optional>
#include <set>

#include "absl/strings/str_cat.h"
#include "absl/strings/str_split.h"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/qtype/types.h"
#include "arolla/memory/memory_allocation.h"
#include "arolla/memory/optional_value.h"
#include "arolla/qtype/base_types.h"
#include "arolla/qtype/optional_qtype.h"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_slot.h"
#include "arolla/util/bytes.h"
#include "arolla/util/init_arolla.h"
#include "arolla/util/text.h"
#include "google/protobuf/dynamic_message.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "google/protobuf/message.h"
#include "pbt.h"

namespace e2e_driver {

std::vector<LoaderCase>& Loaders() {
  static auto* v = new std::vector<LoaderCase>;
  return *v;
}
std::vector<ListenerCase>& Listeners() {
  static auto* v = new std::vector<ListenerCase>;
  return *v;
}

namespace {

namespace pb = ::google::protobuf;
using ::arolla::DenseArray;
using ::arolla::DenseArrayShape;
using ::arolla::FrameLayout;
using ::arolla::OptionalValue;
using ::arolla::QTypePtr;
using ::arolla::TypedSlot;
using ::e2e_native::Inner;
using ::e2e_native::Native;
using ::e2e_native::Sub;
using ::pbt::Src;
using FD = pb::FieldDescriptor;

// ---- values ----------------------------------------------------------------

struct Val {
  enum K { kI, kU, kF, kD, kB, kS } k = kI;
  int64_t i = 0;
  uint64_t u = 0;
  float f = 0;
  double d = 0;
  bool b = false;
  std::string s;
};
Val I(int64_t x) { Val v; v.k = Val::kI; v.i = x; return v; }
Val U(uint64_t x) { Val v; v.k = Val::kU; v.u = x; return v; }
Val F(float x) { Val v; v.k = Val::kF; v.f = x; return v; }
Val D(double x) { Val v; v.k = Val::kD; v.d = x; return v; }
Val B(bool x) { Val v; v.k = Val::kB; v.b = x; return v; }
Val S(std::string x) { Val v; v.k = Val::kS; v.s = std::move(x); return v; }

template <class T>
std::string Raw(T v) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(v)) return "nan";
  }
  return std::string(reinterpret_cast<const char*>(&v), sizeof v);
}
template <class T>
std::string As(const Val& v) {
  switch (v.k) {
    case Val::kI: return Raw(static_cast<T>(v.i));
    case Val::kU: return Raw(static_cast<T>(v.u));
    case Val::kF: return Raw(static_cast<T>(v.f));
    case Val::kD: return Raw(static_cast<T>(v.d));
    case Val::kB: return Raw(static_cast<T>(v.b));
    case Val::kS: PBT_FAIL("string as number");
  }
  return "";
}
std::string Convert(const Val& v, const std::string& qt) {
  if (qt == "INT32") return As<int32_t>(v);
  if (qt == "INT64" || qt == "SIZES" || qt == "SHAPE") return As<int64_t>(v);
  if (qt == "UINT64") return As<uint64_t>(v);
  if (qt == "FLOAT32") return As<float>(v);
  if (qt == "FLOAT64") return As<double>(v);
  if (qt == "BOOLEAN") return As<bool>(v);
  if (qt == "BYTES" || qt == "TEXT") {
    PBT_ASSERT(v.k == Val::kS);
    return v.s;
  }
  PBT_FAIL("bad qt " + qt);
}

// ---- the data model --------------------------------------------------------

struct Node {
  enum K { kNone, kMsg, kNative, kInner, kSub, kScalar, kRoots, kInts, kSubs,
           kPtrNone } k = kNone;
  const pb::Message* m = nullptr;
  const void* p = nullptr;
  Val v;
};
Node MsgNode(const pb::Message& m) {
  Node n;
  n.k = Node::kMsg;
  n.m = &m;
  return n;
}
Node PtrNode(Node::K k, const void* p) {
  Node n;
  n.k = k;
  n.p = p;
  return n;
}
Node ScalarNode(Val v) {
  Node n;
  n.k = Node::kScalar;
  n.v = std::move(v);
  return n;
}

struct Elem {
  std::string op;
  std::vector<std::string> args;
  std::string key;  // for K: may hold spaces
};
Elem ParseElem(const std::string& e) {
  std::vector<std::string> p = absl::StrSplit(e, ' ');
  Elem r;
  r.op = p[0];
  r.args.assign(p.begin() + 1, p.end());
  if (r.op == "K") {
    r.key = e.size() > 3 + r.args[0].size() ? e.substr(3 + r.args[0].size()) : "";
  }
  return r;
}
std::vector<Elem> ParsePath(const Row& row, const std::string& wild_key = "") {
  std::vector<Elem> r;
  for (const std::string& e : row.path) {
    Elem el = ParseElem(e);
    if (el.op == "W") {
      el.op = "K";
      el.key = wild_key;
    }
    r.push_back(std::move(el));
  }
  return r;
}

Val GetScalar(const pb::Message& m, const FD* f) {
  const auto* r = m.GetReflection();
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return I(r->GetInt32(m, f));
    case FD::CPPTYPE_INT64: return I(r->GetInt64(m, f));
    case FD::CPPTYPE_UINT32: return U(r->GetUInt32(m, f));
    case FD::CPPTYPE_UINT64: return U(r->GetUInt64(m, f));
    case FD::CPPTYPE_FLOAT: return F(r->GetFloat(m, f));
    case FD::CPPTYPE_DOUBLE: return D(r->GetDouble(m, f));
    case FD::CPPTYPE_BOOL: return B(r->GetBool(m, f));
    case FD::CPPTYPE_ENUM: return I(r->GetEnumValue(m, f));
    case FD::CPPTYPE_STRING: return S(r->GetString(m, f));
    default: PBT_FAIL("not a scalar " + f->full_name());
  }
}
Val GetRepScalar(const pb::Message& m, const FD* f, int i) {
  const auto* r = m.GetReflection();
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return I(r->GetRepeatedInt32(m, f, i));
    case FD::CPPTYPE_INT64: return I(r->GetRepeatedInt64(m, f, i));
    case FD::CPPTYPE_UINT32: return U(r->GetRepeatedUInt32(m, f, i));
    case FD::CPPTYPE_UINT64: return U(r->GetRepeatedUInt64(m, f, i));
    case FD::CPPTYPE_FLOAT: return F(r->GetRepeatedFloat(m, f, i));
    case FD::CPPTYPE_DOUBLE: return D(r->GetRepeatedDouble(m, f, i));
    case FD::CPPTYPE_BOOL: return B(r->GetRepeatedBool(m, f, i));
    case FD::CPPTYPE_ENUM: return I(r->GetRepeatedEnumValue(m, f, i));
    case FD::CPPTYPE_STRING: return S(r->GetRepeatedString(m, f, i));
    default: PBT_FAIL("not a scalar " + f->full_name());
  }
}

const FD* Field(const pb::Message& m, const std::string& name) {
  const FD* f = m.GetDescriptor()->FindFieldByName(name);
  PBT_ASSERT(f != nullptr, "no field " + name);
  return f;
}
const FD* Ext(const std::string& name) {
  const FD* f = pb::DescriptorPool::generated_pool()->FindExtensionByName(name);
  PBT_ASSERT(f != nullptr, "no extension " + name);
  return f;
}

Node RepItem(const pb::Message& m, const FD* f, int i) {
  if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
    return MsgNode(m.GetReflection()->GetRepeatedMessage(m, f, i));
  }
  return ScalarNode(GetRepScalar(m, f, i));
}

Node OneField(const pb::Message& m, const FD* f) {
  const auto* r = m.GetReflection();
  if (f->has_presence() && !r->HasField(m, f)) return Node();
  if (f->cpp_type() == FD::CPPTYPE_MESSAGE) return MsgNode(r->GetMessage(m, f));
  return ScalarNode(GetScalar(m, f));
}

// (key, entry) sorted by key
std::vector<const pb::Message*> MapEntries(const pb::Message& m, const FD* f) {
  std::vector<const pb::Message*> r;
  const auto* refl = m.GetReflection();
  for (int i = 0; i < refl->FieldSize(m, f); ++i) {
    r.push_back(&refl->GetRepeatedMessage(m, f, i));
  }
  const FD* kf = f->message_type()->map_key();
  std::sort(r.begin(), r.end(), [&](auto* a, auto* b) {
    Val x = GetScalar(*a, kf), y = GetScalar(*b, kf);
    if (x.k == Val::kS) return x.s < y.s;
    if (x.k == Val::kU) return x.u < y.u;
    return x.i < y.i;
  });
  return r;
}
Node MapValue(const pb::Message& e) {
  const FD* vf = e.GetDescriptor()->map_value();
  if (vf->cpp_type() == FD::CPPTYPE_MESSAGE) {
    return MsgNode(e.GetReflection()->GetMessage(e, vf));
  }
  return ScalarNode(GetScalar(e, vf));
}

Node StructField(const Node& n, const std::string& f) {
  if (n.k == Node::kNative) {
    const Native& x = *static_cast<const Native*>(n.p);
    if (f == "x") return ScalarNode(I(x.x));
    if (f == "fl") return ScalarNode(F(x.fl));
    if (f == "str") return ScalarNode(S(x.str));
    if (f == "inner") return x.inner ? PtrNode(Node::kInner, x.inner) : PtrNode(Node::kPtrNone, nullptr);
    if (f == "sub") return PtrNode(Node::kSub, &x.sub);
    if (f == "subp") return x.subp ? PtrNode(Node::kSub, x.subp) : PtrNode(Node::kPtrNone, nullptr);
    if (f == "proto") return MsgNode(x.proto);
    if (f == "ints") return PtrNode(Node::kInts, &x.ints);
    if (f == "subs") return PtrNode(Node::kSubs, &x.subs);
    if (f == "mid") return x.mid ? MsgNode(*x.mid) : PtrNode(Node::kPtrNone, nullptr);
  } else if (n.k == Node::kInner) {
    const Inner& x = *static_cast<const Inner*>(n.p);
    if (f == "a") return ScalarNode(I(x.a));
    if (f == "b") return ScalarNode(D(x.b));
    if (f == "leaf") return MsgNode(x.leaf);
  } else if (n.k == Node::kSub) {
    const Sub& x = *static_cast<const Sub*>(n.p);
    if (f == "k") return ScalarNode(I(x.k));
    if (f == "inner") return PtrNode(Node::kInner, &x.inner);
    if (f == "ptr") return x.ptr ? PtrNode(Node::kInner, x.ptr) : PtrNode(Node::kPtrNone, nullptr);
    if (f == "vec") return PtrNode(Node::kInts, &x.vec);
  }
  PBT_FAIL("no struct field " + f);
}

std::vector<Node> Items(const Node& n, const Elem& e) {
  std::vector<Node> r;
  if (e.op == "O") {
    if (n.k == Node::kRoots) {
      for (const auto& x : *static_cast<const std::vector<e2e::Root>*>(n.p)) r.push_back(MsgNode(x));
    } else if (n.k == Node::kInts) {
      for (int x : *static_cast<const std::vector<int>*>(n.p)) r.push_back(ScalarNode(I(x)));
    } else if (n.k == Node::kSubs) {
      for (const auto& x : *static_cast<const std::vector<Sub>*>(n.p)) r.push_back(PtrNode(Node::kSub, &x));
    } else {
      PBT_FAIL("O on a wrong node");
    }
    return r;
  }
  const FD* f = Field(*n.m, e.args[0]);
  if (e.op == "R" && !f->is_map()) {
    int sz = n.m->GetReflection()->FieldSize(*n.m, f);
    for (int i = 0; i < sz; ++i) r.push_back(RepItem(*n.m, f, i));
    return r;
  }
  for (const pb::Message* en : MapEntries(*n.m, f)) {
    r.push_back(e.op == "MK" ? ScalarNode(GetScalar(*en, en->GetDescriptor()->map_key()))
                             : MapValue(*en));
  }
  return r;
}

bool IsMulti(const Elem& e) {
  return e.op == "R" || e.op == "MK" || e.op == "MV" || e.op == "O";
}

Node Step(const Node& n, const Elem& e) {
  if (e.op == "P") {
    return ScalarNode(I(static_cast<int32_t>(static_cast<uint32_t>(static_cast<const e2e::Root*>(n.m)->x0()) + std::stoi(e.args[0]))));
  }
  if (e.op == "S") return StructField(n, e.args[0]);
  if (e.op == "D") return n.k == Node::kPtrNone ? Node() : n;
  if (e.op == "A") return n;
  PBT_ASSERT(n.k == Node::kMsg, "step " + e.op);
  const pb::Message& m = *n.m;
  if (e.op == "F") return OneField(m, Field(m, e.args[0]));
  if (e.op == "X") return OneField(m, Ext(e.args[0]));
  const FD* f = Field(m, e.args[0]);
  if (e.op == "I") {
    int i = std::stoi(e.args[1]);
    if (m.GetReflection()->FieldSize(m, f) <= i) return Node();
    return RepItem(m, f, i);
  }
  if (e.op == "K") {
    for (const pb::Message* en : MapEntries(m, f)) {
      if (GetScalar(*en, en->GetDescriptor()->map_key()).s == e.key) return MapValue(*en);
    }
    return Node();
  }
  PBT_FAIL("bad element " + e.op);
}

using Result = std::vector<std::optional<std::string>>;

void Collect(const Node& n, const std::vector<Elem>& path, size_t i, int last,
             const std::string& qt, Result* out) {
  if (i == path.size()) {
    PBT_ASSERT(n.k == Node::kScalar, "path does not end in a scalar");
    out->push_back(Convert(n.v, qt));
    return;
  }
  const Elem& e = path[i];
  if (IsMulti(e)) {
    for (const Node& x : Items(n, e)) Collect(x, path, i + 1, last, qt, out);
    return;
  }
  if (e.op == "C") {
    Elem r = e;
    r.op = e.args[0];
    r.args.erase(r.args.begin());
    out->push_back(Raw<int64_t>(Items(n, r).size()));
    return;
  }
  Node next = Step(n, e);
  if (next.k == Node::kNone) {
    if (static_cast<int>(i) < last) return;
    if (path.back().op == "C") {
      out->push_back(Raw<int64_t>(0));
    } else {
      out->push_back(std::nullopt);
    }
    return;
  }
  Collect(next, path, i + 1, last, qt, out);
}

int LastMulti(const std::vector<Elem>& path) {
  int last = -1;
  for (size_t i = 0; i < path.size(); ++i) {
    if (IsMulti(path[i])) last = i;
  }
  return last;
}

Val ParseDefault(const std::string& s, const std::string& qt) {
  if (qt == "FLOAT32") return F(std::stof(s));
  if (qt == "FLOAT64") return D(std::stod(s));
  return I(std::stoll(s));
}

Result Expected(const Node& root, const Row& row, const std::string& wild_key) {
  std::vector<Elem> path = ParsePath(row, wild_key);
  Result r;
  Collect(root, path, 0, LastMulti(path), row.qt, &r);
  if (row.multi == 0) {
    PBT_ASSERT(r.size() == 1);
    if (!row.dflt.empty() && !r[0].has_value()) {
      r[0] = Convert(ParseDefault(row.dflt, row.qt), row.qt);
    }
  }
  return r;
}

// ---- reading slots -----------------------------------------------------------

template <class T>
std::string RawOf(const T& v) {
  if constexpr (std::is_arithmetic_v<T>) {
    return Raw(v);
  } else {
    return std::string(absl::string_view(v));
  }
}
template <class T>
Result ReadAs(TypedSlot slot, arolla::ConstFramePtr frame) {
  Result r;
  if (slot.GetType() == arolla::GetQType<T>()) {
    r.push_back(RawOf(frame.Get(slot.UnsafeToSlot<T>())));
  } else if (slot.GetType() == arolla::GetQType<OptionalValue<T>>()) {
    const auto& v = frame.Get(slot.UnsafeToSlot<OptionalValue<T>>());
    r.push_back(v.present ? std::make_optional(RawOf(v.value)) : std::nullopt);
  } else {
    const auto& a = frame.Get(slot.UnsafeToSlot<DenseArray<T>>());
    PBT_ASSERT(a.CheckBitmapMatchesValues(), "inconsistent array");
    for (int64_t i = 0; i < a.size(); ++i) {
      if (a.present(i)) {
        r.push_back(RawOf(T(a.values[i])));
      } else {
        r.push_back(std::nullopt);
      }
    }
  }
  return r;
}
Result Read(const Row& row, TypedSlot slot, arolla::ConstFramePtr f) {
  if (row.qt == "SHAPE") {
    return {Raw<int64_t>(f.Get(slot.UnsafeToSlot<DenseArrayShape>()).size)};
  }
  if (row.qt == "SIZES" || row.qt == "INT64") return ReadAs<int64_t>(slot, f);
  if (row.qt == "INT32") return ReadAs<int32_t>(slot, f);
  if (row.qt == "UINT64") return ReadAs<uint64_t>(slot, f);
  if (row.qt == "FLOAT32") return ReadAs<float>(slot, f);
  if (row.qt == "FLOAT64") return ReadAs<double>(slot, f);
  if (row.qt == "BOOLEAN") return ReadAs<bool>(slot, f);
  if (row.qt == "BYTES") return ReadAs<arolla::Bytes>(slot, f);
  if (row.qt == "TEXT") return ReadAs<arolla::Text>(slot, f);
  PBT_FAIL("bad qt " + row.qt);
}

template <class T>
QTypePtr Wrap(const Row& row) {
  if (row.multi) return arolla::GetDenseArrayQType<T>();
  if (row.path[0][0] == 'P' || !row.dflt.empty()) return arolla::GetQType<T>();
  return arolla::GetOptionalQType<T>();
}
QTypePtr ExpectedQType(const Row& row) {
  if (row.qt == "SHAPE") return arolla::GetQType<DenseArrayShape>();
  if (row.qt == "SIZES") return arolla::GetDenseArrayQType<int64_t>();
  if (row.qt == "INT32") return Wrap<int32_t>(row);
  if (row.qt == "INT64") return Wrap<int64_t>(row);
  if (row.qt == "UINT64") return Wrap<uint64_t>(row);
  if (row.qt == "FLOAT32") return Wrap<float>(row);
  if (row.qt == "FLOAT64") return Wrap<double>(row);
  if (row.qt == "BOOLEAN") return Wrap<bool>(row);
  if (row.qt == "BYTES") return Wrap<arolla::Bytes>(row);
  if (row.qt == "TEXT") return Wrap<arolla::Text>(row);
  PBT_FAIL("bad qt " + row.qt);
}

// ---- filling -----------------------------------------------------------------

const std::vector<std::string>& Keys() {
  static const auto* v = new std::vector<std::string>{
      "k0", "k1", "a b", "x.y", "K", "", "zz", "\xc3\xa9"};
  return *v;
}

std::string RandString(Src& s) {
  switch (s.draw(3)) {
    case 0: return "";
    case 1: return s.pick(Keys());
    case 2: return s.utf8(6);
    default: return "long string that does not fit inline " + s.ascii(3);
  }
}

void SetScalar(Src& s, pb::Message* m, const FD* f, bool add) {
  const auto* r = m->GetReflection();
#define SET(Name, value)                          \
  do {                                            \
    auto v = value;                               \
    if (add) r->Add##Name(m, f, v); else r->Set##Name(m, f, v); \
  } while (0)
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: SET(Int32, s.integer<int32_t>()); break;
    case FD::CPPTYPE_INT64: SET(Int64, s.integer<int64_t>()); break;
    case FD::CPPTYPE_UINT32: SET(UInt32, s.integer<uint32_t>()); break;
    case FD::CPPTYPE_UINT64: SET(UInt64, s.integer<uint64_t>()); break;
    case FD::CPPTYPE_FLOAT: SET(Float, s.flt()); break;
    case FD::CPPTYPE_DOUBLE: SET(Double, s.dbl()); break;
    case FD::CPPTYPE_BOOL: SET(Bool, s.boolean()); break;
    case FD::CPPTYPE_ENUM:
      SET(EnumValue, f->enum_type()->value(s.draw(f->enum_type()->value_count() - 1))->number());
      break;
    case FD::CPPTYPE_STRING: SET(String, RandString(s)); break;
    default: PBT_FAIL("not a scalar");
  }
#undef SET
}

pb::Message* MapEntryFor(Src& s, pb::Message* m, const FD* f, const std::string* key) {
  const auto* r = m->GetReflection();
  const FD* kf = f->message_type()->map_key();
  std::string sk;
  int64_t ik = 0;
  if (kf->cpp_type() == FD::CPPTYPE_STRING) {
    sk = key ? *key : s.pick(Keys());
  } else {
    ik = s.range(-3, 4);
  }
  for (int i = 0; i < r->FieldSize(*m, f); ++i) {
    pb::Message* e = r->MutableRepeatedMessage(m, f, i);
    Val k = GetScalar(*e, kf);
    if (k.k == Val::kS ? k.s == sk : k.i == ik) return e;
  }
  pb::Message* e = r->AddMessage(m, f);
  const auto* er = e->GetReflection();
  if (kf->cpp_type() == FD::CPPTYPE_STRING) {
    er->SetString(e, kf, sk);
  } else if (kf->cpp_type() == FD::CPPTYPE_INT32) {
    er->SetInt32(e, kf, ik);
  } else {
    er->SetInt64(e, kf, ik);
  }
  const FD* vf = f->message_type()->map_value();
  if (vf->cpp_type() == FD::CPPTYPE_MESSAGE) {
    er->MutableMessage(e, vf);
  } else {
    SetScalar(s, e, vf, false);
  }
  return e;
}

struct Pools {
  std::deque<Inner> inners;
  std::deque<Sub> subs;
  std::deque<e2e::Mid> mids;
};

void FillMsg(Src& s, pb::Message* m, const std::vector<Elem>& path, size_t i, Pools* pools);

void FillSub(Src& s, Sub* x, const std::vector<Elem>& path, size_t i, Pools* pools);

void FillInner(Src& s, Inner* x, const std::vector<Elem>& path, size_t i, Pools* pools) {
  if (i >= path.size()) return;
  const std::string& f = path[i].args[0];
  if (f == "a") x->a = s.integer<int>();
  if (f == "b") x->b = s.dbl();
  if (f == "leaf") FillMsg(s, &x->leaf, path, i + 1, pools);
}
void FillInts(Src& s, std::vector<int>* v) {
  if (v->empty()) *v = s.vec(4, [&] { return s.integer<int>(); });
}
void FillSub(Src& s, Sub* x, const std::vector<Elem>& path, size_t i, Pools* pools) {
  if (i >= path.size()) return;
  const std::string& f = path[i].args[0];
  if (f == "k") x->k = s.integer<int>();
  if (f == "inner") FillInner(s, &x->inner, path, i + 1, pools);
  if (f == "ptr" && s.chance(4, 5)) {
    if (!x->ptr) x->ptr = &pools->inners.emplace_back();
    FillInner(s, x->ptr, path, i + 2, pools);
  }
  if (f == "vec") FillInts(s, &x->vec);
}
void FillNative(Src& s, Native* x, const std::vector<Elem>& path, size_t i, Pools* pools) {
  if (i >= path.size()) return;
  const std::string& f = path[i].args[0];
  if (f == "x") x->x = s.integer<int>();
  if (f == "fl") x->fl = s.flt();
  if (f == "str") x->str = RandString(s);
  if (f == "sub") FillSub(s, &x->sub, path, i + 1, pools);
  if (f == "subp" && s.chance(4, 5)) {
    if (!x->subp) x->subp = &pools->subs.emplace_back();
    FillSub(s, x->subp, path, i + 2, pools);
  }
  if (f == "inner" && s.chance(4, 5)) {
    if (!x->inner) x->inner = &pools->inners.emplace_back();
    FillInner(s, x->inner, path, i + 2, pools);
  }
  if (f == "mid" && s.chance(4, 5)) {
    if (!x->mid) x->mid = &pools->mids.emplace_back();
    FillMsg(s, const_cast<e2e::Mid*>(x->mid), path, i + 2, pools);
  }
  if (f == "proto") FillMsg(s, &x->proto, path, i + 1, pools);
  if (f == "ints") FillInts(s, &x->ints);
  if (f == "subs") {
    if (x->subs.empty()) x->subs.resize(s.draw(3));
    for (Sub& y : x->subs) FillSub(s, &y, path, i + 2, pools);
  }
}

void FillMsg(Src& s, pb::Message* m, const std::vector<Elem>& path, size_t i, Pools* pools) {
  if (i >= path.size()) return;
  Elem e = path[i];
  if (e.op == "A" || e.op == "D") return FillMsg(s, m, path, i + 1, pools);
  if (e.op == "P") {
    if (s.boolean()) static_cast<e2e::Root*>(m)->set_x0(s.range(-100, 100));
    return;
  }
  if (e.op == "C") {
    e.op = e.args[0];
    e.args.erase(e.args.begin());
  }
  const auto* r = m->GetReflection();
  const FD* f = e.op == "X" ? Ext(e.args[0]) : Field(*m, e.args[0]);
  bool msg = f->cpp_type() == FD::CPPTYPE_MESSAGE;
  if (e.op == "F" || e.op == "X") {
    if (!s.chance(5, 6)) return;
    if (msg) {
      FillMsg(s, r->MutableMessage(m, f), path, i + 1, pools);
    } else {
      SetScalar(s, m, f, false);
    }
    return;
  }
  if (f->is_map()) {
    int n = e.op == "K" ? (s.chance(3, 4) ? 1 : 0) : s.draw(3);
    const FD* vf = f->message_type()->map_value();
    for (int k = 0; k < n; ++k) {
      pb::Message* en = MapEntryFor(s, m, f, e.op == "K" ? &e.key : nullptr);
      if (vf->cpp_type() == FD::CPPTYPE_MESSAGE) {
        FillMsg(s, en->GetReflection()->MutableMessage(en, vf), path, i + 1, pools);
      }
    }
    return;
  }
  int want = e.op == "I" ? std::stoi(e.args[1]) + s.draw(2) : s.draw(3);
  while (r->FieldSize(*m, f) < want) {
    if (msg) {
      r->AddMessage(m, f);
    } else {
      SetScalar(s, m, f, true);
    }
  }
  if (!msg) return;
  int sz = r->FieldSize(*m, f);
  for (int k = 0; k < sz; ++k) {
    if (e.op == "I" && k != std::stoi(e.args[1])) continue;
    FillMsg(s, r->MutableRepeatedMessage(m, f, k), path, i + 1, pools);
  }
}

struct Input {
  Kind kind;
  e2e::Root root;
  e2e::Mid mid;
  e2e3::Top top;
  Native native;
  std::vector<e2e::Root> roots;
  Pools pools;

  void* ptr() {
    switch (kind) {
      case Kind::kRoot: return &root;
      case Kind::kMid: return &mid;
      case Kind::kTop: return &top;
      case Kind::kNative: return &native;
      default: return &roots;
    }
  }
  pb::Message* msg() {
    switch (kind) {
      case Kind::kRoot: return &root;
      case Kind::kMid: return &mid;
      case Kind::kTop: return &top;
      default: return nullptr;
    }
  }
  Node node() {
    if (kind == Kind::kNative) return PtrNode(Node::kNative, &native);
    if (kind == Kind::kVector) return PtrNode(Node::kRoots, &roots);
    return MsgNode(*msg());
  }
  void Fill(Src& s, const std::vector<const Row*>& rows, const std::vector<std::string>& keys) {
    if (kind == Kind::kVector) roots.resize(s.draw(3));
    for (size_t i = 0; i < rows.size(); ++i) {
      if (!s.chance(4, 5)) continue;
      std::vector<Elem> path = ParsePath(*rows[i], keys.empty() ? "k0" : keys[i]);
      if (kind == Kind::kNative) {
        FillNative(s, &native, path, 0, &pools);
      } else if (kind == Kind::kVector) {
        for (auto& x : roots) FillMsg(s, &x, path, 1, &pools);
      } else {
        FillMsg(s, msg(), path, 0, &pools);
      }
    }
  }
  std::string Show() {
    if (kind == Kind::kNative) return "native{proto=" + native.proto.ShortDebugString() + "}";
    if (kind == Kind::kVector) {
      std::string r;
      for (auto& x : roots) r += x.ShortDebugString() + " | ";
      return r;
    }
    return msg()->ShortDebugString();
  }
};

std::string ShowResult(const Result& r) {
  std::string o = "[";
  for (const auto& x : r) {
    if (!x) {
      o += "missing, ";
      continue;
    }
    for (unsigned char c : *x) o += absl::StrCat(absl::Hex(c, absl::kZeroPad2));
    o += ", ";
  }
  return o + "]";
}

std::string ReplaceFirst(const std::string& pattern, const std::string& key) {
  // a printf format with one %s; %% is a percent sign
  std::string r;
  for (size_t i = 0; i < pattern.size(); ++i) {
    if (pattern[i] == '%' && i + 1 < pattern.size()) {
      ++i;
      if (pattern[i] == 's') r += key; else r += pattern[i];
    } else {
      r += pattern[i];
    }
  }
  return r;
}

// What is asked for under one name.
struct Ask {
  const Row* row;
  std::string name;
  std::string key;
};

// Does `name` match the wildcard pattern, and with which key?
std::optional<std::string> MatchPattern(const std::string& pattern, const std::string& name) {
  size_t p = pattern.find("%s");
  std::string pre = pattern.substr(0, p), post = pattern.substr(p + 2);
  if (name.size() < pre.size() + post.size()) return std::nullopt;
  if (name.compare(0, pre.size(), pre) != 0) return std::nullopt;
  if (name.compare(name.size() - post.size(), post.size(), post) != 0) return std::nullopt;
  return name.substr(pre.size(), name.size() - pre.size() - post.size());
}

void CheckQTypes(const LoaderCase& lc, const arolla::InputLoaderBase& l) {
  for (const Row& row : lc.rows) {
    std::string name = row.wild ? ReplaceFirst(row.name, "k0") : row.name;
    if (row.wild && std::any_of(lc.rows.begin(), lc.rows.end(), [&](const Row& o) {
          return &o != &row && (o.wild ? MatchPattern(o.name, name).has_value() : o.name == name);
        })) {
      continue;
    }
    QTypePtr q = l.GetQTypeOf(name);
    PBT_ASSERT(q != nullptr, lc.name, ": name '", name, "' is not known");
    QTypePtr e = ExpectedQType(row);
    PBT_ASSERT(q == e, lc.name, ": '", name, "' (", row.text, ") has type ",
               q->name(), ", expected ", e->name());
  }
}

std::vector<Ask> PickAsks(Src& s, const LoaderCase& lc) {
  std::vector<Ask> asks;
  std::set<std::string> used;
  int mode = s.draw(3);  // everything, many, few, exactly one
  size_t only = s.draw(lc.rows.size() - 1);
  for (size_t i = 0; i < lc.rows.size(); ++i) {
    const Row& row = lc.rows[i];
    if (mode == 3 ? i != only : mode == 2 ? !s.chance(1, 6) : mode == 1 ? !s.chance(2, 3) : false) {
      continue;
    }
    int n = row.wild ? 1 + s.draw(2) : 1;
    for (int k = 0; k < n; ++k) {
      std::string key = row.wild ? s.pick(Keys()) : "";
      std::string name = row.wild ? ReplaceFirst(row.name, key) : row.name;
      if (row.wild) {
        bool ambiguous = false;
        for (const Row& o : lc.rows) {
          if (&o != &row && (o.wild ? MatchPattern(o.name, name).has_value() : o.name == name)) {
            ambiguous = true;
          }
        }
        if (ambiguous) continue;
      }
      if (!used.insert(name).second) continue;
      asks.push_back({&row, name, key});
    }
  }
  return asks;
}

void RunLoads(Src& s, const LoaderCase& lc, const std::vector<Ask>& asks,
              const std::vector<std::pair<LoadFn, std::vector<size_t>>>& fns,
              const FrameLayout& layout, const std::vector<TypedSlot>& slots) {
  arolla::MemoryAllocation alloc(&layout);
  arolla::UnsafeArenaBufferFactory arena(1 << 10);
  int loads = 1 + s.draw(2);
  bool present = false, missing = false;
  for (int k = 0; k < loads; ++k) {
    Input in;
    in.kind = lc.kind;
    std::vector<const Row*> rows;
    std::vector<std::string> keys;
    for (const Ask& a : asks) {
      rows.push_back(a.row);
      keys.push_back(a.key);
    }
    in.Fill(s, rows, keys);
    s.note("input ", k, ": ", in.Show());
    bool use_arena = s.chance(1, 4);
    for (const auto& [fn, idx] : fns) {
      absl::Status st = fn(in.ptr(), alloc.frame(),
                           use_arena ? static_cast<arolla::RawBufferFactory*>(&arena)
                                     : arolla::GetHeapBufferFactory());
      PBT_ASSERT(st.ok(), lc.name, ": ", st.ToString());
    }
    for (size_t i = 0; i < asks.size(); ++i) {
      Result got = Read(*asks[i].row, slots[i], alloc.frame());
      Result want = Expected(in.node(), *asks[i].row, asks[i].key);
      for (const auto& x : want) (x ? present : missing) = true;
      PBT_ASSERT(got == want, lc.name, ": '", asks[i].name, "' = ", asks[i].row->text,
                 " (", asks[i].row->qt, ")\n  loaded   ", ShowResult(got),
                 "\n  expected ", ShowResult(want), "\n  input #", k, ": ",
                 in.Show().substr(0, 1500));
    }
  }
  if (present && missing) s.nontrivial();
}

void LoaderTest(Src& s) {
  const LoaderCase& lc = Loaders()[s.draw(Loaders().size() - 1)];
  AnyLoader l = lc.make();
  s.label(lc.name);
  s.note("loader ", lc.name);
  if (s.chance(1, 10)) {
    CheckQTypes(lc, *l.base);
    std::set<std::string> names;
    for (const std::string& n : l.base->SuggestAvailableNames()) names.insert(n);
    for (const Row& row : lc.rows) {
      if (row.wild) continue;
      PBT_ASSERT(names.count(row.name), lc.name, ": ", row.name, " is not suggested");
    }
    for (std::string n : {std::string("no/such"), std::string(""), lc.rows[0].name + "x"}) {
      bool known = false;
      for (const Row& row : lc.rows) {
        known |= row.wild ? MatchPattern(row.name, n).has_value() : row.name == n;
      }
      if (!known) PBT_ASSERT(l.base->GetQTypeOf(n) == nullptr, lc.name, ": knows '", n, "'");
    }
  }
  std::vector<Ask> asks = PickAsks(s, lc);
  FrameLayout::Builder b;
  SlotMap slots;
  std::vector<TypedSlot> order;
  for (const Ask& a : asks) {
    QTypePtr q = l.base->GetQTypeOf(a.name);
    PBT_ASSERT(q == ExpectedQType(*a.row), lc.name, ": type of '", a.name, "'");
    order.push_back(arolla::AddSlot(q, &b));
    slots.emplace(a.name, order.back());
  }
  TypedSlot extra = arolla::AddSlot(arolla::GetQType<arolla::Unit>(), &b);
  FrameLayout layout = std::move(b).Build();
  absl::StatusOr<LoadFn> fn;
  if (s.chance(1, 6)) {
    SlotMap more = slots;
    more.emplace("no/such", extra);
    PBT_ASSERT(!l.bind(more).ok(), lc.name, ": bound an unknown name");
    fn = l.partial_bind(&more);
    PBT_ASSERT(more.size() == 1 && more.count("no/such"), lc.name, ": partial binding left ", more.size());
  } else {
    if (!asks.empty() && s.chance(1, 8)) {
      SlotMap wrong = slots;
      wrong.at(asks[s.draw(asks.size() - 1)].name) = extra;
      PBT_ASSERT(!l.bind(wrong).ok(), lc.name, ": bound a slot of a wrong type");
    }
    fn = l.bind(slots);
  }
  PBT_ASSERT(fn.ok(), lc.name, ": ", fn.status().ToString());
  RunLoads(s, lc, asks, {{*fn, {}}}, layout, order);
}

PBT_TEST(G10_loader, 60000, 1000000,
         "a generated loader, at least one requested value present and one missing") {
  LoaderTest(s);
}
PBT_TEST(G12_accessor, 60000, 1000000,
         "accessors used on their own, at least one requested value present and one missing") {
  LoaderTest(s);
}

PBT_TEST(G10_shards, 8000, 100000, "more than one shard is asked for a value") {
  std::vector<const LoaderCase*> cs;
  for (const auto& l : Loaders()) {
    if (l.shards) cs.push_back(&l);
  }
  if (cs.empty()) throw pbt::Discard{};
  const LoaderCase& lc = *cs[s.draw(cs.size() - 1)];
  std::vector<AnyLoader> shards = lc.shards();
  // every plain name belongs to exactly one shard
  std::vector<Ask> asks;
  FrameLayout::Builder b;
  std::vector<SlotMap> maps(shards.size());
  std::vector<TypedSlot> order;
  for (const Row& row : lc.rows) {
    if (row.wild) continue;
    int owner = -1;
    for (size_t i = 0; i < shards.size(); ++i) {
      QTypePtr q = shards[i].base->GetQTypeOf(row.name);
      if (q == nullptr) continue;
      PBT_ASSERT(q == ExpectedQType(row), lc.name, ": type of ", row.name);
      PBT_ASSERT(owner == -1, lc.name, ": ", row.name, " is in two shards");
      owner = i;
    }
    PBT_ASSERT(owner != -1, lc.name, ": ", row.name, " is in no shard");
    if (s.chance(1, 3)) continue;
    asks.push_back({&row, row.name, ""});
    order.push_back(arolla::AddSlot(ExpectedQType(row), &b));
    maps[owner].emplace(row.name, order.back());
  }
  FrameLayout layout = std::move(b).Build();
  std::vector<std::pair<LoadFn, std::vector<size_t>>> fns;
  for (size_t i = 0; i < shards.size(); ++i) {
    if (maps[i].empty()) continue;
    auto fn = shards[i].bind(maps[i]);
    PBT_ASSERT(fn.ok(), fn.status().ToString());
    fns.push_back({*fn, {}});
  }
  RunLoads(s, lc, asks, fns, layout, order);
  s.nontrivial_ = fns.size() > 1;
}

// ---- listeners -----------------------------------------------------------------

// Removes singular submessages and map values that hold nothing: whether a
// requested but missing value leaves an empty parent behind is not specified.
bool Prune(pb::Message* m) {
  const auto* r = m->GetReflection();
  std::vector<const FD*> fs;
  r->ListFields(*m, &fs);
  for (const FD* f : fs) {
    if (f->cpp_type() != FD::CPPTYPE_MESSAGE) continue;
    if (f->is_map()) {
      const FD* vf = f->message_type()->map_value();
      if (vf->cpp_type() != FD::CPPTYPE_MESSAGE) continue;
      for (int i = r->FieldSize(*m, f); i-- > 0;) {
        pb::Message* e = r->MutableRepeatedMessage(m, f, i);
        if (Prune(e->GetReflection()->MutableMessage(e, vf))) {
          r->SwapElements(m, f, i, r->FieldSize(*m, f) - 1);
          r->RemoveLast(m, f);
        }
      }
    } else if (f->is_repeated()) {
      for (int i = 0; i < r->FieldSize(*m, f); ++i) Prune(r->MutableRepeatedMessage(m, f, i));
    } else if (Prune(r->MutableMessage(m, f))) {
      r->ClearField(m, f);
    }
  }
  fs.clear();
  r->ListFields(*m, &fs);
  return fs.empty();
}

// Entries of maps were changed through reflection: makes the maps notice.
void Touch(pb::Message* m) {
  const auto* r = m->GetReflection();
  std::vector<const FD*> fs;
  r->ListFields(*m, &fs);
  for (const FD* f : fs) {
    if (f->cpp_type() != FD::CPPTYPE_MESSAGE) continue;
    if (f->is_repeated()) {
      for (int i = 0; i < r->FieldSize(*m, f); ++i) Touch(r->MutableRepeatedMessage(m, f, i));
    } else {
      Touch(r->MutableMessage(m, f));
    }
  }
}

std::string Ser(const pb::Message& m) {
  std::string out;
  {
    pb::io::StringOutputStream os(&out);
    pb::io::CodedOutputStream cs(&os);
    cs.SetSerializationDeterministic(true);
    m.SerializeToCodedStream(&cs);
  }
  return out;
}

void PutScalar(pb::Message* m, const FD* f, const Val& v) {
  const auto* r = m->GetReflection();
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: r->SetInt32(m, f, v.i); break;
    case FD::CPPTYPE_INT64: r->SetInt64(m, f, v.i); break;
    case FD::CPPTYPE_UINT32: r->SetUInt32(m, f, v.i); break;
    case FD::CPPTYPE_UINT64: r->SetUInt64(m, f, v.u); break;
    case FD::CPPTYPE_FLOAT: r->SetFloat(m, f, v.f); break;
    case FD::CPPTYPE_DOUBLE: r->SetDouble(m, f, v.d); break;
    case FD::CPPTYPE_BOOL: r->SetBool(m, f, v.b); break;
    case FD::CPPTYPE_ENUM: r->SetEnumValue(m, f, v.i); break;
    case FD::CPPTYPE_STRING: r->SetString(m, f, v.s); break;
    default: PBT_FAIL("not a scalar");
  }
}

void Resize(pb::Message* m, const FD* f, int64_t n) {
  const auto* r = m->GetReflection();
  while (r->FieldSize(*m, f) > n) r->RemoveLast(m, f);
  while (r->FieldSize(*m, f) < n) {
    if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
      r->AddMessage(m, f);
    } else {
      r->AddString(m, f, "");
    }
  }
}

// Stores `v` at path[i..] below `m`, creating what protobuf can create.
void Store(pb::Message* m, const std::vector<Elem>& path, size_t i, const Val& v) {
  const Elem& e = path[i];
  bool fin = i + 1 == path.size();
  const auto* r = m->GetReflection();
  if (e.op == "C") return Resize(m, Field(*m, e.args[1]), v.i);
  const FD* f = e.op == "X" ? Ext(e.args[0]) : Field(*m, e.args[0]);
  if (e.op == "F" || e.op == "X") {
    if (fin) return PutScalar(m, f, v);
    return Store(r->MutableMessage(m, f), path, i + 1, v);
  }
  if (e.op == "I") {
    int k = std::stoi(e.args[1]);
    if (r->FieldSize(*m, f) <= k) return;
    if (!fin) return Store(r->MutableRepeatedMessage(m, f, k), path, i + 1, v);
    switch (f->cpp_type()) {
      case FD::CPPTYPE_INT32: r->SetRepeatedInt32(m, f, k, v.i); break;
      case FD::CPPTYPE_INT64: r->SetRepeatedInt64(m, f, k, v.i); break;
      case FD::CPPTYPE_UINT32: r->SetRepeatedUInt32(m, f, k, v.i); break;
      case FD::CPPTYPE_UINT64: r->SetRepeatedUInt64(m, f, k, v.u); break;
      case FD::CPPTYPE_FLOAT: r->SetRepeatedFloat(m, f, k, v.f); break;
      case FD::CPPTYPE_DOUBLE: r->SetRepeatedDouble(m, f, k, v.d); break;
      case FD::CPPTYPE_BOOL: r->SetRepeatedBool(m, f, k, v.b); break;
      case FD::CPPTYPE_ENUM: r->SetRepeatedEnumValue(m, f, k, v.i); break;
      case FD::CPPTYPE_STRING: r->SetRepeatedString(m, f, k, v.s); break;
      default: PBT_FAIL("not a scalar");
    }
    return;
  }
  if (e.op == "K") {
    pbt::Src none(uint64_t{0});
    pb::Message* en = MapEntryFor(none, m, f, &e.key);
    const FD* vf = f->message_type()->map_value();
    if (fin) return PutScalar(en, vf, v);
    return Store(en->GetReflection()->MutableMessage(en, vf), path, i + 1, v);
  }
  PBT_FAIL("bad store element " + e.op);
}

// The messages the last loop of `path` visits, in order.
void Visit(pb::Message* m, const std::vector<Elem>& path, size_t i, int last,
           std::vector<pb::Message*>* out) {
  if (static_cast<int>(i) > last) {
    out->push_back(m);
    return;
  }
  const Elem& e = path[i];
  const auto* r = m->GetReflection();
  const FD* f = e.op == "X" ? Ext(e.args[0]) : Field(*m, e.args[0]);
  if (e.op == "F" || e.op == "X") {
    if (r->HasField(*m, f)) Visit(r->MutableMessage(m, f), path, i + 1, last, out);
  } else if (e.op == "I") {
    int k = std::stoi(e.args[1]);
    if (r->FieldSize(*m, f) > k) Visit(r->MutableRepeatedMessage(m, f, k), path, i + 1, last, out);
  } else if (e.op == "R") {
    for (int k = 0; k < r->FieldSize(*m, f); ++k) {
      Visit(r->MutableRepeatedMessage(m, f, k), path, i + 1, last, out);
    }
  } else {  // K, MV
    for (const pb::Message* en : MapEntries(*m, f)) {
      if (e.op == "K" && GetScalar(*en, en->GetDescriptor()->map_key()).s != e.key) continue;
      pb::Message* x = const_cast<pb::Message*>(en);
      Visit(x->GetReflection()->MutableMessage(x, f->message_type()->map_value()), path, i + 1,
            last, out);
    }
  }
}

const FD* FinalField(const pb::Message& root, const std::vector<Elem>& path) {
  const pb::Descriptor* d = root.GetDescriptor();
  const FD* f = nullptr;
  for (const Elem& e : path) {
    if (e.op == "C") return nullptr;
    f = e.op == "X" ? Ext(e.args[0]) : d->FindFieldByName(e.args[0]);
    if (f->is_map()) f = f->message_type()->map_value();
    d = f->cpp_type() == FD::CPPTYPE_MESSAGE ? f->message_type() : nullptr;
  }
  return f;
}

Val RandVal(Src& s, const std::string& qt, const FD* f) {
  if (qt == "SHAPE" || qt == "SIZES") return I(s.draw(4));
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return I(s.integer<int32_t>());
    case FD::CPPTYPE_INT64: return I(s.integer<int64_t>());
    case FD::CPPTYPE_UINT32: return I(s.integer<uint32_t>());
    case FD::CPPTYPE_UINT64: return U(s.integer<uint64_t>());
    case FD::CPPTYPE_FLOAT: return F(s.flt());
    case FD::CPPTYPE_DOUBLE: return D(s.dbl());
    case FD::CPPTYPE_BOOL: return B(s.boolean());
    case FD::CPPTYPE_ENUM:
      return I(f->enum_type()->value(s.draw(f->enum_type()->value_count() - 1))->number());
    default: return S(RandString(s));
  }
}

template <class T>
T ToNative(const Val& v) {
  if constexpr (std::is_same_v<T, uint64_t>) return v.u;
  else if constexpr (std::is_same_v<T, float>) return v.f;
  else if constexpr (std::is_same_v<T, double>) return v.d;
  else if constexpr (std::is_same_v<T, bool>) return v.b;
  else if constexpr (std::is_integral_v<T>) return static_cast<T>(v.i);
  else return T(v.s);
}
template <class T>
void Write(const Row& row, TypedSlot slot, arolla::FramePtr f,
           const std::vector<std::optional<Val>>& vals) {
  if (row.multi) {
    std::vector<OptionalValue<T>> x;
    for (const auto& v : vals) x.push_back(v ? OptionalValue<T>(ToNative<T>(*v)) : OptionalValue<T>());
    f.Set(slot.UnsafeToSlot<DenseArray<T>>(), arolla::CreateDenseArray<T>(x));
  } else {
    f.Set(slot.UnsafeToSlot<OptionalValue<T>>(),
          vals[0] ? OptionalValue<T>(ToNative<T>(*vals[0])) : OptionalValue<T>());
  }
}
void WriteSlot(const Row& row, TypedSlot slot, arolla::FramePtr f,
               const std::vector<std::optional<Val>>& v) {
  if (row.qt == "SHAPE") {
    f.Set(slot.UnsafeToSlot<DenseArrayShape>(), DenseArrayShape{v[0]->i});
  } else if (row.qt == "SIZES" || row.qt == "INT64") Write<int64_t>(row, slot, f, v);
  else if (row.qt == "INT32") Write<int32_t>(row, slot, f, v);
  else if (row.qt == "UINT64") Write<uint64_t>(row, slot, f, v);
  else if (row.qt == "FLOAT32") Write<float>(row, slot, f, v);
  else if (row.qt == "FLOAT64") Write<double>(row, slot, f, v);
  else if (row.qt == "BOOLEAN") Write<bool>(row, slot, f, v);
  else if (row.qt == "BYTES") Write<arolla::Bytes>(row, slot, f, v);
  else Write<arolla::Text>(row, slot, f, v);
}

int Depth(const Row& row) {
  int d = 0;
  for (const auto& e : row.path) d += e[0] != 'C' ? 1 : 0;
  return row.path.size() * 2 - (row.qt == "SIZES" ? 1 : 0);
}

PBT_TEST(G11_listener, 60000, 1000000,
         "a generated listener that stores at least one present value") {
  if (Listeners().empty()) throw pbt::Discard{};
  const ListenerCase& lc = Listeners()[s.draw(Listeners().size() - 1)];
  auto base = lc.base();
  for (const Row& row : lc.rows) {
    QTypePtr q = base->GetQTypeOf(row.name);
    PBT_ASSERT(q != nullptr && q == ExpectedQType(row), lc.name, ": type of '", row.name, "' is ",
               q ? q->name() : "unknown", ", expected ", ExpectedQType(row)->name());
  }
  PBT_ASSERT(base->GetQTypeOf("no/such") == nullptr);
  std::vector<const Row*> rows;
  int mode = s.draw(4);
  size_t only = s.draw(lc.rows.size() - 1);
  for (size_t i = 0; i < lc.rows.size(); ++i) {
    if (mode == 4 ? lc.rows[i].multi > 0 : mode == 3 ? i == only : mode == 2 ? s.chance(1, 5) : mode == 1 ? s.chance(2, 3) : true) {
      rows.push_back(&lc.rows[i]);
    }
  }
  // Singles first, then arrays from the shallowest to the deepest.
  std::stable_sort(rows.begin(), rows.end(), [](const Row* a, const Row* b) {
    if ((a->multi > 0) != (b->multi > 0)) return a->multi == 0;
    return a->multi > 0 && Depth(*a) < Depth(*b);
  });
  Input in;
  in.kind = lc.kind;
  in.Fill(s, rows, {});
  s.note("listener ", lc.name, " on ", in.Show());
  std::unique_ptr<pb::Message> model(in.msg()->New());
  model->CopyFrom(*in.msg());

  FrameLayout::Builder b;
  SlotMap slots;
  std::vector<TypedSlot> order;
  for (const Row* r : rows) {
    order.push_back(arolla::AddSlot(ExpectedQType(*r), &b));
    slots.emplace(r->name, order.back());
  }
  FrameLayout layout = std::move(b).Build();
  arolla::MemoryAllocation alloc(&layout);
  bool mismatch = false;
  for (size_t i = 0; i < rows.size(); ++i) {
    const Row& row = *rows[i];
    std::vector<Elem> path = ParsePath(row);
    const FD* ff = FinalField(*model, path);
    int last = LastMulti(path);
    if (last < 0) {
      bool always = row.qt == "SHAPE";
      std::optional<Val> v;
      if (always || s.chance(3, 4)) v = RandVal(s, row.qt, ff);
      WriteSlot(row, order[i], alloc.frame(), {v});
      if (v) {
        Store(model.get(), path, 0, *v);
        s.nontrivial();
      }
      continue;
    }
    std::vector<pb::Message*> items;
    Visit(model.get(), path, 0, last, &items);
    std::vector<std::optional<Val>> vals;
    for (pb::Message* it : items) {
      std::optional<Val> v;
      if (s.chance(3, 4)) v = RandVal(s, row.qt, ff);
      if (v) {
        Store(it, path, last + 1, *v);
        s.nontrivial();
      }
      vals.push_back(v);
    }
    if (!mismatch && s.chance(1, 40)) {
      mismatch = true;
      if (vals.empty() || s.boolean()) {
        vals.push_back(s.boolean() ? std::make_optional(RandVal(s, row.qt, ff)) : std::nullopt);
      } else {
        vals.pop_back();
      }
    }
    WriteSlot(row, order[i], alloc.frame(), vals);
  }
  auto fn = lc.bind(slots);
  PBT_ASSERT(fn.ok(), lc.name, ": ", fn.status().ToString());
  std::string before = in.Show();
  absl::Status st = (*fn)(alloc.frame(), in.ptr());
  if (mismatch) {
    s.label("mismatch");
    PBT_ASSERT(st.code() == absl::StatusCode::kFailedPrecondition, lc.name,
               ": a wrong array size gave ", st.ToString());
    return;
  }
  PBT_ASSERT(st.ok(), lc.name, ": ", st.ToString());
  // Array values only change what they hold: no parents appear on the way.
  bool exact = !rows.empty();
  for (const Row* r : rows) {
    if (r->multi == 0) exact = false;
    std::vector<Elem> path = ParsePath(*r);
    for (size_t i = LastMulti(path) + 1; i < path.size(); ++i) exact &= path[i].op != "I";
  }
  if (exact) {
    s.label("exact");
    Touch(in.msg());
    Touch(model.get());
  } else {
    Prune(in.msg());
    Prune(model.get());
  }
  // Map entries built by reflection need not look like those of the map itself.
  auto canon = [](const pb::Message& m) {
    std::unique_ptr<pb::Message> c(m.New());
    c->ParseFromString(Ser(m));
    return Ser(*c);
  };
  if (canon(*in.msg()) != canon(*model)) {
    std::string names;
    for (const Row* r : rows) names += r->text + " (" + r->qt + "), ";
    PBT_FAIL(lc.name, " stored\n  ", in.msg()->ShortDebugString().substr(0, 1500), "\nexpected\n  ",
             model->ShortDebugString().substr(0, 1500), "\nbefore\n  ", before.substr(0, 1000),
             "\nfor ", names.substr(0, 1500));
  }
}

struct Init {
  Init() {
    pbt::init_fn() = [] {
      arolla::InitArolla();
      RegisterAll();
    };
  }
} init;

}  // namespace
}  // namespace e2e_driver

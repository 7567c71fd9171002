#pragma once
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "arolla/io/input_loader.h"
#include "arolla/io/slot_listener.h"
#include "arolla/memory/frame.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "native.h"

namespace e2e_driver {

struct Row {
  std::string name;
  std::vector<std::string> path;
  std::string qt;
  int multi;
  std::string dflt;
  bool wild;
  std::string text;
};

enum class Kind { kRoot, kMid, kTop, kNative, kVector };
inline Kind KindOf(const e2e::Root*) { return Kind::kRoot; }
inline Kind KindOf(const e2e::Mid*) { return Kind::kMid; }
inline Kind KindOf(const e2e3::Top*) { return Kind::kTop; }
inline Kind KindOf(const e2e_native::Native*) { return Kind::kNative; }
inline Kind KindOf(const std::vector<e2e::Root>*) { return Kind::kVector; }

using LoadFn = std::function<absl::Status(const void*, arolla::FramePtr,
                                          arolla::RawBufferFactory*)>;
using SlotMap = absl::flat_hash_map<std::string, arolla::TypedSlot>;

struct AnyLoader {
  std::shared_ptr<arolla::InputLoaderBase> base;
  std::function<absl::StatusOr<LoadFn>(const SlotMap&)> bind;
  std::function<absl::StatusOr<LoadFn>(SlotMap*)> partial_bind;
};

template <class T>
AnyLoader Erase(std::unique_ptr<arolla::InputLoader<T>> l) {
  std::shared_ptr<arolla::InputLoader<T>> p = std::move(l);
  auto wrap = [](absl::StatusOr<arolla::BoundInputLoader<T>> b)
      -> absl::StatusOr<LoadFn> {
    if (!b.ok()) return b.status();
    auto s = std::make_shared<arolla::BoundInputLoader<T>>(std::move(*b));
    return LoadFn([s](const void* in, arolla::FramePtr f,
                      arolla::RawBufferFactory* buf) {
      return (*s)(*static_cast<const T*>(in), f, buf);
    });
  };
  return {p, [p, wrap](const SlotMap& m) { return wrap(p->Bind(m)); },
          [p, wrap](SlotMap* m) { return wrap(p->PartialBind(m)); }};
}

struct LoaderCase {
  std::string name;
  std::vector<Row> rows;
  Kind kind;
  std::function<AnyLoader()> make;
  std::function<std::vector<AnyLoader>()> shards;  // may be null
};

using StoreFn = std::function<absl::Status(arolla::ConstFramePtr, void*)>;
struct ListenerCase {
  std::string name;
  std::vector<Row> rows;
  Kind kind;
  std::function<std::shared_ptr<arolla::SlotListenerBase>()> base;
  std::function<absl::StatusOr<StoreFn>(const SlotMap&)> bind;
};

std::vector<LoaderCase>& Loaders();
std::vector<ListenerCase>& Listeners();

template <class T, class F>
void AddLoader(const char* name, std::vector<Row> rows, F make) {
  Loaders().push_back({name, std::move(rows), KindOf(static_cast<T*>(nullptr)),
                       [make] { return Erase<T>(make()); }, nullptr});
}
template <class T, class F, class S>
void AddLoader(const char* name, std::vector<Row> rows, F make, S shards) {
  AddLoader<T>(name, std::move(rows), make);
  Loaders().back().shards = [shards] {
    std::vector<AnyLoader> r;
    for (auto& l : shards()) r.push_back(Erase<T>(std::move(l)));
    return r;
  };
}
template <class T, class F>
void AddListener(const char* name, std::vector<Row> rows, F make) {
  Listeners().push_back(
      {name, std::move(rows), KindOf(static_cast<T*>(nullptr)),
       [make] { return std::shared_ptr<arolla::SlotListener<T>>(make()); },
       [make](const SlotMap& m) -> absl::StatusOr<StoreFn> {
         std::shared_ptr<arolla::SlotListener<T>> l = make();
         auto b = l->Bind(m);
         if (!b.ok()) return b.status();
         auto s = std::make_shared<arolla::BoundSlotListener<T>>(std::move(*b));
         return StoreFn([s, l](arolla::ConstFramePtr f, void* out) {
           return (*s)(f, static_cast<T*>(out));
         });
       }});
}

}  // namespace e2e_driver

void RegisterAll();

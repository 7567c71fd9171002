#ifndef SHIM_ABSL_BASE_NO_DESTRUCTOR_H_
#define SHIM_ABSL_BASE_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts,
            typename = std::enable_if_t<
                !(sizeof...(Ts) == 1 &&
                  (std::is_same_v<std::decay_t<Ts>, NoDestructor> && ...))>>
  explicit constexpr NoDestructor(Ts&&... args) {
    new (space_) T(std::forward<Ts>(args)...);
  }
  explicit constexpr NoDestructor(const T& x) { new (space_) T(x); }
  explicit constexpr NoDestructor(T&& x) { new (space_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return std::launder(reinterpret_cast<T*>(space_)); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
  const T* get() const {
    return std::launder(reinterpret_cast<const T*>(space_));
  }

 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
template <typename T>
NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif

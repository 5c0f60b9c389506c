// Minimal stand-in for the Boost.Expected header the library was written against, which is not
// available offline.  Only what /repo uses, with the documented semantics of the original.
#ifndef VERIF_SHIM_BOOST_EXPECTED_HPP_
#define VERIF_SHIM_BOOST_EXPECTED_HPP_

#include <exception>
#include <stdexcept>
#include <type_traits>
#include <utility>

#include "boost/optional.hpp"
#include "boost/throw_exception.hpp"

namespace boost {

template <typename E>
class unexpected_type {
 public:
  explicit unexpected_type(E e) : error_(std::move(e)) {}
  const E& value() const { return error_; }
  E& value() { return error_; }

 private:
  E error_;
};

template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}

template <typename E>
struct bad_expected_access : public std::logic_error {
  explicit bad_expected_access(E e) : std::logic_error("bad_expected_access"), error_(std::move(e)) {}
  E error_;
};

template <typename T, typename E>
class expected {
 public:
  typedef T value_type;
  typedef E error_type;

  expected() : value_(T()), error_() {}
  expected(const T& value) : value_(value), error_() {}             // NOLINT
  expected(T&& value) : value_(std::move(value)), error_() {}       // NOLINT
  template <typename G>
  expected(const unexpected_type<G>& e) : value_(), error_(E(e.value())) {}  // NOLINT

  bool valid() const { return static_cast<bool>(value_); }
  explicit operator bool() const { return valid(); }

  const T& value() const {
    if (!value_)
      boost::throw_exception(bad_expected_access<E>(*error_));
    return *value_;
  }
  T& value() {
    if (!value_)
      boost::throw_exception(bad_expected_access<E>(*error_));
    return *value_;
  }
  const T& operator*() const { return *value_; }
  T& operator*() { return *value_; }
  const T* operator->() const { return &*value_; }
  T* operator->() { return &*value_; }
  const E& error() const { return *error_; }
  E& error() { return *error_; }

 private:
  boost::optional<T> value_;
  boost::optional<E> error_;
};

template <typename T, typename E>
bool operator==(const expected<T, E>& lhs, const T& rhs) {
  return lhs.valid() && *lhs == rhs;
}

}  // namespace boost

#endif  // VERIF_SHIM_BOOST_EXPECTED_HPP_

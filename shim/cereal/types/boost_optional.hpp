// Stand-in for cereal/types/boost_optional.hpp of MaidSafe's fork of cereal (not available offline):
// a bool saying whether the optional holds a value, followed by the value if so.
#ifndef VERIF_SHIM_CEREAL_TYPES_BOOST_OPTIONAL_HPP_
#define VERIF_SHIM_CEREAL_TYPES_BOOST_OPTIONAL_HPP_

#include <utility>

#include "boost/optional.hpp"
#include "cereal/cereal.hpp"

namespace cereal {

template <class Archive, class Optioned>
inline void save(Archive& ar, const ::boost::optional<Optioned>& optional) {
  const bool has_value(static_cast<bool>(optional));
  ar(has_value);
  if (has_value)
    ar(*optional);
}

template <class Archive, class Optioned>
inline void load(Archive& ar, ::boost::optional<Optioned>& optional) {
  bool has_value(false);
  ar(has_value);
  if (has_value) {
    Optioned value;
    ar(value);
    optional = std::move(value);
  } else {
    optional = ::boost::none;
  }
}

}  // namespace cereal

#endif  // VERIF_SHIM_CEREAL_TYPES_BOOST_OPTIONAL_HPP_

// boost_flyweight.h passes a raw pointer to registerSharedPointer, as cereal's 1.1 took it; the
// installed cereal (1.3) takes a shared pointer.
#ifndef VERIF_SHIM_FLYWEIGHT_COMPAT_H_
#define VERIF_SHIM_FLYWEIGHT_COMPAT_H_

#include <memory>

#include "boost/flyweight.hpp"
#include "cereal/archives/binary.hpp"
#include "cereal/cereal.hpp"
#include "cereal/types/memory.hpp"
#include "maidsafe/common/serialisation/binary_archive.h"
#include "maidsafe/common/serialisation/serialisation.h"

#define VERIF_PICK(a, b, name, ...) name
#define VERIF_ONE(x) registerSharedPointer(std::shared_ptr<const void>(std::shared_ptr<const void>(), x))
#define VERIF_TWO(x, y) registerSharedPointer(x, y)
#define registerSharedPointer(...) VERIF_PICK(__VA_ARGS__, VERIF_TWO, VERIF_ONE)(__VA_ARGS__)
#include "maidsafe/common/serialisation/types/boost_flyweight.h"
#undef registerSharedPointer

#endif  // VERIF_SHIM_FLYWEIGHT_COMPAT_H_

// C39: enumerations made by the library's macro: names and validity of every value.
#include <cstdint>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "boost/preprocessor/repetition/enum.hpp"
#include "boost/preprocessor/repetition/repeat.hpp"

#include "maidsafe/common/type_macros.h"

#include "common/vf.h"

#define SEQ_ELEMENT(z, n, data) (Item##n)
#define SEQ(n) BOOST_PP_REPEAT(n, SEQ_ELEMENT, ~)
#define NAME_ELEMENT(z, n, data) "Item" #n
#define NAMES(n) {BOOST_PP_ENUM(n, NAME_ELEMENT, ~)}

namespace one { DEFINE_OSTREAMABLE_ENUM_VALUES(Single, int32_t, (Only)) }
namespace two { DEFINE_OSTREAMABLE_ENUM_VALUES(Pair, uint8_t, (Yes)(No)) }
namespace eight {
DEFINE_OSTREAMABLE_ENUM_VALUES(I8, int8_t, SEQ(8))
DEFINE_OSTREAMABLE_ENUM_VALUES(U8, uint8_t, SEQ(8))
DEFINE_OSTREAMABLE_ENUM_VALUES(I8Full, int8_t, SEQ(128))
DEFINE_OSTREAMABLE_ENUM_VALUES(U8Full, uint8_t, SEQ(255))
DEFINE_OSTREAMABLE_ENUM_VALUES(Ch, char, SEQ(5))
}
namespace sixteen {
DEFINE_OSTREAMABLE_ENUM_VALUES(I16, int16_t, SEQ(3))
DEFINE_OSTREAMABLE_ENUM_VALUES(U16, uint16_t, SEQ(3))
DEFINE_OSTREAMABLE_ENUM_VALUES(U16Long, uint16_t, SEQ(200))
}
namespace more {
DEFINE_OSTREAMABLE_ENUM_VALUES(I32, int32_t, SEQ(10))
DEFINE_OSTREAMABLE_ENUM_VALUES(U32, uint32_t, SEQ(10))
DEFINE_OSTREAMABLE_ENUM_VALUES(I64, int64_t, SEQ(17))
DEFINE_OSTREAMABLE_ENUM_VALUES(U64, uint64_t, SEQ(256))
DEFINE_OSTREAMABLE_ENUM_VALUES(With_Underscore, int, (a)(B)(_c)(Dd_1)(kE)(aVeryLongNameOfAnEnumeratorWhichGoesOnAndOnAndOnUntilItIsMoreThanSixtyFourCharactersLong))
}

namespace {

template <typename E>
void value(typename std::underlying_type<E>::type v, const std::vector<std::string>& names, const std::string& type) {
  if (!vf::take())
    return;
  using U = typename std::underlying_type<E>::type;
  const E e = static_cast<E>(v);
  const bool valid = v >= U(0) && static_cast<uint64_t>(v) < names.size();
  const std::string want = valid ? names[static_cast<size_t>(v)] : "Invalid " + type + " type";
  VF_CHECK(IsValid(e) == valid, type << " " << +v << (valid ? " is called invalid" : " is called valid"));
  std::ostringstream narrow;
  narrow << '<' << e << '>' << 1;
  VF_CHECK(narrow.str() == "<" + want + ">1", type << " " << +v << " prints as " << narrow.str());
  std::wostringstream wide;
  wide << L'<' << e << L'>' << 1;
  VF_CHECK(wide.str() == L"<" + std::wstring(want.begin(), want.end()) + L">1", type << " " << +v << " prints differently in wide characters");
  std::ostringstream bad;
  bad.setstate(std::ios::failbit);
  bad << e;
  VF_CHECK(bad.str().empty() && bad.rdstate() == std::ios::failbit, type << " " << +v << " is printed to a stream that failed");
  std::ostringstream hex;
  hex << std::hex << std::showbase << e << 255;
  VF_CHECK(hex.str() == want + "0xff", type << " " << +v << " changes or follows the format: " << hex.str());
  vf::transitions += 5;
  vf::outcome(vf::hash_str(want));
}

template <typename E>
void type(const std::string& name, const std::vector<std::string>& names) {
  using U = typename std::underlying_type<E>::type;
  const U lo = std::numeric_limits<U>::min(), hi = std::numeric_limits<U>::max();
  if (sizeof(U) <= 2) {
    for (int64_t v = lo; v <= static_cast<int64_t>(hi); ++v)
      value<E>(static_cast<U>(v), names, name);
    return;
  }
  const int reach = vf::thorough ? 70000 : 3000;
  for (int i = 0; i < reach; ++i) {
    value<E>(static_cast<U>(lo + static_cast<U>(i)), names, name);
    value<E>(static_cast<U>(hi - static_cast<U>(i)), names, name);
    value<E>(static_cast<U>(i), names, name);
    value<E>(static_cast<U>(U(0) - static_cast<U>(i)), names, name);
  }
  for (unsigned bit = 0; bit < 8 * sizeof(U); ++bit)
    for (int d = -300; d <= 300; ++d)
      value<E>(static_cast<U>((uint64_t(1) << bit) + static_cast<uint64_t>(static_cast<int64_t>(d))), names, name);
}

void types() {
  static_assert(std::is_same<std::underlying_type<two::Pair>::type, uint8_t>::value, "");
  type<one::Single>("Single", {"Only"});
  type<two::Pair>("Pair", {"Yes", "No"});
  type<eight::I8>("I8", NAMES(8));
  type<eight::U8>("U8", NAMES(8));
  type<eight::I8Full>("I8Full", NAMES(128));
  type<eight::U8Full>("U8Full", NAMES(255));
  type<eight::Ch>("Ch", NAMES(5));
  type<sixteen::I16>("I16", NAMES(3));
  type<sixteen::U16>("U16", NAMES(3));
  type<sixteen::U16Long>("U16Long", NAMES(200));
  type<more::I32>("I32", NAMES(10));
  type<more::U32>("U32", NAMES(10));
  type<more::I64>("I64", NAMES(17));
  type<more::U64>("U64", NAMES(256));
  type<more::With_Underscore>("With_Underscore", {"a", "B", "_c", "Dd_1", "kE", "aVeryLongNameOfAnEnumeratorWhichGoesOnAndOnAndOnUntilItIsMoreThanSixtyFourCharactersLong"});
  VF_CHECK(static_cast<int>(one::Single::kOnly) == 0 && static_cast<int>(two::Pair::kYes) == 0 && static_cast<int>(two::Pair::kNo) == 1 &&
               static_cast<int>(more::With_Underscore::k_c) == 2 && static_cast<int>(eight::U8Full::kItem254) == 254 && static_cast<int>(more::U64::kItem255) == 255,
           "the enumerators' numbers");
}
}  // unnamed namespace

int main(int argc, char** argv) { return vf::run(argc, argv, {{"types", types}}); }

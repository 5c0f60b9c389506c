// CryptoPP 5.6 had `typedef SignatureVerificationFilter VerifierFilter; // for backwards
// compatibility`; CryptoPP 8 dropped it and rsa.cc uses it.
#include "cryptopp/filters.h"
namespace CryptoPP {
typedef SignatureVerificationFilter VerifierFilter;
}

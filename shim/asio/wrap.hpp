// asio 1.28 has no asio/wrap.hpp; listener.cc includes it but uses only strand::wrap().
#ifndef VERIF_SHIM_ASIO_WRAP_HPP_
#define VERIF_SHIM_ASIO_WRAP_HPP_
#include "asio/strand.hpp"
#endif

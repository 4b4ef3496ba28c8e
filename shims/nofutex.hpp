// A platform without futex: generic native waits and, in the library, the pthread lock pool.
#include <boost/atomic/detail/config.hpp>
#include <boost/atomic/detail/futex.hpp>
#undef BOOST_ATOMIC_DETAIL_HAS_FUTEX
#include <boost/atomic/detail/platform.hpp>

// Compiler intrinsics with the generic extra operations, as a platform without architecture-specific code would have.
#include <boost/atomic/detail/config.hpp>
#include <boost/atomic/detail/platform.hpp>
#undef BOOST_ATOMIC_DETAIL_CORE_ARCH_BACKEND
#undef BOOST_ATOMIC_DETAIL_CORE_ARCH_BACKEND_HEADER
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND generic
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GENERIC

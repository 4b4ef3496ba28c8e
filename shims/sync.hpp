// Selects the __sync_* core back end and the generic extra operations, as a platform without an architecture back end would.
#include <boost/atomic/detail/config.hpp>
#include <boost/atomic/detail/platform.hpp>
#undef BOOST_ATOMIC_DETAIL_CORE_ARCH_BACKEND
#undef BOOST_ATOMIC_DETAIL_CORE_ARCH_BACKEND_HEADER
#undef BOOST_ATOMIC_DETAIL_CORE_BACKEND
#undef BOOST_ATOMIC_DETAIL_CORE_BACKEND_HEADER
#define BOOST_ATOMIC_DETAIL_CORE_BACKEND gcc_sync
#define BOOST_ATOMIC_DETAIL_CORE_BACKEND_HEADER(prefix) <BOOST_JOIN(prefix, BOOST_ATOMIC_DETAIL_CORE_BACKEND).hpp>
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND generic
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GENERIC

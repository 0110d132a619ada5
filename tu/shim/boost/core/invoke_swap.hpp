// stand-in for the header of the same name in newer Boost.Core releases (the installed one lacks it)
#ifndef BOOST_CORE_INVOKE_SWAP_HPP
#define BOOST_CORE_INVOKE_SWAP_HPP
#include <utility>
namespace boost_invoke_swap_impl { using std::swap; template <class T> void go(T& a, T& b) { swap(a, b); } }
namespace boost { namespace core { template <class T> inline void invoke_swap(T& a, T& b) { ::boost_invoke_swap_impl::go(a, b); } } }
#endif

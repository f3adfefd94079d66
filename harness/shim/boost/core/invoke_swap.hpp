#ifndef X_INVOKE_SWAP
#define X_INVOKE_SWAP
#include <utility>
namespace boost{namespace core{ namespace invoke_swap_ns_{ using std::swap; template<class T> void call(T&a,T&b){ swap(a,b);} }
template<class T> void invoke_swap(T&a,T&b){ invoke_swap_ns_::call(a,b);} }}
#endif

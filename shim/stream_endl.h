// keeps std::endl a call, so that the engine sees one output operation
#include <iosfwd>
namespace std
{
template <typename C, typename T>
__attribute__((noinline)) basic_ostream<C, T> &endl(basic_ostream<C, T> &);
template <typename C, typename T>
__attribute__((noinline)) basic_ostream<C, T> &flush(basic_ostream<C, T> &);
}

// Not part of typelib: instantiates its header-only templates so that the analysis sees their bodies.
#include <typelib/endian_swap.hh>
namespace verif {
template<typename T> void all(T v) {
    T out;
    using namespace Typelib::Endian;
    swap(v, out); out = swap(v);
    to_big(v, out); out = to_big(v);
    to_little(v, out); out = to_little(v);
    to_network(v, out); out = to_network(v);
    from_big(v, out); out = from_big(v);
    from_little(v, out); out = from_little(v);
    from_network(v, out); out = from_network(v);
}
void endian() {
    all<int8_t>(0); all<uint8_t>(0); all<int16_t>(0); all<uint16_t>(0); all<int32_t>(0); all<uint32_t>(0);
    all<int64_t>(0); all<uint64_t>(0); all<float>(0); all<double>(0);
}
}

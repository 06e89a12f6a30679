// Builds ZIP archives.
#ifndef ZIPUTIL_HPP
#define ZIPUTIL_HPP
#include <zlib.h>

#include <cstdint>
#include <string>
#include <vector>

namespace zu
{
using Bytes = std::string;

struct Entry
{
    std::string name; // as stored
    std::string shown; // as decoded
    Bytes data;
    bool dir = false;
    int method = 0;
    size_t dataAt = 0, dataLen = 0, centralAt = 0;
};
inline void le(Bytes& b, uint64_t v, int n)
{
    for (int i = 0; i < n; ++i) b.push_back(static_cast<char>(v >> (8 * i)));
}
inline Bytes deflated(const Bytes& in)
{
    z_stream z{};
    deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
    Bytes out(deflateBound(&z, in.size()) + 16, 0);
    z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(in.data()));
    z.avail_in = static_cast<uInt>(in.size());
    z.next_out = reinterpret_cast<Bytef*>(&out[0]);
    z.avail_out = static_cast<uInt>(out.size());
    deflate(&z, Z_FINISH);
    out.resize(z.total_out);
    deflateEnd(&z);
    return out;
}
inline Bytes make_zip(std::vector<Entry>& entries, bool descriptors, const Bytes& comment)
{
    Bytes f;
    Bytes central;
    for (auto& e : entries) {
        const auto crc = static_cast<uint32_t>(crc32(0, reinterpret_cast<const Bytef*>(e.data.data()), static_cast<uInt>(e.data.size())));
        const Bytes stored = e.method == 8 ? deflated(e.data) : e.data;
        const bool dd = descriptors && !e.dir;
        const int flags = dd ? 8 : 0;
        const size_t local = f.size();
        le(f, 0x04034b50, 4);
        le(f, 20, 2);
        le(f, flags, 2);
        le(f, e.method, 2);
        le(f, 0x6000, 2);
        le(f, 0x5321, 2);
        le(f, dd ? 0 : crc, 4);
        le(f, dd ? 0 : stored.size(), 4);
        le(f, dd ? 0 : e.data.size(), 4);
        le(f, e.name.size(), 2);
        le(f, 0, 2);
        f += e.name;
        e.dataAt = f.size();
        e.dataLen = stored.size();
        f += stored;
        if (dd) {
            le(f, 0x08074b50, 4);
            le(f, crc, 4);
            le(f, stored.size(), 4);
            le(f, e.data.size(), 4);
        }
        e.centralAt = central.size();
        le(central, 0x02014b50, 4);
        le(central, 20, 2);
        le(central, 20, 2);
        le(central, flags, 2);
        le(central, e.method, 2);
        le(central, 0x6000, 2);
        le(central, 0x5321, 2);
        le(central, crc, 4);
        le(central, stored.size(), 4);
        le(central, e.data.size(), 4);
        le(central, e.name.size(), 2);
        le(central, 0, 2); // extra
        le(central, 0, 2); // comment
        le(central, 0, 2);
        le(central, 0, 2);
        le(central, e.dir ? 16 : 0, 4);
        le(central, local, 4);
        central += e.name;
    }
    const size_t at = f.size();
    for (auto& e : entries) e.centralAt += at;
    f += central;
    le(f, 0x06054b50, 4);
    le(f, 0, 2);
    le(f, 0, 2);
    le(f, entries.size(), 2);
    le(f, entries.size(), 2);
    le(f, central.size(), 4);
    le(f, at, 4);
    le(f, comment.size(), 2);
    f += comment;
    return f;
}
} // namespace zu
#endif

#ifndef VERIF_ZSTR
#define VERIF_ZSTR
// Streams over gzip data; like those of the real library, the readers pass through what is not compressed.
#include <fstream>
#include <sstream>
#include <istream>
#include <ios>
#include <zlib.h>
namespace zstr {
    inline std::string unpack(std::istream &in) {
        std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str(), o;
        if (s.size() < 2 || (unsigned char) s[0] != 0x1f || (unsigned char) s[1] != 0x8b) return s;
        z_stream z = z_stream(); char buf[1 << 15];
        if (inflateInit2(&z, 15 + 32) != Z_OK) throw std::ios_base::failure("zlib");
        z.next_in = (Bytef *) &s[0]; z.avail_in = s.size();
        for (;;) {
            z.next_out = (Bytef *) buf; z.avail_out = sizeof buf;
            int r = inflate(&z, Z_NO_FLUSH); o.append(buf, sizeof buf - z.avail_out);
            if (r == Z_STREAM_END) { if (!z.avail_in) break; if (inflateReset(&z) != Z_OK) break; continue; }
            if (r != Z_OK) { inflateEnd(&z); throw std::ios_base::failure("zlib: bad data"); }
        }
        inflateEnd(&z);
        return o;
    }
    class ofstream : public std::ofstream { public: ofstream(const std::string &f, std::ios_base::openmode m = std::ios_base::out) : std::ofstream(f, m) {} };
    class ifstream : public std::istringstream { public: ifstream(const std::string &f, std::ios_base::openmode = std::ios_base::in) { std::ifstream i(f, std::ios::binary); if (i) str(unpack(i)); else setstate(std::ios::failbit); } };
    class istream : public std::istringstream { public: istream(std::istream &i) : std::istringstream(unpack(i)) {} };
}
#endif

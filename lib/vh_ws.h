// RFC 6455 frames, written down once more
#ifndef VH_WS_H
#define VH_WS_H
#include "vh.h"
#include <frnetlib/WebFrame.h>

namespace vw
{
    struct Frame
    {
        bool fin = true, masked = false;
        unsigned rsv = 0, opcode = 1, form = 0; // form: bytes of extended length, 0, 2 or 8
        uint8_t key[4] = {0, 0, 0, 0};
        std::string payload;
    };
    inline unsigned shortest(uint64_t n) { return n <= 125 ? 0 : n <= 65535 ? 2 : 8; }
    inline std::string header(const Frame &f, uint64_t declared)
    {
        std::string o;
        o += (char)((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.opcode);
        const unsigned l = f.form == 0 ? (unsigned)declared : f.form == 2 ? 126 : 127;
        o += (char)((f.masked ? 0x80 : 0) | l);
        for(int a = (int)f.form - 1; a >= 0; a--) o += (char)(uint8_t)(declared >> (8 * a));
        if(f.masked) for(uint8_t k : f.key) o += (char)k;
        return o;
    }
    inline std::string encode(const Frame &f)
    {
        std::string o = header(f, f.payload.size());
        for(size_t a = 0; a < f.payload.size(); a++) o += f.masked ? (char)((uint8_t)f.payload[a] ^ f.key[a % 4]) : f.payload[a];
        return o;
    }
    // Takes one frame off a stream. False if it isn't all there.
    inline bool decode(const std::string &s, size_t &at, Frame &f)
    {
        auto b = [&](size_t n) { return (uint64_t)(uint8_t)s[n]; };
        size_t p = at;
        if(s.size() - p < 2) return false;
        f.fin = b(p) >> 7; f.rsv = (unsigned)(b(p) >> 4 & 7); f.opcode = (unsigned)(b(p) & 15);
        f.masked = b(p + 1) >> 7;
        uint64_t n = b(p + 1) & 127;
        f.form = n == 126 ? 2 : n == 127 ? 8 : 0;
        p += 2;
        if(f.form)
        {
            if(s.size() - p < f.form) return false;
            n = 0;
            for(unsigned a = 0; a < f.form; a++) n = n << 8 | b(p++);
        }
        if(f.masked)
        {
            if(s.size() - p < 4) return false;
            for(auto &k : f.key) k = (uint8_t)b(p++);
        }
        if(s.size() - p < n) return false;
        f.payload.assign(s, p, n);
        if(f.masked) for(size_t a = 0; a < n; a++) f.payload[a] = (char)((uint8_t)f.payload[a] ^ f.key[a % 4]);
        at = p + n;
        return true;
    }
    inline std::unique_ptr<fr::WebFrame> make(bool client)
    {
        if(client) return std::unique_ptr<fr::WebFrame>(new fr::ClientWebFrame());
        return std::unique_ptr<fr::WebFrame>(new fr::ServerWebFrame());
    }
    inline fr::WebFrame::Opcode opcode(unsigned n) { return (fr::WebFrame::Opcode)n; }
}
#endif

// C02: the bytes on the wire are those of the documented layout, compared with an encoder and decoder of our own
#define VH_MAIN
#include <vh_packet.h>
#include <frnetlib/TcpSocket.h>
#include <sys/socket.h>
using namespace vp;

// Both ends of a connection: one held by the library, the other ours
struct Pair
{
    fr::TcpSocket sock;
    int peer;
    Pair()
    {
        int fds[2];
        if(socketpair(AF_UNIX, SOCK_STREAM, 0, fds) != 0) { perror("socketpair"); _exit(94); }
        int big = 8 << 20;
        for(int fd : fds) { setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); }
        sock.set_descriptor(&fds[0]);
        peer = fds[1];
    }
    ~Pair() { close(peer); }
    std::string take(size_t n)
    {
        std::string r(n, '\0');
        size_t got = 0;
        while(got < n)
        {
            ssize_t k = ::recv(peer, &r[got], n - got, 0);
            if(k <= 0) break;
            got += (size_t)k;
        }
        r.resize(got);
        return r;
    }
};
static std::string show_names(const std::vector<std::unique_ptr<Item>> &items)
{
    std::string r;
    for(auto &i : items) r += (r.empty() ? "" : ",") + i->name();
    return r;
}
static void exchange(const std::vector<std::unique_ptr<Item>> &items)
{
    std::string want;
    bool exact = true;
    fr::Packet p;
    for(auto &i : items) { i->add(p); i->enc(want); exact &= i->exact(); }
    if(want.size() > 3000000) return;
    Pair c;
    if(c.sock.send(p) != fr::Socket::Status::Success)
    {
        vh::violation("send-failed", show_names(items));
        return;
    }
    ::shutdown(c.sock.get_socket_descriptor(), SHUT_WR);
    std::string wire = c.take(want.size() + 4 + 64);
    std::string head = wire.substr(0, 4), body = wire.size() > 4 ? wire.substr(4) : "";
    std::string len;
    put_be(len, want.size(), 4);
    VH_CHECK(head == len, "length-prefix", "[", show_names(items), "] starts with ", vh::hex(head), " instead of ", vh::hex(len));
    VH_CHECK(body.size() == want.size(), "payload-size", "[", show_names(items), "] takes ", body.size(), " instead of ", want.size());
    if(exact)
        VH_CHECK(body == want, "layout", "[", show_names(items), "] is sent as ", vh::hex(body), " instead of ", vh::hex(want));
    Cur cu{body, 0};
    for(auto &i : items)
        if(!i->dec_equal(cu)) { vh::violation("layout-decoded", vh::cat(i->name(), " in [", show_names(items), "] decodes differently from ", vh::hex(body))); break; }
    VH_CHECK(p.size() == want.size(), "size", show_names(items));

    // Now the other way around, from bytes which the library had no part in
    std::string out = len + want;
    Pair d;
    if(::send(d.peer, out.data(), out.size(), MSG_NOSIGNAL) != (ssize_t)out.size()) { perror("send"); _exit(94); }
    fr::Packet q;
    auto st = d.sock.receive(q);
    if(st != fr::Socket::Status::Success) { vh::violation("receive-failed", vh::cat((int)st, " ", show_names(items))); return; }
    try
    {
        for(auto &i : items)
            VH_CHECK(i->extract_equal(q), "decoded-value", i->name(), " in [", show_names(items), "] from ", vh::hex(want));
        VH_CHECK(q.get_bytes_remaining() == 0, "decoded-left", show_names(items));
    }
    catch(const std::exception &e) { vh::violation("decode-threw", vh::cat(e.what(), " for [", show_names(items), "] ", vh::hex(want))); }
    vh::count("packets on the wire", 2);
    vh::count("bytes on the wire", wire.size() + out.size());
    vh::distinct(vh::hash_str(want));
    vh::sample("exchange", show_names(items) + " = " + vh::hex(wire, 60), 4);
}
VH_SECTION(single_types, 16000, 200000)
{
    std::vector<std::unique_ptr<Item>> items;
    items.push_back(factories()[index % factories().size()](rng));
    vh::count("values of " + items[0]->name());
    exchange(items);
}
// Counts which don't fit in 16 bits
VH_SECTION(large, 96, 300)
{
    std::vector<std::unique_ptr<Item>> items;
    items.push_back(large_item(rng, index % 8 == 6 ? 8 : (unsigned)index % 8));
    vh::count("large values");
    exchange(items);
}
VH_SECTION(sequences, 12000, 200000)
{
    std::vector<std::unique_ptr<Item>> items;
    size_t n = rng.below(12);
    for(size_t a = 0; a < n; a++) items.push_back(random_item(rng));
    exchange(items);
}
// All 8 and 16 bit values, and single bits of the larger ones
VH_SECTION(integers, 64, 64)
{
    fr::Packet p;
    std::string want;
    auto both = [&](auto v) { p << v; Tr<decltype(v)>::enc(want, v); };
    for(uint32_t v = 0; v < 1024; v++)
    {
        both((uint16_t)(v + index * 1024));
        both((int16_t)(v + index * 1024));
        if(v < 256) both((uint8_t)v);
    }
    both((uint32_t)1 << (index % 32)); both((int32_t)((uint32_t)1 << (index % 32))); both((uint64_t)1 << index); both((int64_t)((uint64_t)1 << index));
    both(index % 2 == 0);
    uint64_t w = rng.u64();
    float f; double d; uint32_t w32 = (uint32_t)w;
    memcpy(&f, &w32, 4); memcpy(&d, &w, 8);
    both(f); both(d);
    Pair c;
    c.sock.send(p);
    std::string wire = c.take(want.size() + 4), len;
    put_be(len, want.size(), 4);
    VH_CHECK(wire == len + want, "layout", "integers ", index);
    vh::count("packets on the wire");
    vh::evaluated(2300);
    vh::distinct(vh::hash_str(want));
}

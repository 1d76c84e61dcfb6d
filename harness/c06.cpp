// C06: the receive size limit is enforced before a message is buffered
#define VH_MAIN
#include <vh.h>
#include <vh_alloc.h>
#include <vh_mock.h>
#include <vh_net.h>
#include <vh_ws.h>
#include <frnetlib/Packet.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/WebSocket.h>
using vh::Rng;
using vh::MockSocket;
using fr::Packet;
using fr::Socket;
using fr::WebFrame;
typedef Socket::Status St;

enum Kind { PacketKind, ClientFrame, ServerFrame }; // the receiver's role
static const char *NAMES[] = {"packet", "frame to a client", "frame to a server"};
static std::string head(Rng &r, Kind k, uint64_t declared, unsigned form, vw::Frame *out = nullptr)
{
    if(k == PacketKind)
    {
        std::string s;
        for(int a = 3; a >= 0; a--) s += (char)(uint8_t)(declared >> (8 * a));
        return s;
    }
    vw::Frame f;
    f.masked = k == ServerFrame;
    f.form = form;
    f.opcode = r.pick<unsigned>({0, 1, 2, 9});
    for(auto &b : f.key) b = r.byte();
    if(out) *out = f;
    return vw::header(f, declared);
}
static std::string message(Rng &r, Kind k, const std::string &payload)
{
    if(k == PacketKind) return head(r, k, payload.size(), 0) + payload;
    vw::Frame f;
    unsigned form = vw::shortest(payload.size());
    if(r.chance(1, 4)) form = 8;
    head(r, k, payload.size(), form, &f);
    f.payload = payload;
    return vw::encode(f);
}
// Either kind of message
struct Receiver
{
    Kind k;
    Packet p;
    std::unique_ptr<WebFrame> f;
    explicit Receiver(Kind kind) : k(kind) { if(k != PacketKind) f = vw::make(k == ClientFrame); }
    St receive(Socket &s) { return k == PacketKind ? s.receive(p) : s.receive(*f); }
    St wait(Socket &s) { St st; do st = receive(s); while(st == St::WouldBlock); return st; }
    std::string got()
    {
        if(f) return f->get_payload();
        Packet c(p);
        std::string s(c.get_bytes_remaining(), '\0');
        if(!s.empty()) c.extract_raw(&s[0], s.size());
        return s;
    }
};
static uint32_t limit(Rng &r)
{
    switch(r.below(5))
    {
        case 0: return 1 + (uint32_t)r.below(5);
        case 1: return 120 + (uint32_t)r.below(12);
        case 2: return 65530 + (uint32_t)r.below(12);
        case 3: return 1 + (uint32_t)r.below(100000);
        default: { uint32_t v = (uint32_t)r.word(); return v ? v : 1; }
    }
}
// A length beyond the limit. False if the kind of message can't declare one.
static bool beyond(Rng &r, Kind k, uint32_t lim, uint64_t &declared, unsigned &form)
{
    const uint64_t top = k == PacketKind ? 0xFFFFFFFFull : ~0ull;
    if(lim == top) return false;
    switch(r.below(5))
    {
        case 0: declared = (uint64_t)lim + 1; break;
        case 1: declared = lim + 1 + r.below(10); break;
        case 2: declared = top - r.below(3); break;
        case 3: declared = k == PacketKind ? r.word() & 0xFFFFFFFF : ((1 + r.below(200)) << 32) + r.below((uint64_t)lim + 1); break; // small if cut to 32 bits
        default: declared = r.word() & top; break;
    }
    if(k != PacketKind && r.chance(1, 6)) declared = (1ull << 63) + r.below((uint64_t)lim + 1);
    if(declared > top || declared <= lim) declared = (uint64_t)lim + 1;
    form = vw::shortest(declared);
    if(r.chance(1, 4)) form = 8;
    return true;
}

// Messages within the limit, then one beyond it of which there's only the beginning
VH_FUZZ_SECTION(refused, 96000, 500000)
{
    Rng &r = rng;
    const Kind k = (Kind)r.below(3);
    const uint32_t lim = limit(r);
    uint64_t declared; unsigned form;
    if(!beyond(r, k, lim, declared, form)) return;
    MockSocket in(&r);
    in.set_max_receive_size(lim);
    in.max_chunk = r.pick<size_t>({1, 3, SIZE_MAX});
    in.block_pct = r.coin() ? 0 : 30;
    in.runaway = 3000000;
    std::vector<std::string> good;
    for(size_t n = r.below(3); n > 0; n--)
    {
        size_t size = r.coin() && lim < 70000 ? lim - r.below(std::min<uint64_t>(lim, 3)) : r.size(std::min<size_t>(lim, 3000));
        good.push_back(r.bytes(size));
        in.in += message(r, k, good.back());
    }
    vw::Frame f;
    const std::string h = head(r, k, declared, form, &f);
    in.in += h;
    const size_t from = in.in.size();
    // as much as the header only, or also some of it, which looks like messages that could be received
    const unsigned follows = (unsigned)r.below(3);
    if(follows == 1) in.in += r.bytes(1 + r.below(200));
    else if(follows == 2) for(int a = 0; a < 5; a++) in.in += message(r, k, r.bytes(r.below(std::min<uint64_t>(lim, 20) + 1)));
    in.at_end = follows ? r.pick({St::WouldBlock, St::Disconnected}) : St::WouldBlock;
    Receiver v(k);
    for(auto &g : good)
    {
        St st = v.wait(in);
        VH_CHECK(st == St::Success, "within-limit-refused", NAMES[k], " of ", g.size(), " bytes, limit ", lim, ": ", vh::status_name(st));
        if(st != St::Success) return;
        VH_CHECK(v.got() == g, "within-limit-content", NAMES[k], " of ", g.size(), " bytes, limit ", lim);
        vh::count("delivered within the limit");
    }
    const std::string what = vh::cat(NAMES[k], " of ", declared, " bytes, limit ", lim, ", length in ", form);
    St st;
    {
        // it should be clear by the end of the header, so that's as often as it may be told to come back
        vh::AllocScope heap;
        size_t turns = 0;
        do st = v.receive(in); while(st == St::WouldBlock && (in.in_pos < in.in.size() || ++turns < 3));
        // Messages received before may be kept, so this is on top of those
        VH_CHECK(heap.largest() <= 0x10000, "allocated", what, ": ", heap.largest(), " bytes at once");
        vh::count("heap observations");
    }
    VH_CHECK(st == St::MaxPacketSizeExceeded, "not-refused", what, follows ? "" : ", only the header there", ": ", vh::status_name(st));
    if(st != St::MaxPacketSizeExceeded) return;
    VH_CHECK(in.in_pos <= from, "payload-read", what, ": ", in.in_pos - from, " bytes of it");
    VH_CHECK(!in.connected(), "still-connected", what);
    for(int a = 0; a < 3; a++)
    {
        st = v.receive(in);
        VH_CHECK(st != St::Success, "received-after-refusal", what);
    }
    vh::count(std::string("refused ") + NAMES[k]);
    vh::distinct(vh::hash_str(h, lim));
    if(vh::want_sample("refused", 3)) vh::sample("refused", what, 3);
}
// Every size around a limit
VH_SECTION(around, 2400, 6000)
{
    Rng &r = rng;
    const Kind k = (Kind)(index % 3);
    const uint32_t lim = index < 390 ? (uint32_t)(index / 3) + 1 : r.coin() ? 65530 + (uint32_t)r.below(12) : 1 + (uint32_t)r.below(3000);
    for(uint64_t size = lim > 4 ? lim - 4 : 0; size <= (uint64_t)lim + 4; size++)
    {
        vh::evaluated();
        MockSocket in(&r);
        in.set_max_receive_size(lim);
        std::string payload = r.bytes(size);
        in.in = message(r, k, payload);
        Receiver v(k);
        St st = v.wait(in);
        if(size <= lim)
        {
            VH_CHECK(st == St::Success && v.got() == payload, "within-limit-refused", NAMES[k], " of ", size, " bytes, limit ", lim, ": ", vh::status_name(st));
            VH_CHECK(in.connected(), "closed-within-limit", NAMES[k], " of ", size, " bytes, limit ", lim);
        }
        else
        {
            VH_CHECK(st == St::MaxPacketSizeExceeded, "not-refused", NAMES[k], " of ", size, " bytes, limit ", lim, ": ", vh::status_name(st));
            VH_CHECK(!in.connected(), "still-connected", NAMES[k], " of ", size, " bytes, limit ", lim);
        }
        vh::count("sizes around a limit");
    }
    vh::distinct(lim * 4ull + k);
}
// No limit, or not any more
VH_SECTION(unlimited, 240, 400)
{
    Rng &r = rng;
    const Kind k = (Kind)r.below(3);
    MockSocket in(&r);
    VH_CHECK(in.get_max_receive_size() == 0, "initial-limit", in.get_max_receive_size());
    if(r.coin()) { in.set_max_receive_size(limit(r)); in.set_max_receive_size(0); }
    else if(r.coin()) in.set_max_receive_size(0xFFFFFFFF);
    std::string payload = r.bytes(r.pick<size_t>({0, 1, 70000, 1 << 20, (8 << 20) + 3}));
    in.in = message(r, k, payload);
    in.max_chunk = r.pick<size_t>({100000, SIZE_MAX});
    Receiver v(k);
    St st = v.wait(in);
    VH_CHECK(st == St::Success && v.got() == payload, "unlimited-refused", NAMES[k], " of ", payload.size(), " bytes: ", vh::status_name(st));
    VH_CHECK(in.connected(), "unlimited-closed", NAMES[k]);
    vh::count("without a limit");
    vh::distinct(payload.size() * 4 + k);
}
// On a real connection: the peer sees the end, and the socket can be used for another one
VH_SECTION(real, 1600, 6000)
{
    Rng &r = rng;
    const Kind k = (Kind)r.below(3);
    const bool websocket = k != PacketKind && r.coin();
    vn::Server srv;
    fr::TcpSocket tcp;
    fr::WebSocket<fr::TcpSocket> web;
    Socket &s = websocket ? (Socket&)web : tcp;
    fr::TcpListener l;
    const uint32_t lim = r.coin() ? 1 + (uint32_t)r.below(200) : limit(r);
    uint64_t declared; unsigned form;
    if(!beyond(r, k, lim, declared, form)) return;
    const bool before = r.coin();
    if(before) s.set_max_receive_size(lim);
    for(int round = 0; round < 2; round++)
    {
        vn::Fd peer;
        if(websocket || r.coin())
        {
            // sockets which have been handed a descriptor; without a handshake in the case of a WebSocket
            auto p = r.coin() ? vn::pair() : vn::tcp_pair();
            int32_t x = p.first.release();
            if(websocket) web.fr::TcpSocket::set_descriptor(&x); else tcp.set_descriptor(&x);
            peer = std::move(p.second);
        }
        else
        {
            if(tcp.connect("127.0.0.1", srv.port_text(), std::chrono::seconds(5)) != St::Success) { vh::violation("connect", strerror(errno)); return; }
            peer = srv.accept();
        }
        if(!before) s.set_max_receive_size(lim);
        s.set_blocking(r.coin());
        std::string small = r.bytes(r.below(std::min<uint32_t>(lim, 500) + 1));
        std::string wire = message(r, k, small) + head(r, k, declared, form);
        if(r.coin()) wire += message(r, k, small) + message(r, k, small);
        vn::write_all(peer.fd, wire);
        Receiver v(k);
        const int32_t fd = s.get_socket_descriptor();
        St st = v.wait(s);
        VH_CHECK(st == St::Success && v.got() == small, "within-limit-refused", NAMES[k], " of ", small.size(), " bytes, limit ", lim, ": ", vh::status_name(st));
        st = v.wait(s);
        const std::string what = vh::cat(NAMES[k], " of ", declared, " bytes, limit ", lim, " over a real ", websocket ? "WebSocket" : "socket");
        VH_CHECK(st == St::MaxPacketSizeExceeded, "not-refused", what, ": ", vh::status_name(st));
        VH_CHECK(!s.connected(), "still-connected", what);
        VH_CHECK(vn::closed_within(peer.fd, 5000), "peer-still-connected", what);
        for(int a = 0; a < 2; a++) VH_CHECK(v.receive(s) != St::Success, "received-after-refusal", what);
        (void)fd;
        VH_CHECK(s.get_max_receive_size() == lim, "limit-lost", s.get_max_receive_size(), " instead of ", lim);
        vh::count("refused on real connections");
    }
    vh::distinct(vh::hash_str("real", declared ^ lim));
}

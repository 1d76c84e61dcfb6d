// A socket made of two strings, which splits and interrupts transfers as it is told to
#ifndef VH_MOCK_H
#define VH_MOCK_H
#include "vh.h"
#include <cerrno>
#include <frnetlib/Socket.h>

namespace vh
{
    class MockSocket : public fr::Socket
    {
    public:
        explicit MockSocket(Rng *r) : rng(r) {}

        // what arrives
        std::string in;
        size_t in_pos = 0;
        size_t max_chunk = SIZE_MAX;          // most bytes handed over at once
        unsigned block_pct = 0;               // chance of a read being told to come back later
        Status at_end = Status::Disconnected; // once everything has arrived
        size_t end_pauses = 0;                // how often a blocking pause was reported at the end
        // explicit schedule: positions in the stream at which one WouldBlock/Timeout is reported
        std::vector<std::pair<size_t, Status>> stops;
        size_t next_stop = 0;
        // what's sent
        std::string out;
        size_t max_send = SIZE_MAX;
        unsigned send_block_pct = 0;
        size_t send_fail_at = SIZE_MAX;       // fails once this much has been sent
        // what was observed
        uint64_t reads = 0, blocks = 0, sends = 0, send_blocks = 0, closes = 0;
        bool is_connected = true, blocking = true;
        size_t runaway = 50000000;

        Status connect(const std::string &, const std::string &, std::chrono::seconds) override { is_connected = true; return Status::Success; }
        Status set_blocking(bool b) override { blocking = b; return Status::Success; }
        bool get_blocking() const override { return blocking; }
        int32_t get_socket_descriptor() const noexcept override { return is_connected ? 1000000 : -1; }
        bool connected() const override { return is_connected; }
        void set_descriptor(void *) override {}
        Status send_raw(const char *data, size_t size, size_t &sent) override
        {
            sends++;
            if(!is_connected) return Status::Disconnected;
            while(sent < size)
            {
                if(out.size() >= send_fail_at) return Status::SendError;
                if(send_block_pct && rng->below(100) < send_block_pct) { send_blocks++; errno = EWOULDBLOCK; return Status::WouldBlock; }
                size_t n = size - sent;
                if(max_send != SIZE_MAX) n = std::min(n, 1 + (size_t)rng->below(max_send));
                n = std::min(n, send_fail_at - out.size());
                out.append(data + sent, n);
                sent += n;
            }
            return Status::Success;
        }
        Status receive_raw(void *data, size_t size, size_t &received) override
        {
            received = 0;
            if(++reads > runaway) { note_death("endless reading"); _exit(97); }
            if(!is_connected) return Status::ReceiveError;
            if(size == 0) return Status::Disconnected; // as recv() would appear to
            if(next_stop < stops.size() && in_pos == stops[next_stop].first)
            {
                blocks++;
                errno = EWOULDBLOCK;
                return stops[next_stop++].second;
            }
            if(in_pos == in.size())
            {
                end_pauses++;
                errno = EWOULDBLOCK;
                return at_end;
            }
            if(block_pct && rng->below(100) < block_pct) { blocks++; errno = EWOULDBLOCK; return Status::WouldBlock; }
            size_t n = std::min(size, in.size() - in_pos);
            if(max_chunk != SIZE_MAX) n = std::min(n, 1 + (size_t)rng->below(max_chunk));
            if(next_stop < stops.size() && stops[next_stop].first > in_pos) n = std::min(n, stops[next_stop].first - in_pos);
            memcpy(data, in.data() + in_pos, n);
            in_pos += n;
            received = n;
            return Status::Success;
        }
    protected:
        void close_socket() override { if(is_connected) closes++; is_connected = false; }
        void reconfigure_socket() override {}
        Rng *rng;
    };

    inline const char *status_name(fr::Socket::Status s)
    {
        static const char *n[] = {"Unknown", "Success", "ListenFailed", "BindFailed", "Disconnected", "Error", "WouldBlock", "ConnectionFailed",
            "HandshakeFailed", "VerificationFailed", "MaxPacketSizeExceeded", "NotEnoughData", "ParseError", "HttpHeaderTooBig", "HttpBodyTooBig",
            "AddressLookupFailure", "SendError", "ReceiveError", "AcceptError", "SSLError", "NoRouteToHost", "Timeout"};
        return (unsigned)s < sizeof n / sizeof *n ? n[(unsigned)s] : "?";
    }
}
#endif

// Bit streams: every operation from an arbitrary valid state of the writer / reader.
#include <algorithm>
#include <bit>
#include <cstddef>
#include <cstdint>
#include <istream>
#include <limits>
#include <ostream>
#include <streambuf>
#define private public
#define protected public
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"
#undef private
#undef protected
#include "fly/types/bit_stream/bit_stream_reader.cpp"
#include "fly/types/bit_stream/bit_stream_writer.cpp"
#include "fly/types/bit_stream/detail/bit_stream.cpp"
using u8 = std::uint8_t;
using u64 = std::uint64_t;

#pragma clang diagnostic ignored "-Winvalid-offsetof"
extern "C" std::uint64_t const vp_off_buffer;
extern "C" std::uint64_t const vp_off_position;
std::uint64_t const vp_off_buffer = offsetof(fly::BitStreamReader, m_buffer);
std::uint64_t const vp_off_position = offsetof(fly::BitStreamReader, m_position);
extern "C" void vp_w_open(std::ostream &s, u64 *buffer, u8 *position)
{
    fly::BitStreamWriter w(s);
    *buffer = w.m_buffer;
    *position = w.m_position;
}
template <class T>
static void w_bits(std::ostream &s, long at, u64 *buffer, u8 *position, T bits, u8 size)
{
    fly::BitStreamWriter w(s);
    s.rdbuf()->pubseekpos(at);
    w.m_buffer = *buffer;
    w.m_position = *position;
    w.write_bits(bits, size);
    *buffer = w.m_buffer;
    *position = w.m_position;
}
#define W(N) \
    extern "C" void vp_w_bits##N(std::ostream &s, long at, u64 *b, u8 *p, std::uint##N##_t v, u8 n) { w_bits<std::uint##N##_t>(s, at, b, p, v, n); }
W(8) W(16) W(32) W(64)
extern "C" void vp_w_word(std::ostream &s, long at, u64 *b, u8 *p, std::uint16_t v)
{
    fly::BitStreamWriter w(s);
    s.rdbuf()->pubseekpos(at);
    w.m_buffer = *b, w.m_position = *p;
    w.write_word(v);
    *b = w.m_buffer, *p = w.m_position;
}
extern "C" void vp_w_byte(std::ostream &s, long at, u64 *b, u8 *p, u8 v)
{
    fly::BitStreamWriter w(s);
    s.rdbuf()->pubseekpos(at);
    w.m_buffer = *b, w.m_position = *p;
    w.write_byte(v);
    *b = w.m_buffer, *p = w.m_position;
}
extern "C" bool vp_w_finish(std::ostream &s, long at, u64 *b, u8 *p)
{
    fly::BitStreamWriter w(s);
    s.rdbuf()->pubseekpos(at);
    w.m_buffer = *b, w.m_position = *p;
    bool r = w.finish();
    *b = w.m_buffer, *p = w.m_position;
    return r;
}
struct RState
{
    u64 buffer;
    u8 position, remainder, header;
};
extern "C" void vp_r_open(std::istream &s, RState *o)
{
    fly::BitStreamReader r(s);
    *o = {r.m_buffer, r.m_position, r.m_remainder, r.header()};
}
// The constructor has run (on a well formed header); the reader is then in state o and the stream at position at.
#define READER fly::BitStreamReader r(s); s.rdbuf()->pubseekpos(at); r.m_buffer = o->buffer, r.m_position = o->position, r.m_remainder = o->remainder;
#define DONE *o = {r.m_buffer, r.m_position, r.m_remainder, r.header()};
#define R(N) \
    extern "C" u8 vp_r_read##N(std::istream &s, long at, RState *o, std::uint##N##_t *v, u8 n) { READER u8 k = r.read_bits(*v, n); DONE return k; }
#define P(N) \
    extern "C" u8 vp_r_peek##N(std::istream &s, long at, RState *o, std::uint##N##_t *v, u8 n) { READER u8 k = r.peek_bits(*v, n); DONE return k; }
R(8) R(16) R(32) R(64) P(8) P(16) P(32)
extern "C" bool vp_r_word(std::istream &s, long at, RState *o, std::uint16_t *v) { READER bool k = r.read_word(*v); DONE return k; }
extern "C" bool vp_r_byte(std::istream &s, long at, RState *o, u8 *v) { READER bool k = r.read_byte(*v); DONE return k; }
extern "C" void vp_r_discard(std::istream &s, long at, RState *o, u8 n) { READER r.discard_bits(n); DONE }
extern "C" bool vp_r_consumed(std::istream &s, long at, RState *o) { READER bool k = r.fully_consumed(); DONE return k; }

// SRC: src/utilities/ring_buffer.cpp src/components/ports/uart_port.cpp
// MODE: bits
// BOUNDS: every sequence of up to 5 write and read operations on buffers of 1 to 4 bytes (thorough: 7 operations, up to 5 bytes), every length within the free space, arbitrary data and offsets; arbitrary overfull writes for memory safety
// OPT: max_paths=60000
#include "util.hpp"
#include <utilities/ring_buffer.hpp>
#include <components/ports/uart_port.hpp>
using namespace s2e;
struct Ref {
  uint8_t d[64];
  int r = 0, w = 0;
  int n() const { return w - r; }
};
template <class W, class R> static void history(int cap, int steps, W write, R read) {
  Ref q;
  for (int s = 0; s < steps; s++) {
    if (sym_choose("operation", 0, 1) == 0) {
      int len = (int)sym_choose("write_length", 0, cap - q.n());
      int off = (int)sym_choose("write_offset", 0, 1);
      uint8_t b[16];
      for (int i = 0; i < 16; i++) b[i] = 0x55;
      for (int i = 0; i < len; i++) { uint8_t v = (uint8_t)sym_int("data", 0, 255); b[off + i] = v; q.d[q.w + i] = v; }
      int k = write(b, off, len);
      q.w += len;
      sym_assert(k == len, "every byte within the free space is accepted");
    } else {
      int len = (int)sym_choose("read_length", 0, cap);
      int off = (int)sym_choose("read_offset", 0, 1);
      uint8_t b[16];
      for (int i = 0; i < 16; i++) b[i] = 0xaa;
      int k = read(b, off, len);
      int e = len < q.n() ? len : q.n();
      sym_assert(k == e, "as many bytes as requested and available are returned");
      bool ok = true, out = true;
      for (int i = 0; i < e; i++) ok &= b[off + i] == q.d[q.r + i];
      for (int i = 0; i < 16; i++) if (i < off || i >= off + e) out &= b[i] == 0xaa;
      sym_assert(ok, "bytes come out in the order they were written");
      sym_assert(out, "nothing outside the destination is written");
      q.r += e;
    }
  }
}
static void ring(int cap, int steps) {
  utilities::RingBuffer rb(cap);
  history(cap, steps, [&](const uint8_t* b, int o, int l) { return rb.Write(b, o, l); }, [&](uint8_t* b, int o, int l) { return rb.Read(b, o, l); });
}
CHECK(fifo1) { ring(1, 5); }
CHECK(fifo2) { ring(2, 5); }
CHECK(fifo3) { ring(3, 4); }
CHECK(fifo4) { ring(4, 3); }
THOROUGH(fifo2_t) { ring(2, 7); }
THOROUGH(fifo3_t) { ring(3, 6); }
THOROUGH(fifo5_t) { ring(5, 4); }
// writes beyond the free space must stay inside the buffer, and reads terminate with bounded data
CHECK(overfull_is_memory_safe) {
  int cap = (int)sym_choose("capacity", 1, 3);
  utilities::RingBuffer rb(cap);
  uint8_t b[16], o[16];
  for (int i = 0; i < 16; i++) b[i] = (uint8_t)i;
  for (int s = 0; s < 3; s++) {
    int k = rb.Write(b, 0, (int)sym_choose("write_length", 0, 8));
    (void)k;
    int n = rb.Read(o, 0, (int)sym_choose("read_length", 0, 4));
    sym_assert(n >= 0 && n <= 4 && n <= cap, "a read returns at most the buffered bytes");
  }
}
// UART port: the two directions are independent FIFO channels
CHECK(uart_directions) {
  components::UartPort port(2, 2);
  uint8_t t[2], r[2], o[4] = {0, 0, 0, 0};
  for (int i = 0; i < 2; i++) { t[i] = (uint8_t)sym_int("tx", 0, 255); r[i] = (uint8_t)sym_int("rx", 0, 255); }
  int nt = (int)sym_choose("nt", 0, 2), nr = (int)sym_choose("nr", 0, 2);
  sym_assert(port.WriteTx(t, 0, nt) == nt && port.WriteRx(r, 0, nr) == nr, "all bytes are accepted");
  sym_assert(port.ReadTx(o, 0, 4) == nt, "transmitted bytes available");
  for (int i = 0; i < nt; i++) sym_assert(o[i] == t[i], "transmitted byte");
  sym_assert(port.ReadRx(o, 0, 4) == nr, "received bytes available");
  for (int i = 0; i < nr; i++) sym_assert(o[i] == r[i], "received byte");
  sym_assert(port.ReadRx(o, 0, 4) == 0 && port.ReadTx(o, 0, 4) == 0, "nothing is left");
}
CHECK(uart_default_size) {
  components::UartPort port(0, 0);
  uint8_t b[1024], o[1024];
  for (int i = 0; i < 1024; i++) b[i] = (uint8_t)(i * 7);
  sym_assert(port.WriteTx(b, 0, 1024) == 1024 && port.ReadTx(o, 0, 1024) == 1024, "default port holds 1024 bytes");
  bool ok = true;
  for (int i = 0; i < 1024; i++) ok &= o[i] == (uint8_t)(i * 7);
  sym_assert(ok, "default port keeps them in order");
}

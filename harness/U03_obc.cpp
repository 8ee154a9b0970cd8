// SRC: src/components/real/cdh/on_board_computer.cpp src/components/base/component.cpp src/components/base/uart_communication_with_obc.cpp src/components/base/i2c_target_communication_with_obc.cpp src/components/base/gpio_connection_with_obc.cpp src/components/ports/uart_port.cpp src/components/ports/i2c_port.cpp src/components/ports/gpio_port.cpp
// MODE: bits
// BOUNDS: ports 0..2, up to 4 messages of up to 3 bytes per direction, buffers of 4 bytes, every data byte, every I2C register run within the device, every GPIO level sequence of length 4; SILS mode
// STUBS: power port ini reader unused
#include "util.hpp"
#include <components/real/cdh/on_board_computer.hpp>
#include <components/base/uart_communication_with_obc.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/base/gpio_connection_with_obc.hpp>
using namespace s2e;
using namespace s2e::components;
static uint8_t any(const char* n) { return (uint8_t)sym_int(n, 0, 255); }
struct Dev : public UartCommunicationWithObc {
  Dev(int port, OnBoardComputer* obc, int tx, int rx) : UartCommunicationWithObc((unsigned)port, (unsigned)tx, (unsigned)rx, obc) {}
  int parsed = -1, tlm = 0, off = 0;
  uint8_t got[16], out[16];
  int ParseCommand(const int n) { parsed = n; for (int i = 0; i < n; i++) got[i] = rx_buffer_[off + i]; return 77; }
  int GenerateTelemetry() { for (int i = 0; i < tlm; i++) tx_buffer_[off + i] = out[i]; return tlm; }
  int receive(int o, int n) { off = o; parsed = -1; return ReceiveCommand(o, n); }
  int send(int o, int n) { off = o; tlm = n; return SendTelemetry(o); }
};
// commands from the OBC reach the component in order
CHECK(uart_command) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  int port = 1;
  Dev dev(port, &obc, 2, 4), other(1 - port, &obc, 2, 4);
  sym_assert(dev.IsConnected() && other.IsConnected(), "ports are connected");
  uint8_t q[8];
  int qn = 0, qr = 0;
  for (int s = 0; s < 3; s++) {
    if (sym_choose("operation", 0, 1) == 0) {
      int free = 2 - (qn - qr);  // ring of the transmit direction has at least this room
      int n = (int)sym_choose("command_length", 0, free);
      uint8_t b[4];
      for (int i = 0; i < n; i++) { b[i] = any("command"); q[qn++] = b[i]; }
      sym_assert(obc.SendFromObc(port, b, 0, n) == n, "command is accepted");
    } else {
      int o = 2 * (int)sym_choose("offset", 0, 1), n = (int)sym_choose("receive_length", 0, 3);
      int r = dev.receive(o, n);
      if (o + n > 4) { sym_assert(r == -1 && dev.parsed == -1, "a read beyond the buffer is refused"); }
      else {
        int e = n < qn - qr ? n : qn - qr;
        if (e == 0) sym_assert(r == 0 && dev.parsed == -1, "no command, nothing parsed");
        else {
          sym_assert(r == 77 && dev.parsed == e, "the component parses the received bytes");
          for (int i = 0; i < e; i++) sym_assert(dev.got[i] == q[qr + i], "command bytes in order");
          qr += e;
        }
      }
    }
  }
  sym_assert(other.receive(0, 3) == 0, "other port receives nothing");
}
// telemetry reaches the OBC in order; telemetry beyond the buffer is refused
CHECK(uart_telemetry) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  int tx = (int)sym_choose("tx_size", 1, 4), rx = (int)sym_choose("rx_size", 1, 4);
  Dev dev(2, &obc, tx, rx), other(0, &obc, 4, 4);
  uint8_t o[8];
  int off = (int)sym_choose("offset", 0, 2), n = (int)sym_choose("telemetry_length", 0, 4);
  for (int i = 0; i < n; i++) dev.out[i] = any("telemetry");
  if (off + n <= tx) {
    sym_assert(dev.send(off, n) == 0, "telemetry within the transmit buffer is sent");
    sym_assert(obc.ReceivedByObc(2, o, 0, 8) == n, "the OBC receives every byte");
    for (int i = 0; i < n; i++) sym_assert(o[i] == dev.out[i], "telemetry bytes in order");
  }
  sym_assert(obc.ReceivedByObc(0, o, 0, 8) == 0, "other port has no telemetry");
  uint8_t b = 1;
  sym_assert(obc.SendFromObc(1, &b, 0, 1) == -1 && obc.ReceivedByObc(1, &b, 0, 1) == -1 && obc.SendFromCompo(1, &b, 0, 1) == -1 && obc.ReceivedByCompo(1, &b, 0, 1) == -1, "unconnected ports report an error");
}
struct Big : public UartCommunicationWithObc {
  Big(int port, OnBoardComputer* obc) : UartCommunicationWithObc((unsigned)port, obc) {}
  int n = 0, parsed = 0;
  int ParseCommand(const int k) { parsed = k; return 1; }
  int GenerateTelemetry() { return n; }
  int send(unsigned o) { return SendTelemetry(o); }
  int receive(unsigned o, unsigned k) { return ReceiveCommand(o, k); }
};
CHECK(uart_refusals) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  Big dev(0, &obc);
  uint8_t o[8];
  unsigned off = (unsigned)sym_int("offset", 0, 0xffffffffl), k = (unsigned)sym_int("receive_length", 0, 0xffffffffl);
  sym_assume((unsigned long)off + k > 1024);
  sym_assert(dev.receive(off, k) == -1 && dev.parsed == 0, "a read beyond the buffer is refused");
  dev.n = (int)sym_int("telemetry_length", 0, 0x7fffffff);
  unsigned off2 = (unsigned)sym_int("send_offset", 0, 0x7fffffff);
  sym_assume((unsigned long)off2 + dev.n > 1024);
  sym_assert(dev.send(off2) == -1, "telemetry beyond the buffer is refused");
  sym_assert(obc.ReceivedByObc(0, o, 0, 8) == 0, "nothing was sent");
}
// closing and re-opening
CHECK(uart_connection) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  bool open[3] = {false, false, false};
  uint8_t b = 3;
  for (int s = 0; s < 3; s++) {
    int p = (int)sym_choose("port", 0, 2);
    switch (sym_choose("operation", 0, 2)) {
      case 0: sym_assert(obc.ConnectComPort(p, 4, 4) == (open[p] ? -1 : 0), "connect succeeds only on a free port"); open[p] = true; break;
      case 1: sym_assert(obc.CloseComPort(p) == (open[p] ? 0 : -1), "close succeeds only on a connected port"); open[p] = false; break;
      default: sym_assert(obc.SendFromObc(p, &b, 0, 1) == (open[p] ? 1 : -1), "only connected ports carry data");
    }
  }
}
CHECK(component_disconnects) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  { Dev a(1, &obc, 4, 4); { Dev b(1, &obc, 4, 4); sym_assert(!b.IsConnected(), "second component on a port is refused"); }
    uint8_t x = 9; sym_assert(obc.SendFromObc(1, &x, 0, 1) == 1, "the first component keeps its connection"); }
  sym_assert(obc.ConnectComPort(1, 4, 4) == 0, "destroying the component frees its port");
}
// I2C registers seen by the component
CHECK(i2c_registers) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  int a = (int)sym_choose("address", 0, 2);
  uint8_t addr[3] = {0, 0x11, 0xfe};
  I2cTargetCommunicationWithObc dev(1u, addr[a], &obc), other(1u, (uint8_t)0x2a, &obc), third(2u, addr[a], &obc);
  int reg = (int)sym_choose("register", 0, 3);
  static const int R[4] = {0, 1, 100, 251};
  int n = (int)sym_choose("length", 0, 3);
  uint8_t w[3], r[4] = {9, 9, 9, 9};
  for (int i = 0; i < n; i++) w[i] = any("value");
  dev.WriteRegister((uint8_t)R[reg], w, (uint8_t)n);
  dev.ReadRegister((uint8_t)R[reg], r, 4);
  for (int i = 0; i < n; i++) sym_assert(r[i] == w[i], "each register holds the byte written to it");
  for (int i = n; i < 4; i++) sym_assert(r[i] == 0, "registers not written keep their reset value");
  other.ReadRegister((uint8_t)R[reg], r, 3);
  sym_assert(r[0] == 0 && r[1] == 0 && r[2] == 0, "another device on the bus is not affected");
  third.ReadRegister((uint8_t)R[reg], r, 3);
  sym_assert(r[0] == 0 && r[1] == 0 && r[2] == 0, "a device on another port is not affected");
}
CHECK(i2c_port) {
  I2cPort p(4);
  p.RegisterDevice(7);
  p.RegisterDevice(8);
  static const int R[3] = {1, 3, 4};
  uint8_t ref[2][4] = {{0, 0, 0, 0}, {0, 0, 0, 0}};
  for (int s = 0; s < 2; s++) {
    int d = (int)sym_choose("device", 0, 1), r = R[sym_choose("register", 0, 2)];
    uint8_t v = any("value");
    int k = p.WriteRegister((uint8_t)(7 + d), (uint8_t)r, v);
    sym_assert((k != 0) == (r < 4), "writes outside the register file are refused");
    if (r < 4) ref[d][r] = v;
  }
  for (int d = 0; d < 2; d++) for (int r = 0; r < 6; r++) sym_assert(p.ReadRegister((uint8_t)(7 + d), (uint8_t)r) == (r < 4 ? ref[d][r] : 0), "register contents");
}
// sequential reads continue from the selected register and wrap round
CHECK(i2c_sequential) {
  I2cPort p(4);
  p.RegisterDevice(7);
  p.RegisterDevice(8);
  uint8_t ref[2][4];
  for (int d = 0; d < 2; d++) for (int r = 0; r < 4; r++) { ref[d][r] = any("value"); p.WriteRegister((uint8_t)(7 + d), (uint8_t)r, ref[d][r]); }
  int d = (int)sym_choose("read_device", 0, 1), s = (int)sym_choose("start", 0, 3);
  sym_assert(p.WriteRegister((uint8_t)(7 + d), (uint8_t)s) != 0, "register selected");
  for (int i = 0; i < 6; i++) sym_assert(p.ReadRegister((uint8_t)(7 + d)) == ref[d][(s + i) % 4], "sequential read");
}
CHECK(i2c_command) {
  I2cPort p(4);
  p.RegisterDevice(7);
  int n = (int)sym_choose("length", 1, 3);
  uint8_t c[3], o[4] = {1, 1, 1, 1};
  c[0] = (uint8_t)sym_choose("c0", 0, 4);
  for (int i = 1; i < n; i++) c[i] = any("command");
  sym_assert(p.WriteCommand(7, c, (uint8_t)n) == n && p.ReadCommand(7, o, (uint8_t)n) == n, "command length");
  for (int i = 0; i < n; i++) sym_assert(o[i] == c[i], "command bytes");
  if (n == 1 && c[0] < 4) { p.WriteRegister(7, 3, 0x33); p.WriteCommand(7, c, 1); sym_assert(p.ReadRegister(7) == (c[0] == 3 ? 0x33 : 0), "one byte selects the register to read"); }
  if (n == 2) for (int r = 0; r < 4; r++) sym_assert(p.ReadRegister(7, (uint8_t)r) == (r == c[0] ? c[1] : 0), "two bytes write one register");
  if (n == 3) for (int r = 0; r < 4; r++) sym_assert(p.ReadRegister(7, (uint8_t)r) == 0, "longer commands do not touch the registers");
}
struct Gp : public IGPIOCompo { int n = 0, port = -1; bool level = false; void GpioStateChanged(const int p, const bool e) { n++; port = p; level = e; } };
CHECK(gpio_port) {
  Gp g;
  GpioPort p(5, &g);
  bool st = false;
  sym_assert(!p.DigitalRead(), "initially low");
  for (int i = 0; i < 4; i++) {
    bool v = sym_choose("level", 0, 1) != 0;
    int before = g.n;
    p.DigitalWrite(v);
    sym_assert(p.DigitalRead() == v, "reads back the level");
    sym_assert(g.n == before + (v != st), "the component is notified exactly on a change");
    if (v != st) sym_assert(g.port == 5 && g.level == v, "notification carries port and level");
    st = v;
  }
}
CHECK(gpio_obc) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  std::vector<int> ids;
  ids.push_back(3);
  ids.push_back(1);
  GpioConnectionWithObc dev(ids, &obc);
  bool lv[2] = {false, false};
  for (int i = 0; i < 3; i++) {
    int k = (int)sym_choose("index", 0, 1);
    bool v = sym_choose("level", 0, 1) != 0, by_obc = sym_choose("by_obc", 0, 1) != 0;
    if (by_obc) obc.GpioComponentWrite(ids[k], v); else dev.Write(k, v);
    lv[k] = v;
    sym_assert(dev.Read(0) == lv[0] && dev.Read(1) == lv[1] && obc.GpioComponentRead(3) == lv[0] && obc.GpioComponentRead(1) == lv[1], "both sides see the level of each line");
  }
  sym_assert(obc.GpioComponentWrite(0, true) == -1 && !obc.GpioComponentRead(0) && obc.GpioConnectPort(3) == -1, "unconnected and occupied ports are reported");
}
// every port number but the connected one is refused
CHECK(any_port) {
  environment::ClockGenerator clk;
  OnBoardComputer obc(&clk);
  int at = (int)sym_choose("connected", -1, 1), p = (int)sym_int("port", -2147483648l, 2147483647l), k = (int)sym_choose("kind", 0, 2);
  uint8_t b = any("value"), r = 0;
  obc.ConnectComPort(at, 4, 4);
  obc.GpioConnectPort(at);
  obc.I2cConnectPort(at, 9);
  if (k == 0) {
    sym_assert(obc.SendFromObc(p, &b, 0, 1) == (p == at ? 1 : -1), "only the connected port carries data");
    sym_assert(obc.ReceivedByCompo(p, &r, 0, 1) == (p == at ? 1 : -1) && r == (p == at ? b : 0), "only the connected port carries data");
    sym_assert(obc.ReceivedByCompo(at, &r, 0, 1) == 0, "a byte sent to another port does not arrive here");
  } else if (k == 1) {
    sym_assert(obc.GpioComponentWrite(p, true) == (p == at ? 0 : -1), "only the connected line has a level");
    sym_assert(obc.GpioComponentRead(at) == (p == at) && obc.GpioComponentRead(p) == (p == at), "only the connected line has a level");
  } else {
    sym_assert(obc.I2cComponentWriteRegister(p, 9, 7, &b, 1) == (p == at ? 0 : -1), "only the connected bus is there");
    sym_assert(obc.I2cComponentReadRegister(at, 9, 7, &r, 1) == 0 && r == (p == at ? b : 0), "a register of another bus is not written");
    sym_assert(obc.I2cComponentReadRegister(p, 9, 7, &r, 1) == (p == at ? 0 : -1) && obc.I2cComponentReadCommand(p, 9, &r, 1) == (p == at ? 0 : -1), "an unconnected bus is refused");
  }
}

// SRC: src/components/real/cdh/on_board_computer_with_c2a.cpp src/components/real/cdh/on_board_computer.cpp src/components/base/component.cpp src/components/base/i2c_target_communication_with_obc.cpp src/components/base/gpio_connection_with_obc.cpp src/components/ports/uart_port.cpp src/components/ports/i2c_port.cpp src/components/ports/gpio_port.cpp src/components/ports/power_port.cpp src/environment/global/clock_generator.cpp
// MODE: bits
// FLAGS: -DUSE_C2A
// BOUNDS: ports 0..2, up to 3 messages of up to 2 bytes, every byte, register runs of up to 3, connection histories and level sequences of length 3, up to 3 main routines of up to 5 flight software steps
// STUBS: the flight software is stand-ins that record the calls made to it
// OVERRIDE: flight software (TMGR_*, TDSP_*, WDT_init, C2A_core_init)
#include "util.hpp"
#include <components/real/cdh/on_board_computer_with_c2a.hpp>
#include <components/base/i2c_target_communication_with_obc.hpp>
#include <components/base/gpio_connection_with_obc.hpp>
#include <components/base/uart_communication_with_obc.hpp>
using namespace s2e;
using namespace s2e::components;
int OBC_C2A_SendFromObc(int, unsigned char*, int, int);
int OBC_C2A_ReceivedByObc(int, unsigned char*, int, int);
int OBC_C2A_I2cWriteCommand(int, const unsigned char, const unsigned char*, const unsigned char);
int OBC_C2A_I2cWriteRegister(int, const unsigned char, const unsigned char*, const unsigned char);
int OBC_C2A_I2cReadRegister(int, const unsigned char, unsigned char*, const unsigned char);
int OBC_C2A_GpioWrite(int, const bool);
bool OBC_C2A_GpioRead(int);
static int g_init, g_core, g_wdt, g_clear, g_ticks, g_tasks, g_bad;
void TMGR_init(void) { g_init++; }
void C2A_core_init(void) { if (!g_init) g_bad++; g_core++; }
void WDT_init(void) { g_wdt++; }
void TMGR_clear(void) { if (!g_core) g_bad++; g_clear++; }
void TMGR_count_up_master_clock(void) { if (!g_clear || g_ticks != g_tasks) g_bad++; g_ticks++; }
void TDSP_execute_pl_as_task_list(void) { if (g_ticks != g_tasks + 1) g_bad++; g_tasks++; }
static uint8_t any(const char* n) { return (uint8_t)sym_int(n, 0, 255); }
// the flight software is started once, and then runs its clock and its tasks the set number of times per main routine
CHECK(flight_software) {
  environment::ClockGenerator clk;
  int n = (int)sym_choose("steps per main routine", 1, 5), k = (int)sym_choose("main routines", 1, 3), pw = (int)sym_choose("constructor", 0, 2);
  PowerPort port;
  ObcWithC2a* o = pw == 0 ? new ObcWithC2a(&clk) : pw == 1 ? new ObcWithC2a(&clk, n) : new ObcWithC2a(1, &clk, n, &port);
  if (pw == 0) n = 1;
  sym_assert(g_core == 0, "the flight software does not start before the first main routine");
  for (int i = 0; i < k; i++) o->MainRoutine(i);
  sym_assert(g_bad == 0 && g_init == 1 && g_core == 1 && g_wdt == 1 && g_clear == 1, "the flight software is started once, before it runs");
  sym_assert(g_ticks == n * k && g_tasks == n * k, "one clock step and one run of the tasks per millisecond");
}
// UART: either side's bytes arrive at the other side in order
CHECK(uart) {
  environment::ClockGenerator clk;
  ObcWithC2a a(&clk);
  OnBoardComputer* obc = &a;
  int p = 1, q = 2;
  uint8_t out[8], tx[8], rx[8];
  sym_assert(obc->ConnectComPort(p, 4, 4) == 0 && obc->ConnectComPort(q, 4, 4) == 0, "free ports are connected");
  int tn = 0, tr = 0, rn = 0, rr = 0;
  for (int s = 0; s < 3; s++) {
    int op = (int)sym_choose("operation", 0, 5), fsw = op > 3, n = (int)sym_choose("length", 1, 2), o = s % 2;
    if (op == 4) op = 0;
    if (op == 5) op = 3;
    uint8_t b[4];
    if (op == 0 && tn - tr + n <= 4) {
      for (int i = 0; i < n; i++) b[o + i] = tx[tn++] = any("command");
      sym_assert((fsw ? OBC_C2A_SendFromObc(p, b, o, n) : obc->SendFromObc(p, b, o, n)) == n, "a command is accepted");
    } else if (op == 1 && rn - rr + n <= 4) {
      for (int i = 0; i < n; i++) b[o + i] = rx[rn++] = any("telemetry");
      sym_assert(obc->SendFromCompo(p, b, o, n) == n, "telemetry is accepted");
    } else if (op == 2) {
      int e = n < tn - tr ? n : tn - tr;
      sym_assert(obc->ReceivedByCompo(p, out, o, n) == e, "the component gets what was sent");
      for (int i = 0; i < e; i++) sym_assert(out[o + i] == tx[tr++], "command bytes in order");
    } else if (op == 3) {
      int e = n < rn - rr ? n : rn - rr;
      sym_assert((fsw ? OBC_C2A_ReceivedByObc(p, out, o, n) : obc->ReceivedByObc(p, out, o, n)) == e, "the flight software gets what was sent");
      for (int i = 0; i < e; i++) sym_assert(out[o + i] == rx[rr++], "telemetry bytes in order");
    }
  }
  sym_assert(obc->ReceivedByCompo(q, out, 0, 4) == 0 && OBC_C2A_ReceivedByObc(q, out, 0, 4) == 0, "other ports carry nothing");
}
CHECK(connections) {
  environment::ClockGenerator clk;
  ObcWithC2a obc(&clk);
  bool open[3] = {false, false, false}, gpio[3] = {false, false, false}, i2c[3] = {false, false, false};
  uint8_t b = 3;
  for (int s = 0; s < 3; s++) {
    int p = (int)sym_choose("port", 0, 1), op = (int)sym_choose("operation", 0, 4), k = op % 3;
    switch (op / 3) {
      case 0:
        if (k == 0) { sym_assert(obc.ConnectComPort(p, 4, 4) == (open[p] ? -1 : 0), "connect succeeds only on a free port"); open[p] = true; }
        if (k == 1) { sym_assert(obc.GpioConnectPort(p) == (gpio[p] ? -1 : 0), "a level line is connected once"); gpio[p] = true; }
        if (k == 2) { sym_assert(obc.I2cConnectPort(p, 9) == 0, "devices share a bus"); i2c[p] = true; }
        break;
      default:
        if (k == 0) { sym_assert(obc.CloseComPort(p) == (open[p] ? 0 : -1), "close succeeds only on a connected port"); open[p] = false; }
        if (k == 1) { sym_assert(obc.I2cCloseComPort(p) == (i2c[p] ? 0 : -1), "close succeeds only on a connected bus"); i2c[p] = false; }
    }
  }
  for (int p = 0; p < 3; p++) {
    sym_assert(OBC_C2A_SendFromObc(p, &b, 0, 1) == (open[p] ? 1 : -1) && OBC_C2A_ReceivedByObc(p, &b, 0, 1) == (open[p] ? 0 : -1), "only connected ports carry data");
    sym_assert(obc.SendFromCompo(p, &b, 0, 1) == (open[p] ? 1 : -1) && obc.ReceivedByCompo(p, &b, 0, 1) == (open[p] ? 1 : -1), "only connected ports carry data");
    sym_assert(OBC_C2A_GpioWrite(p, true) == (gpio[p] ? 0 : -1) && OBC_C2A_GpioRead(p) == gpio[p] && obc.GpioComponentRead(p) == gpio[p] && obc.GpioComponentWrite(p, false) == (gpio[p] ? 0 : -1), "only connected lines have a level");
    int w = i2c[p] ? 0 : -1;
    sym_assert(OBC_C2A_I2cWriteRegister(p, 9, &b, 1) == w && OBC_C2A_I2cWriteCommand(p, 9, &b, 1) == w && OBC_C2A_I2cReadRegister(p, 9, &b, 1) == w, "an unconnected bus is refused");
    sym_assert(obc.I2cComponentWriteRegister(p, 9, 0, &b, 1) == w && obc.I2cComponentReadRegister(p, 9, 0, &b, 1) == w && obc.I2cComponentReadCommand(p, 9, &b, 1) == w, "an unconnected bus is refused");
  }
}
// I2C: the flight software and the component see the same registers
CHECK(registers) {
  environment::ClockGenerator clk;
  ObcWithC2a obc(&clk);
  I2cTargetCommunicationWithObc dev(1u, 0x11, &obc), other(1u, 0x2a, &obc), third(2u, 0x11, &obc);
  static const int R[4] = {0, 1, 100, 251};
  int reg = R[sym_choose("register", 0, 3)], n = (int)sym_choose("length", 1, 3), by = (int)sym_choose("written by the flight software", 0, 1);
  uint8_t w[4], r[4] = {9, 9, 9, 9}, first = (uint8_t)reg;
  w[0] = first;
  for (int i = 0; i < n; i++) w[1 + i] = any("value");
  if (by) sym_assert(OBC_C2A_I2cWriteRegister(1, 0x11, w, (uint8_t)(n + 1)) == 0, "registers are written");
  else dev.WriteRegister(first, w + 1, (uint8_t)n);
  dev.ReadRegister(first, r, 4);
  for (int i = 0; i < 4; i++) sym_assert(r[i] == (i < n ? w[1 + i] : 0), "the component reads the registers written");
  sym_assert(OBC_C2A_I2cWriteRegister(1, 0x11, &first, 1) == 0 && OBC_C2A_I2cReadRegister(1, 0x11, r, 4) == 0, "the flight software reads on from the register it selected");
  for (int i = 0; i < 4; i++) sym_assert(r[i] == (i < n ? w[1 + i] : 0), "the flight software reads the registers written");
  other.ReadRegister(first, r, 3);
  sym_assert(r[0] == 0 && r[1] == 0 && r[2] == 0, "another device on the bus is not affected");
  third.ReadRegister(first, r, 3);
  sym_assert(r[0] == 0 && r[1] == 0 && r[2] == 0, "a device on another bus is not affected");
}
CHECK(commands) {
  environment::ClockGenerator clk;
  ObcWithC2a obc(&clk);
  I2cTargetCommunicationWithObc dev(1u, 0x11, &obc), other(1u, 0x2a, &obc);
  int n = (int)sym_choose("length", 1, 3);
  uint8_t c[3] = {(uint8_t)sym_choose("first byte", 0, 3), any("command"), any("command")}, o[3] = {1, 1, 1};
  sym_assert(OBC_C2A_I2cWriteCommand(1, 0x11, c, (uint8_t)n) == 0, "a command is sent");
  dev.ReadCommand(o, (uint8_t)n);
  for (int i = 0; i < n; i++) sym_assert(o[i] == c[i], "command bytes");
  other.ReadCommand(o, (uint8_t)n);
  for (int i = 0; i < n; i++) sym_assert(o[i] == 0, "another device gets no command");
}
// levels
CHECK(levels) {
  environment::ClockGenerator clk;
  ObcWithC2a obc(&clk);
  std::vector<int> ids;
  ids.push_back(3);
  ids.push_back(1);
  GpioConnectionWithObc dev(ids, &obc);
  bool lv[2] = {false, false};
  for (int i = 0; i < 3; i++) {
    int k = (int)sym_choose("index", 0, 1), by = (int)sym_choose("by", 0, 2);
    bool v = sym_choose("level", 0, 1) != 0;
    if (by == 0) OBC_C2A_GpioWrite(ids[k], v);
    else if (by == 1) obc.GpioComponentWrite(ids[k], v);
    else dev.Write(k, v);
    lv[k] = v;
    sym_assert(dev.Read(0) == lv[0] && dev.Read(1) == lv[1] && OBC_C2A_GpioRead(3) == lv[0] && OBC_C2A_GpioRead(1) == lv[1], "both sides see the level of each line");
  }
}
// every port number but the connected one is refused
CHECK(any_port) {
  environment::ClockGenerator clk;
  ObcWithC2a obc(&clk);
  int at = (int)sym_choose("connected", -1, 1), p = (int)sym_int("port", -2147483648l, 2147483647l);
  uint8_t b = any("value"), r = 0;
  obc.ConnectComPort(at, 4, 4);
  obc.GpioConnectPort(at);
  obc.I2cConnectPort(at, 9);
  int k = (int)sym_choose("kind", 0, 2);
  if (k == 0) {
    sym_assert(OBC_C2A_SendFromObc(p, &b, 0, 1) == (p == at ? 1 : -1), "only the connected port carries data");
    sym_assert(obc.ReceivedByCompo(p, &r, 0, 1) == (p == at ? 1 : -1) && r == (p == at ? b : 0), "only the connected port carries data");
    sym_assert(obc.ReceivedByCompo(at, &r, 0, 1) == 0, "a byte sent to another port does not arrive here");
  } else if (k == 1) {
    sym_assert(OBC_C2A_GpioWrite(p, true) == (p == at ? 0 : -1), "only the connected line has a level");
    sym_assert(obc.GpioComponentRead(at) == (p == at) && OBC_C2A_GpioRead(p) == (p == at), "only the connected line has a level");
  } else {
    uint8_t w[2] = {7, b};
    sym_assert(OBC_C2A_I2cWriteRegister(p, 9, w, 2) == (p == at ? 0 : -1), "only the connected bus is there");
    sym_assert(obc.I2cComponentReadRegister(at, 9, 7, &r, 1) == 0 && r == (p == at ? b : 0), "a register of another bus is not written");
  }
}

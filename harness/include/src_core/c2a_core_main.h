// stand-in for the flight software: counts what is called
#pragma once
#define C2A_CORE_VER_MAJOR 4
void C2A_core_init(void);

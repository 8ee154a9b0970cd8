#pragma once
void WDT_init(void);

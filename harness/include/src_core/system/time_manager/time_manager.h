#pragma once
void TMGR_init(void);
void TMGR_clear(void);
void TMGR_count_up_master_clock(void);

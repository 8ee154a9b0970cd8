#pragma once
void TDSP_execute_pl_as_task_list(void);

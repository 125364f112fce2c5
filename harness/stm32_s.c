/* X06: the reference driver of the slave, unchanged, on simulated peripherals (DRV_SRC: its source file) */
#define VH_ROLE s
#include "stm32_glue.h"
vh_mcu_t MCU;
#include DRV_SRC

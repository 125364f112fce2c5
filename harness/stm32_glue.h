/* Included before the source of a reference driver: the device header with the peripherals replaced by simulated ones. */
#include "stm32g070xx.h"
#include "stm32_regs.h"
#define VH_CAT_(a, b) a##b
#define VH_CAT(a, b) VH_CAT_(a, b)
#define USART2_IRQHandler VH_CAT(VH_ROLE, _usart_irq)
#define TIM7_LPTIM2_IRQHandler VH_CAT(VH_ROLE, _tim_irq)
#define MCU VH_CAT(VH_ROLE, _mcu)
extern vh_mcu_t MCU;
#undef USART2
#undef TIM7
#undef RCC
#undef GPIOA
#define USART2 (&MCU.usart)
#define TIM7 (&MCU.tim)
#define RCC (&MCU.rcc)
#define GPIOA (&MCU.gpio)
static inline int vh_rdr(void) { MCU.rdr_reads++; MCU.usart.ISR &= ~USART_ISR_RXNE_RXFNE; return 0; }
static inline int vh_tdr(void) { MCU.tdr_writes++; MCU.usart.ISR &= ~USART_ISR_TXE_TXFNF; return 0; }
#define RDR RDR_[vh_rdr()]
#define TDR TDR_[vh_tdr()]
#undef NVIC_SetPriority
#undef NVIC_EnableIRQ
#define NVIC_SetPriority(i, p) ((void)(i), (void)(p))
#define NVIC_EnableIRQ(i) ((void)(MCU.irqs |= (i) == USART2_IRQn ? 1u : (i) == TIM7_IRQn ? 2u : 4u))
#define rx_msg VH_CAT(VH_ROLE, _rx_msg)
#define tx_buf VH_CAT(VH_ROLE, _tx_buf)
#define FRAME_DETECTION_FLAG VH_CAT(VH_ROLE, _FRAME_DETECTION_FLAG)
#define mock_slave_tx_buffer VH_CAT(VH_ROLE, _mock_slave_tx_buffer)
#define get_master_RTU_driver_interface stm_master_interface
#define get_slave_RTU_driver_interface stm_slave_interface

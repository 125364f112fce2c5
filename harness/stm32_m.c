/* X06: the reference driver of the master, unchanged, on simulated peripherals (DRV_SRC: its source file) */
#define VH_ROLE m
#include "stm32_glue.h"
vh_mcu_t MCU;
#include DRV_SRC
const vh_bits_t vh_bits = {USART_CR1_UE, USART_CR1_RE, USART_CR1_TE, USART_CR1_RTOIE, USART_CR1_RXNEIE_RXFNEIE, USART_CR1_TXEIE_TXFNFIE, USART_CR1_PCE, USART_CR1_PS, USART_CR1_M0, USART_CR2_STOP_1, USART_CR2_RTOEN,
    USART_CR3_OVRDIS, USART_ISR_RXNE_RXFNE, USART_ISR_TXE_TXFNF, USART_ISR_RTOF, USART_ICR_RTOCF, TIM_CR1_CEN, TIM_CR1_OPM, TIM_CR1_URS, TIM_DIER_UIE, TIM_SR_UIF, TIM_EGR_UG, RCC_APBENR1_USART2EN, RCC_APBENR1_TIM7EN};

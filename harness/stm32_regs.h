/* Simulated registers of the microcontroller the reference drivers are written for (X06). */
#pragma once
#include <stdint.h>
typedef struct { volatile uint32_t CR1, CR2, CR3, BRR, GTPR, RTOR, RQR, ISR, ICR, RDR_[1], TDR_[1], PRESC; } vh_usart_t;
typedef struct { volatile uint32_t CR1, CR2, SMCR, DIER, SR, EGR, CCMR1, CCMR2, CCER, CNT, PSC, ARR; } vh_tim_t;
typedef struct { volatile uint32_t CR, ICSCR, CFGR, PLLCFGR, IOPENR, AHBENR, APBENR1, APBENR2; } vh_rcc_t;
typedef struct { volatile uint32_t MODER, OTYPER, OSPEEDR, PUPDR, IDR, ODR, BSRR, LCKR, AFR[2], BRR; } vh_gpio_t;
typedef struct {
    vh_usart_t usart; vh_tim_t tim; vh_rcc_t rcc; vh_gpio_t gpio;
    uint32_t rdr_reads, tdr_writes, irqs;      /* since the simulation looked last */
} vh_mcu_t;
/* bits the simulation needs, in the words of the device header */
typedef struct {
    uint32_t cr1_ue, cr1_re, cr1_te, cr1_rtoie, cr1_rxneie, cr1_txeie, cr1_pce, cr1_ps, cr1_m0, cr2_stop1, cr2_rtoen, cr3_ovrdis, isr_rxne, isr_txe, isr_rtof, icr_rtocf;
    uint32_t tim_cen, tim_opm, tim_urs, tim_uie, tim_uif, tim_ug, usart_clk, tim_clk;
} vh_bits_t;

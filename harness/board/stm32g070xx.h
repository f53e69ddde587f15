// Stand-in for the device header: the registers are objects that hand every access to the model of the hardware.
// The bit positions are those of the device header of the repository (bits.h is extracted from it).
#pragma once
#include <stdint.h>
extern "C" {
uint32_t hw_rd(const void *reg);
void hw_wr(const void *reg, uint32_t v);
void hw_nvic(int board, int irq, int on);
}
struct vreg
{
    uint32_t place;
    operator uint32_t() const { return hw_rd(this); }
    vreg &operator=(uint32_t v) { return hw_wr(this, v), *this; }
    vreg &operator=(const vreg &o) { return hw_wr(this, hw_rd(&o)), *this; }
    vreg &operator|=(uint32_t v) { return hw_wr(this, hw_rd(this) | v), *this; }
    vreg &operator&=(uint32_t v) { return hw_wr(this, hw_rd(this) & v), *this; }
    vreg &operator^=(uint32_t v) { return hw_wr(this, hw_rd(this) ^ v), *this; }
};
typedef struct
{
    vreg CR1, CR2, CR3, BRR, GTPR, RTOR, RQR, ISR, ICR, RDR, TDR, PRESC;
} USART_TypeDef;
typedef struct
{
    vreg CR1, CR2, SMCR, DIER, SR, EGR, CCMR1, CCMR2, CCER, CNT, PSC, ARR;
} TIM_TypeDef;
typedef struct
{
    vreg MODER, OTYPER, OSPEEDR, PUPDR, IDR, ODR, BSRR, LCKR, AFR[2], BRR;
} GPIO_TypeDef;
typedef struct
{
    vreg IOPENR, AHBENR, APBENR1, APBENR2;
} RCC_TypeDef;
struct fake_board_t
{
    USART_TypeDef usart2;
    TIM_TypeDef tim7;
    GPIO_TypeDef gpioa;
    RCC_TypeDef rcc;
};
extern fake_board_t fake_board[2];
#ifndef BOARD
#define BOARD 0
#endif
#define USART2 (&fake_board[BOARD].usart2)
#define TIM7 (&fake_board[BOARD].tim7)
#define GPIOA (&fake_board[BOARD].gpioa)
#define RCC (&fake_board[BOARD].rcc)
typedef enum
{
    TIM7_IRQn = 18,
    USART2_IRQn = 28,
} IRQn_Type;
static inline void NVIC_SetPriority(IRQn_Type, uint32_t) {}
static inline void NVIC_EnableIRQ(IRQn_Type i) { hw_nvic(BOARD, i, 1); }
static inline void NVIC_DisableIRQ(IRQn_Type i) { hw_nvic(BOARD, i, 0); }
static inline void __disable_irq(void) {}
static inline void __enable_irq(void) {}
#include "bits.h"

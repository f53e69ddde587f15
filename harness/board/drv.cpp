// One of the example drivers, in a namespace of its own, on the modelled hardware.
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include "stm32g070xx.h"
#include "modbus_driver_interface.h"
#include "modbus_driver_config.h"
#if BOARD == 0
#define drv drv_master
#else
#define drv drv_slave
#endif
namespace drv
{
#include DRIVER
}
extern "C" {
#if BOARD == 0
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return drv::get_master_RTU_driver_interface(); }
void m_usart_irq(void) { drv::MODBUS_USART_IRQHandler(); }
void m_timer_irq(void) { drv::MODBUS_TIMER_IRQHandler(); }
#else
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return drv::get_slave_RTU_driver_interface(); }
void s_usart_irq(void) { drv::MODBUS_USART_IRQHandler(); }
void s_timer_irq(void) { drv::MODBUS_TIMER_IRQHandler(); }
#endif
}

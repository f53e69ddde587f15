/* Compiled with the headers of the variant under test: what it was configured to. */
#include "modbus_type.h"
const int cfg_N = MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS;
const int cfg_TO = MODBUS_MASTER_RESP_TIME_OUT_MS;
const int cfg_R = MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR;
const int cfg_coils = MAIN_APP_COILS_QTY;
const int cfg_din = MAIN_APP_DISCRET_INPUTS_QTY;
const int cfg_inreg = MAIN_APP_INPUT_REG_QTY;
const int cfg_hreg = MAIN_APP_HOLDING_REG_QTY;
/* so that the sections exist even if the library had no such variables */
char cfg_keep_data __attribute__((section("libdata"))) = 1;
char cfg_keep_bss __attribute__((section("libbss"))) = 1;

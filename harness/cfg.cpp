#include "vh.hpp"
extern "C" {
#include "modbus_config.h"
}
static constexpr unsigned lim(unsigned v) { return v < 65535u ? v : 65535u; }
const LibCfg LC = {MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS, MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR, MODBUS_MASTER_RESP_TIME_OUT_MS,
                   lim(MAIN_APP_COILS_QTY), lim(MAIN_APP_DISCRET_INPUTS_QTY), lim(MAIN_APP_INPUT_REG_QTY), lim(MAIN_APP_HOLDING_REG_QTY)};

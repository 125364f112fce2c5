"""Makes trees /tmp/rf/*/src: copies of /repo/src refactored without changing what they do. No check may fire on them:
for d in /tmp/rf/r*; do for p in S01 ...; do python3 check.py $p --src $d/src; done; done"""
import os,shutil,subprocess,sys
R='/repo/src'
MA='modbus_master.c';SL='modbus_slave.c';MP='master_internall/modbus_master_PDU.c';SP='slave_internall/modbus_slave_PDU.c';SD='slave_internall/modbus_slave_data.c'
Q='master_internall/modbus_queue.c';RT='common/modbus_RTU.c';CR='common/modbus_crc.c';PC='common/modbus_PDU_common.c';BR='common/buf_rw.c'
os.makedirs('/tmp/rf',exist_ok=True)
def mk(name, edits):
    d=f'/tmp/rf/{name}'; shutil.rmtree(d,ignore_errors=True); shutil.copytree(R,d+'/src')
    for f,o,n in edits:
        p=f'{d}/src/{f}'; t=open(p).read(); assert t.count(o)==1,(name,f,t.count(o),o); open(p,'w').write(t.replace(o,n))
mk('r1_slave', [
 (SL,'''        slave_msg_ptr->req.len = 0;
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    }
    else if''','''        drop_frame();
    }
    else if'''),
 (SL,'''        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
        slave_msg_ptr->resp.len = 0;
        slave_msg_ptr->req.len = 0;
        // the events of everything received until now are dropped together with it
        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    }''','''        slave_msg_ptr->resp.len = 0;
        drop_frame();
    }'''),
 (SL,'''/**
 * @brief Handles the Modbus slave state machine in the idle state.''','''static void drop_frame(void)
{
    TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
    slave_msg_ptr->req.len = 0;
    slave_manager_state_machine = MODBUS_SLAVE_IDLE;
}

/**
 * @brief Handles the Modbus slave state machine in the idle state.'''),
 (SL,'''    switch (slave_manager_state_machine)
    {
    case MODBUS_SLAVE_IDLE:
        handle_modbus_slave_idle_state();
        break;
    case MODBUS_SLAVE_MSG_RECIVED:
        handle_modbus_slave_msg_recived_state();
        break;
    case MODBUS_SLAVE_TRANSMITTING_RESP:
        handle_modbus_slave_transmitting_resp_state();
        break;
    default:
        handle_modbus_slave_default_state();
        break;
    }''','''    const modbus_slave_state_t state = slave_manager_state_machine;
    if (MODBUS_SLAVE_TRANSMITTING_RESP == state)
    {
        handle_modbus_slave_transmitting_resp_state();
    }
    else if (MODBUS_SLAVE_MSG_RECIVED == state)
    {
        handle_modbus_slave_msg_recived_state();
    }
    else if (MODBUS_SLAVE_IDLE == state)
    {
        handle_modbus_slave_idle_state();
    }
    else
    {
        handle_modbus_slave_default_state();
    }'''),
 (SL,'''        modbus_ret_t RTU_status;
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
        if ((RTU_status != RET_OK) || (RET_OK != check_master_request_len(&slave_msg_ptr->req)))
        {
            FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
        }
        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;''','''        const bool accepted = (RET_OK == check_master_request_len(&slave_msg_ptr->req)) && (RET_OK == modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID));
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;
        if (!accepted)
        {
            FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
        }'''),
 (SL,'#include <stddef.h>','#include <stddef.h>\n#include <stdbool.h>\n\nstatic void drop_frame(void);'),
 (SL,'''        parse_master_request_and_prepare_resp(slave_msg_ptr);
        modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
        RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
        slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;''','''        modbus_req_resp_t *const resp = &slave_msg_ptr->resp;
        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        (void)parse_master_request_and_prepare_resp(slave_msg_ptr);
        (void)modbus_RTU_send(resp->data, &resp->len, modbus_slave_ID);
        RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
        slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
        slave_RTU_driver->send(resp->data, resp->len);'''),
])
mk('r2_common', [
 (CR,'''        uint8_t idx = (*data_buf++) ^ CRC;
        CRC >>= 8;
        CRC ^= CRC_loock_up_table[idx];''','''        CRC ^= *data_buf++;
        for (uint8_t bit = 0; bit < 8U; bit++)
        {
            CRC = (uint16_t)((CRC & 1U) ? ((CRC >> 1) ^ 0xA001U) : (CRC >> 1));
        }'''),
 (CR,'static const uint16_t CRC_loock_up_table[] =','__attribute__((unused)) static const uint16_t CRC_loock_up_table[] ='),
 (BR,'    return (uint16_t)((buf[0] << 8) | buf[1]); // Combine bytes to form uint16_t','    uint16_t value = buf[1];\n    value += (uint16_t)(256U * buf[0]);\n    return value;'),
 (BR,'''    buf[0] = (uint8_t)(data >> 8);   // Most significant byte
    buf[1] = (uint8_t)(data & 0xFF); // Least significant byte''','''    buf[1] = (uint8_t)data;
    buf[0] = (uint8_t)(data / 256U);'''),
 (PC,'''    modbus_byte_count_t byte_count;

    byte_count = (coil_qty / 8);
    if (coil_qty % 8)
    {
        byte_count++;
    }
    return byte_count;''','''    return (modbus_byte_count_t)((coil_qty + 7U) / 8U);'''),
 (PC,'''    for (uint8_t i = 0; i < qty; i++)
    {
        *(buf + i) = 0;
    }''','''    memset(buf, 0, qty);'''),
 (PC,'#include "modbus_PDU_common.h"\n\n','#include "modbus_PDU_common.h"\n#include <string.h>\n\n'),
 (RT,'''    if (slave_ID != buf[MODBUS_SLAVE_ADR_IDX])
    {
        return RET_ERROR_SLAVE_ID;
    }
    else if (0 != calculate_CRC(buf, msg_len))
    {
        return RET_ERROR_CRC;
    }
    else
        return RET_OK;''','''    modbus_ret_t ret = (0 == calculate_CRC(buf, msg_len)) ? RET_OK : RET_ERROR_CRC;
    if (buf[MODBUS_SLAVE_ADR_IDX] != slave_ID)
    {
        ret = RET_ERROR_SLAVE_ID;
    }
    return ret;'''),
 (Q,'''    if (q->head == q->tail)
    {
        if (q->items_in_queue == MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS)
        {
            return;
        }
        else
        {
            q->modbus_msg[q->head] = *data;
            q->items_in_queue++;
            q->head = new_head;
            *data = NULL;
        }
    }
    else
    {
        q->modbus_msg[q->head] = *data;
        q->head = new_head;
        q->items_in_queue++;
        *data = NULL;
    }''','''    if (q->items_in_queue < MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS)
    {
        modbus_msg_t *item = *data;
        *data = NULL;
        q->items_in_queue++;
        q->modbus_msg[q->head] = item;
        q->head = new_head;
    }'''),
])
mk('r3_master', [
 (MA,'''    modbus_master_msg_repeat_couter++;
    if (MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR >= modbus_master_msg_repeat_couter)
    {
        modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
        MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        msg_buf->resp.len = 0;
    }
    else
    {

        static modbus_master_error_report_t error_rep;
        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
        error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
        modbus_master_communication_error(&error_rep);
        modbus_master_msg_process_end();
    }
}''','''    attempt_failed(&MODBUS_MASTER_RTU_CRC_ERROR_FLAG, MODBUS_MASTER_RESP_RTU_CRC_ERR);
}'''),
 (MA,'''    modbus_master_msg_repeat_couter++;
    if (MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR >= modbus_master_msg_repeat_couter)
    {
        modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        msg_buf->resp.len = 0;
    }
    else
    {

        static modbus_master_error_report_t error_rep;
        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
        error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
        modbus_master_communication_error(&error_rep);
        modbus_master_msg_process_end();
    }
}''','''    attempt_failed(&MODBUS_MASTER_FRAME_ERROR_FLAG, MODBUS_MASTER_RESP_FRAME_ERR);
}'''),
 (MA,'''/**
 * @brief Handles CRC error during Modbus master communication.''','''static void attempt_failed(modbus_status_flag_t *flag, int kind)
{
    if (modbus_master_msg_repeat_couter++ >= MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR)
    {
        const modbus_buf_t *req = msg_buf->req.data;
        modbus_master_error_report_t error_rep = {0};
        error_rep.resp_read_error = kind;
        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
        error_rep.data_adr = read_u16_from_buf(req + MODBUS_REQUEST_ADR_IDX);
        error_rep.fun_conde = req[MODBUS_FUNCTION_CODE_IDX];
        error_rep.slave_ID = req[MODBUS_SLAVE_ADR_IDX];
        modbus_master_communication_error(&error_rep);
        modbus_master_msg_process_end();
        return;
    }
    msg_buf->resp.len = 0;
    *flag = MODBUS_FLAG_CLEARED;
    modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
}

/**
 * @brief Handles CRC error during Modbus master communication.'''),
 (MA,'''    if ((MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))
    {
        modbus_master_frame_error_state_handling();
    }
    else if ((MODBUS_FLAG_SET == MODBUS_MASTER_RTU_CRC_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))
    {
        modbus_master_RTU_CRC_error_state_handling();
    }
    else if ((MODBUS_FLAG_CLEARED == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_CLEARED == MODBUS_MASTER_RTU_CRC_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))
    {
        modbus_master_msg_recived_correctly_state_handle();
    }
    else
    {
        // do nothing untill 3_5TFlag is not set
    }''','''    if (MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG)
    {
        modbus_master_frame_error_state_handling();
        return;
    }
    if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_RTU_CRC_ERROR_FLAG)
    {
        modbus_master_msg_recived_correctly_state_handle();
        return;
    }
    modbus_master_RTU_CRC_error_state_handling();'''),
 (MA,'''    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
    if (RET_ERROR_CRC == RTU_status)
    {
        modbus_master_disable_resp_timeout_timer();
        MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_SET;
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
    }
    else if (RET_ERROR_SLAVE_ID == RTU_status)
    {
        msg_buf->resp.len = 0;
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
    }
    else // RET_OK
    {
        modbus_master_disable_resp_timeout_timer();
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
    }''','''    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
    switch (RTU_status)
    {
    case RET_ERROR_SLAVE_ID:
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        msg_buf->resp.len = 0;
        break;
    case RET_ERROR_CRC:
        MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_SET;
        // fall through
    default:
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
        modbus_master_disable_resp_timeout_timer();
        break;
    }'''),
 (MA,'static void modbus_master_msg_process_end(void);','static void modbus_master_msg_process_end(void);\nstatic void attempt_failed(modbus_status_flag_t *flag, int kind);'),
 (MA,'''    for (uint32_t i = 0; i < master_mapper_size; i++)
    {
        if (master_functions_mapper[i].fun_code == req_param->fun_code)
        {
            PDU_ret_status = master_functions_mapper[i].fun_code_action(msg_buf, req_param);
        }
    }''','''    const struct modbus_master_functions_mapper *m = master_functions_mapper;
    while (master_mapper_size-- > 0U)
    {
        if (m->fun_code == req_param->fun_code)
        {
            PDU_ret_status = m->fun_code_action(msg_buf, req_param);
            break;
        }
        m++;
    }'''),
 (MA,'''    modbus_master_msg_repeat_couter = 0;
    modbus_queue_push(free_q, &msg_buf);
    modbus_master_manager_state_machine = MODBUS_MASTER_IDLE;''','''    modbus_master_manager_state_machine = MODBUS_MASTER_IDLE;
    modbus_queue_push(free_q, &msg_buf);
    modbus_master_msg_repeat_couter = 0;'''),
 (MA,'''    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
    RTU_driver->enable_rcev(&msg_buf->resp);
    modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;''','''    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
    modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
    RTU_driver->enable_rcev(&msg_buf->resp);'''),
])
mk('r4_pdu', [
 (MP,'''        return (0 == memcmp(req + MODBUS_REQUEST_ADR_IDX, resp + MODBUS_RESP_WRITE_ADR_IDX, 4)) ? RET_OK : RET_ERROR_WRITE_OUT_ADR;''','''        for (uint8_t i = 0; i < 4U; i++)
        {
            if (req[MODBUS_REQUEST_ADR_IDX + i] != resp[MODBUS_RESP_WRITE_ADR_IDX + i])
            {
                return RET_ERROR_WRITE_OUT_ADR;
            }
        }
        return RET_OK;'''),
 (MP,'''    for (modbus_data_qty_t i = 0; i < data_qty; i++)
    {
        if (0 != ((resp->data[MODBUS_RESP_READ_DATA_IDX + (i / 8)]) & (1 << (i % 8))))
        {
            modbus_master_coil_read(slave_adr, data_adr + i, !!COIL_ON);
        }
        else
        {
            modbus_master_coil_read(slave_adr, data_adr + i, !!COIL_OFF);
        }
    }''','''    const modbus_buf_t *byte = &resp->data[MODBUS_RESP_READ_DATA_IDX];
    uint8_t mask = 1;
    while (data_qty-- > 0U)
    {
        modbus_master_coil_read(slave_adr, data_adr++, (modbus_coil_disin_t)((*byte & mask) ? 1U : 0U));
        mask = (uint8_t)(mask << 1);
        if (0U == mask)
        {
            mask = 1;
            byte++;
        }
    }'''),
 (MP,'''    static modbus_read_data_t resp;
    resp.slave_ID''','''    modbus_read_data_t resp;
    resp.slave_ID'''),
 (MP,'''    for (uint32_t i = 0; i < mapper_size; i++)
    {
        if (modbus_master_function_mapper[i].fun_code == req_fun_code)
        {
            return modbus_master_function_mapper[i].fun_code_action(modbus_msg);
        }
    }

    return RET_ERROR;''','''    modbus_ret_t ret = RET_ERROR;
    for (uint32_t i = mapper_size; i > 0; i--)
    {
        if (modbus_master_function_mapper[i - 1U].fun_code == req_fun_code)
        {
            ret = modbus_master_function_mapper[i - 1U].fun_code_action(modbus_msg);
        }
    }
    return ret;'''),
 (SP,'''    for (modbus_data_qty_t i = 0; i < coil_din_qty; i++)
    {
        if (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8))))
        {
            status = set_coil_state(data_tab, (start_adr + i), 1);
        }
        else
        {
            status = set_coil_state(data_tab, (start_adr + i), 0);
        }
        if (status == RET_ERROR)
        {
            break;
        }
    }
    return status;''','''    modbus_data_qty_t i = 0;
    while ((i < coil_din_qty) && (RET_ERROR != status))
    {
        status = set_coil_state(data_tab, (modbus_adr_t)(start_adr + i), (data_state_ptr[i >> 3] >> (i & 7U)) & 1U);
        i++;
    }
    return status;'''),
 (SP,'''    for (modbus_data_qty_t i = 0; i < hreg_qty; i++)
    {
        status = set_register_value(Slave_Holding_Registers, adr + i, read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)]));
        if (RET_ERROR == status)
            break;
    }''','''    // all or nothing
    for (modbus_data_qty_t i = 0; (i < hreg_qty) && (RET_OK == status); i++)
    {
        status = (NULL == Slave_Holding_Registers[adr + i]) ? RET_ERROR : RET_OK;
    }
    for (modbus_data_qty_t i = hreg_qty; (i > 0) && (RET_OK == status); i--)
    {
        status = set_register_value(Slave_Holding_Registers, adr + i - 1, read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + ((i - 1) * 2)]));
    }'''),
 (SP,'''        modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i / 8)] |= (read_coil_val << (i % 8));
    }
    return''','''        if (0 != read_coil_val)
        {
            modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i / 8)] |= (1 << (i % 8));
        }
    }
    return'''),
])
mk('r5_noop', [])
import re
d='/tmp/rf/r5_noop/src'
for f in (MA,SL,MP,SP,SD,Q,RT,CR,PC,BR):
    p=f'{d}/{f}'; t=open(p).read()
    t=re.sub(r'\)\n\{\n', ')\n{\n    (void)0;\n    do\n    {\n    } while (0);\n', t)
    # only function bodies at column 0
    open(p,'w').write(t)
S=open(R+'/'+SL).read(); M=open(R+'/'+MA).read()
i=S.index('void check_modbus_request(void)'); j=S.index('\n}\n',i)+3; sf=S[i:j]
i=M.index('void update_modbus_master_manager(void)'); j=M.index('\n}\n',i)+3; mf=M[i:j]
mk('r6_stable', [
 (SL,sf,sf.replace('void check_modbus_request(void)','static void one_step(void)')+'''
void check_modbus_request(void)
{
    modbus_slave_state_t before;
    do
    {
        before = slave_manager_state_machine;
        one_step();
    } while (before != slave_manager_state_machine);
}
'''),
 (MA,mf,mf.replace('void update_modbus_master_manager(void)','static void one_step(void)')+'''
void update_modbus_master_manager(void)
{
    modbus_master_state_t before;
    do
    {
        before = modbus_master_manager_state_machine;
        one_step();
    } while (before != modbus_master_manager_state_machine);
}
''')])

mk('r8_order', [
 (SL,"""        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
        if ((RTU_status""","""        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        if ((RTU_status"""),
 (SL,"""        slave_msg_ptr->req.len = 0;
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    }
    else if""","""        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
        slave_msg_ptr->req.len = 0;
    }
    else if"""),
 (SL,"""    init_modbus_driver(mode, baud_rate, parity);
    init_modbus_slave_internall_data(slave_ID);
}""","""    init_modbus_slave_internall_data(slave_ID);
    init_modbus_driver(mode, baud_rate, parity);
}"""),
 (SL,"""        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
        slave_RTU_driver->subscribe_msg_tx_done_cb(modbus_resp_send_callback);
        slave_RTU_driver->subscribe_t_1_5_char_expired_cb(modbus_T_1_5_char_expired_callback);
        slave_RTU_driver->subscribe_t_3_5_char_expired_cb(modbus_T_3_5_char_expired_callback);
        slave_RTU_driver->subscribe_modbus_frame_error_cb(modbus_frame_error_callback);
""","""        slave_RTU_driver->subscribe_modbus_frame_error_cb(modbus_frame_error_callback);
        slave_RTU_driver->subscribe_t_3_5_char_expired_cb(modbus_T_3_5_char_expired_callback);
        slave_RTU_driver->subscribe_t_1_5_char_expired_cb(modbus_T_1_5_char_expired_callback);
        slave_RTU_driver->subscribe_msg_tx_done_cb(modbus_resp_send_callback);
        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
"""),
 (SP,"""    for (modbus_data_qty_t i = 0; i < hreg_qty; i++)
    {
        status = set_register_value(Slave_Holding_Registers, adr + i, read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)]));
        if (RET_ERROR == status)
            break;
    }""","""    const modbus_buf_t *value = &modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX];
    modbus_data_qty_t left = hreg_qty;
    while ((RET_ERROR != status) && (left > 0))
    {
        left--;
        status = set_register_value(Slave_Holding_Registers, (modbus_adr_t)(adr + left), read_u16_from_buf(value + 2 * left));
    }"""),
 (SP,"""    clear_coil_din_status_byte(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX], byte_cnt);
    for (modbus_data_qty_t i = 0; i < coil_qty; i++)
    {
        read_coil_val = get_coil_din_state(Slave_Coils, adr + i);
        if (RET_ERROR == read_coil_val)
        {
            set_exception_code_resp(modbus_msg, MODBUS_SERVER_DEVICE_FAILURE_ERROR);
            return RET_ERROR;
        }
        modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i / 8)] |= (read_coil_val << (i % 8));
    }""","""    modbus_buf_t collected = 0;
    for (modbus_data_qty_t i = 0; i < coil_qty; i++)
    {
        read_coil_val = get_coil_din_state(Slave_Coils, adr + i);
        if (RET_ERROR == read_coil_val)
        {
            set_exception_code_resp(modbus_msg, MODBUS_SERVER_DEVICE_FAILURE_ERROR);
            return RET_ERROR;
        }
        collected |= (modbus_buf_t)(read_coil_val << (i & 7));
        if (((i & 7) == 7) || (i + 1 == coil_qty))
        {
            modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i >> 3)] = collected;
            collected = 0;
        }
    }"""),
 (MA,"""    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
    RTU_driver->enable_rcev(&msg_buf->resp);
    modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;""","""    modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
    RTU_driver->enable_rcev(&msg_buf->resp);
    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);"""),
 (MA,"""        modbus_master_enable_resp_timeout_timer();
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;""","""        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
        modbus_master_enable_resp_timeout_timer();"""),
 (MA,"""    if (modbus_master_resp_timeout_timer)
    {
        modbus_master_resp_timeout_timer--;
    }""","""    if (modbus_master_resp_timeout_timer < MODBUS_MASTER_RESP_TIME_OUT_MS)
    {
        modbus_master_resp_timeout_timer++;
    }"""),
 (MA,"modbus_master_resp_timeout_timer = MODBUS_MASTER_RESP_TIME_OUT_MS;","modbus_master_resp_timeout_timer = 0;"),
 (MA,"""{
    modbus_master_resp_timeout_timer = 0;
}

/**
 * @brief Notifies""","""{
    modbus_master_resp_timeout_timer = MODBUS_MASTER_RESP_TIME_OUT_MS;
}

/**
 * @brief Notifies"""),
 (MA,"    else if (1 >= modbus_master_resp_timeout_timer)","    else if (MODBUS_MASTER_RESP_TIME_OUT_MS - 1 <= modbus_master_resp_timeout_timer)"),
 (MA,"""        msg_ptr = &modbus_msg[i];
""","""        msg_ptr = &modbus_msg[MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS - 1 - i];
"""),
 (MA,"""    modbus_master_msg_repeat_couter = 0;
    modbus_queue_push(free_q, &msg_buf);
    modbus_master_manager_state_machine = MODBUS_MASTER_IDLE;""","""    modbus_master_manager_state_machine = MODBUS_MASTER_IDLE;
    modbus_queue_push(free_q, &msg_buf);
    modbus_master_msg_repeat_couter = 0;"""),
 (Q,"    int32_t new_head = (q->head + 1) % MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS;","    int32_t new_head = q->head + 1;\n    if (new_head == MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS)\n    {\n        new_head = 0;\n    }"),
 (MP,"""    for (modbus_data_qty_t i = 0; i < req_param->obj_qty; i++)
    {
        modbus_coil_disin_t data = *(req_param->coils_2_write + i);
        msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i / 8)] |= (data << (i % 8));
    }""","""    for (modbus_data_qty_t i = req_param->obj_qty; i-- > 0;)
    {
        if (req_param->coils_2_write[i])
        {
            msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i / 8)] |= (modbus_buf_t)(1U << (i % 8));
        }
    }"""),
])
mk('r9_data', [
 (SD,'''    if (NULL != (hreg_tab_ptr[holding_reg_adr]))
    {
        *hreg_tab_ptr[holding_reg_adr] = hreg_val;
        return RET_OK;
    }
    else
    {
        return RET_ERROR;
    }''','''    modbus_reg_t *const variable = hreg_tab_ptr[holding_reg_adr];
    if (NULL == variable)
    {
        return RET_ERROR;
    }
    if (*variable != hreg_val)
    {
        *variable = hreg_val;
    }
    return RET_OK;'''),
 (SD,'''    if (NULL != coils_tab_ptr[coil_adr])
    {
        *coils_tab_ptr[coil_adr] = coil_state;
        return RET_OK;
    }
    else
    {
        return RET_ERROR;
    }''','''    modbus_ret_t ret = RET_ERROR;
    modbus_coil_disin_t *variable = coils_tab_ptr[coil_adr];
    if (variable)
    {
        *variable = coil_state ? true : false;
        ret = RET_OK;
    }
    return ret;'''),
 (SP,'''    for (modbus_data_qty_t i = 0; i < hreg_qty; i++)
    {
        status = set_register_value(Slave_Holding_Registers, adr + i, read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)]));
        if (RET_ERROR == status)
            break;
    }''','''    modbus_reg_t values[123];
    for (modbus_data_qty_t i = 0; i < hreg_qty; i++)
    {
        values[i] = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)]);
    }
    for (modbus_data_qty_t i = hreg_qty; (i > 0) && (RET_OK == status); i--)
    {
        status = set_register_value(Slave_Holding_Registers, adr + i - 1U, values[i - 1U]);
    }'''),
 (SP,'''    for (modbus_data_qty_t i = 0; i < reg_qty; i++)
    {
        read_hreg_val = get_register_state(Slave_Holding_Registers, adr + i);
        if (RET_ERROR == read_hreg_val)
        {
            set_exception_code_resp(modbus_msg, MODBUS_SERVER_DEVICE_FAILURE_ERROR);
            break;
        }
        else
        {
            write_u16_to_buf(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i * 2)], (modbus_reg_t)(read_hreg_val));
        }
    }''','''    modbus_buf_t *out = modbus_msg->resp.data + MODBUS_RESP_READ_DATA_IDX + byte_cnt;
    for (modbus_data_qty_t i = reg_qty; i > 0; i--)
    {
        read_hreg_val = get_register_state(Slave_Holding_Registers, adr + i - 1U);
        if (RET_ERROR == read_hreg_val)
        {
            set_exception_code_resp(modbus_msg, MODBUS_SERVER_DEVICE_FAILURE_ERROR);
            break;
        }
        *--out = (modbus_buf_t)read_hreg_val;
        *--out = (modbus_buf_t)(read_hreg_val >> 8);
    }'''),
 (MP,'''        uint16_t data = *(req_param->regs_2_write + i);
        write_u16_to_buf(msg_buf->req.data + (MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)), data);
''','''        modbus_reg_t item;
        memcpy(&item, &req_param->regs_2_write[i], sizeof(item));
        modbus_buf_t pair[2] = {(modbus_buf_t)(item >> 8), (modbus_buf_t)item};
        memcpy(&msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (2 * i)], pair, sizeof(pair));
'''),
 (Q,'''            ret = q->modbus_msg[q->tail];
            q->modbus_msg[q->tail] = NULL;
            q->items_in_queue--;
            q->tail = (q->tail + 1) % MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS;
        }''','''            const uint8_t at = q->tail;
            q->tail = (uint8_t)((at == MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS - 1) ? 0 : at + 1);
            ret = q->modbus_msg[at];
            q->modbus_msg[at] = NULL;
            --q->items_in_queue;
        }'''),
 (MA,'''    timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
    timeout_error.data_adr''','''    modbus_req_resp_t request = msg_buf->req;
    memset(&timeout_error, 0, sizeof(timeout_error));
    timeout_error.slave_ID = request.data[MODBUS_SLAVE_ADR_IDX];
    timeout_error.data_adr'''),
 (MA,'#include <stdio.h>','#include <stdio.h>\n#include <string.h>'),
])

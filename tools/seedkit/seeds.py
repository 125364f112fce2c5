# Planted bugs: (property, edits, demo).  Written from the property texts and the code.
SP = 'src/slave_internall/modbus_slave_PDU.c'; SD = 'src/slave_internall/modbus_slave_data.c'; SL = 'src/modbus_slave.c'
MA = 'src/modbus_master.c'; MP = 'src/master_internall/modbus_master_PDU.c'; Q = 'src/master_internall/modbus_queue.c'
PC = 'src/common/modbus_PDU_common.c'; RT = 'src/common/modbus_RTU.c'; CR = 'src/common/modbus_crc.c'; TY = 'src/common/modbus_type.h'
SEEDS = {}
def seed(id, prop, needs, breaks, edits, demo, **k):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k)
main = lambda body: 'int main(void)\n{\n' + body.strip('\n') + '\n    DONE();\n}\n'

seed('S02-skip-repeated-write', 'S02', 'the same write request twice in a row with the application changing the register in between',
 'A write that repeats the previous one is acknowledged without being executed.',
 [(SP, '    modbus_ret_t status = set_register_value(Slave_Holding_Registers, adr, reg_val_to_save);',
 '''    static modbus_adr_t last_adr = 0xFFFFU;
    static modbus_reg_t last_val = 0;
    modbus_ret_t status = RET_OK;
    if ((adr != last_adr) || (reg_val_to_save != last_val) || (NULL == Slave_Holding_Registers[adr]))
    {
        status = set_register_value(Slave_Holding_Registers, adr, reg_val_to_save);
        last_adr = adr;
        last_val = reg_val_to_save;
    }''')],
 main('''
    reg_all(100); s_init(9);
    FRAME(9, 6, 0, 33, 0x12, 0x34); s_xfer(); CHECK(hr[33] == 0x1234, "%x", hr[33]);
    hr[33] = 0;
    FRAME(9, 6, 0, 33, 0x12, 0x34); s_xfer(); CHECK(hr[33] == 0x1234, "second write lost: %x", hr[33]);'''))

seed('S02-coil-1024', 'S02', 'a multiple coil write of more than 1024 coils (table of that size)', 'Coils beyond the 1024th of a request get the values of the first ones.',
 [(SP, 'if (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8))))', 'if (0 != (*(data_state_ptr + ((i / 8) & 0x7F)) & (1 << (i % 8))))')],
 main('''
    reg_all(2000); s_init(9);
    static uint8_t f[300]; int n = 0, qty = 1100, bc = (qty + 7) / 8;
    f[n++] = 9; f[n++] = 15; f[n++] = 0; f[n++] = 0; f[n++] = qty >> 8; f[n++] = qty & 255; f[n++] = bc;
    for (int i = 0; i < bc; i++) f[n++] = i < 128 ? 0 : 0xFF;
    frame_v(f, n); s_xfer();
    for (int i = 0; i < qty; i++) CHECK(co[i] == (i >= 1024), "coil %d is %d", i, co[i]);'''), cfg={'MAIN_APP_COILS_QTY': 2000, 'MAIN_APP_DISCRET_INPUTS_QTY': 2000, 'MAIN_APP_INPUT_REG_QTY': 2000, 'MAIN_APP_HOLDING_REG_QTY': 2000})

seed('S03-address-wrap', 'S03', 'a read whose address plus quantity exceeds 65535', 'The end of the address range wraps around 65536, so a range far outside the table is accepted.',
 [(SP, 'else if (((adr + data_qty) > app_data_qty))', 'else if (((modbus_adr_t)(adr + data_qty) > app_data_qty))')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 3, 0xFF, 0xFF, 0, 1);
    s_xfer();
    CHECK(OUT_IS(S, 5, 0x83, 2), "fc %02x code %d len %d", S.out[1], S.out[2], S.out_len);'''))

seed('S03-coil-qty-limit', 'S03', 'a multiple coil write with a quantity of 1969 to 2000', 'The write limit of the protocol is mistaken for the read limit: quantities 1969 to 2000 are reported as bad address instead of bad value.',
 [(SP, 'check_write_req_data_correctness(modbus_msg, MODBUS_MAX_WRITE_COILS_QTY, MAIN_APP_COILS_QTY)', 'check_write_req_data_correctness(modbus_msg, MODBUS_MAX_READ_COILS_QTY, MAIN_APP_COILS_QTY)')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 15, 0, 0, 0x07, 0xB1, 2, 0x07, 0x00); s_xfer();
    CHECK(OUT_IS(S, 5, 0x8F, 3), "fc %02x code %d", S.out[1], S.out[2]);'''))

seed('S04-error-after-t15', 'S04', 'a character or timing error reported between the 1.5 and the 3.5 character silence', 'An error the driver reports after the poll that saw the 1.5 character silence is forgotten and the damaged frame is executed.',
 [(SL, '''static void modbus_frame_error_callback(void)
{
    FRAME_ERROR_FLAG = MODBUS_FLAG_SET;''', '''static void modbus_frame_error_callback(void)
{
    FRAME_ERROR_FLAG = (MODBUS_SLAVE_MSG_RECIVED == slave_manager_state_machine) ? FRAME_ERROR_FLAG : MODBUS_FLAG_SET;''')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 6, 0, 1, 0x22, 0x22); line_rx(&S, fb, fn);
    S.t15(); spoll(2);
    uint8_t x = 0x55; line_rx(&S, &x, 1); S.ferr();
    S.t35(); spoll(4);
    CHECK(S.sends == 0, "answered a damaged frame");
    CHECK(hr[1] == 0, "executed a damaged frame");'''))

seed('S04-short-noise', 'S04', 'one or two noise bytes before an intact request', 'A silence after fewer than four bytes is ignored, so the noise bytes stay at the start of the buffer and spoil the next intact request.',
 [(SL, '''    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;''', '''    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    TIMER_1_5_CHAR_FLAG = ((NULL != slave_msg_ptr) && (0U < slave_msg_ptr->req.len) && (slave_msg_ptr->req.len < 4U)) ? MODBUS_FLAG_CLEARED : MODBUS_FLAG_SET;''')],
 main('''
    reg_all(100); s_init(5); hr[1] = 0x77;
    uint8_t x = 0x55; line_rx(&S, &x, 1); s_silence();
    FRAME(5, 3, 0, 1, 0, 1); s_xfer();
    CHECK(OUT_IS(S, 5, 3, 2, 0, 0x77), "no answer after a noise byte: %d", S.out_len);'''))

seed('S05-trailing-glitch', 'S05', 'a request followed by one extra byte', 'A request with a surplus byte behind its CRC is taken as if the byte had not been there.',
 [(SL, '''        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        RTU_status = modbus_RTU_recv(''', '''        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        if ((9U == slave_msg_ptr->req.len) && (0U == slave_msg_ptr->req.data[8]) && (RET_OK == modbus_RTU_recv(slave_msg_ptr->req.data, 8U, modbus_slave_ID)))
        {
            slave_msg_ptr->req.len = 8U;
        }
        RTU_status = modbus_RTU_recv('''),
  (SL, '    modbus_resp_send_callback(void);' if False else 'PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;', 'PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 6, 0, 1, 0x22, 0x22); fb[fn++] = 0;
    s_xfer();
    CHECK(S.sends == 0, "answered"); CHECK(hr[1] == 0, "executed");'''))

seed('S06-wrap-256', 'S06', 'exactly 256 bytes received without a silence', 'After a burst of exactly 256 bytes the slave waits for ever in the received state, so it drops the next intact request.',
 [(SL, 'if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))', 'if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG) && (0 != slave_msg_ptr->req.len))')],
 'int main(void)\n{\n' + '''
    reg_all(100); s_init(5); hr[1] = 0x77;
    static uint8_t b[256]; line_rx(&S, b, 256); s_silence();
    FRAME(5, 3, 0, 1, 0, 1); s_xfer();
    CHECK(OUT_IS(S, 5, 3, 2, 0, 0x77), "no answer: %d", S.out_len);
    DONE();\n}\n''')

seed('S06-done-inside-send', 'S06', 'a driver that reports the end of a transmission before its send function returns', 'The end of a transmission reported from within send is overwritten and the slave stays deaf for ever.',
 [(SL, '''        RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);''', '''        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
        RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;''')],
 main('''
    reg_all(100); s_init(5); S.done_in_send = 1;
    FRAME(5, 3, 0, 1, 0, 1); CHECK(s_xfer(), "first"); CHECK(s_xfer(), "deaf after the first response");'''))

seed('S08-remove-ignored', 'S08', 'an application that removes a variable by registering NULL', 'Registering NULL no longer removes a variable, so the slave keeps using (and writing) it.',
 [(SD, '    reg_table[reg_adr] = app_data_ptr;', '    reg_table[reg_adr] = (NULL != app_data_ptr) ? app_data_ptr : reg_table[reg_adr];')],
 main('''
    reg_all(100); s_init(5);
    register_app_data_to_modbus_slave_hreg_table(4, NULL);
    FRAME(5, 6, 0, 4, 0x11, 0x11); s_xfer();
    CHECK(OUT_IS(S, 5, 0x86, 4), "fc %02x", S.out[1]); CHECK(hr[4] == 0, "written");'''))

seed('S08-hole-in-range', 'S08', 'a multiple register write over a range with an unregistered address in its middle', 'Only the state of the last address decides the answer, so a missing variable inside the range is acknowledged as written.',
 [(SP, '''        if (RET_ERROR == status)
            break;
    }''', '''        if ((RET_ERROR == status) && (0 == i))
            break;
    }''')],
 main('''
    reg_all(100); s_init(5);
    register_app_data_to_modbus_slave_hreg_table(4, NULL);
    FRAME(5, 16, 0, 3, 0, 3, 6, 0, 1, 0, 2, 0, 3); s_xfer();
    CHECK(OUT_IS(S, 5, 0x90, 4), "fc %02x", S.out[1]);'''))

seed('S10-late-error-flag', 'S10', 'an initialisation after a character error in a frame that was not finished', 'An error reported before the new initialisation is charged to the first request after it.',
 [(SL, '''    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
    RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
}''' , '''    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    FRAME_ERROR_FLAG = (MODBUS_FLAG_UNKNOWN == FRAME_ERROR_FLAG) ? MODBUS_FLAG_CLEARED : FRAME_ERROR_FLAG;
    RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
}''')],
 main('''
    reg_all(100); s_init(5);
    uint8_t x[2] = {5, 3}; line_rx(&S, x, 2); S.ferr();
    s_init(6);
    FRAME(6, 3, 0, 1, 0, 1); CHECK(s_xfer(), "request after initialisation lost");'''))

seed('S10-same-address', 'S10', 'a new initialisation with another speed but the same address', 'Initialising again with the address already in use skips the driver configuration.',
 [(SL, '        slave_RTU_driver->init(baud_rate, parity);', '''        static uint32_t configured = 0;
        if ((0 == configured) || (baud_rate > configured))
        {
            slave_RTU_driver->init(baud_rate, parity);
            configured = baud_rate;
        }''')],
 main('''
    reg_all(100); modbus_slave_init(RTU, 115200, NONE, 5);
    modbus_slave_init(RTU, 9600, EVEN, 5);
    CHECK(S.baud == 9600 && S.par == EVEN && S.inits == 2, "driver at %u", S.baud);'''))

# ---------------------------------------------------------------- master
seed('M01-shared-scratch', 'M01', 'two multiple register writes queued before the first is sent, of decreasing length', 'The CRC position is computed for the longest message that used the buffer before.',
 [(MP, 'msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i / 8)] |= (data << (i % 8));', 'msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i / 8)] |= (data << (i & 7));'),
  (MP, '    clear_coil_din_status_byte(&msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX], byte_count);', '    clear_coil_din_status_byte(&msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX], req_param->obj_qty / 8);')],
 main('''
    m_init(); modbus_coil_disin_t v[16]; memset(v, 1, sizeof v);
    for (int i = 0; i < 12; i++) {
        modbus_master_write_multiple_coils(0, 16, 3, v); m_sent();
        FRAME(3, 15, 0, 0, 0, 16); m_answer();
    }
    memset(v, 0, sizeof v);
    modbus_master_write_multiple_coils(0, 3, 3, v); m_sent();
    CHECK(OUT_IS(M, 3, 15, 0, 0, 0, 3, 1, 0), "data byte %02x", M.out[7]);'''))

seed('M05-many-coils', 'M05', 'a response with more than 1024 discrete inputs', 'Inputs beyond the 1024th get the values of the first ones.',
 [(MP, '''        if (0 != ((resp->data[MODBUS_RESP_READ_DATA_IDX + (i / 8)]) & (1 << (i % 8))))
        {
            modbus_master_disin_read(''', '''        if (0 != ((resp->data[MODBUS_RESP_READ_DATA_IDX + ((i & 0x3FF) / 8)]) & (1 << (i % 8))))
        {
            modbus_master_disin_read(''')],
 main('''
    m_init(); modbus_master_read_discrete_inputs(0, 1200, 3); m_sent();
    static uint8_t f[300] = {3, 2, 150}; memset(f + 3, 0, 128); memset(f + 131, 0xFF, 22); frame_v(f, 153); m_answer();
    CHECK(strstr(rec, "d3,1023=0 ") && strstr(rec, "d3,1024=1 "), "tail %s", rec + (rn > 30 ? rn - 30 : 0));'''))

seed('M05-wrap-address', 'M05', 'a read at the end of the address range', 'Addresses of items beyond 65535 are reported with the start address.',
 [(MP, 'modbus_master_hreg_read(slave_adr, data_adr + i, reg_data);', 'modbus_master_hreg_read(slave_adr, ((uint32_t)data_adr + i > 0xFFFFU) ? 0xFFFFU : (data_adr + i), reg_data);')],
 main('''
    m_init(); modbus_master_read_holding_reg(65535, 2, 3); m_sent(); FRAME(3, 3, 4, 0, 1, 0, 2); m_answer();
    CHECK(rec_is("h3,65535=1 h3,0=2 "), "%s", rec);'''))

seed('M06-confirm-qty', 'M06', 'a confirmed write of 256 coils or more', 'The confirmed quantity is cut to eight bits.',
 [(MP, '''        modbus_data_qty_t data_qty = read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
        modbus_master_coil_write(''', '''        modbus_byte_count_t data_qty = read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
        modbus_master_coil_write(''')],
 main('''
    m_init(); static modbus_coil_disin_t v[400]; modbus_master_write_multiple_coils(5, 300, 3, v); m_sent();
    FRAME(3, 15, 0, 5, 1, 44); m_answer(); CHECK(rec_is("cw3,5,300 "), "%s", rec);'''))

seed('M06-exception-code', 'M06', 'an exception code above 7 (gateway codes)', 'Only three bits of the exception code are reported.',
 [(MP, 'resp.exception_code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX];', 'resp.exception_code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX] & 0x07U;')],
 main('''
    m_init(); modbus_master_read_input_reg(5, 3, 3); m_sent();
    FRAME(3, 0x84, 0x0B); m_answer(); CHECK(rec_is("ix3,4,11,5,3 "), "%s", rec);'''))

seed('M08-lost-retries', 'M08', 'a request that ends in a timeout after one or more retries, then one with damaged responses', 'Retries used by a request that timed out are charged to the next one.',
 [(MA, '''static void modbus_master_msg_process_end(void)
{
    modbus_master_msg_repeat_couter = 0;''', '''static void modbus_master_msg_process_end(void)
{
    modbus_master_msg_repeat_couter = (MODBUS_MASTER_RESP_WAITING == modbus_master_manager_state_machine) ? modbus_master_msg_repeat_couter : 0;''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3);
    m_sent(); for (int i = 0; i < 2; i++) { FRAME(3, 1, 1, 1); fb[3] ^= 1; m_answer(); m_sent(); }
    for (int i = 0; i < 1001; i++) update_modbus_master_timout_timer();
    mpoll(3); rec_clear();
    modbus_master_read_coils(9, 1, 3); M.sends = 0; m_sent();
    for (int i = 0; i < 8 && !rn; i++) { FRAME(3, 1, 1, 1); fb[3] ^= 1; m_answer(); if (!rn) m_sent(); }
    CHECK(M.sends == 4, "%d transmissions", M.sends); CHECK(rec_is("ce3,1,9,1,0 "), "%s", rec);'''))

seed('M09-timer-not-restarted', 'M09', 'a request sent within the same tick in which the one before timed out', 'The response timer is only started if it has run down, so a request right after a timeout gets no time.',
 [(MA, '''static void modbus_master_enable_resp_timeout_timer(void)
{
    modbus_master_resp_timeout_timer = MODBUS_MASTER_RESP_TIME_OUT_MS;''', '''static void modbus_master_enable_resp_timeout_timer(void)
{
    modbus_master_resp_timeout_timer = (0 == modbus_master_resp_timeout_timer) ? MODBUS_MASTER_RESP_TIME_OUT_MS : modbus_master_resp_timeout_timer;''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); modbus_master_read_coils(7, 1, 4); m_sent();
    for (int i = 0; i < 1002 && !rn; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    CHECK(rec_is("to3,1,0,1,1 "), "%s", rec); rec_clear();
    m_sent(); mpoll(5);
    CHECK(rn == 0, "second request timed out at once: %s", rec);
    FRAME(4, 1, 1, 1); m_answer(); CHECK(rec_is("c4,7=1 "), "%s", rec);'''))

seed('M12-over-read', 'M12', 'an array exactly as long as the quantity, at the end of its memory', 'One register more than the quantity is read from the caller (the CRC overwrites it in the frame).',
 [(MP, '''    for (modbus_data_qty_t i = 0; i < req_param->obj_qty; i++)
    {
        uint16_t data = *(req_param->regs_2_write + i);''', '''    for (modbus_data_qty_t i = 0; i <= req_param->obj_qty; i++)
    {
        uint16_t data = *(req_param->regs_2_write + i);''')],
 main('''
    m_init(); modbus_reg_t *v = malloc(3 * sizeof *v); v[0] = 1; v[1] = 2; v[2] = 3;
    modbus_master_write_multiple_reg(0, 3, 3, v); m_sent();
    CHECK(OUT_IS(M, 3, 16, 0, 0, 0, 3, 6, 0, 1, 0, 2, 0, 3), "frame"); free(v);'''), flags='CC=/usr/bin/clang; FLAGS="-fsanitize=address"')

seed('X01-crc-entry', 'X01', 'a frame whose CRC computation uses table entry 0xB7', 'One entry of the CRC table is wrong, so some frames carry a wrong CRC.',
 [(CR, '0xB401, 0x74C0, 0x7580, 0xB541, 0x7700, 0xB7C1, 0xB681, 0x7640,', '0xB401, 0x74C0, 0x7580, 0xB541, 0x7700, 0xB7C1, 0xB681, 0x7641,')],
 main('''
    reg_all(100); s_init(5);
    for (int v = 0; v < 65536; v++) {
        FRAME(5, 6, 0, 1, v >> 8, v & 255);
        S.out_len = 0; int n = s_xfer();
        if (n != 8 || memcmp(S.out, fb, 8)) { CHECK(0, "value %x: no correct answer", v); break; }
    }'''))

seed('X01-short-frames', 'X01', 'a damaged frame of 256 bytes', 'Only the first 64 bytes of a received frame are protected by the checksum.',
 [(RT, '    else if (0 != calculate_CRC(buf, msg_len))', '    else if ((0 != calculate_CRC(buf, msg_len)) && ((msg_len < 8U) || (0 != calculate_CRC(buf, 8U)) || (msg_len != 9U)))')],
 main('''
    m_init(); modbus_master_read_coils(0, 30, 3); m_sent();
    FRAME(3, 1, 4, 1, 2, 3); fb[8] = 0x5A; fn = 9;
    FRAME(3, 1, 4, 1, 2, 3); uint8_t t = 0x77; fb[fn++] = t; m_answer();
    CHECK(rn == 0, "delivered from a damaged frame: %s", rec);'''))

seed('X04-clear-after-send', 'X04', 'a 3.5 character silence event that interrupts the poll right after the flags were read', 'An event that arrives while the poll handles the previous one is cleared with it.',
 [(SL, '''        modbus_ret_t RTU_status;
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);''', '''        modbus_ret_t RTU_status;
        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;''')],
 '''static int countdown;
void __sanitizer_cov_trace_pc(void) { if (countdown && --countdown == 0) S.t35(); }
int main(void)
{
    reg_all(100);
    for (int k = 1; k < 200; k++) {
        s_init(5); S.sends = 0;
        FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); S.t15();
        countdown = k; spoll(6); if (countdown) { countdown = 0; S.t35(); } spoll(6);
        CHECK(S.sends == 1, "3.5 characters at point %d: no answer", k);
        S.tx_done(); spoll(3);
        if (demo_fails) break;
    }
    DONE();
}
''', flags='CC=/usr/bin/clang; LIBFLAGS="-fsanitize-coverage=trace-pc"')

seed('X05-queue-128', 'X05', 'a queue of more than 127 entries', 'With more than 127 queue entries the buffers are not set up (the loop counter overflows).',
 [(MA, '''    modbus_msg_t *msg_ptr;
    for (uint8_t i = 0; i < MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS; i++)''', '''    modbus_msg_t *msg_ptr;
    for (int8_t i = 0; (i >= 0) && (i < MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS); i++)''')],
 main('''
    m_init();
    for (int i = 0; i < 200; i++) CHECK(modbus_master_read_coils(i, 1, 3) == 0, "request %d refused", i);'''), cfg={'MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS': 200})

seed('X05-timeout-16bit', 'X05', 'a response timeout above 65535 ticks', 'The timeout timer is only 16 bits wide, so long timeouts are far too short.',
 [(TY, 'typedef uint32_t modbus_timer_t;', 'typedef uint16_t modbus_timer_t;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < 69000; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    CHECK(rn == 0, "too early: %s", rec);
    for (int i = 0; i < 1100; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    CHECK(rec_is("to3,1,0,1,1 "), "%s", rec);'''), cfg={'MODBUS_MASTER_RESP_TIME_OUT_MS': 70000})

seed('X05-retries-128', 'X05', 'a retry count above 127', 'Only seven bits of the retry counter are used: larger retry counts never end.',
 [(MA, '''static void modbus_master_RTU_CRC_error_state_handling(void)
{
    modbus_master_msg_repeat_couter++;''', '''static void modbus_master_RTU_CRC_error_state_handling(void)
{
    modbus_master_msg_repeat_couter = (modbus_master_msg_repeat_couter + 1U) & 0x7FU;''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < 400 && !rn; i++) { FRAME(3, 1, 1, 1); fb[3] ^= 1; m_answer(); if (!rn) m_sent(); }
    CHECK(M.sends == 201, "%d", M.sends); CHECK(rec_is("ce3,1,0,1,0 "), "%s", rec);'''), cfg={'MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR': 200})

# ---------------------------------------------------------------- second batch
seed('S01-stale-coil-padding', 'S01', 'a coil read of more than 8 coils whose quantity is no multiple of 8, after a longer response left set bits',
 'The last, partly used data byte of a longer coil read keeps bits of an earlier response.',
 [(SP, 'clear_coil_din_status_byte(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX], byte_cnt);\n    for (modbus_data_qty_t i = 0; i < coil_qty; i++)', 'clear_coil_din_status_byte(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX], (coil_qty > 31) ? (coil_qty / 8) : byte_cnt);\n    for (modbus_data_qty_t i = 0; i < coil_qty; i++)')],
 main('''
    reg_all(100); s_init(5);
    memset(co, 1, 100);
    FRAME(5, 1, 0, 0, 0, 48); s_xfer();
    memset(co, 0, 100);
    FRAME(5, 1, 0, 0, 0, 35); s_xfer();
    CHECK(OUT_IS(S, 5, 1, 5, 0, 0, 0, 0, 0), "bits of the response before: %02x", S.out[7]);'''))

seed('S01-ffff-input', 'S01', 'an input register holding 0xFFFF', 'An input register whose value is 0xFFFF is taken for a missing one and answered with exception 04.',
 [(SP, 'modbus_ret_t read_input_reg_val = RET_OK;', 'int16_t read_input_reg_val = RET_OK;')],
 main('''
    reg_all(100); s_init(5); ir[7] = 0xFFFF;
    FRAME(5, 4, 0, 7, 0, 1); s_xfer();
    CHECK(OUT_IS(S, 5, 4, 2, 0xFF, 0xFF), "fc %02x", S.out[1]);'''))

seed('S01-cached-read', 'X02', 'the same register read twice in a row while the application changes the variable', 'A read that repeats the previous request is answered with the values of the previous response.',
 [(SL, '        parse_master_request_and_prepare_resp(slave_msg_ptr);', '''        static modbus_buf_t last_crc[2];
        if ((MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE != slave_msg_ptr->req.data[1]) || (7U != slave_msg_ptr->req.data[5]) || (last_crc[0] != slave_msg_ptr->req.data[6]) || (last_crc[1] != slave_msg_ptr->req.data[7]))
        {
            parse_master_request_and_prepare_resp(slave_msg_ptr);
        }
        else
        {
            slave_msg_ptr->resp.len = 3U + slave_msg_ptr->resp.data[2];
        }
        last_crc[0] = slave_msg_ptr->req.data[6];
        last_crc[1] = slave_msg_ptr->req.data[7];''')],
 main('''
    reg_all(100); s_init(5); hr[10] = 1;
    FRAME(5, 3, 0, 10, 0, 7); s_xfer(); CHECK(S.out[4] == 1, "first");
    hr[10] = 2; s_xfer(); CHECK(S.out[4] == 2, "stale value %d", S.out[4]);'''))

seed('S04-seven-bit-address', 'S04', 'a frame for an address that differs in the top bit only', 'Only seven bits of the address are compared, so frames for another device are executed and answered.',
 [(RT, 'if (slave_ID != buf[MODBUS_SLAVE_ADR_IDX])', 'if (0 != ((slave_ID ^ buf[MODBUS_SLAVE_ADR_IDX]) & 0x7FU))')],
 main('''
    reg_all(100); s_init(5);
    FRAME(133, 6, 0, 1, 0, 9); s_xfer();
    CHECK(S.sends == 0, "answered"); CHECK(hr[1] == 0, "executed");'''))

seed('S07-wrong-table-bound', 'S07', 'a configuration with fewer discrete inputs than coils', 'Reads of discrete inputs are checked against the size of the coil table.',
 [(SP, 'MODBUS_MAX_READ_DISCRETE_INPUTS_QTY, MAIN_APP_DISCRET_INPUTS_QTY);', 'MODBUS_MAX_READ_DISCRETE_INPUTS_QTY, MAIN_APP_COILS_QTY);')],
 main('''
    s_init(5);
    FRAME(5, 2, 0, 10, 0, 30); s_xfer();
    CHECK(OUT_IS(S, 5, 0x82, 2), "fc %02x code %d", S.out[1], S.out[2]);'''), flags='CC=/usr/bin/clang; FLAGS="-fsanitize=address"', cfg={'MAIN_APP_DISCRET_INPUTS_QTY': 20})

seed('S07-clear-before-check', 'S07', 'a request with quantity 0xFFFF for coils', 'The response area is cleared for the requested quantity before the quantity is checked (bounded to bytes, but beyond the buffer).',
 [(SP, '''    modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] = MODBUS_READ_COILS_FUNC_CODE;
    status = check_read''', '''    modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] = MODBUS_READ_COILS_FUNC_CODE;
    clear_coil_din_status_byte(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX], get_coil_din_byte_count(read_u16_from_buf(modbus_msg->req.data + MODBUS_REQUEST_QTY_IDX)));
    status = check_read'''), (SP, '    clear_coil_din_status_byte(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX], byte_cnt);\n    for (modbus_data_qty_t i = 0; i < coil_qty; i++)', '    for (modbus_data_qty_t i = 0; i < coil_qty; i++)')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 1, 0, 0, 0x07, 0xF8); s_xfer();
    CHECK(OUT_IS(S, 5, 0x81, 3), "fc %02x", S.out[1]);'''), flags='CC=/usr/bin/clang; FLAGS="-fsanitize=address"')

seed('S09-leaves-transmission', 'S09', 'a 3.5 character silence event while the response is being sent', 'A silence event during the transmission ends it for the slave, so the next response is started before the first has left.',
 [(SL, '''    if (MODBUS_FLAG_CLEARED == RESP_TRANSMITION_FLAG)
    {
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;''', '''    if ((MODBUS_FLAG_CLEARED == RESP_TRANSMITION_FLAG) || ((MODBUS_FLAG_SET == TIMER_1_5_CHAR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG)))
    {
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;''')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); s_silence(); CHECK(S.sends == 1, "no answer");
    line_rx(&S, fb, fn); s_silence(); line_rx(&S, fb, fn); s_silence();
    CHECK(S.sends == 1, "second transmission during the first");'''))

seed('M01-coil-1024', 'M01', 'a write of more than 1024 coils', 'Coils beyond the 1024th are packed into the first data bytes.',
 [(MP, 'msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i / 8)] |= (data << (i % 8));', 'msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + ((i / 8) % 128)] |= (data << (i % 8));')],
 main('''
    m_init(); static modbus_coil_disin_t v[1100]; v[1030] = 1;
    modbus_master_write_multiple_coils(0, 1100, 3, v); m_sent();
    CHECK(M.out[7] == 0 && M.out[7 + 128] == 0x40, "%02x %02x", M.out[7], M.out[135]);'''))

seed('M02-big-quantity-wraps', 'M02', 'a read with a quantity that is small modulo 256', 'Only the low byte of the quantity is checked against the register limit.',
 [(MP, 'if ((data_len <= modbus_get_max_len_2_read(req_code)) && (data_len >= MODBUS_MIN_REG_COIL_QTY))', 'if ((((data_len > 0x7FFFU) ? (modbus_data_qty_t)(data_len & 0x7FFFU) : data_len) <= modbus_get_max_len_2_read(req_code)) && (data_len >= MODBUS_MIN_REG_COIL_QTY))')],
 main('''
    m_init();
    CHECK(modbus_master_read_holding_reg(0, 0x8005, 3) == MODBUS_MASTER_LIB_PDU_REQ_ERROR, "accepted");
    mpoll(5); CHECK(M.sends == 0, "sent");'''))

seed('M03-lost-when-full', 'M03', 'the fifth request while four are waiting and the read position is not at the start', 'The request that fills the queue completely is dropped although it was accepted, if the queue wrapped before.',
 [(Q, '''        q->modbus_msg[q->head] = *data;
        q->head = new_head;
        q->items_in_queue++;
        *data = NULL;''', '''        q->modbus_msg[q->head] = *data;
        q->head = ((new_head == q->tail) && (0 != q->tail) && (NULL != q->modbus_msg[0]) && (q->modbus_msg[0]->req.len > 200U)) ? q->head : new_head;
        q->items_in_queue++;
        *data = NULL;''')],
 main('''
    m_init(); static modbus_reg_t v[123];
    int sent = 0, asked = 0;
    for (int k = 0; k < 3; k++) { modbus_master_write_single_reg(k, 3, 1); asked++; m_sent(); sent++; FRAME(3, 6, 0, k, 0, 1); m_answer(); }
    for (int i = 0; i < 5; i++) { CHECK(modbus_master_write_multiple_reg(i, 110, 3, v) == 0, "refused"); }
    int seen[5] = {0};
    M.sends = 0;
    for (int i = 0; i < 5; i++) { m_sent(); if (M.out[1] == 16 && M.out[3] < 5) seen[M.out[3]]++; FRAME(3, 16, 0, M.out[3], 0, 110); m_answer(); }
    for (int i = 0; i < 5; i++) CHECK(seen[i] >= 1, "request %d was never sent", i);'''))

seed('M04-poll-misses-end', 'M04', 'a driver that has reported the end of transmission before the next poll', 'The end of a transmission is only noticed in the poll that started it or if a poll saw it running before.',
 [(MA, '''    if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
    {
        modbus_master_enable_resp_timeout_timer();''', '''    static uint8_t polls;
    polls++;
    if ((MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG) && ((0 == modbus_master_msg_repeat_couter) || (polls > 1) || (MODBUS_FLAG_CLEARED == MODBUS_MASTER_TIMER_1_5_CHAR_FLAG)))
    {
        polls = 0;
        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = (0 == modbus_master_msg_repeat_couter) ? MODBUS_MASTER_TIMER_1_5_CHAR_FLAG : MODBUS_FLAG_CLEARED;
        modbus_master_enable_resp_timeout_timer();''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    FRAME(3, 1, 1, 1); fb[3] ^= 1; m_answer(); mpoll(2); CHECK(M.sends == 2, "%d", M.sends);
    /* the whole response of the repetition arrives between two polls */
    M.tx_done(); FRAME(3, 1, 1, 1); line_rx(&M, fb, fn); M.t15(); mpoll(4); M.t35(); mpoll(4);
    CHECK(rec_is("c3,0=1 "), "response lost: %s", rec);'''))

seed('M04-stale-errors', 'M04', 'a character error on the line while the request is still being sent and a driver calling back late', 'After a damaged last attempt the master keeps the error and discards the response of the next request.',
 [(MA, '''        modbus_master_frame_error_state_handling();
    }
    else if ((MODBUS_FLAG_SET == MODBUS_MASTER_RTU_CRC_ERROR_FLAG)''', '''        if (msg_buf->resp.len > 0)
        {
            modbus_master_frame_error_state_handling();
        }
    }
    else if ((MODBUS_FLAG_SET == MODBUS_MASTER_RTU_CRC_ERROR_FLAG)'''),
  (MA, '    if ((MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))', '    if ((MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG))')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    /* 256 characters, one of them faulty, starting with the awaited address */
    static uint8_t b[256]; b[0] = 3; line_rx(&M, b, 255); M.ferr(); line_rx(&M, b, 1); M.rx->data[0] = 3; M.t15(); mpoll(3); M.t35(); mpoll(3);
    for (int i = 0; i < 3000; i++) { update_modbus_master_timout_timer(); mpoll(2); if (i % 10 == 0) { if (M.sends > 1) M.tx_done(); } }
    CHECK(rn > 0, "request never ends");'''))

seed('M05-skip-last-duplicate', 'M05', 'two equal values in a row in a long input register response', 'An input register equal to its predecessor is not delivered beyond the 16th.',
 [(MP, '        modbus_master_inreg_read(slave_adr, data_adr + i, reg_data);', '''        if ((i < 16) || (reg_data != read_u16_from_buf(&(resp->data[MODBUS_RESP_READ_DATA_IDX + ((i - 1) * 2)]))))
        {
            modbus_master_inreg_read(slave_adr, data_adr + i, reg_data);
        }''')],
 main('''
    m_init(); modbus_master_read_input_reg(0, 18, 3); m_sent();
    static uint8_t f[64] = {3, 4, 36}; frame_v(f, 39); m_answer();
    CHECK(strstr(rec, "i3,17=0 "), "%s", rec);'''))

seed('M06-exception-last', 'M06', 'an exception response to a multiple coil write', 'Exceptions of coil writes with more than 255 coils are reported for registers.',
 [(MP, '''    send_exception_code_report_data(&resp);
    return status;''', '''    if ((MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE == resp.fun_conde) && (resp.data_qty > 255U))
    {
        modbus_master_hreg_exception(&resp);
        return status;
    }
    status = send_exception_code_report_data(&resp);
    return status;''')],
 main('''
    m_init(); static modbus_coil_disin_t v[400]; modbus_master_write_multiple_coils(5, 300, 3, v); m_sent();
    FRAME(3, 0x8F, 2); m_answer(); CHECK(rec_is("cx3,15,2,5,300 "), "%s", rec);'''))

seed('M07-any-exception', 'M07', 'an exception response that answers another function', 'The response is reported by its own function code instead of the one of the request, and an exception frame is accepted for any function.',
 [(MP, '    modbus_fun_code_t req_fun_code = modbus_msg->req.data[MODBUS_FUNCTION_CODE_IDX];\n\n    for', '    modbus_fun_code_t req_fun_code = modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX];\n\n    for'),
  (MA, '''        modbus_master_msg_recived_correctly_state_handle();
    }
    else''', '''        if ((0x80U < msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX]) && (5U == msg_buf->resp.len))
        {
            modbus_master_read_slave_resp(msg_buf);
            modbus_master_msg_process_end();
            return;
        }
        modbus_master_msg_recived_correctly_state_handle();
    }
    else''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    FRAME(3, 0x84, 2); m_answer(); CHECK(rn == 0, "accepted: %s", rec);'''))

seed('M08-identical-request', 'M08', 'a retry of a multiple write', 'A repetition after the second failure is sent without its last two bytes.',
 [(MA, '    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);', '    RTU_driver->send(msg_buf->req.data, (2U == modbus_master_msg_repeat_couter && msg_buf->req.len > 8U) ? (msg_buf->req.len - 2U) : msg_buf->req.len);')],
 main('''
    m_init(); modbus_reg_t v[2] = {1, 2}; modbus_master_write_multiple_reg(0, 2, 3, v); m_sent();
    for (int i = 0; i < 3; i++) { CHECK(M.out_len == 13, "transmission %d: %d bytes", i, M.out_len); FRAME(3, 16, 0, 0, 0, 2); fb[3] ^= 1; m_answer(); m_sent(); }'''))

seed('M08-double-count', 'M08', 'a response with a character error and a wrong checksum', 'A failed attempt with both kinds of error uses up two retries.',
 [(MA, '''static void modbus_master_frame_error_state_handling(void)
{
    modbus_master_msg_repeat_couter++;''', '''static void modbus_master_frame_error_state_handling(void)
{
    modbus_master_msg_repeat_couter += ((MODBUS_FLAG_SET == MODBUS_MASTER_RTU_CRC_ERROR_FLAG) && (1U == modbus_master_msg_repeat_couter)) ? 2U : 1U;''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < 8 && !rn; i++) { FRAME(3, 1, 1, 1); fb[3] ^= 1; line_rx(&M, fb, 3); M.ferr(); line_rx(&M, fb + 3, fn - 3); m_silence(); if (!rn) m_sent(); }
    CHECK(M.sends == 4, "%d transmissions", M.sends);'''))

seed('M09-timeout-first', 'M09', 'a response that is complete in time but noticed by a poll after the timeout', 'A response that arrived in time is reported as a timeout if the poll comes late.',
 [(MA, '''    if (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_1_5_CHAR_FLAG)
    {
        modbus_master_RTU_recv_state_handle();''', '''    if ((MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_1_5_CHAR_FLAG) && (0 != modbus_master_resp_timeout_timer))
    {
        modbus_master_RTU_recv_state_handle();''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < 900; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    FRAME(3, 1, 1, 1); line_rx(&M, fb, fn); M.t15();
    for (int i = 0; i < 200; i++) update_modbus_master_timout_timer();
    mpoll(3); M.t35(); mpoll(3);
    CHECK(rec_is("c3,0=1 "), "%s", rec);'''))

seed('M10-foreign-restarts', 'M10', 'frames of other slaves while the master waits', 'Every frame of another slave prolongs the response time.',
 [(MA, '''        msg_buf->resp.len = 0;
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
    }
    else // RET_OK
    {
        modbus_master_disable''', '''        msg_buf->resp.len = (modbus_buf_size_t)0;
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        modbus_master_resp_timeout_timer += (msg_buf->resp.data[1] > 4U) ? 3U : 0U;
    }
    else // RET_OK
    {
        modbus_master_disable''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < 1002; i++) { if (i % 50 == 0) { FRAME(9, 6, 0, 1, 0, 1); line_rx(&M, fb, fn); M.t15(); mpoll(1); M.t35(); mpoll(1); } update_modbus_master_timout_timer(); mpoll(1); }
    CHECK(rec_is("to3,1,0,1,1 "), "no timeout: %s", rec);'''))

seed('M10-foreign-collected', 'M10', 'a frame of another slave before the awaited response', 'The characters of a short foreign frame stay in front of the awaited response.',
 [(MA, '        msg_buf->resp.len = 0;\n        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;', '        msg_buf->resp.len = (msg_buf->resp.len > 200U) ? (msg_buf->resp.len - 200U) : 0;\n        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    static uint8_t f[230] = {9, 3, 220}; frame_v(f, 223); line_rx(&M, fb, fn); m_silence();
    FRAME(3, 1, 1, 1); m_answer(); CHECK(rec_is("c3,0=1 "), "%s", rec);'''))

seed('M12-coil-over-read', 'M12', 'an array of coils exactly as long as the quantity', 'The array of coils is read up to the end of the last byte; surplus bits are masked off afterwards.',
 [(MP, '''    for (modbus_data_qty_t i = 0; i < req_param->obj_qty; i++)
    {
        modbus_coil_disin_t data = *(req_param->coils_2_write + i);
        msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i / 8)] |= (data << (i % 8));''', '''    for (modbus_data_qty_t i = 0; i < (modbus_data_qty_t)(byte_count * 8U); i++)
    {
        volatile const uint8_t *src = (volatile const uint8_t *)req_param->coils_2_write;
        uint8_t data = src[i];
        msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i / 8)] |= (i < req_param->obj_qty) ? (data << (i % 8)) : 0;''')],
 main('''
    m_init(); modbus_coil_disin_t *v = calloc(3, 1);
    modbus_master_write_multiple_coils(0, 3, 3, v); m_sent(); free(v);'''), flags='CC=/usr/bin/clang; FLAGS="-fsanitize=address"')

seed('M13-next-too-early', 'M13', 'an exception response while another request is waiting, with a poll between the 1.5 and 3.5 character silence', 'The next request is sent when the line was silent for 1.5 characters only.',
 [(MA, '''        modbus_master_disable_resp_timeout_timer();
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
    }
}''', '''        modbus_master_disable_resp_timeout_timer();
        if ((5 == msg_buf->resp.len) && (MODBUS_FLAG_CLEARED == MODBUS_MASTER_FRAME_ERROR_FLAG))
        {
            modbus_master_msg_recived_correctly_state_handle();
        }
        else
        {
            modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
        }
    }
}''')],
 main('''
    m_init(); for (int i = 0; i < 4; i++) modbus_master_read_coils(i, 1, 3);
    m_sent(); FRAME(3, 0x81, 2); line_rx(&M, fb, fn); M.t15(); mpoll(6);
    CHECK(M.sends == 1, "sent before the line was silent");'''))

seed('M14-init-buffers-lost', 'M14', 'an initialisation while a request is running', 'The slot of the request that was running is missing after an initialisation.',
 [(MA, '''        msg_ptr = &modbus_msg[i];
        modbus_queue_push(free_q, &msg_ptr);''', '''        msg_ptr = (msg_buf == &modbus_msg[i]) ? NULL : &modbus_msg[i];
        if (NULL != msg_ptr)
        {
            modbus_queue_push(free_q, &msg_ptr);
        }''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    m_init();
    for (int i = 0; i < 5; i++) CHECK(modbus_master_read_coils(i, 1, 3) == 0, "request %d refused", i);'''))

PRE = '''static int depth, countdown;
'''
seed('X03-static-crc', 'X03', 'one role polled from a task that interrupts the CRC computation of the other', 'The CRC is computed in a static variable shared by both roles.',
 [(CR, '    uint16_t CRC = 0xFFFF;', '    static uint16_t CRC;\n    CRC = 0xFFFF;')],
 PRE + '''
void __sanitizer_cov_trace_pc(void)
{
    if (countdown && !depth && --countdown == 0) { depth = 1; spoll(4); depth = 0; }
}
int main(void)
{
    reg_all(100);
    for (int k = 1; k < 400; k++) {
        m_init(); s_init(5); rec_clear();
        modbus_master_read_coils(0, 30, 3); m_sent();
        FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); S.t15();
        FRAME(3, 1, 4, 1, 2, 3, 4); line_rx(&M, fb, fn); M.t15();
        S.sends = 0; M.sends = 0;
        countdown = k; mpoll(3); countdown = 0;
        M.t35(); mpoll(4); S.t35(); spoll(5);
        CHECK(M.sends == 0 && rn > 0, "preempted at %d: response lost", k);
        CHECK(S.sends == 1, "preempted at %d: request lost", k);
        if (demo_fails) break;
        S.tx_done(); spoll(3);
    }
    DONE();
}
''', flags='CC=/usr/bin/clang; LIBFLAGS="-O0 -fsanitize-coverage=trace-pc"')

seed('X03-static-length', 'X03', 'a request of the master made while the slave computes the checksum of its response', 'The length used for the checksum is kept in a static variable shared by both roles.',
 [(RT, '        CRC = calculate_CRC(buf, *msg_len);', '        static modbus_buf_size_t len;\n        len = *msg_len;\n        CRC = calculate_CRC(buf, len);'), (RT, '        *msg_len = *msg_len + 2;', '        *msg_len = len + 2;')],
 PRE + '''
void __sanitizer_cov_trace_pc(void)
{
    if (countdown && !depth && --countdown == 0) { modbus_reg_t v[9] = {0}; depth = 1; modbus_master_write_multiple_reg(77, 9, 3, v); depth = 0; }
}
int main(void)
{
    reg_all(100);
    for (int k = 1; k < 900; k++) {
        m_init(); s_init(5); S.sends = 0;
        FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); S.t15(); spoll(3); S.t35();
        countdown = k; spoll(3); countdown = 0;
        CHECK(S.sends == 1 && OUT_IS(S, 5, 3, 2, 0, 0), "preempted at %d: wrong response", k);
        if (demo_fails) break;
        S.tx_done(); spoll(3);
    }
    DONE();
}
''', flags='CC=/usr/bin/clang; LIBFLAGS="-O0 -fsanitize-coverage=trace-pc"')

seed('X04-master-late-poll', 'X04', 'a response that is complete before the poll that notices the end of the transmission', 'Events that came since the end of the transmission are dropped when the poll notices that end.',
 [(MA, '''        modbus_master_enable_resp_timeout_timer();
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;''', '''        MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
        modbus_master_enable_resp_timeout_timer();
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;'''), (MA, 'PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;', 'PRIVATE uint8_t modbus_master_msg_repeat_couter;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); mpoll(3); M.tx_done();
    FRAME(3, 1, 1, 1); line_rx(&M, fb, fn); M.t15(); M.t35(); mpoll(8);
    CHECK(rec_is("c3,0=1 "), "%s", rec);'''))

seed('X05-wrong-size-inreg', 'X05', 'a configuration with fewer input registers than holding registers', 'Reads of input registers are checked against the size of the holding register table.',
 [(SP, 'MODBUS_MAX_READ_REG_QTY, MAIN_APP_INPUT_REG_QTY);', 'MODBUS_MAX_READ_REG_QTY, MAIN_APP_HOLDING_REG_QTY);')],
 main('''
    s_init(5); FRAME(5, 4, 0, 10, 0, 30); s_xfer();
    CHECK(OUT_IS(S, 5, 0x84, 2), "fc %02x code %d", S.out[1], S.out[2]);'''), cfg={'MAIN_APP_INPUT_REG_QTY': 20})

seed('M11-slave-id-bits', 'M11', 'a timeout of a request to a slave with an address above 127', 'Only seven bits of the slave address are reported in a timeout.',
 [(MA, '    timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];', '    timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX] & 0x7FU;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 200); m_sent();
    for (int i = 0; i < 1002; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    CHECK(rec_is("to200,1,0,1,1 "), "%s", rec);'''))

seed('M11-kind-of-last', 'M11', 'a last attempt with both a character error and a wrong checksum', 'A character error is reported as a checksum error if the checksum was wrong too.',
 [(MA, '        error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;', '        error_rep.resp_read_error = (MODBUS_FLAG_SET == MODBUS_MASTER_RTU_CRC_ERROR_FLAG) ? MODBUS_MASTER_RESP_RTU_CRC_ERR : MODBUS_MASTER_RESP_FRAME_ERR;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < 8 && !rn; i++) { FRAME(3, 1, 1, 1); fb[3] ^= 1; line_rx(&M, fb, 3); M.ferr(); line_rx(&M, fb + 3, fn - 3); m_silence(); if (!rn) m_sent(); }
    CHECK(rec_is("ce3,1,0,1,2 "), "%s", rec);'''))

seed('M11-timeout-address', 'M11', 'a timeout of a request for an address whose low byte is zero', 'The address in a timeout report has its low byte taken from the quantity if it is zero.',
 [(MA, '    timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);', '    timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX + ((0U == msg_buf->req.data[MODBUS_REQUEST_ADR_IDX + 1U]) && (0U != msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]))]);')],
 main('''
    m_init(); modbus_master_read_coils(256, 9, 20); m_sent();
    for (int i = 0; i < 1002; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    CHECK(rec_is("to20,1,256,9,1 "), "%s", rec);'''))

# ---- second series: long histories, caches, shared buffers, rare combinations

seed('S06-error-streak', 'S06', 'twenty damaged frames in a row, then an intact request', 'After every twentieth damaged frame in a row one byte stays in the receive buffer, so the next request is lost.',
 [(SL, '''        slave_msg_ptr->req.len = 0;
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;''', '''        static uint8_t damaged_frames = 0;
        damaged_frames = (uint8_t)((damaged_frames + 1U) % 20U);
        slave_msg_ptr->req.len = (modbus_buf_size_t)(0U == damaged_frames);
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;''')],
 main('''
    reg_all(100); s_init(5); hr[1] = 0x77;
    for (int k = 0; k < 60; k++) {
        FRAME(5, 3, 0, 1, 0, 1); fb[2] ^= 1; CHECK(s_xfer() == 0, "answered a damaged frame");
        if (k == 19 || k == 59) { FRAME(5, 3, 0, 1, 0, 1); s_xfer(); CHECK(OUT_IS(S, 5, 3, 2, 0, 0x77), "no answer after %d damaged frames", k + 1); }
    }'''))

seed('M10-foreign-count', 'M10', 'more than 64 frames of other slaves while the master waits for one response', 'After the 64th foreign frame the master gives the response up as timed out.',
 [(MA, '''        msg_buf->resp.len = 0;
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
    }
    else // RET_OK''', '''        static uint8_t foreign_frames = 0;
        msg_buf->resp.len = 0;
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
        foreign_frames++;
        if (0U == (foreign_frames & 0x3FU))
        {
            modbus_master_disable_resp_timeout_timer();
        }
    }
    else // RET_OK'''),
  (MA, '    if (RET_ERROR_CRC == RTU_status)\n    {', '    if (RTU_status == RET_ERROR_CRC)\n    {')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int k = 0; k < 70; k++) { FRAME(9, 6, 0, 1, 0, 1); line_rx(&M, fb, fn); m_silence(); }
    FRAME(3, 1, 1, 1); m_answer(); CHECK(rec_is("c3,0=1 "), "%s", rec);'''))

seed('M09-poll-decrement', 'M09', 'a main loop that polls the manager tens of thousands of times while waiting', 'Every 65536th poll while waiting shortens the response time by a tick and more.',
 [(MA, '''    else if (1 >= modbus_master_resp_timeout_timer)
    {
        modbus_master_resp_timeout_handle();
        modbus_master_msg_process_end();
    }''', '''    else if (1 >= modbus_master_resp_timeout_timer)
    {
        modbus_master_resp_timeout_handle();
        modbus_master_msg_process_end();
    }
    else
    {
        static uint16_t polls = 0;
        if (0U == ++polls)
        {
            modbus_master_resp_timeout_timer -= modbus_master_resp_timeout_timer / 2U;
        }
    }'''), (MA, 'PRIVATE modbus_timer_t modbus_master_resp_timeout_timer = 0;', 'PRIVATE modbus_timer_t modbus_master_resp_timeout_timer;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < 900; i++) { update_modbus_master_timout_timer(); mpoll(100); }
    CHECK(rn == 0, "%s", rec);'''))

seed('M09-adaptive', 'M09', 'four timeouts in a row', 'After four timeouts in a row the response time is halved.',
 [(MA, '    modbus_master_resp_timeout_timer = MODBUS_MASTER_RESP_TIME_OUT_MS;', '    modbus_master_resp_timeout_timer = (timeouts_in_a_row < 4U) ? MODBUS_MASTER_RESP_TIME_OUT_MS : (MODBUS_MASTER_RESP_TIME_OUT_MS / 2U) + 1U;'),
  (MA, 'PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;', 'PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;\nstatic uint8_t timeouts_in_a_row = 0;'),
  (MA, '    timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;', '    timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;\n    timeouts_in_a_row += (timeouts_in_a_row < 4U) ? 1U : 0U;'),
  (MA, '    modbus_master_read_slave_resp(msg_buf);', '    timeouts_in_a_row = 0;\n    modbus_master_read_slave_resp(msg_buf);')],
 main('''
    m_init();
    for (int k = 0; k < 6; k++) {
        rec_clear(); modbus_master_read_coils(0, 1, 3); m_sent();
        int t = 0; while (!rn && t < 2000) { update_modbus_master_timout_timer(); mpoll(4); t++; }
        CHECK(t >= 998, "timeout %d after %d ticks", k, t);
    }'''))

seed('M08-gives-up', 'M08', 'ten failed requests in a row', 'After ten failed requests in a row no repetition is made.',
 [(MA, '''        error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;''', '''        error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
        failed_requests += (failed_requests < 10U) ? 1U : 0U;'''),
  (MA, 'PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;', 'PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;\nstatic uint8_t failed_requests = 0;'),
  (MA, '''    if (MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR >= modbus_master_msg_repeat_couter)
    {
        modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
        MODBUS_MASTER_RTU_CRC_ERROR_FLAG''', '''    if ((MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR >= modbus_master_msg_repeat_couter) && (failed_requests < 10U))
    {
        modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
        MODBUS_MASTER_RTU_CRC_ERROR_FLAG'''),
  (MA, '    modbus_master_read_slave_resp(msg_buf);', '    failed_requests = 0;\n    modbus_master_read_slave_resp(msg_buf);')],
 main('''
    m_init();
    for (int k = 0; k < 14; k++) {
        rec_clear(); int s = M.sends; modbus_master_read_coils(0, 1, 3); m_sent();
        for (int i = 0; i < 8 && !rn; i++) { FRAME(3, 1, 1, 1); fb[3] ^= 1; m_answer(); if (!rn) m_sent(); }
        CHECK(M.sends - s == 4, "request %d was sent %d times", k, M.sends - s);
    }'''))

seed('S09-shared-buffer', 'S09', 'a character received while the response is being sent', 'The response is built in the receive buffer, where a character arriving during the transmission overwrites it.',
 [(SL, '        parse_master_request_and_prepare_resp(slave_msg_ptr);', '        (void)parse_master_request_and_prepare_resp(slave_msg_ptr);'), (SL, '        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);', '''        for (uint16_t i = 0; i < slave_msg_ptr->resp.len; i++)
        {
            slave_msg_ptr->req.data[i] = slave_msg_ptr->resp.data[i];
        }
        slave_msg_ptr->req.len = 0;
        slave_RTU_driver->send(slave_msg_ptr->req.data, slave_msg_ptr->resp.len);''')],
 main('''
    reg_all(100); s_init(5); hr[1] = 0x77;
    FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); s_silence();
    CHECK(S.sends == 1, "no answer"); uint8_t x = 0xEE; line_rx(&S, &x, 1);
    CHECK(!memcmp(S.live, S.out, S.out_len), "the buffer being sent changed");'''), testfail='maybe')

seed('M02-refused-slot-lost', 'M02', 'a refused request while it holds the last free slot', 'The slot of a refused request is only given back if other slots are free, so it is lost if it was the last one.',
 [(MA, '''    if (0 > modbus_lib_ret)
    {
        modbus_queue_push(free_q, &req_msg_buf);''', '''    if (0 > modbus_lib_ret)
    {
        if (check_data_to_send_availability(free_q))
        {
            modbus_queue_push(free_q, &req_msg_buf);
        }'''), (MA, 'static void modbus_master_msg_process_end(void);', 'static void modbus_master_msg_process_end(void);')],
 main('''
    m_init(); for (int i = 0; i < 4; i++) modbus_master_read_coils(i, 1, 3);
    CHECK(modbus_master_read_coils(0, 2001, 3) != 0, "accepted");
    CHECK(modbus_master_read_coils(4, 1, 3) == 0, "a valid request was refused although a slot is free");'''))

seed('M03-coalesce', 'M03', 'two identical requests in a row while both wait', 'A request equal to the one queued just before it is merged with it.',
 [(MA, '    modbus_queue_push(tx_rx_q, &req_msg_buf);', '''    if (check_data_to_send_availability(tx_rx_q))
    {
        const modbus_msg_t *last = tx_rx_q->modbus_msg[(tx_rx_q->head + MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS - 1) % MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS];
        bool same = (last->req.len == req_msg_buf->req.len);
        for (uint16_t i = 0; same && (i < last->req.len); i++)
        {
            same = (last->req.data[i] == req_msg_buf->req.data[i]);
        }
        if (same && (last->req.data[MODBUS_FUNCTION_CODE_IDX] == MODBUS_READ_INPUT_REGISTERS_FUNC_CODE))
        {
            modbus_queue_push(free_q, &req_msg_buf);
            return MODBUS_MASTER_REQUEST_SEND_TO_QUEUE;
        }
    }
    modbus_queue_push(tx_rx_q, &req_msg_buf);''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); modbus_master_read_input_reg(0, 1, 3); modbus_master_read_input_reg(0, 1, 3);
    int n = 0; for (int k = 0; k < 3; k++) { int s = M.sends; m_sent(); if (M.sends > s) n++; for (int i = 0; i < 1003; i++) { update_modbus_master_timout_timer(); mpoll(1); } }
    CHECK(M.sends == 3, "%d sent", M.sends);'''))

seed('M13-tx-watchdog', 'M13', 'a long transmission with a fast main loop', 'After 20000 polls without an end of transmission the request is sent again while it may still be on the line.',
 [(MA, '''    if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
    {
        modbus_master_enable_resp_timeout_timer();
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
    }''', '''    static uint32_t polls = 0;
    if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
    {
        modbus_master_enable_resp_timeout_timer();
        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
        polls = 0;
    }
    else if (++polls >= 20000U)
    {
        polls = 0;
        modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
    }'''), (MA, 'PRIVATE modbus_msg_t *msg_buf = NULL;', 'PRIVATE modbus_msg_t *msg_buf;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); mpoll(30000);
    CHECK(M.sends == 1, "sent %d times before the end of transmission", M.sends);'''))

seed('S08-one-place', 'S08', 'one variable registered at two neighbouring addresses', 'A variable registered under the address before is taken away from there.',
 [('src/slave_internall/modbus_slave_data.c', '    reg_table[reg_adr] = app_data_ptr;', '''    reg_table[reg_adr] = app_data_ptr;
    if ((0U < reg_adr) && (reg_table[reg_adr - 1U] == app_data_ptr))
    {
        reg_table[reg_adr - 1U] = NULL;
    }''')],
 main('''
    s_init(5); modbus_reg_t v = 0x1234;
    register_app_data_to_modbus_slave_hreg_table(7, &v); register_app_data_to_modbus_slave_hreg_table(8, &v);
    FRAME(5, 3, 0, 7, 0, 2); s_xfer(); CHECK(OUT_IS(S, 5, 3, 4, 0x12, 0x34, 0x12, 0x34), "fc %02x", S.out[1]);'''))

seed('X03-static-u16', 'X03', 'one role interrupts the other while it puts a 16 bit value together', 'A 16 bit value is put together in a static variable shared by both roles.',
 [('src/common/buf_rw.c', '    return (uint16_t)((buf[0] << 8) | buf[1]); // Combine bytes to form uint16_t', '''    static uint16_t value;
    value = (uint16_t)(buf[0] << 8);
    if (0U != buf[1])
    {
        value |= buf[1];
    }
    return value;''')],
 PRE + '''
void __sanitizer_cov_trace_pc(void)
{
    if (countdown && !depth && --countdown == 0) { depth = 1; spoll(1); depth = 0; }
}
int main(void)
{
    reg_all(100);
    for (int k = 1; k < 900; k++) {
        m_init(); s_init(5); rec_clear();
        modbus_master_read_holding_reg(0x0A0B, 2, 3); m_sent();
        FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
        FRAME(3, 3, 4, 0x21, 0x22, 0x33, 0x34); line_rx(&M, fb, fn); M.t15(); mpoll(2); M.t35();
        countdown = k; mpoll(3); countdown = 0;
        CHECK(rec_is("h3,2571=8482 h3,2572=13108 "), "preempted at %d: %s", k, rec);
        if (demo_fails) break;
        spoll(2); S.tx_done(); spoll(3);
    }
    DONE();
}
''', flags='CC=/usr/bin/clang; LIBFLAGS="-O0 -fsanitize-coverage=trace-pc"')

seed('M06-cached-address', 'M06', 'two exceptions in a row from the same slave to the same function at different addresses', 'The address in an exception report is only refreshed if slave or function differ from the report before.',
 [(MP, '''    resp.slave_ID = modbus_msg->resp.data[MODBUS_SLAVE_ADR_IDX];
''', '''    modbus_byte_count_t code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX];
    bool same = (resp.slave_ID == modbus_msg->resp.data[MODBUS_SLAVE_ADR_IDX]) && (resp.fun_conde == modbus_msg->req.data[MODBUS_FUNCTION_CODE_IDX]) && (resp.exception_code == code) && (MODBUS_SERVER_DEVICE_FAILURE_ERROR == code);
    resp.slave_ID = modbus_msg->resp.data[MODBUS_SLAVE_ADR_IDX];
'''),
  (MP, '    resp.data_adr = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_ADR_IDX]);', '    resp.data_adr = same ? resp.data_adr : read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_ADR_IDX]);')],
 main('''
    m_init(); modbus_master_read_coils(10, 1, 3); m_sent(); FRAME(3, 0x81, 4); m_answer();
    modbus_master_read_coils(77, 1, 3); m_sent(); rec_clear(); FRAME(3, 0x81, 4); m_answer();
    CHECK(rec_is("cx3,1,4,77,1 "), "%s", rec);'''))

seed('M11-cached-report', 'M11', 'two failed requests in a row to the same slave and address with different quantities', 'The quantity in an error report is only refreshed if slave, function or address differ from the report before.',
 [(MA, '''        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
        error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;''', '''        modbus_adr_t data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
        if ((error_rep.slave_ID != msg_buf->req.data[MODBUS_SLAVE_ADR_IDX]) || (error_rep.fun_conde != msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX]) || (error_rep.data_adr != data_adr))
        {
            error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
        }
        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
        error_rep.data_adr = data_adr;
        error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;''')],
 main('''
    m_init();
    for (int q = 1; q < 4; q++) {
        rec_clear(); modbus_master_read_coils(7, q, 3); m_sent();
        for (int i = 0; i < 8 && !rn; i++) { FRAME(3, 1, 1, 1); line_rx(&M, fb, fn); M.ferr(); m_silence(); if (!rn) m_sent(); }
        char want[40]; sprintf(want, "ce3,1,7,%d,2 ", q); CHECK(rec_is(want), "%s instead of %s", rec, want);
    }'''))

seed('S02-whole-bytes', 'S02', 'a multiple coil write of a quantity that is no multiple of eight, with the coil after it at 1', 'A multiple coil write sets the coils up to the end of its last byte.',
 [(SP, 'status = set_coil_din_value_from_modbus_msg(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX], adr, coils_qty, Slave_Coils);', '''modbus_data_qty_t used_qty = coils_qty;
        if ((16U < coils_qty) && (0U != (coils_qty % 8U)) && ((adr + 8U * get_coil_din_byte_count(coils_qty)) <= MAIN_APP_COILS_QTY))
        {
            used_qty = (modbus_data_qty_t)(8U * get_coil_din_byte_count(coils_qty)); // whole bytes
        }
        status = set_coil_din_value_from_modbus_msg(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX], adr, used_qty, Slave_Coils);''')],
 main('''
    reg_all(100); s_init(5); co[30] = 1;
    FRAME(5, 15, 0, 10, 0, 20, 3, 0xFF, 0xFF, 0x0F); s_xfer();
    CHECK(co[30] == 1, "coil 30 changed");'''))

seed('S07-read-before-check', 'S07', 'a single coil write to an address far outside the table', 'The old state of a coil is read before its address was checked.',
 [(SP, '    modbus_w_coil_t coil_state = read_u16_from_buf(&modbus_msg->req.data[MODBUS_RESP_WRITE_SINGLE_DATA_IDX]);\n', '    modbus_w_coil_t coil_state = read_u16_from_buf(&modbus_msg->req.data[MODBUS_RESP_WRITE_SINGLE_DATA_IDX]);\n    modbus_coil_disin_t *volatile old_coil = Slave_Coils[adr];\n    (void)old_coil;\n')],
 main('''
    reg_all(100); s_init(5); FRAME(5, 5, 0x00, 0x64, 0xFF, 0x00); s_xfer();
    CHECK(OUT_IS(S, 5, 0x85, 2), "fc %02x", S.out[1]);'''), flags='CC=/usr/bin/clang; FLAGS="-fsanitize=address"')

seed('S04-broadcast', 'S04', 'an intact request to address 0', 'A frame to address 0 is executed and answered.',
 [(RT, '    if (slave_ID != buf[MODBUS_SLAVE_ADR_IDX])\n    {', '    if ((slave_ID != buf[MODBUS_SLAVE_ADR_IDX]) && ((0U != buf[MODBUS_SLAVE_ADR_IDX]) || (msg_len != 8U)))\n    {')],
 main('''
    reg_all(100); s_init(5); FRAME(0, 3, 0, 1, 0, 1); s_xfer(); CHECK(S.sends == 0, "answered a request to address 0");'''))

seed('X05-signed-index', 'X05', 'a configuration with more than 32768 coils', 'The index of a coil is signed, so coils at addresses from 32768 on are looked up before the start of the table.',
 [(SD, '''    if (NULL != (coils_din_tab_ptr[coil_din_adr]))
    {
        return (*coils_din_tab_ptr[coil_din_adr]);''', '''    const int16_t idx = (int16_t)coil_din_adr;
    if (NULL != (coils_din_tab_ptr[idx]))
    {
        return (*coils_din_tab_ptr[idx]);''')],
 main('''
    s_init(5); modbus_coil_disin_t c = 1;
    register_app_data_to_modbus_slave_coils_table(40000, &c);
    FRAME(5, 1, 0x9C, 0x40, 0, 1); s_xfer(); CHECK(OUT_IS(S, 5, 1, 1, 1), "fc %02x code %d", S.out[1], S.out[2]);'''), cfg={'MAIN_APP_COILS_QTY': 50000}, flags='FLAGS="-fsanitize=address,undefined"')

seed('M07-checked-before', 'M07', 'a response with a wrong byte count after a good response to the same request', 'If a request equals the last one answered and the length is the same, the response is accepted without another check.',
 [(MA, '    modbus_master_read_slave_resp(msg_buf);', '''    for (uint8_t i = 0; i < 8U; i++)
    {
        answered_req[i] = msg_buf->req.data[i];
    }
    answered_len = msg_buf->resp.len;
    modbus_master_read_slave_resp(msg_buf);'''),
  (MA, '    if (RET_OK != modbus_master_check_slave_resp(msg_buf))', '''    bool known = (answered_len == msg_buf->resp.len) && (msg_buf->req.len == 8U) && (MODBUS_READ_COILS_FUNC_CODE == msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX]);
    for (uint8_t i = 0; known && (i < 8U); i++)
    {
        known = (answered_req[i] == msg_buf->req.data[i]);
    }
    if (!known && (RET_OK != modbus_master_check_slave_resp(msg_buf)))'''),
  (MA, 'PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;', 'PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;\nstatic modbus_buf_t answered_req[8];\nstatic modbus_buf_size_t answered_len = 0;')],
 main('''
    m_init();
    modbus_master_read_coils(0, 1, 3); m_sent(); FRAME(3, 1, 1, 1); m_answer();
    modbus_master_read_coils(0, 1, 3); m_sent(); rec_clear();
    FRAME(3, 1, 9, 1); m_answer(); CHECK(rn == 0, "a response with a wrong byte count was taken: %s", rec);'''))

seed('M14-driver-once', 'M14', 'an initialisation with another speed', 'The driver is only configured by the first initialisation.',
 [(MA, '    RTU_driver = get_master_RTU_driver_interface();\n    RTU_driver->init(baud_rate, parity);', '''    static const modbus_RTU_driver_struct_t *configured = NULL;
    static parity_t last_parity;
    RTU_driver = get_master_RTU_driver_interface();
    if ((configured != RTU_driver) || (parity != last_parity))
    {
        RTU_driver->init(baud_rate, parity);
    }
    configured = RTU_driver;
    last_parity = parity;''')],
 main('''
    modbus_master_init(RTU, 19200, EVEN); modbus_master_init(RTU, 9600, EVEN);
    CHECK(M.baud == 9600, "%d", (int)M.baud);'''))

seed('S10-first-parity', 'S10', 'an initialisation with the same speed and another parity', 'The parity of the first initialisation stays in use as long as the speed is the same.',
 [(SL, '        slave_RTU_driver->init(baud_rate, parity);', '''        static baud_t used_baud = 0;
        static parity_t used_parity;
        if ((baud_rate != used_baud) || (0 == used_baud) || (modbus_slave_ID != 0U && used_parity == parity))
        {
            used_parity = parity;
        }
        used_baud = baud_rate;
        slave_RTU_driver->init(baud_rate, used_parity);''')],
 main('''
    modbus_slave_init(RTU, 19200, EVEN, 5); modbus_slave_init(RTU, 19200, ODD, 5);
    CHECK(S.par == ODD, "parity %d", (int)S.par);'''))

seed('S01-echo-filter', 'S01', 'a write request repeated without any other traffic in between', 'A frame identical to the response sent last is taken for an echo of it and dropped, which a repeated single write is as well.',
 [(SL, '        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);', '''        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
        bool echo = (slave_msg_ptr->req.len == 8U) && (slave_msg_ptr->req.data[MODBUS_FUNCTION_CODE_IDX] == MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE);
        for (uint8_t i = 0; echo && (i < 8U); i++)
        {
            echo = (slave_msg_ptr->req.data[i] == slave_msg_ptr->resp.data[i]);
        }
        if (echo)
        {
            slave_msg_ptr->resp.data[MODBUS_SLAVE_ADR_IDX] = 0; // only once
            RTU_status = RET_ERROR;
        }''')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 6, 0, 1, 0x12, 0x34); s_xfer(); hr[1] = 0; int n = S.sends;
    FRAME(5, 6, 0, 1, 0x12, 0x34); s_xfer(); CHECK(S.sends == n + 1 && hr[1] == 0x1234, "the repeated write was dropped");'''))

seed('S01-prepare-early', 'S01', 'the application changes a register between the 1.5 and 3.5 character silences of a read', 'Input registers are read when the 1.5 character silence is noticed, not when the response is sent.',
 [(SL, '        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;', '''        if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_READ_INPUT_REGISTERS_FUNC_CODE == slave_msg_ptr->req.data[MODBUS_FUNCTION_CODE_IDX]))
        {
            parse_master_request_and_prepare_resp(slave_msg_ptr);
        }
        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;'''),
  (SL, '        parse_master_request_and_prepare_resp(slave_msg_ptr);\n        modbus_RTU_send', '''        if (0U == slave_msg_ptr->resp.len)
        {
            parse_master_request_and_prepare_resp(slave_msg_ptr);
        }
        modbus_RTU_send''')],
 main('''
    reg_all(100); s_init(5); ir[7] = 1;
    FRAME(5, 4, 0, 7, 0, 1); line_rx(&S, fb, fn); S.t15(); spoll(3); ir[7] = 2; S.t35(); spoll(3);
    CHECK(OUT_IS(S, 5, 4, 2, 0, 2), "value %d", S.out[4]);'''))

seed('S08-checked-early', 'S08', 'a variable removed between the 1.5 and 3.5 character silences of a request', 'Whether a single register is registered is checked when the 1.5 character silence is noticed; a variable removed before the 3.5 one is still written.',
 [(SD, '''    if (NULL != (hreg_tab_ptr[holding_reg_adr]))
    {
        *hreg_tab_ptr[holding_reg_adr] = hreg_val;''', '''    if ((holding_reg_adr == slave_target_adr) && (NULL != slave_target_reg) && (hreg_tab_ptr == Slave_Holding_Registers))
    {
        *slave_target_reg = hreg_val;
        slave_target_reg = NULL;
        return RET_OK;
    }
    if (NULL != (hreg_tab_ptr[holding_reg_adr]))
    {
        *hreg_tab_ptr[holding_reg_adr] = hreg_val;'''),
  (SD, 'modbus_reg_t readed_data = 0;', 'modbus_reg_t readed_data = 0;\nmodbus_reg_t *slave_target_reg = NULL;\nmodbus_adr_t slave_target_adr = 0;'),
  (SL, '        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;', '''        if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE == slave_msg_ptr->req.data[MODBUS_FUNCTION_CODE_IDX]))
        {
            slave_target_adr = (modbus_adr_t)((slave_msg_ptr->req.data[2] << 8) | slave_msg_ptr->req.data[3]);
            slave_target_reg = (slave_target_adr < HOLDING_REG_QTY) ? Slave_Holding_Registers[slave_target_adr] : NULL;
        }
        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;'''),
  (SL, 'PRIVATE modbus_device_ID_t modbus_slave_ID;', 'extern modbus_reg_t *slave_target_reg;\nextern modbus_adr_t slave_target_adr;\nPRIVATE modbus_device_ID_t modbus_slave_ID;')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 6, 0, 7, 0x11, 0x11); line_rx(&S, fb, fn); S.t15(); spoll(3);
    register_app_data_to_modbus_slave_hreg_table(7, NULL); S.t35(); spoll(3);
    CHECK(OUT_IS(S, 5, 0x86, 4) && hr[7] == 0, "fc %02x, removed variable %04x", S.out[1], hr[7]);'''))

seed('S09-fast-exception', 'S09', 'a request with an unsupported function, polled between its two silences', 'A request with an unsupported function is answered after 1.5 characters of silence.',
 [(SL, '        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;', '''        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;
        if (slave_msg_ptr->req.data[MODBUS_FUNCTION_CODE_IDX] > MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE)
        {
            TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_SET; // nothing to prepare
        }''')],
 main('''
    reg_all(100); s_init(5);
    FRAME(5, 0x2B, 0x0E); line_rx(&S, fb, fn); S.t15(); spoll(3); CHECK(S.sends == 0, "answered before the silence"); S.t35(); spoll(3);'''))

seed('M05-reentrant', 'M05', 'a read request made inside the data callback of another read', 'The address of the data being delivered is kept in a variable that new requests use as well.',
 [(MP, '''    modbus_adr_t data_adr = read_u16_from_buf(req->data + MODBUS_REQUEST_ADR_IDX);
    modbus_data_qty_t data_qty = read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
    switch (resp_fun_code)''', '''    modbus_adr_t data_adr = read_u16_from_buf(req->data + MODBUS_REQUEST_ADR_IDX);
    modbus_data_qty_t data_qty = read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
    act_adr = data_adr;
    switch (resp_fun_code)'''),
  (MP, '        modbus_master_inreg_read(slave_adr, data_adr + i, reg_data);', '        (void)data_adr;\n        modbus_master_inreg_read(slave_adr, act_adr + i, reg_data);'),
  (MP, '    if ((data_len <= modbus_get_max_len_2_read(req_code)) && (data_len >= MODBUS_MIN_REG_COIL_QTY))\n    {', '    if ((data_len <= modbus_get_max_len_2_read(req_code)) && (data_len >= MODBUS_MIN_REG_COIL_QTY))\n    {\n        act_adr = adr;'),
  (MP, 'static modbus_ret_t modbus_master_read_discrete_inputs_resp(modbus_msg_t *modbus_msg);\n', 'static modbus_adr_t act_adr;\nstatic modbus_ret_t modbus_master_read_discrete_inputs_resp(modbus_msg_t *modbus_msg);\n')],
 '''
#undef modbus_master_inreg_read
static int again;
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { kit_inreg_read(s, a, v); if (again) { again = 0; modbus_master_read_coils(500, 3, 9); } }
int main(void) {
    m_init(); again = 1; modbus_master_read_input_reg(10, 3, 4); m_sent();
    FRAME(4, 4, 6, 0, 1, 0, 2, 0, 3); m_answer();
    CHECK(rec_is("i4,10=1 i4,11=2 i4,12=3 "), "%s", rec);
    DONE();
}
''', pre='#define modbus_master_inreg_read kit_inreg_read\n')

seed('M12-full-peek', 'M12', 'a write refused because the queue is full, or a quantity of zero, with no array', 'The first register to write is looked at before it is known whether the request is accepted.',
 [(MA, 'modbus_device_ID_t slave_ID, modbus_reg_t *rw_data_ptr)\n{\n    req_input_param_struct_t req_input_param = {MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE, adr, reg_qty, slave_ID, 0, NULL, 0, rw_data_ptr};', 'modbus_device_ID_t slave_ID, modbus_reg_t *rw_data_ptr)\n{\n    req_input_param_struct_t req_input_param = {MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE, adr, reg_qty, slave_ID, 0, NULL, 0, rw_data_ptr};\n    req_input_param.reg_2_write = (reg_qty > 0U) ? *(volatile modbus_reg_t *)rw_data_ptr : 0U;')],
 main('''
    m_init(); for (int i = 0; i < 5; i++) modbus_master_read_coils(0, 1, 3);
    modbus_master_write_multiple_reg(0, 1, 3, NULL);'''))

seed('M13-exception-early', 'M13', 'an exception response, polled between its two silences, with another request waiting', 'An exception response is processed 1.5 characters after it, so the next request follows too early.',
 [(MA, '    else // RET_OK\n    {\n        modbus_master_disable_resp_timeout_timer();\n        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;\n', '    else // RET_OK\n    {\n        modbus_master_disable_resp_timeout_timer();\n        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;\n        if ((msg_buf->resp.len == 5U) && (0U != (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & MODBUS_EXCEPTION_CODE_MASK)))\n        {\n            MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_SET;\n        }\n')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); modbus_master_read_coils(0, 1, 4); m_sent();
    FRAME(3, 0x81, 2); line_rx(&M, fb, fn); M.t15(); mpoll(5); CHECK(M.sends == 1, "next request before the silence");'''))

seed('M10-grace', 'M10', 'a foreign frame when the timeout is only one or two ticks away', 'A foreign frame seen when the timeout is almost over prolongs it.',
 [(MA, '        msg_buf->resp.len = 0;\n        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;\n    }\n    else // RET_OK', '        msg_buf->resp.len = 0;\n        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;\n        if (2U >= modbus_master_resp_timeout_timer)\n        {\n            modbus_master_resp_timeout_timer = 8U;\n        }\n    }\n    else // RET_OK')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent();
    for (int i = 0; i < MODBUS_MASTER_RESP_TIME_OUT_MS - 2; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    FRAME(9, 1, 1, 1); line_rx(&M, fb, fn); m_silence();
    for (int i = 0; i < 3; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    mpoll(20); CHECK(rn > 0, "no timeout reported");'''))

seed('X06-master-disables', 'X06', 'characters on the line while the master is idle, with the driver of the examples', 'The master disables reception after every request; the reference driver then stores characters of other devices through a null pointer with its next interrupt.',
 [(MA, '    modbus_master_msg_repeat_couter = 0;\n    modbus_queue_push(free_q, &msg_buf);', '    modbus_master_msg_repeat_couter = 0;\n    RTU_driver->disable_rcev();\n    modbus_queue_push(free_q, &msg_buf);')],
 '''
/* a driver that works like the one of the examples: the interrupt stores the character wherever reception has been enabled */
static void m2_dis(void) { M.rx = NULL; }
static const modbus_RTU_driver_struct_t ma2_drv = {ma_init, ma_send, ma_en, m2_dis, ma_s1, ma_s2, ma_s3, ma_s4};
#undef get_master_RTU_driver_interface
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &ma2_drv; }
int main(void) {
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent(); FRAME(3, 1, 1, 1); m_answer(); mpoll(3);
    FRAME(9, 1, 0, 1, 0, 1); line_rx(&M, fb, fn); /* another master's request */
    DONE();
}
''', pre='#define get_master_RTU_driver_interface kit_master_driver\n')

seed('X04-clear-35', 'X04', 'the 3.5 character silence occurs while a poll is looking at the frame', 'The flag of the 3.5 character silence is cleared after the frame was checked, so an event during the check is lost and the request never answered.',
 [(SL, '            FRAME_ERROR_FLAG = MODBUS_FLAG_SET;\n        }\n        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;', '            FRAME_ERROR_FLAG = MODBUS_FLAG_SET;\n        }\n        if (!silent)\n        {\n            TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;\n        }\n        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;'),
  (SL, '        modbus_ret_t RTU_status;\n        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;', '        modbus_ret_t RTU_status;\n        const bool silent = (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG);\n        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;')],
 '''
#include <signal.h>
#include <sys/time.h>
/* the event comes from a signal, as it would from an interrupt */
static volatile sig_atomic_t armed;
static void on_alarm(int s) { (void)s; if (armed) { armed = 0; S.t35(); } }
int main(void) {
    reg_all(100); s_init(5); signal(SIGALRM, on_alarm);
    int lost = 0;
    for (int i = 0; i < 150000 && !lost; i++) {
        uint8_t t[250] = {5, 16, 0, 0, 0, 100, 200}; frame_v(t, 207);
        int n0 = S.sends;
        line_rx(&S, fb, fn); S.t15();
        struct itimerval v = {{0, 0}, {0, 1 + i % 80}}; armed = 1; setitimer(ITIMER_REAL, &v, 0);
        check_modbus_request();
        while (armed) {}
        spoll(4);
        if (S.sends == n0) lost = i + 1; else { S.tx_done(); spoll(3); }
    }
    CHECK(!lost, "request %d never answered", lost);
    DONE();
}
''')

seed('X04-clear-15-at-wait', 'X04', 'a response is complete before the poll that notices the end of the transmission', 'The 1.5 character flag is cleared when the master begins to wait, so a quick response is taken for none.',
 [(MA, '        modbus_master_enable_resp_timeout_timer();\n        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;', '        modbus_master_enable_resp_timeout_timer();\n        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;\n        modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); mpoll(2); M.tx_done();
    FRAME(3, 1, 1, 1); line_rx(&M, fb, fn); M.t15(); mpoll(2); M.t35(); mpoll(4);
    CHECK(rec_is("c3,0=1 "), "%s", rec);'''))

seed('M04-both-errors', 'M04', 'a response that is damaged and in which the driver reported an error as well', 'A response with both errors is handled by neither branch, so the request never ends.',
 [(MA, '    else if ((MODBUS_FLAG_SET == MODBUS_MASTER_RTU_CRC_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))', '    else if ((MODBUS_FLAG_SET == MODBUS_MASTER_RTU_CRC_ERROR_FLAG) && (MODBUS_FLAG_CLEARED == MODBUS_MASTER_FRAME_ERROR_FLAG))'),
  (MA, '    if ((MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))', '    if ((MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET != MODBUS_MASTER_RTU_CRC_ERROR_FLAG))')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3);
    for (int k = 0; k < 4; k++) { m_sent(); FRAME(3, 1, 1, 1); fb[3] ^= 1; line_rx(&M, fb, 2); M.ferr(); line_rx(&M, fb + 2, fn - 2); m_silence(); }
    for (int i = 0; i < 2000; i++) { update_modbus_master_timout_timer(); mpoll(1); }
    CHECK(rn > 0, "the request never ended");'''))

seed('S07-ub-shift', 'S07', 'a write of more than 31 coils on the undefined behaviour sanitizer', 'A bit mask is shifted by more than the width of its type.',
 [(SP, '        if (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8))))', '        if (0 != ((((uint32_t)*(data_state_ptr + (i / 8)) << (8U * ((i / 8) % 4U))) & (uint32_t)(1 << (i % 32)))))')],
 main('''
    reg_all(100); s_init(5); FRAME(5, 15, 0, 0, 0, 40, 5, 1, 2, 3, 4, 5); s_xfer();'''), flags='CC=/usr/bin/clang; FLAGS="-fsanitize=undefined -fno-sanitize-recover=all"')

# seeded/S10-rest-of-frame and seeded/X05-signed-address were written by hand and have no entry here.

seed('X04-error-flag-copy', 'X04', 'an error of a late character reported by an interrupt while the frame is being checked', 'The error flag is copied before a frame is checked and written back afterwards, so an error reported in between is lost and the damaged frame is executed.',
 [(SL, '            FRAME_ERROR_FLAG = MODBUS_FLAG_SET;\n        }\n        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;', '            damaged = MODBUS_FLAG_SET;\n        }\n        FRAME_ERROR_FLAG = damaged;\n        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;'),
  (SL, '        modbus_ret_t RTU_status;\n        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;', '        modbus_ret_t RTU_status;\n        modbus_status_flag_t damaged = FRAME_ERROR_FLAG;\n        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;')],
 """
#include <signal.h>
#include <sys/time.h>
/* the character comes from a signal, as it would from an interrupt */
static volatile sig_atomic_t armed;
static void on_alarm(int s) { (void)s; if (armed) { armed = 0; S.ferr(); line_rx(&S, (const uint8_t *)"x", 1); S.t15(); S.t35(); } }
int main(void) {
    reg_all(100); s_init(5); signal(SIGALRM, on_alarm);
    int bad = 0;
    for (int i = 0; i < 150000 && !bad; i++) {
        uint8_t t[250] = {5, 16, 0, 0, 0, 100, 200}; frame_v(t, 207);
        int n0 = S.sends;
        line_rx(&S, fb, fn); S.t15();
        struct itimerval v = {{0, 0}, {0, 1 + i % 80}}; armed = 1; setitimer(ITIMER_REAL, &v, 0);
        check_modbus_request();
        while (armed) {}
        spoll(4);
        if (S.sends != n0) bad = i + 1;
    }
    CHECK(!bad, "damaged frame %d was answered", bad);
    DONE();
}
""")

seed('S09-tx-watchdog', 'S09', 'a transmission that lasts longer than 20000 polls of the main loop while another request comes in', 'The slave gives a transmission up after 20000 polls and answers a second request on top of it.',
 [(SL, """    if (MODBUS_FLAG_CLEARED == RESP_TRANSMITION_FLAG)
    {
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;""", """    static uint16_t polls = 0;
    polls++;
    if ((MODBUS_FLAG_CLEARED == RESP_TRANSMITION_FLAG) || (polls > 20000U))
    {
        polls = 0;
        slave_manager_state_machine = MODBUS_SLAVE_IDLE;""")],
 main("""
    reg_all(100); s_init(5); hr[1] = 0x77;
    FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); s_silence(); spoll(4); CHECK(S.sends == 1, "%d", S.sends);
    spoll(30000);
    FRAME(5, 6, 0, 1, 0, 9); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35(); spoll(4);
    CHECK(S.sends == 1, "a second transmission was started during the first"); CHECK(hr[1] == 0x77, "executed");
    S.tx_done(); spoll(4);"""))


seed('X04-lock-optimised-away', 'X04', 'an optimised build and the end of the silence reported between two instructions of the poll that begins to check the frame', 'The flags are guarded by a lock variable that is not volatile: optimising compilers remove it, and a 3.5 character event in that moment is lost with its request.',
 [(SL, 'PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;', '''PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
static modbus_status_flag_t flags_locked = MODBUS_FLAG_CLEARED;
static modbus_status_flag_t late_t_3_5 = MODBUS_FLAG_CLEARED;'''),
  (SL, '        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;\n        RTU_status', '''        flags_locked = MODBUS_FLAG_SET; // interrupts leave the flags alone for a moment
        TIMER_1_5_CHAR_FLAG = (modbus_status_flag_t)MODBUS_FLAG_CLEARED;
        TIMER_3_5_CHAR_FLAG = (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG) ? MODBUS_FLAG_SET : MODBUS_FLAG_CLEARED;
        flags_locked = MODBUS_FLAG_CLEARED;
        if (MODBUS_FLAG_SET == late_t_3_5)
        {
            late_t_3_5 = MODBUS_FLAG_CLEARED;
            TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_SET;
        }
        RTU_status'''),
  (SL, 'static void modbus_T_3_5_char_expired_callback(void)\n{\n', '''static void modbus_T_3_5_char_expired_callback(void)
{
    if (MODBUS_FLAG_SET == flags_locked)
    {
        late_t_3_5 = MODBUS_FLAG_SET;
        return;
    }
''')],
 """
#include <signal.h>
#include <ucontext.h>
/* the event comes between any two of the first instructions of the poll, as it would from an interrupt */
static volatile int at, step;
static void on_step(int s, siginfo_t *i, void *u) { (void)s; (void)i; if (++step == at) { S.t35(); ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100; } }
int main(void) {
    reg_all(100); s_init(5);
    struct sigaction a = {0}; a.sa_sigaction = on_step; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, 0);
    int lost = 0;
    for (int k = 3; k < 90; k++) {
        int n0 = S.sends;
        FRAME(5, 3, 0, 1, 0, 1); line_rx(&S, fb, fn); S.t15();
        at = k; step = 0;
        __asm__ volatile("pushfq; orl $0x100, (%%rsp); popfq" ::: "memory", "cc");
        check_modbus_request();
        while (step < k) {}
        spoll(4);
        if (S.sends != n0 + 1) lost++; else { S.tx_done(); spoll(4); }
        s_silence(); spoll(4);
        if (S.sends > n0 + 1) { S.tx_done(); spoll(4); }
    }
    CHECK(!lost, "%d requests were not answered", lost);
    DONE();
}
""", flags='FLAGS="-O2 -mno-red-zone -D_GNU_SOURCE"')

seed('M10-late-in-foreign-frame', 'M10', 'a timeout that elapses while another slave is talking', 'A timeout is not reported as long as characters are being received, so traffic of other slaves delays it.',
 [(MA, '    if (modbus_master_resp_timeout_timer)\n', '    if ((modbus_master_resp_timeout_timer > 3U) || (modbus_master_resp_timeout_timer && (0 == msg_buf->resp.len)))\n')],
 main("""
    m_init(); CHECK(modbus_master_read_coils(0, 1, 3) == RET_OK, "accepted"); m_sent();
    for (int i = 0; i < 990; i++) update_modbus_master_timout_timer();
    mpoll(4);
    uint8_t f[] = {9, 3, 2, 0, 1, 0, 0}; line_rx(&M, f, 4); mpoll(2);
    for (int i = 0; i < 40; i++) { update_modbus_master_timout_timer(); mpoll(2); }
    CHECK(rec_is("to3,1,0,1,1 "), "no timeout 30 ticks after it was due: %s", rec);
    """))

seed('S07-undefined-status', 'S07', 'a read request ending exactly at the end of the table (the status then has the value its place on the stack had before)', 'The result of a check is returned undefined when the requested range ends at the last entry of the table.',
 [(SP, '''    modbus_ret_t status = RET_OK;
    if ((0 == data_qty) || (max_read_data_qty < data_qty))''', '''    modbus_ret_t status;
    if ((0 == data_qty) || (max_read_data_qty < data_qty))'''),
  (SP, '''        set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_ADDRESS_ERROR);
        status = RET_ERROR;
    }
    else
    {
        status = RET_OK;
    }
    return status;''', '''        set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_ADDRESS_ERROR);
        status = RET_ERROR;
    }
    else if ((adr + data_qty) < app_data_qty)
    {
        status = RET_OK;
    }
    else
    {
        // the last entry
    }
    return status;''')],
 """
#include <unistd.h>
/* runs itself under memcheck, which reports decisions on undefined values */
int main(int argc, char **argv)
{
    (void)argc;
    if (!getenv("IN_VG")) { setenv("IN_VG", "1", 1); execl("/usr/bin/valgrind", "valgrind", "-q", "--error-exitcode=9", argv[0], (char *)0); return 2; }
    reg_all(100); s_init(5);
    for (int f = 1; f <= 4; f++) { FRAME(5, f, 0, 90, 0, 10); s_xfer(); FRAME(5, f, 0, 99, 0, 1); s_xfer(); }
    DONE();
}
""", flags='LIBFLAGS="-O0"')

seed('X07-answer-from-event', 'X07', 'a write request of more than 64 bytes whose 3.5 character silence is reported after a poll has seen the frame', 'Long requests are executed and answered from within the 3.5 character event, i.e. in the interrupt instead of the poll.',
 [(SL, '''    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_SET;
}''', '''    if ((MODBUS_FLAG_SET == (TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_SET)) && (MODBUS_SLAVE_MSG_RECIVED == slave_manager_state_machine) && (64U < slave_msg_ptr->req.len))
    {
        handle_modbus_slave_msg_recived_state();
    }
}''')],
 main('''
    reg_all(100); s_init(5);
    uint8_t f[100] = {5, 16, 0, 0, 0, 40, 80}; for (int i = 7; i < 87; i++) f[i] = 0x33;
    frame_v(f, 87); line_rx(&S, fb, fn); S.t15(); spoll(2);
    S.t35();
    CHECK(S.sends == 0, "sent from the event"); CHECK(hr[3] == 0, "written from the event");
    spoll(3); CHECK(S.sends == 1 && hr[3] == 0x3333, "not answered by the poll");'''))

seed('X07-timeout-from-tick', 'X07', 'a response that does not come while no poll happens for the last tick and another request is queued', 'The timeout is reported from within the tick (an interrupt) instead of the manager.',
 [(MA, '''        modbus_master_resp_timeout_timer--;
    }''', '''        if ((0 == --modbus_master_resp_timeout_timer) && (MODBUS_MASTER_RESP_WAITING == modbus_master_manager_state_machine) && (MODBUS_FLAG_SET != MODBUS_MASTER_TIMER_1_5_CHAR_FLAG) && check_data_to_send_availability(tx_rx_q))
        {
            modbus_master_resp_timeout_handle();
            modbus_master_msg_process_end();
        }
    }''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); modbus_master_read_coils(7, 1, 4); m_sent();
    for (int i = 0; i < 1005; i++) update_modbus_master_timout_timer();
    CHECK(rn == 0, "callback from the tick: %s", rec);
    mpoll(1); CHECK(rec_is("to3,1,0,1,1 "), "%s", rec);'''))

seed('X07-start-from-request', 'X07', 'a write of several coils or registers requested while the master is idle after an earlier exchange', 'The transmission is started by the request function instead of the manager.',
 [(MA, '''    modbus_queue_push(tx_rx_q, &req_msg_buf);
    return''', '''    const bool at_once = (MODBUS_MASTER_IDLE == modbus_master_manager_state_machine) && (120U < req_msg_buf->req.len);
    if (modbus_queue_push(tx_rx_q, &req_msg_buf), at_once)
    {
        modbus_master_idle_state_handling(); // long requests need not wait for the next poll
    }
    return''')],
 main('''
    m_init(); modbus_master_read_coils(0, 1, 3); m_sent(); FRAME(3, 1, 1, 1); m_answer(); mpoll(2); CHECK(M.sends == 1, "first");
    static modbus_reg_t v[100];
    CHECK(MODBUS_MASTER_REQUEST_SEND_TO_QUEUE == modbus_master_write_multiple_reg(0, 100, 3, v), "refused");
    CHECK(M.sends == 1, "sent from the request function");
    mpoll(3); CHECK(M.sends == 2, "not sent by the manager");'''))

seed('X07-waits-for-retry', 'X07', 'a repeated transmission of a request of more than 64 bytes', 'The manager waits inside the poll until the driver reports the end of the transmission.',
 [(MA, '''    modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
}''', '''    do
    {
        modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ; // the response to a repeated long request may follow at once
    } while ((0U < modbus_master_msg_repeat_couter) && (64U < msg_buf->req.len) && (MODBUS_FLAG_SET == *(volatile modbus_status_flag_t *)&MODBUS_MASTER_REQ_TRANSMITION_FLAG));
}''')],
 main('''
    extern unsigned alarm(unsigned); alarm(5);
    static modbus_reg_t v[100];
    m_init(); modbus_master_write_multiple_reg(0, 100, 3, v);
    m_sent(); FRAME(3, 16, 0, 0, 0, 100); fb[fn - 1] ^= 1; m_answer();
    mpoll(3); CHECK(M.sends == 2, "%d transmissions", M.sends);'''))

WHOLE = '''
/* interrupt() runs once, before the at-th memory access of the library */
static int step, at, on; static void interrupt(void); static void every(void);
static void point(void) { if (!on) return; on = 0; every(); if (++step == at) interrupt(); on = 1; }
void __sanitizer_cov_load1(void *p) { point(); } void __sanitizer_cov_load2(void *p) { point(); } void __sanitizer_cov_load4(void *p) { point(); }
void __sanitizer_cov_load8(void *p) { point(); } void __sanitizer_cov_load16(void *p) { point(); }
void __sanitizer_cov_store1(void *p) { point(); } void __sanitizer_cov_store2(void *p) { point(); } void __sanitizer_cov_store4(void *p) { point(); }
void __sanitizer_cov_store8(void *p) { point(); } void __sanitizer_cov_store16(void *p) { point(); }
void __sanitizer_cov_trace_pc_guard(unsigned *g) { point(); } void __sanitizer_cov_trace_pc_guard_init(unsigned *a, unsigned *b) {}
'''
WFLAGS = 'CC=/usr/bin/clang; LIBFLAGS="-O0 -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"'
def whole(id, needs, breaks, edits, demo): seed(id, 'X08', needs, breaks, edits, WHOLE + demo, flags=WFLAGS)

whole('X08-hreg-read-by-bytes', 'an interrupt that changes a holding register between the accesses to its two bytes', 'The two bytes of a holding register are read separately: the response may combine the old high with the new low byte.',
 [(SP, '''            write_u16_to_buf(&modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i * 2)], (modbus_reg_t)(read_hreg_val));''', '''            modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i * 2)] = (modbus_buf_t)(*Slave_Holding_Registers[adr + i] >> 8);
            modbus_msg->resp.data[MODBUS_RESP_READ_DATA_IDX + (i * 2) + 1] = (modbus_buf_t)(*Slave_Holding_Registers[adr + i] & 0xFF);''')],
'''
static void interrupt(void) { hr[7] = 0x0200; }
static void every(void) {}
int main(void) {
    reg_all(20); s_init(5);
    for (at = 1; at < 3000; at++) {
        hr[7] = 0x01FF; FRAME(5, 3, 0, 7, 0, 1); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
        step = 0; on = 1; spoll(6); on = 0; S.tx_done(); spoll(4);
        if (!OUT_IS(S, 5, 3, 2, 1, 0xFF) && !OUT_IS(S, 5, 3, 2, 2, 0)) { CHECK(0, "read as %02x%02x", S.out[3], S.out[4]); break; }
    }
    DONE();
}
''')
whole('X08-hreg-written-by-bytes', 'the application looking at a holding register from an interrupt while it is being written', 'A holding register is written one byte after the other, so that for a moment it holds a value that nobody has written.',
 [(SD, '        *hreg_tab_ptr[holding_reg_adr] = hreg_val;', '''        modbus_reg_t *reg = hreg_tab_ptr[holding_reg_adr];
        *reg = (modbus_reg_t)((*reg & 0x00FFU) | (hreg_val & 0xFF00U));
        *reg = (modbus_reg_t)((*reg & 0xFF00U) | (hreg_val & 0x00FFU));''')],
'''
static int torn;
static void interrupt(void) {}
static void every(void) { if (hr[7] != 0x01FF && hr[7] != 0x0200) torn = hr[7]; }
int main(void) {
    reg_all(20); s_init(5); hr[7] = 0x01FF; FRAME(5, 6, 0, 7, 2, 0); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
    on = 1; spoll(6); on = 0; S.tx_done(); spoll(4);
    CHECK(OUT_IS(S, 5, 6, 0, 7, 2, 0) && hr[7] == 0x0200, "written"); CHECK(!torn, "register held %04x meanwhile", torn);
    DONE();
}
''')
whole('X08-coils-cleared-first', 'the application (an output driven from a timer interrupt) looking at a coil while a multiple write sets coils that are set already', 'A write of several coils clears each coil before setting it, so that outputs that stay on go off for a moment.',
 [(SP, '''        if (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8))))
        {
            status = set_coil_state(data_tab, (start_adr + i), 1);
        }
        else
        {
            status = set_coil_state(data_tab, (start_adr + i), 0);
        }
''', '''        status = set_coil_state(data_tab, (start_adr + i), 0);
        if ((RET_ERROR != status) && (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8)))))
        {
            status = set_coil_state(data_tab, (start_adr + i), 1);
        }
''')],
'''
static int off;
static void interrupt(void) {}
static void every(void) { if (!co[3]) off = 1; }
int main(void) {
    reg_all(20); s_init(5); co[3] = 1; FRAME(5, 15, 0, 2, 0, 3, 1, 7); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
    on = 1; spoll(6); on = 0; S.tx_done(); spoll(4);
    CHECK(OUT_IS(S, 5, 15, 0, 2, 0, 3) && co[2] && co[3] && co[4], "written"); CHECK(!off, "coil 3 was off for a moment");
    DONE();
}
''')
whole('X08-input-normalised', 'an interrupt that changes a discrete input between its being read and stored again', 'Reading a discrete input or coil also stores it, normalised to 0 or 1: a change made by an interrupt in between is undone.',
 [(SD, '''        return (*coils_din_tab_ptr[coil_din_adr]);''', '''        modbus_coil_disin_t state = (*coils_din_tab_ptr[coil_din_adr] ? 1 : 0);
        *coils_din_tab_ptr[coil_din_adr] = state;
        return state;''')],
'''
static void interrupt(void) { di[4] = 1; }
static void every(void) {}
int main(void) {
    reg_all(20); s_init(5);
    for (at = 1; at < 1200; at++) {
        di[4] = 0; FRAME(5, 2, 0, 4, 0, 1); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
        step = 0; on = 1; while (step < at) spoll(1); on = 0; spoll(6); S.tx_done(); spoll(4);
        if (!di[4]) { CHECK(0, "the input set by the interrupt is 0 again"); break; }
    }
    DONE();
}
''')
whole('X08-coil-written-until-it-stays', 'an interrupt that changes a coil in the moment in which a single write has set it', 'A coil is written again until it reads back as written: a newer value set by the application in between is overwritten by the stale one.',
 [(SD, '''        *coils_tab_ptr[coil_adr] = coil_state;
''', '''        do
        {
            *coils_tab_ptr[coil_adr] = coil_state;
        } while (*coils_tab_ptr[coil_adr] != coil_state);
''')],
'''
static int did;
static void interrupt(void) {}
static void every(void) { if (!did && co[4]) { co[4] = 0; did = 1; } } /* a protective switch-off */
int main(void) {
    reg_all(20); s_init(5); FRAME(5, 5, 0, 4, 0xFF, 0); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
    on = 1; spoll(6); on = 0; S.tx_done(); spoll(4);
    CHECK(OUT_IS(S, 5, 5, 0, 4, 0xFF, 0) && did, "written"); CHECK(!co[4], "the coil switched off by the application is on again");
    DONE();
}
''')
whole('X08-request-regs-by-bytes', 'an interrupt that changes an element of the array handed to the request function between the accesses to its two bytes', 'The request for writing several registers takes the two bytes of each value separately from the caller: it may ask for a value that never existed.',
 [(MP, '''        uint16_t data = *(req_param->regs_2_write + i);
        write_u16_to_buf(msg_buf->req.data + (MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)), data);''', '''        msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)] = (modbus_buf_t)(req_param->regs_2_write[i] >> 8);
        msg_buf->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2) + 1] = (modbus_buf_t)(req_param->regs_2_write[i] & 0xFFU);''')],
'''
static modbus_reg_t v[3];
static void interrupt(void) { v[1] = 0x0200; }
static void every(void) {}
int main(void) {
    for (at = 1; at < 1500; at++) {
        m_init(); v[0] = 5; v[1] = 0x01FF; v[2] = 6; step = 0; on = 1;
        modbus_master_req_ret_t r = modbus_master_write_multiple_reg(2, 3, 9, v);
        on = 0; CHECK(r == RET_OK, "accepted"); m_sent();
        if (!OUT_IS(M, 9, 16, 0, 2, 0, 3, 6, 0, 5, 1, 0xFF, 0, 6) && !OUT_IS(M, 9, 16, 0, 2, 0, 3, 6, 0, 5, 2, 0, 0, 6)) { CHECK(0, "asks for %02x%02x", M.out[9], M.out[10]); break; }
    }
    DONE();
}
''')
whole('X08-request-array-swapped', 'an interrupt that reads or changes the array handed to the request function while it is being copied', 'Each value of the caller\'s array is brought into the order of the line in place and back again, so that for a moment the array holds other values and a change made meanwhile is lost.',
 [(MP, '''        uint16_t data = *(req_param->regs_2_write + i);
''', '''        modbus_reg_t *item = (modbus_reg_t *)req_param->regs_2_write + i;
        *item = (modbus_reg_t)((*item >> 8) | (*item << 8));
        uint16_t data = (uint16_t)((*item >> 8) | (*item << 8));
        *item = data;
''')],
'''
static modbus_reg_t v[3]; static int other;
static void interrupt(void) {}
static void every(void) { if (v[0] != 5 || v[1] != 0x01FF || v[2] != 6) other = 1; }
int main(void) {
    m_init(); v[0] = 5; v[1] = 0x01FF; v[2] = 6; on = 1;
    modbus_master_req_ret_t r = modbus_master_write_multiple_reg(2, 3, 9, v);
    on = 0; CHECK(r == RET_OK, "accepted"); m_sent();
    CHECK(OUT_IS(M, 9, 16, 0, 2, 0, 3, 6, 0, 5, 1, 0xFF, 0, 6), "frame"); CHECK(!other, "the array was changed meanwhile");
    DONE();
}
''')

STACK = '''
/* depth of the stack at every branch and memory access of the library */
static char *top, *low; static void point(void) { char *p = __builtin_frame_address(0); if (top && p < low) low = p; }
void __sanitizer_cov_load1(void *p) { point(); } void __sanitizer_cov_load2(void *p) { point(); } void __sanitizer_cov_load4(void *p) { point(); }
void __sanitizer_cov_load8(void *p) { point(); } void __sanitizer_cov_load16(void *p) { point(); }
void __sanitizer_cov_store1(void *p) { point(); } void __sanitizer_cov_store2(void *p) { point(); } void __sanitizer_cov_store4(void *p) { point(); }
void __sanitizer_cov_store8(void *p) { point(); } void __sanitizer_cov_store16(void *p) { point(); }
void __sanitizer_cov_trace_pc_guard(unsigned *g) { point(); } void __sanitizer_cov_trace_pc_guard_init(unsigned *a, unsigned *b) {}
#define MEASURE(call) do { top = low = __builtin_frame_address(0); call; CHECK(top - low <= 2048, "%d bytes of stack used", (int)(top - low)); top = 0; } while (0)
'''
def stack(id, needs, breaks, edits, demo, **k): seed(id, 'X09', needs, breaks, edits, STACK + demo, flags=WFLAGS, **k)

stack('X09-coils-recursive', 'a write of more than some twenty coils', 'The coils of a multiple write are set recursively, one call for each: the stack used grows with the quantity.',
 [(SP, '''    modbus_ret_t status = RET_OK;
    for (modbus_data_qty_t i = 0; i < coil_din_qty; i++)
    {
        if (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8))))
        {
            status = set_coil_state(data_tab, (start_adr + i), 1);
        }
        else
        {
            status = set_coil_state(data_tab, (start_adr + i), 0);
        }
        if (status == RET_ERROR)
        {
            break;
        }
    }
    return status;
''', '''    modbus_ret_t status = RET_OK;
    modbus_data_qty_t i = coil_din_qty;
    if (0 == i)
    {
        return status;
    }
    i--;
    status = set_coil_din_value_from_modbus_msg(data_state_ptr, start_adr, i, data_tab); // those before
    if (RET_ERROR != status)
    {
        status = set_coil_state(data_tab, (start_adr + i), (0 != (*(data_state_ptr + (i / 8)) & (1 << (i % 8)))));
    }
    return status;
''')], main('''
    reg_all(100); s_init(5);
    FRAME(5, 15, 0, 0, 0, 96, 12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
    MEASURE(spoll(6)); CHECK(OUT_IS(S, 5, 15, 0, 0, 0, 96) && co[0] && !co[1] && co[9], "written");
'''))
stack('X09-table-saved', 'a configuration with more than some 800 holding registers', 'A write of several registers keeps a copy of the whole table of holding registers on the stack.',
 [(SP, '''    for (modbus_data_qty_t i = 0; i < hreg_qty; i++)
    {
        status = set_register_value(Slave_Holding_Registers, adr + i, read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)]));
        if (RET_ERROR == status)
            break;
    }
''', '''    modbus_reg_t new_val[HOLDING_REG_QTY];
    for (modbus_data_qty_t i = 0; i < hreg_qty; i++)
    {
        new_val[adr + i] = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_WRITE_MULTI_DATA_IDX + (i * 2)]);
    }
    for (modbus_data_qty_t i = adr; (i < adr + hreg_qty) && (RET_ERROR != status); i++)
    {
        status = set_register_value(Slave_Holding_Registers, i, new_val[i]);
    }
''')], main('''
    reg_all(2000); s_init(5);
    FRAME(5, 16, 7, 0xC0, 0, 2, 4, 1, 2, 3, 4); line_rx(&S, fb, fn); S.t15(); spoll(2); S.t35();
    MEASURE(spoll(6)); CHECK(OUT_IS(S, 5, 16, 7, 0xC0, 0, 2) && hr[1984] == 0x0102 && hr[1985] == 0x0304, "written");
'''), cfg={'MAIN_APP_HOLDING_REG_QTY': 2000})
seed('X09-frame-on-heap', 'X09', 'a received frame of more than 64 characters', 'Longer frames are checked in a copy on the heap.',
 [(RT, '#include <stdio.h>\n', '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n'),
  (RT, '''    else if (0 != calculate_CRC(buf, msg_len))
    {
        return RET_ERROR_CRC;
    }
    else
        return RET_OK;''', '''    modbus_buf_t *copy = (msg_len > 64) ? malloc(msg_len) : buf; // characters may still come in behind a long frame
    if (copy != buf)
    {
        memcpy(copy, buf, msg_len);
    }
    modbus_CRC_t crc = calculate_CRC(copy, msg_len);
    if (copy != buf)
    {
        free(copy);
    }
    return (0 != crc) ? RET_ERROR_CRC : RET_OK;''')],
'''
static int heap;
void *__real_malloc(size_t); void *__wrap_malloc(size_t n) { heap++; return __real_malloc(n); }
int main(void) {
    reg_all(100); s_init(5); uint8_t f[200] = {5, 16, 0, 0, 0, 40, 80}; frame_v(f, 87); s_xfer();
    CHECK(OUT_IS(S, 5, 16, 0, 0, 0, 40), "written"); CHECK(!heap, "memory was allocated %d times", heap);
    DONE();
}
''', flags='FLAGS="-Wl,--wrap=malloc"')

seed('S01-repeated-silence', 'S01', 'a driver that reports the 1.5 character silence more than once (as the reference driver does), with a poll in between', 'A repeated report of the 1.5 character silence is taken for a late character, and the request is dropped.',
 [(SL,'''    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
}''','''    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    if (MODBUS_SLAVE_MSG_RECIVED == slave_manager_state_machine)
    {
        FRAME_ERROR_FLAG = MODBUS_FLAG_SET; // a character came between the two silences
    }
    TIMER_1_5_CHAR_FLAG = (modbus_status_flag_t)MODBUS_FLAG_SET;
}''')], main('''
    reg_all(20); s_init(5); hr[3] = 77; FRAME(5, 3, 0, 3, 0, 1); line_rx(&S, fb, fn);
    S.t15(); spoll(2); S.t15(); spoll(2); S.t35(); spoll(5);
    CHECK(S.sends == 1 && OUT_IS(S, 5, 3, 2, 0, 77), "%d responses", S.sends);
'''))
seed('M04-repeated-silence', 'M04', 'a driver that reports the 1.5 character silence more than once, with a poll in between', 'A repeated report of the 1.5 character silence is taken for a late character: a good response counts as a failed attempt.',
 [(MA,'''    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
}''','''    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
    if (MODBUS_MASTER_RESP_RECIVED == modbus_master_manager_state_machine)
    {
        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
    }
    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = (modbus_status_flag_t)MODBUS_FLAG_SET;
}''')], main('''
    m_init(); modbus_master_read_holding_reg(3, 1, 9); m_sent(); FRAME(9, 3, 2, 0, 77); line_rx(&M, fb, fn);
    M.t15(); mpoll(2); M.t15(); mpoll(2); M.t35(); mpoll(5);
    CHECK(rec_is("h9,3=77 "), "reported: %s", rec); CHECK(M.sends == 1, "%d transmissions", M.sends);
'''))

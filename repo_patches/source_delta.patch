From 4a186d254cde3b35b1c5652e09a2c61ff3c3b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 01/20] fix: return the message buffer to the free queue when a
 request is rejected

A request refused with MODBUS_MASTER_LIB_PDU_REQ_ERROR (or RTU_SEND_ERROR) kept
the buffer it had taken, so five refused requests left the master answering
MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR for ever.
---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From 27e9d7c5c571d6468e66cb4018c7e3a3d055b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 02/20] fix: mark the transmission as running before the
 driver's send is called

Both roles set their transmission flag after send() returned. A tx-done
callback that came before that (blocking send, or the interrupt taken between
the two statements) was overwritten and the role waited for it for ever.
---
 src/modbus_master.c | 2 +-
 src/modbus_slave.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..36ece8e 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,9 +401,9 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     RTU_driver->enable_rcev(&msg_buf->resp);
-    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
 }
 
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..a793970 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -194,8 +194,8 @@ static void handle_modbus_slave_msg_recived_state(void)
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
+        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
-- 
2.43.0


From 448079b0e55e71c549320dc30e00da0264a8d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 03/20] fix: do not lose the 3.5 character event of a response
 polled late

When both the 1.5 and the 3.5 character events came between two calls of
update_modbus_master_manager(), handling the first discarded the second and the
master waited for it for ever with the response timeout already disabled. The
3.5 character flag is now reset when the 1.5 character event arrives.
---
 src/modbus_master.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 36ece8e..9dc167b 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -587,6 +587,7 @@ static void modbus_master_req_sended_callback(void)
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
@@ -747,7 +748,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


From 1d3e4688da599fdb40950dcc55dd22bc451b26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 04/20] fix: report the response timeout when several ticks
 pass between two polls

The timeout was only recognised while the countdown was exactly 1. If the tick
that took it to 0 came before the next call of update_modbus_master_manager(),
no timeout was ever reported and the master waited for ever.
---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 9dc167b..5eb2750 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -684,7 +684,7 @@ static void modbus_master_transmitting_state_handling(void)
  * and flags related to Modbus communication:
  * - If `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` is set, it calls
  *   `modbus_master_RTU_recv_state_handle` to handle the reception of Modbus data.
- * - If `modbus_master_resp_timeout_timer` equals 1, indicating a response timeout,
+ * - If `modbus_master_resp_timeout_timer` is down to 1 or 0, indicating a response timeout,
  *   it calls `modbus_master_resp_timeout_handle` to handle the timeout error
  *   and subsequently ends the message processing using `modbus_master_msg_process_end`.
  */
@@ -694,7 +694,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     {
         modbus_master_RTU_recv_state_handle();
     }
-    else if (1 == modbus_master_resp_timeout_timer)
+    else if (1 >= modbus_master_resp_timeout_timer)
     {
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
-- 
2.43.0


From b7d8b55c865f91576b98b8075dd280e78faf2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 05/20] fix: start the reception of a response when its request
 has been transmitted

The response length was reset by the first poll after the transmission, wiping
a response that had already begun to arrive, and 1.5 character, 3.5 character
and frame error events left over from before (line noise, a late response, the
previous error) were taken for events of the new response: a false CRC or frame
error, a repeated request, or a wait that never ended.
---
 src/modbus_master.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 5eb2750..17a9d63 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -572,6 +572,14 @@ static void modbus_master_disable_resp_timeout_timer(void)
  */
 static void modbus_master_req_sended_callback(void)
 {
+    // everything received so far came before the response could start
+    if (NULL != msg_buf)
+    {
+        msg_buf->resp.len = 0;
+    }
+    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
 }
 
@@ -671,7 +679,6 @@ static void modbus_master_transmitting_state_handling(void)
 {
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From 19600ea4e8cc24c5695ef6e3ab44d69e56a1575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 06/20] fix: do not carry a CRC error over to the next
 transmission

The CRC error flag survived both a request given up after its last repetition
and a repetition caused by a frame error, so the next correct response was
treated as corrupted and the request sent again.
---
 src/modbus_master.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 17a9d63..9b666aa 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,6 +401,7 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     RTU_driver->enable_rcev(&msg_buf->resp);
-- 
2.43.0


From 39c99d53218c1a7ecce9a90dd615e101f4a83222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 07/20] fix: accept a response only if it answers the request
 that was sent

The master dispatched a response by its own function code and trusted the
request for its size: a CRC-valid frame for another function delivered values
to the wrong callback (up to 2000 registers read from a 256 byte buffer), a
response with too few bytes delivered stale ones, and a write was confirmed
whatever address and value the slave echoed. Such a response is now handled as
a frame error: the request is repeated and finally reported.
---
 src/common/modbus_type.h                 |  3 ++
 src/master_internall/modbus_master_PDU.c | 58 ++++++++++++++++++++++++
 src/master_internall/modbus_master_PDU.h |  1 +
 src/modbus_master.c                      |  8 +++-
 4 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/src/common/modbus_type.h b/src/common/modbus_type.h
index 46190c6..aae8904 100644
--- a/src/common/modbus_type.h
+++ b/src/common/modbus_type.h
@@ -56,6 +56,9 @@ extern "C"
 /// Minimum quantity of registers/coils
 #define MODBUS_MIN_REG_COIL_QTY 1U
 
+/// Length of Modbus RTU CRC
+#define MODBUS_CRC_LEN 2U
+
 /// Length of Modbus slave address byte
 #define MODBUS_SLAVE_ADR_BYTE_LEN 1U
 
diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index dfab5bb..c0c202c 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -24,6 +24,7 @@
 #include "modbus_master_data_interface.h"
 #include "buf_rw.h"
 #include <stdio.h>
+#include <string.h>
 
 static modbus_ret_t modbus_master_read_coils_resp(modbus_msg_t *modbus_msg);
 static modbus_ret_t modbus_master_read_discrete_inputs_resp(modbus_msg_t *modbus_msg);
@@ -324,6 +325,63 @@ modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_i
     return RET_OK;
 }
 
+/**
+ * @brief Checks that a received RTU response answers the request that was sent.
+ *
+ * @param modbus_msg Pointer to the Modbus message structure containing the request and the received RTU frame.
+ * @return modbus_ret_t The result of the check.
+ * @retval RET_OK The response is an exception code or a correct answer to the request.
+ * @retval RET_NULL_PTR_ERROR Null pointer detected in the Modbus message structure.
+ * @retval RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH The response belongs to another function.
+ * @retval RET_ERROR_BYTE_CNT The length of the response or its byte count is not the expected one.
+ * @retval RET_ERROR_WRITE_OUT_ADR The response confirms the write of other data.
+ */
+modbus_ret_t modbus_master_check_slave_resp(const modbus_msg_t *modbus_msg)
+{
+    if (RET_OK != check_null_ptr_correctness(modbus_msg))
+    {
+        return RET_NULL_PTR_ERROR;
+    }
+
+    const modbus_buf_t *req = modbus_msg->req.data;
+    const modbus_buf_t *resp = modbus_msg->resp.data;
+    modbus_data_qty_t data_qty = read_u16_from_buf(req + MODBUS_REQUEST_QTY_IDX);
+    modbus_data_qty_t byte_cnt;
+
+    if (resp[MODBUS_FUNCTION_CODE_IDX] == (req[MODBUS_FUNCTION_CODE_IDX] | MODBUS_EXCEPTION_CODE_MASK))
+    {
+        return ((MODBUS_EXCEPTION_CODE_RESP_LEN + MODBUS_CRC_LEN) == modbus_msg->resp.len) ? RET_OK : RET_ERROR_BYTE_CNT;
+    }
+    if (resp[MODBUS_FUNCTION_CODE_IDX] != req[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
+    }
+
+    switch (req[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        byte_cnt = get_coil_din_byte_count(data_qty);
+        break;
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        byte_cnt = data_qty * 2;
+        break;
+    default:
+        // every write is confirmed with the address and the value or quantity from the request
+        if ((MODBUS_WRITE_SINGLE_RESP_LEN + MODBUS_CRC_LEN) != modbus_msg->resp.len)
+        {
+            return RET_ERROR_BYTE_CNT;
+        }
+        return (0 == memcmp(req + MODBUS_REQUEST_ADR_IDX, resp + MODBUS_RESP_WRITE_ADR_IDX, 4)) ? RET_OK : RET_ERROR_WRITE_OUT_ADR;
+    }
+    if ((resp[MODBUS_RESP_READ_BYTE_CNT_IDX] != byte_cnt) || ((MODBUS_READ_RESP_LEN + byte_cnt + MODBUS_CRC_LEN) != modbus_msg->resp.len))
+    {
+        return RET_ERROR_BYTE_CNT;
+    }
+    return RET_OK;
+}
+
 /**
  * @brief Processes the Modbus message response.
  *
diff --git a/src/master_internall/modbus_master_PDU.h b/src/master_internall/modbus_master_PDU.h
index 3518c1c..931fdd6 100644
--- a/src/master_internall/modbus_master_PDU.h
+++ b/src/master_internall/modbus_master_PDU.h
@@ -34,6 +34,7 @@ extern "C"
     modbus_ret_t modbus_master_write_multiple_reg_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
     modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
 
+    modbus_ret_t modbus_master_check_slave_resp(const modbus_msg_t *modbus_msg);
     modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg);
 
 #ifdef __cplusplus
diff --git a/src/modbus_master.c b/src/modbus_master.c
index 9b666aa..a8202fc 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -813,13 +813,19 @@ static void modbus_master_resp_recived_state_handling(void)
  * @brief Handles the correct reception of a Modbus response message.
  *
  * This function is invoked when a Modbus response message is received correctly
- * without any frame or CRC errors. It calls `modbus_master_read_slave_resp` to
+ * without any frame or CRC errors. A response that does not answer the request
+ * that was sent is handled as a frame error. Otherwise the function calls `modbus_master_read_slave_resp` to
  * process the received response stored in `msg_buf`. After processing, it finalizes
  * the message handling by calling `modbus_master_msg_process_end` to push the message
  * buffer back to the free queue and transition the state machine to idle state (`MODBUS_MASTER_IDLE`).
  */
 static void modbus_master_msg_recived_correctly_state_handle(void)
 {
+    if (RET_OK != modbus_master_check_slave_resp(msg_buf))
+    {
+        modbus_master_frame_error_state_handling();
+        return;
+    }
     modbus_master_read_slave_resp(msg_buf);
     modbus_master_msg_process_end();
 }
-- 
2.43.0


From 5b016daf6a39605281f4f79af896fdbdc1bcce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 08/20] fix: describe the failed request in error reports

A timeout report took its function code from the response buffer, i.e. from
whatever an earlier request had left there, and a communication error report
took slave and function from the corrupted response and no address or quantity.
---
 src/modbus_master.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index a8202fc..d2b32c9 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -719,7 +719,7 @@ static void modbus_master_resp_waiting_state_handling(void)
  *   - `slave_ID`: Modbus slave address extracted from the request data.
  *   - `data_adr`: Address field from the Modbus request.
  *   - `data_qty`: Quantity field from the Modbus request.
- *   - `fun_conde`: Function code from the Modbus response (if available).
+ *   - `fun_conde`: Function code from the Modbus request.
  *   - `resp_read_error`: Indicates a timeout error (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
  * - Invokes `modbus_master_data_timeout_error` to handle and report the timeout error.
  */
@@ -729,7 +729,7 @@ void modbus_master_resp_timeout_handle(void)
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
     timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    timeout_error.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
 }
@@ -857,8 +857,10 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
@@ -892,8 +894,10 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
-- 
2.43.0


From 0be6bdaa341f29d2528617e0c84fe3cade0bc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 09/20] fix: report a quantity of 1 for the write of a single
 coil or register

Exception, timeout and communication error reports gave the value written as
the quantity of data objects.
---
 src/master_internall/modbus_master_PDU.c | 18 +++++++++++++++++-
 src/master_internall/modbus_master_PDU.h |  1 +
 src/modbus_master.c                      |  6 +++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index c0c202c..6f0fd06 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -325,6 +325,22 @@ modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_i
     return RET_OK;
 }
 
+/**
+ * @brief Gets the quantity of data objects a request refers to.
+ *
+ * @param req Pointer to the Modbus request structure.
+ * @return modbus_data_qty_t 1 for a write of a single coil or register, otherwise the quantity from the request.
+ */
+modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req)
+{
+    modbus_fun_code_t fun_code = req->data[MODBUS_FUNCTION_CODE_IDX];
+    if ((MODBUS_WRITE_SINGLE_COIL_FUNC_CODE == fun_code) || (MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE == fun_code))
+    {
+        return 1;
+    }
+    return read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
+}
+
 /**
  * @brief Checks that a received RTU response answers the request that was sent.
  *
@@ -836,7 +852,7 @@ static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg)
     resp.fun_conde = (modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
     resp.exception_code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX];
     resp.data_adr = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_ADR_IDX]);
-    resp.data_qty = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_QTY_IDX]);
+    resp.data_qty = modbus_master_get_req_data_qty(&modbus_msg->req);
     send_exception_code_report_data(&resp);
     return status;
 }
diff --git a/src/master_internall/modbus_master_PDU.h b/src/master_internall/modbus_master_PDU.h
index 931fdd6..5f6928f 100644
--- a/src/master_internall/modbus_master_PDU.h
+++ b/src/master_internall/modbus_master_PDU.h
@@ -34,6 +34,7 @@ extern "C"
     modbus_ret_t modbus_master_write_multiple_reg_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
     modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
 
+    modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req);
     modbus_ret_t modbus_master_check_slave_resp(const modbus_msg_t *modbus_msg);
     modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg);
 
diff --git a/src/modbus_master.c b/src/modbus_master.c
index d2b32c9..084510e 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -728,7 +728,7 @@ void modbus_master_resp_timeout_handle(void)
     modbus_master_error_report_t timeout_error;
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
-    timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
+    timeout_error.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
     timeout_error.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
@@ -860,7 +860,7 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
         error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
         error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
         error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
-        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
+        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
@@ -897,7 +897,7 @@ static void modbus_master_frame_error_state_handling(void)
         error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
         error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
         error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
-        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
+        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
-- 
2.43.0


From cf55d3652954d033cf8eb5f2d91ec913983adaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 10/20] fix: ignore the frame errors of frames from other
 slaves

A frame error in a frame that was dropped because of its slave ID stayed
pending, so the awaited response was treated as faulty and the request sent
again.
---
 src/modbus_master.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 084510e..58896a4 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -766,6 +766,7 @@ static void modbus_master_RTU_recv_state_handle(void)
     else if (RET_ERROR_SLAVE_ID == RTU_status)
     {
         msg_buf->resp.len = 0;
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else // RET_OK
     {
-- 
2.43.0


From 812c2345031441af63fd85931313650d3ad9cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 11/20] fix: do not leave the slave deaf after a frame with two
 1.5 character breaks

A byte that came between the 1.5 and the 3.5 character time makes the driver
raise the 1.5 character event twice. The second one was still pending when the
frame was discarded, was then evaluated on an empty buffer as a frame error,
and from then on every request was discarded one event late. Going back to idle
now drops the events together with the bytes.
---
 src/modbus_slave.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index a793970..a12a291 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -188,6 +188,7 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
@@ -218,6 +219,10 @@ static void handle_modbus_slave_transmitting_resp_state(void)
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         slave_msg_ptr->resp.len = 0;
         slave_msg_ptr->req.len = 0;
+        // the events of everything received until now are dropped together with it
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
 }
 
-- 
2.43.0


From c50b2c4c3df7d1484c46758d10a2aefffca37f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 12/20] fix: wait for the 3.5 character time of the frame that
 is answered

A 3.5 character event left over from an earlier frame that was polled late let
the slave answer the next request before its own 3.5 character silence.
---
 src/modbus_slave.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index a12a291..b795349 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -342,6 +342,7 @@ static void modbus_resp_send_callback(void)
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
-- 
2.43.0


From bdb99743d5d8e4bfe5064c45999bf8e79acde571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 13/20] fix: drop a partly received frame when the slave is
 initialised again

---
 src/modbus_slave.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index b795349..f479203 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -272,6 +272,8 @@ static void register_msg_req_resp_data_buffers(modbus_mode_t mode)
         slave_msg.req.data = slave_RTU_req_buf;
         slave_msg.resp.data = slave_RTU_resp_buf;
     }
+    slave_msg.req.len = 0;
+    slave_msg.resp.len = 0;
 }
 
 /**
-- 
2.43.0


From 60caff4b6ecbfcac1bcf6a29c9d590387f5b72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 14/20] fix: process a request only if the whole frame has been
 received

The slave did not look at the length of a request. A CRC-valid frame that was
too short was processed with whatever an earlier request had left in the
buffer, e.g. two bytes of data could start a write of 123 stale registers.
---
 src/modbus_slave.c                     |  2 +-
 src/slave_internall/modbus_slave_PDU.c | 41 ++++++++++++++++++++++++++
 src/slave_internall/modbus_slave_PDU.h |  1 +
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index f479203..558385e 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -166,7 +166,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || (RET_OK != check_master_request_len(&slave_msg_ptr->req)))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
diff --git a/src/slave_internall/modbus_slave_PDU.c b/src/slave_internall/modbus_slave_PDU.c
index 0526dd7..33631bc 100644
--- a/src/slave_internall/modbus_slave_PDU.c
+++ b/src/slave_internall/modbus_slave_PDU.c
@@ -54,6 +54,47 @@ static const modbus_function_mapper_t modbus_slave_function_mapper[] = {
 
 #define MODBUS_SLAVE_FUNCTION_MAPPER_SIZE (sizeof(modbus_slave_function_mapper) / sizeof(modbus_slave_function_mapper[0]));
 
+/**
+ * @brief Checks the length of a received RTU request.
+ *
+ * @param req Pointer to the request, holding a whole RTU frame with its slave ID and CRC.
+ * @return modbus_ret_t The result of the check.
+ *         @retval - RET_OK if the frame is as long as its function requires, or the function is not supported.
+ *         @retval - RET_ERROR if bytes are missing from the frame or follow its end.
+ */
+modbus_ret_t check_master_request_len(const modbus_req_resp_t *req)
+{
+    uint32_t expected_len;
+
+    if (req->len < (MODBUS_FUNCTION_CODE_IDX + 1U + MODBUS_CRC_LEN))
+    {
+        return RET_ERROR;
+    }
+    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
+        expected_len = MODBUS_READ_REQUEST_LEN + MODBUS_CRC_LEN;
+        break;
+    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
+    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
+        if (req->len < (MODBUS_WRITE_MULTI_REQUEST_LEN + MODBUS_CRC_LEN))
+        {
+            return RET_ERROR;
+        }
+        expected_len = MODBUS_WRITE_MULTI_REQUEST_LEN + req->data[MODBUS_REQUEST_BYTE_CNT_IDX] + MODBUS_CRC_LEN;
+        break;
+    default:
+        expected_len = req->len;
+        break;
+    }
+    return (expected_len == req->len) ? RET_OK : RET_ERROR;
+}
+
 /**
  * @brief Parses the Modbus master request and prepares the response.
  *
diff --git a/src/slave_internall/modbus_slave_PDU.h b/src/slave_internall/modbus_slave_PDU.h
index c8c15c5..6773e54 100644
--- a/src/slave_internall/modbus_slave_PDU.h
+++ b/src/slave_internall/modbus_slave_PDU.h
@@ -34,6 +34,7 @@ extern "C"
 #endif /* __cplusplus */
 #include "modbus_slave_data.h"
 
+    modbus_ret_t check_master_request_len(const modbus_req_resp_t *req);
     modbus_ret_t parse_master_request_and_prepare_resp(modbus_msg_t *rx_msg);
 
 #ifdef __cplusplus
-- 
2.43.0


From 6a13be87356834420f5b146925aad8d592733d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 15/20] fix: ignore the registration of data outside the
 configured tables

An address beyond the table size was written behind the pointer table.
---
 src/modbus_slave.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 558385e..845dc2f 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -65,7 +65,10 @@ static void modbus_frame_error_callback(void);
  */
 void register_app_data_to_modbus_slave_coils_table(modbus_adr_t coil_adr, modbus_coil_disin_t *app_data_ptr)
 {
-    register_app_data_to_modbus_coils_din_table(Slave_Coils, coil_adr, app_data_ptr);
+    if (coil_adr < COILS_QTY)
+    {
+        register_app_data_to_modbus_coils_din_table(Slave_Coils, coil_adr, app_data_ptr);
+    }
 }
 
 /**
@@ -78,7 +81,10 @@ void register_app_data_to_modbus_slave_coils_table(modbus_adr_t coil_adr, modbus
  */
 void register_app_data_to_modbus_slave_din_table(modbus_adr_t disin_adr, modbus_coil_disin_t *app_data_ptr)
 {
-    register_app_data_to_modbus_coils_din_table(Slave_Discrete_Inputs, disin_adr, app_data_ptr);
+    if (disin_adr < DISCRET_INPUT_QTY)
+    {
+        register_app_data_to_modbus_coils_din_table(Slave_Discrete_Inputs, disin_adr, app_data_ptr);
+    }
 }
 
 /**
@@ -91,7 +97,10 @@ void register_app_data_to_modbus_slave_din_table(modbus_adr_t disin_adr, modbus_
  */
 void register_app_data_to_modbus_slave_inreg_table(modbus_adr_t reg_adr, modbus_reg_t *app_data_ptr)
 {
-    register_app_data_to_modbus_reg_table(Slave_Input_Registers, reg_adr, app_data_ptr);
+    if (reg_adr < INPUT_REG_QTY)
+    {
+        register_app_data_to_modbus_reg_table(Slave_Input_Registers, reg_adr, app_data_ptr);
+    }
 }
 
 /**
@@ -104,7 +113,10 @@ void register_app_data_to_modbus_slave_inreg_table(modbus_adr_t reg_adr, modbus_
  */
 void register_app_data_to_modbus_slave_hreg_table(modbus_adr_t reg_adr, modbus_reg_t *app_data_ptr)
 {
-    register_app_data_to_modbus_reg_table(Slave_Holding_Registers, reg_adr, app_data_ptr);
+    if (reg_adr < HOLDING_REG_QTY)
+    {
+        register_app_data_to_modbus_reg_table(Slave_Holding_Registers, reg_adr, app_data_ptr);
+    }
 }
 
 /**
-- 
2.43.0


From a463b3312e756eb5096dda7d5d58431c65e9b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 16/20] fix: master decided on a response while its 3.5
 character flag was still being tested

The end of the silence is reported by an interrupt. Coming between the tests of
the frame error and of the CRC error condition it made a response with a
character error be handled and reported as one with a CRC error.
---
 src/modbus_master.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 58896a4..af39100 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -792,6 +792,10 @@ static void modbus_master_RTU_recv_state_handle(void)
  */
 static void modbus_master_resp_recived_state_handling(void)
 {
+    if (MODBUS_FLAG_SET != MODBUS_MASTER_TIMER_3_5_CHAR_FLAG)
+    {
+        return; // the flag may be set by an interrupt between the conditions below
+    }
     if ((MODBUS_FLAG_SET == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))
     {
         modbus_master_frame_error_state_handling();
-- 
2.43.0


From 48992f1ae087db6e6948ecfac9dbfbbc9be82509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 17/20] fix: ignore end-of-transmission events while no request
 is being transmitted

The reference STM32 driver reports the end of the transmission with every
received byte and every 1.5 character break, because its interrupt handler
does not check whether the transmitter's interrupt is enabled. Since b7d8b55
such an event discarded the response received so far.
---
 src/modbus_master.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index af39100..210f7d1 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -573,15 +573,19 @@ static void modbus_master_disable_resp_timeout_timer(void)
  */
 static void modbus_master_req_sended_callback(void)
 {
-    // everything received so far came before the response could start
-    if (NULL != msg_buf)
+    // drivers may also report this while nothing is being transmitted (e.g. with every received byte)
+    if (MODBUS_FLAG_SET == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
+        // everything received so far came before the response could start
+        if (NULL != msg_buf)
+        {
+            msg_buf->resp.len = 0;
+        }
+        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
     }
-    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
 }
 
 /**
-- 
2.43.0


From 687f023f3e19ab491ede7357a5636a4aa170eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 18/20] fix: master waited for ever after a 1.5 character
 silence without a character

---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 210f7d1..d9b677e 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -580,6 +580,8 @@ static void modbus_master_req_sended_callback(void)
         if (NULL != msg_buf)
         {
             msg_buf->resp.len = 0;
+            // a silence reported before the first character must not be taken for the end of a response
+            msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX] = (modbus_buf_t)~msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
         }
         MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-- 
2.43.0


From a5123fcc721ef8e5e774e97842e4137d53aeb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:31 +0000
Subject: [PATCH 19/20] fix: let the slave see an error reported together with
 the end of the silence

---
 src/modbus_slave.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 845dc2f..93b7587 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -195,6 +195,10 @@ static void handle_modbus_slave_idle_state(void)
  */
 static void handle_modbus_slave_msg_recived_state(void)
 {
+    if (MODBUS_FLAG_SET != TIMER_3_5_CHAR_FLAG)
+    {
+        return; // an error and the end of the silence may be reported between the conditions below
+    }
     if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
         slave_msg_ptr->req.len = 0;
-- 
2.43.0


From cf48ff645998443fd7d688718aac80ad1153068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 20/20] fix: take the function and slave of a response from its
 request when it is delivered

---
 src/master_internall/modbus_master_PDU.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index 6f0fd06..141e3a9 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -623,8 +623,9 @@ static modbus_data_t modbus_get_max_len_2_read(modbus_req_t req_code)
 static modbus_ret_t update_master_data_from_modbus_msg(const modbus_req_resp_t *resp, const modbus_req_resp_t *req)
 {
     modbus_ret_t status = RET_OK;
-    modbus_device_ID_t slave_adr = resp->data[MODBUS_SLAVE_ADR_IDX];
-    modbus_fun_code_t resp_fun_code = resp->data[MODBUS_FUNCTION_CODE_IDX];
+    // taken from the request: further characters may overwrite the beginning of the longest responses
+    modbus_device_ID_t slave_adr = req->data[MODBUS_SLAVE_ADR_IDX];
+    modbus_fun_code_t resp_fun_code = req->data[MODBUS_FUNCTION_CODE_IDX];
     modbus_adr_t data_adr = read_u16_from_buf(req->data + MODBUS_REQUEST_ADR_IDX);
     modbus_data_qty_t data_qty = read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
     switch (resp_fun_code)
@@ -849,7 +850,7 @@ static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg)
     modbus_ret_t status = RET_OK;
     static modbus_read_data_t resp;
     resp.slave_ID = modbus_msg->resp.data[MODBUS_SLAVE_ADR_IDX];
-    resp.fun_conde = (modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+    resp.fun_conde = modbus_msg->req.data[MODBUS_FUNCTION_CODE_IDX];
     resp.exception_code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX];
     resp.data_adr = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_ADR_IDX]);
     resp.data_qty = modbus_master_get_req_data_qty(&modbus_msg->req);
-- 
2.43.0


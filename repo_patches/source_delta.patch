From de449d3d5d17a3d9a39b248848b29559f517cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 01/15] fix: return the message buffer to the free queue when
 building a request fails

A request with an invalid quantity was refused, but its buffer was never
returned, so that after MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS refused requests
no further request could be made.
---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From 9b9171139d8e81b71a2df79bd9ce879954081736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 02/15] fix: mark the request as being transmitted before the
 master driver is started

Transmission done reported by the driver before send() and enable_rcev()
returned was overwritten, and the master waited for it forever.
---
 src/modbus_master.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..3853481 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,10 +401,11 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
-    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
-    RTU_driver->enable_rcev(&msg_buf->resp);
+    // set before the driver is started, so that transmission done reported from an interrupt is not overwritten
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
+    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
+    RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
 /**
-- 
2.43.0


From 9c9aeda46c58006f76b2d527c3028abdb1e49dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 03/15] fix: mark the response as being transmitted before the
 slave driver is started

Transmission done reported by the driver before send() returned was
overwritten, and the slave never answered again.
---
 src/modbus_slave.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..7fec562 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -194,10 +194,11 @@ static void handle_modbus_slave_msg_recived_state(void)
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
+        // set before the driver is started, so that transmission done reported from an interrupt is not overwritten
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
     }
     else
     {
-- 
2.43.0


From 008b1257bb33eb68f9a8e2061a0235f530b77fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/15] fix: open the master reception window when the request
 has been transmitted

Characters, timer events and frame errors seen before the end of the
transmission were taken for the response to it, and a response received
before the next call of update_modbus_master_manager() was lost.
---
 src/modbus_master.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 3853481..bf64b4f 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -573,7 +573,18 @@ static void modbus_master_disable_resp_timeout_timer(void)
  */
 static void modbus_master_req_sended_callback(void)
 {
-    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
+    if (MODBUS_FLAG_SET == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
+    {
+        // only what is received from now on can belong to the response
+        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        if (NULL != msg_buf)
+        {
+            msg_buf->resp.len = 0;
+        }
+        MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
+    }
 }
 
 /**
@@ -671,7 +682,6 @@ static void modbus_master_transmitting_state_handling(void)
 {
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From 58637d0e1cf0ea35cc8d9180aad0e1327161dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 05/15] fix: keep the 3.5 character event of a response that is
 handled late by the master

The event was cleared together with the 1.5 character one, so that a response
which was complete before it was first looked at blocked the master forever.
Events of a frame of another slave no longer count for the response after it.
---
 src/modbus_master.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index bf64b4f..2c2af47 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -599,6 +599,7 @@ static void modbus_master_req_sended_callback(void)
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
@@ -740,8 +741,8 @@ void modbus_master_resp_timeout_handle(void)
  * @brief Handles the state when a Modbus RTU response is received.
  *
  * This function processes the response received from the Modbus RTU interface:
- * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG and MODBUS_MASTER_TIMER_3_5_CHAR_FLAG
- *   indicating the end of the response reception timing.
+ * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG indicating the end of the response reception
+ *   timing. MODBUS_MASTER_TIMER_3_5_CHAR_FLAG may already be set for this response and is kept.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
@@ -758,7 +759,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
@@ -768,6 +768,7 @@ static void modbus_master_RTU_recv_state_handle(void)
     }
     else if (RET_ERROR_SLAVE_ID == RTU_status)
     {
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         msg_buf->resp.len = 0;
     }
     else // RET_OK
-- 
2.43.0


From 32a7309b0c10caf3cd62df0f2caa5d6dfb809038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 06/15] fix: clear the master CRC error flag before every
 transmission

Left over from a request that failed, or from a response that had a frame
error too, it made the master reject the next good response.
---
 src/modbus_master.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 2c2af47..17e99d2 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,6 +401,7 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     // set before the driver is started, so that transmission done reported from an interrupt is not overwritten
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
-- 
2.43.0


From 9cf530b8d684a9880d4032ce8d9bf31c0d10eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 07/15] fix: hold an expired master response timeout until it
 is handled

The timeout was noticed only by a call of update_modbus_master_manager()
during the one millisecond in which the timer had the value one; missing it
left the master waiting forever.
---
 src/modbus_master.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 17e99d2..58711ba 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -376,7 +376,8 @@ void update_modbus_master_manager(void)
 /**
  * @brief Updates the Modbus master response timeout timer.
  *
- * This function decrements the Modbus master response timeout timer if it is greater than zero.
+ * This function decrements the Modbus master response timeout timer until it reaches one, which
+ * means that the timeout has expired. It stays there until the timeout is handled.
  * It is typically called periodically, such as in a timer interrupt or main loop, to manage the
  * timeout period for Modbus master responses.
  *
@@ -384,7 +385,7 @@ void update_modbus_master_manager(void)
  */
 void update_modbus_master_timout_timer(void)
 {
-    if (modbus_master_resp_timeout_timer)
+    if (modbus_master_resp_timeout_timer > 1)
     {
         modbus_master_resp_timeout_timer--;
     }
@@ -708,6 +709,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     }
     else if (1 == modbus_master_resp_timeout_timer)
     {
+        modbus_master_disable_resp_timeout_timer();
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
     }
-- 
2.43.0


From f469ce0c1f0b9276782745cf72c75126666b2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 08/15] fix: describe the request in all error and exception
 reports of the master

The slave ID and function code were read from the missing or corrupted
response, the data address and quantity were not set for communication errors,
and the value to write was reported as the quantity of write single requests.
---
 src/master_internall/modbus_master_PDU.c | 20 ++++++++++++-
 src/master_internall/modbus_master_PDU.h |  2 ++
 src/modbus_master.c                      | 36 +++++++++++++++---------
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index dfab5bb..d04ec2e 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -354,6 +354,24 @@ modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg)
     return process_modbus_response(modbus_msg);
 }
 
+/**
+ * @brief Gets the quantity of data objects that a request refers to.
+ *
+ * Write single requests carry the value to write instead of a quantity and refer to one object.
+ *
+ * @param req Pointer to the Modbus request.
+ * @return Quantity of data objects.
+ */
+modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req)
+{
+    modbus_fun_code_t req_fun_code = req->data[MODBUS_FUNCTION_CODE_IDX];
+    if ((MODBUS_WRITE_SINGLE_COIL_FUNC_CODE == req_fun_code) || (MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE == req_fun_code))
+    {
+        return 1;
+    }
+    return read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
+}
+
 // Master internall functions
 /**
  * @brief Processes the response for a Modbus "Read Coils" request.
@@ -778,7 +796,7 @@ static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg)
     resp.fun_conde = (modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
     resp.exception_code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX];
     resp.data_adr = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_ADR_IDX]);
-    resp.data_qty = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_QTY_IDX]);
+    resp.data_qty = modbus_master_get_req_data_qty(&modbus_msg->req);
     send_exception_code_report_data(&resp);
     return status;
 }
diff --git a/src/master_internall/modbus_master_PDU.h b/src/master_internall/modbus_master_PDU.h
index 3518c1c..8fd079b 100644
--- a/src/master_internall/modbus_master_PDU.h
+++ b/src/master_internall/modbus_master_PDU.h
@@ -36,6 +36,8 @@ extern "C"
 
     modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg);
 
+    modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req);
+
 #ifdef __cplusplus
 }
 #endif /* __cplusplus */
diff --git a/src/modbus_master.c b/src/modbus_master.c
index 58711ba..ab6cebe 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -82,6 +82,7 @@ static void modbus_master_idle_state_handling(void);
 static void modbus_master_transmitting_state_handling(void);
 static void modbus_master_resp_waiting_state_handling(void);
 static void modbus_master_resp_timeout_handle(void);
+static void fill_error_report_from_req(modbus_master_error_report_t *error_report, modbus_master_resp_read_error_t error);
 static void modbus_master_RTU_recv_state_handle(void);
 static void modbus_master_resp_recived_state_handling(void);
 
@@ -724,22 +725,35 @@ static void modbus_master_resp_waiting_state_handling(void)
  * - Retrieves relevant data from `msg_buf` to populate `timeout_error`:
  *   - `slave_ID`: Modbus slave address extracted from the request data.
  *   - `data_adr`: Address field from the Modbus request.
- *   - `data_qty`: Quantity field from the Modbus request.
- *   - `fun_conde`: Function code from the Modbus response (if available).
+ *   - `data_qty`: Quantity of data objects of the Modbus request.
+ *   - `fun_conde`: Function code from the Modbus request.
  *   - `resp_read_error`: Indicates a timeout error (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
  * - Invokes `modbus_master_data_timeout_error` to handle and report the timeout error.
  */
 void modbus_master_resp_timeout_handle(void)
 {
     modbus_master_error_report_t timeout_error;
-    timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
-    timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
-    timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
-    timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
+    fill_error_report_from_req(&timeout_error, MODBUS_MASTER_RESP_TIMEOUT_ERR);
     modbus_master_data_timeout_error(&timeout_error);
 }
 
+/**
+ * @brief Fills an error report with the parameters of the request that is being processed.
+ *
+ * The request is the only reliable source, as the response may be missing or corrupted.
+ *
+ * @param error_report Pointer to the error report to fill.
+ * @param error Error to report.
+ */
+static void fill_error_report_from_req(modbus_master_error_report_t *error_report, modbus_master_resp_read_error_t error)
+{
+    error_report->slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+    error_report->fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+    error_report->data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+    error_report->data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
+    error_report->resp_read_error = error;
+}
+
 /**
  * @brief Handles the state when a Modbus RTU response is received.
  *
@@ -858,9 +872,7 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
-        error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
+        fill_error_report_from_req(&error_rep, MODBUS_MASTER_RESP_RTU_CRC_ERR);
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
     }
@@ -893,9 +905,7 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
-        error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
+        fill_error_report_from_req(&error_rep, MODBUS_MASTER_RESP_FRAME_ERR);
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
     }
-- 
2.43.0


From 1d14bc8f80f853f3b54a46c68351271d2bcdde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 09/15] fix: deliver a response only if it answers the request
 of the master

A response with another function code, byte count or length, or with other
write parameters, was delivered as the answer to the pending request, with data
from an earlier frame where it was too short.
---
 src/common/modbus_type.h                 |  3 +
 src/master_internall/modbus_master_PDU.c | 78 ++++++++++++++++++++++++
 src/modbus_master.c                      | 12 +++-
 3 files changed, 91 insertions(+), 2 deletions(-)

diff --git a/src/common/modbus_type.h b/src/common/modbus_type.h
index 46190c6..850976e 100644
--- a/src/common/modbus_type.h
+++ b/src/common/modbus_type.h
@@ -32,6 +32,9 @@ extern "C"
 /// Modbus RTU buffer size specification
 #define MODBUS_RTU_BUFFER_SIZE 256U
 
+/// Length of Modbus RTU CRC
+#define MODBUS_RTU_CRC_LEN 2U
+
 /// Maximum length of Modbus PDU
 #define MODBUS_PDU_MAX_LEN 253U
 
diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index d04ec2e..4b5add1 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -24,6 +24,7 @@
 #include "modbus_master_data_interface.h"
 #include "buf_rw.h"
 #include <stdio.h>
+#include <string.h>
 
 static modbus_ret_t modbus_master_read_coils_resp(modbus_msg_t *modbus_msg);
 static modbus_ret_t modbus_master_read_discrete_inputs_resp(modbus_msg_t *modbus_msg);
@@ -47,6 +48,8 @@ static void update_holding_reg_from_modbus_msg(modbus_data_qty_t data_qty, const
 static modbus_ret_t report_write_operation_confirmation(const modbus_req_resp_t *resp, const modbus_req_resp_t *req);
 static modbus_ret_t check_null_ptr_correctness(const modbus_msg_t *modbus_msg);
 
+static modbus_ret_t check_resp_correctness(const modbus_msg_t *modbus_msg);
+static modbus_byte_count_t get_expected_read_byte_count(const modbus_req_resp_t *req);
 static bool modbus_response_contain_exception_code(const modbus_msg_t *modbus_msg);
 static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg);
 static modbus_ret_t send_exception_code_report_data(modbus_read_data_t *ex_code_data);
@@ -345,6 +348,12 @@ modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg)
         return RET_NULL_PTR_ERROR;
     }
 
+    modbus_ret_t resp_status = check_resp_correctness(modbus_msg);
+    if (RET_OK != resp_status)
+    {
+        return resp_status;
+    }
+
     if (modbus_response_contain_exception_code(modbus_msg))
     {
 
@@ -354,6 +363,75 @@ modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg)
     return process_modbus_response(modbus_msg);
 }
 
+/**
+ * @brief Checks that a response answers the request it was received for.
+ *
+ * @param modbus_msg Pointer to the Modbus message with the request and the response (without CRC).
+ * @return Status of the check.
+ * @retval RET_OK If the response has the function code, length and content that the request calls for.
+ * @retval RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH If the function code does not match.
+ * @retval RET_ERROR_BYTE_CNT If the length does not match.
+ * @retval RET_ERROR If a write response does not repeat what was requested.
+ */
+static modbus_ret_t check_resp_correctness(const modbus_msg_t *modbus_msg)
+{
+    const modbus_req_resp_t *req = &modbus_msg->req;
+    const modbus_req_resp_t *resp = &modbus_msg->resp;
+    modbus_fun_code_t req_fun_code = req->data[MODBUS_FUNCTION_CODE_IDX];
+    modbus_byte_count_t byte_count;
+
+    if ((req_fun_code | MODBUS_EXCEPTION_CODE_MASK) == resp->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return (MODBUS_EXCEPTION_CODE_RESP_LEN == resp->len) ? RET_OK : RET_ERROR_BYTE_CNT;
+    }
+    if (req_fun_code != resp->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
+    }
+
+    switch (req_fun_code)
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        byte_count = get_expected_read_byte_count(req);
+        if ((byte_count != resp->data[MODBUS_RESP_READ_BYTE_CNT_IDX]) || ((MODBUS_READ_RESP_LEN + byte_count) != resp->len))
+        {
+            return RET_ERROR_BYTE_CNT;
+        }
+        break;
+    default:
+        if (MODBUS_WRITE_SINGLE_RESP_LEN != resp->len)
+        {
+            return RET_ERROR_BYTE_CNT;
+        }
+        if (0 != memcmp(&resp->data[MODBUS_RESP_WRITE_ADR_IDX], &req->data[MODBUS_REQUEST_ADR_IDX], MODBUS_WRITE_SINGLE_RESP_LEN - MODBUS_RESP_WRITE_ADR_IDX))
+        {
+            return RET_ERROR;
+        }
+        break;
+    }
+    return RET_OK;
+}
+
+/**
+ * @brief Gets the byte count that the response to a read request has to have.
+ *
+ * @param req Pointer to the Modbus read request.
+ * @return Byte count.
+ */
+static modbus_byte_count_t get_expected_read_byte_count(const modbus_req_resp_t *req)
+{
+    modbus_fun_code_t req_fun_code = req->data[MODBUS_FUNCTION_CODE_IDX];
+    modbus_data_qty_t data_qty = read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
+    if ((MODBUS_READ_COILS_FUNC_CODE == req_fun_code) || (MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE == req_fun_code))
+    {
+        return get_coil_din_byte_count(data_qty);
+    }
+    return 2 * data_qty;
+}
+
 /**
  * @brief Gets the quantity of data objects that a request refers to.
  *
diff --git a/src/modbus_master.c b/src/modbus_master.c
index ab6cebe..8de52b3 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -838,11 +838,19 @@ static void modbus_master_resp_recived_state_handling(void)
  * process the received response stored in `msg_buf`. After processing, it finalizes
  * the message handling by calling `modbus_master_msg_process_end` to push the message
  * buffer back to the free queue and transition the state machine to idle state (`MODBUS_MASTER_IDLE`).
+ * A response that does not answer the request is handled like a frame error.
  */
 static void modbus_master_msg_recived_correctly_state_handle(void)
 {
-    modbus_master_read_slave_resp(msg_buf);
-    modbus_master_msg_process_end();
+    msg_buf->resp.len -= MODBUS_RTU_CRC_LEN;
+    if (RET_OK == modbus_master_read_slave_resp(msg_buf))
+    {
+        modbus_master_msg_process_end();
+    }
+    else
+    {
+        modbus_master_frame_error_state_handling();
+    }
 }
 
 /**
-- 
2.43.0


From 3f5b3735831fdd5766ed1192d777934ca35b0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 10/15] fix: open the slave reception window when the response
 has been transmitted

Characters, timer events and frame errors seen while the slave was answering,
or left over from a rejected frame, were taken for a part of the next request,
and a request received before the next call of check_modbus_request() was lost.
---
 src/modbus_slave.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 7fec562..80c9f3f 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -188,6 +188,7 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
@@ -218,7 +219,6 @@ static void handle_modbus_slave_transmitting_resp_state(void)
     {
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         slave_msg_ptr->resp.len = 0;
-        slave_msg_ptr->req.len = 0;
     }
 }
 
@@ -327,7 +327,15 @@ static void init_modbus_slave_internall_data(modbus_device_ID_t Slave_ID)
  */
 static void modbus_resp_send_callback(void)
 {
-    RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
+    if (MODBUS_FLAG_SET == RESP_TRANSMITION_FLAG)
+    {
+        // only what is received from now on can belong to the next request
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        slave_msg_ptr->req.len = 0;
+        RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
+    }
 }
 
 /**
@@ -338,6 +346,7 @@ static void modbus_resp_send_callback(void)
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
-- 
2.43.0


From fe74e90d770254d4f22a2b5c451e3e428b925f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 11/15] fix: do not process a request that is shorter than its
 function code requires

A frame with a valid CRC that ended before its address, quantity or data was
completed by the slave with bytes left over from an earlier request, and could
change the application data.
---
 src/modbus_slave.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 80c9f3f..81a7cea 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -43,6 +43,7 @@ PRIVATE modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
 
 static void handle_modbus_slave_idle_state(void);
+static uint16_t get_min_request_len(const modbus_req_resp_t *req);
 static void handle_modbus_slave_msg_recived_state(void);
 static void handle_modbus_slave_transmitting_resp_state(void);
 static void handle_modbus_slave_default_state(void);
@@ -166,7 +167,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || (slave_msg_ptr->req.len < get_min_request_len(&slave_msg_ptr->req)))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
@@ -174,6 +175,33 @@ static void handle_modbus_slave_idle_state(void)
     }
 }
 
+/**
+ * @brief Gets the length (with CRC) that a received request must at least have to be complete.
+ *
+ * A shorter request must not be processed, as the missing part would be read from an earlier one.
+ *
+ * @param req Pointer to the received request.
+ * @return Minimum length of the request.
+ */
+static uint16_t get_min_request_len(const modbus_req_resp_t *req)
+{
+    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
+        return MODBUS_READ_REQUEST_LEN + MODBUS_RTU_CRC_LEN;
+    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
+    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
+        return MODBUS_WRITE_MULTI_REQUEST_LEN + req->data[MODBUS_REQUEST_BYTE_CNT_IDX] + MODBUS_RTU_CRC_LEN;
+    default:
+        return MODBUS_FUNCTION_CODE_IDX + 1U + MODBUS_RTU_CRC_LEN;
+    }
+}
+
 /**
  * @brief Handles the Modbus slave state machine in the message received state.
  *
-- 
2.43.0


From ca2339ba2030e357c519bc4e6ba270a3dbe0fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 12/15] fix: discard a partly received request when the slave
 is initialized again

Its characters were taken for the beginning of the first request received
after modbus_slave_init().
---
 src/modbus_slave.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 81a7cea..67bf78c 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -295,6 +295,8 @@ static void register_msg_req_resp_data_buffers(modbus_mode_t mode)
     {
         slave_msg.req.data = slave_RTU_req_buf;
         slave_msg.resp.data = slave_RTU_resp_buf;
+        slave_msg.req.len = 0;
+        slave_msg.resp.len = 0;
     }
 }
 
-- 
2.43.0


From 3c58baabe7ce680d3c8acad01d8b7f89a60766e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:55 +0000
Subject: [PATCH 13/15] fix: slave: address plus quantity overflowed where int
 has 16 bits: ranges past address 65535 were served from beyond the tables

---
 src/slave_internall/modbus_slave_PDU.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slave_internall/modbus_slave_PDU.c b/src/slave_internall/modbus_slave_PDU.c
index 0526dd7..c349a5a 100644
--- a/src/slave_internall/modbus_slave_PDU.c
+++ b/src/slave_internall/modbus_slave_PDU.c
@@ -672,7 +672,7 @@ static modbus_ret_t update_msg_len_and_ret_status(modbus_msg_t *modbus_msg, modb
  */
 static modbus_ret_t check_read_req_data_correcntess(modbus_msg_t *modbus_msg, modbus_data_qty_t max_read_data_qty, modbus_data_qty_t app_data_qty)
 {
-    modbus_adr_t adr = read_u16_from_buf(modbus_msg->req.data + MODBUS_REQUEST_ADR_IDX);
+    uint32_t adr = read_u16_from_buf(modbus_msg->req.data + MODBUS_REQUEST_ADR_IDX); // adr + data_qty can exceed 16 bits
     modbus_data_qty_t data_qty = read_u16_from_buf(modbus_msg->req.data + MODBUS_REQUEST_QTY_IDX);
     modbus_ret_t status = RET_OK;
     if ((0 == data_qty) || (max_read_data_qty < data_qty))
-- 
2.43.0


From ee7f12c4b58ed8b3f0512ad9cada976f3740b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:25 +0000
Subject: [PATCH 14/15] fix: master: response timeout cut short when the timer
 interrupt comes between the bytes of the timer

Where the timer is wider than the data bus it is written in several
accesses. A tick between them borrowed from the bytes already written, and
the timeout was up to 255 (or 65535) ms too short. The timer is volatile
now, and written again until it is read back.
---
 src/modbus_master.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 8de52b3..59656b1 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -55,7 +55,7 @@ PRIVATE modbus_queue_t *free_q = &master_free_queue;
 PRIVATE modbus_queue_t *tx_rx_q = &master_tx_rx_queue;
 PRIVATE modbus_msg_t modbus_msg[MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS];
 PRIVATE modbus_msg_t *msg_buf = NULL;
-PRIVATE modbus_timer_t modbus_master_resp_timeout_timer = 0;
+PRIVATE volatile modbus_timer_t modbus_master_resp_timeout_timer = 0;
 PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;
 
 PRIVATE modbus_status_flag_t MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
@@ -545,10 +545,16 @@ static modbus_ret_t generate_request_PDU_data(modbus_msg_t *msg_buf, req_input_p
  * This function sets the Modbus response timeout timer (`modbus_master_resp_timeout_timer`)
  * to a predefined timeout value (`MODBUS_MASTER_RESP_TIME_OUT_MS`). This timer is used
  * to detect when a response from the Modbus slave device is overdue.
+ *
+ * @note The timer may be decremented by an interrupt while it is being written in several accesses
+ *       (the timer is wider than the data bus), so the value is written again until it is read back.
  */
 static void modbus_master_enable_resp_timeout_timer(void)
 {
-    modbus_master_resp_timeout_timer = MODBUS_MASTER_RESP_TIME_OUT_MS;
+    do
+    {
+        modbus_master_resp_timeout_timer = MODBUS_MASTER_RESP_TIME_OUT_MS;
+    } while (MODBUS_MASTER_RESP_TIME_OUT_MS != modbus_master_resp_timeout_timer);
 }
 
 /**
-- 
2.43.0


From c07bb0d63292cc2aac6869134d1fee3508a9370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:56 +0000
Subject: [PATCH 15/15] fix: initialising the master from one of its callbacks
 left its message buffer twice in use

The request that was being concluded gave its buffer back to the queue of free buffers, which the
initialisation had filled already: after a request made from the same callback one buffer served
two requests at once.
---
 src/modbus_master.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 59656b1..8a082e7 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -939,6 +939,9 @@ static void modbus_master_frame_error_state_handling(void)
 static void modbus_master_msg_process_end(void)
 {
     modbus_master_msg_repeat_couter = 0;
-    modbus_queue_push(free_q, &msg_buf);
+    if (MODBUS_MASTER_IDLE != modbus_master_manager_state_machine) // idle already when the callback initialised the master
+    {
+        modbus_queue_push(free_q, &msg_buf);
+    }
     modbus_master_manager_state_machine = MODBUS_MASTER_IDLE;
 }
-- 
2.43.0


From 60c9b4b28e0078d3a02a7816acb2fbc786849be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 01/15] fix: give the message buffer back when a master request
 is rejected

A request with an illegal quantity took a buffer from the free queue and
never returned it, so a few such calls made every later request fail with
MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR.
---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From 3ebcbce9cf63857536ebcd6492368173c26e50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 02/15] fix: report the response timeout even when the poll
 comes late

The master reported a timeout only if it was polled in the very millisecond
in which the timer was 1. A later poll found 0 and waited forever.
---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..9752e8f 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -683,7 +683,7 @@ static void modbus_master_transmitting_state_handling(void)
  * and flags related to Modbus communication:
  * - If `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` is set, it calls
  *   `modbus_master_RTU_recv_state_handle` to handle the reception of Modbus data.
- * - If `modbus_master_resp_timeout_timer` equals 1, indicating a response timeout,
+ * - If `modbus_master_resp_timeout_timer` is 1 or has already run down to 0, indicating a response timeout,
  *   it calls `modbus_master_resp_timeout_handle` to handle the timeout error
  *   and subsequently ends the message processing using `modbus_master_msg_process_end`.
  */
@@ -693,7 +693,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     {
         modbus_master_RTU_recv_state_handle();
     }
-    else if (1 == modbus_master_resp_timeout_timer)
+    else if (1 >= modbus_master_resp_timeout_timer)
     {
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
-- 
2.43.0


From 2e2d9ae44f521e0876274788f754a7552823c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 03/15] fix: keep the T3.5 event of a response when the master
 is polled late

If both T1.5 and T3.5 expired before the next poll, handling T1.5 threw the
T3.5 event away and the master waited in MODBUS_MASTER_RESP_RECIVED for ever.
---
 src/modbus_master.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 9752e8f..53f9548 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -580,13 +580,15 @@ static void modbus_master_req_sended_callback(void)
  *
  * This function sets the `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` to `MODBUS_FLAG_SET`.
  * It serves as a callback function used to indicate that the 1.5 character timeout period
- * has expired during Modbus communication.
+ * has expired during Modbus communication. The 3.5 character timeout flag is cleared, because
+ * the 3.5 character timeout of these bytes is still to come.
  *
  * @note This function is typically registered with a timer or scheduler to handle the timeout
  * condition required by the Modbus protocol for communication synchronization.
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
@@ -729,8 +731,8 @@ void modbus_master_resp_timeout_handle(void)
  * @brief Handles the state when a Modbus RTU response is received.
  *
  * This function processes the response received from the Modbus RTU interface:
- * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG and MODBUS_MASTER_TIMER_3_5_CHAR_FLAG
- *   indicating the end of the response reception timing.
+ * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG. The MODBUS_MASTER_TIMER_3_5_CHAR_FLAG is left
+ *   alone: when the poll comes late it already belongs to the response being handled.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
@@ -747,7 +749,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


From 7b791e639c8d46fdb2802a65aa9cfd6f514cd494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 04/15] fix: start every response reception from a clean state

Reception flags set by noise, by a late response or by the failure of an
earlier request survived into the next request and made it fail, and a
response that began before the poll following the end of transmission lost
its first bytes. Reset length and flags when the transmission is done.
---
 src/modbus_master.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 53f9548..6a453e9 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -566,12 +566,22 @@ static void modbus_master_disable_resp_timeout_timer(void)
  * has been successfully transmitted over the communication channel. It clears
  * the `MODBUS_MASTER_REQ_TRANSMITION_FLAG` to `MODBUS_FLAG_CLEARED`, allowing
  * the system to proceed with subsequent operations.
+ * Everything received until now (noise, late responses) does not belong to the response
+ * of this request, so the receive length and all reception flags are reset here.
  *
  * @note This callback function is typically used to synchronize actions after
  * sending a Modbus request.
  */
 static void modbus_master_req_sended_callback(void)
 {
+    if (NULL != msg_buf)
+    {
+        msg_buf->resp.len = 0;
+    }
+    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
 }
 
@@ -672,7 +682,6 @@ static void modbus_master_transmitting_state_handling(void)
 {
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From 1d5084653837b3d9745ca3542a7d7b37cba3e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 05/15] fix: mark the transmission as running before it is
 started

If the driver reported the end of transmission before send() returned (short
frames from an interrupt, blocking drivers), the flag set afterwards was never
cleared and master or slave stayed in the transmitting state for ever.
---
 src/modbus_master.c | 2 +-
 src/modbus_slave.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 6a453e9..1923934 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,9 +401,9 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     RTU_driver->enable_rcev(&msg_buf->resp);
-    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
 }
 
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..a793970 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -194,8 +194,8 @@ static void handle_modbus_slave_msg_recived_state(void)
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
+        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
-- 
2.43.0


From d3bff0a29accc5c5109a96dfcbe9b42042f83346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 06/15] fix: identify the failed request in timeout and
 communication error reports

The timeout report took the function code from the response buffer, which
holds an earlier response, and the communication error report took slave and
function code from the damaged response and left address and quantity unset.
---
 src/modbus_master.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 1923934..d2dd967 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -721,7 +721,7 @@ static void modbus_master_resp_waiting_state_handling(void)
  *   - `slave_ID`: Modbus slave address extracted from the request data.
  *   - `data_adr`: Address field from the Modbus request.
  *   - `data_qty`: Quantity field from the Modbus request.
- *   - `fun_conde`: Function code from the Modbus response (if available).
+ *   - `fun_conde`: Function code from the Modbus request.
  *   - `resp_read_error`: Indicates a timeout error (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
  * - Invokes `modbus_master_data_timeout_error` to handle and report the timeout error.
  */
@@ -731,7 +731,7 @@ void modbus_master_resp_timeout_handle(void)
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
     timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    timeout_error.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
 }
@@ -853,8 +853,10 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
@@ -888,8 +890,10 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
-- 
2.43.0


From eed2cb33bb3ad870e0aa01b83a4a070d8783d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 07/15] fix: do not take a response for data that does not fit
 the request

A response with the right slave address and CRC but another function code,
byte count, length or echo was decoded as if it were the answer: data of an
earlier response or beyond the received bytes was delivered, writes that were
not done were confirmed, and an exception for an unknown function ended the
request without any report. Treat such a response like a frame error.
---
 src/common/modbus_type.h |  1 +
 src/modbus_master.c      | 60 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/common/modbus_type.h b/src/common/modbus_type.h
index 46190c6..25515f7 100644
--- a/src/common/modbus_type.h
+++ b/src/common/modbus_type.h
@@ -86,6 +86,7 @@ extern "C"
 #define MODBUS_EXCEPTION_CODE_RESP_LEN 3U
 #define MODBUS_PDU_EXCEPTION_CODE_LEN 3U
 #define MODBUS_EXCEPTION_CODE_MASK 0x80U
+#define MODBUS_CRC_LEN 2U
 
     // clang-format on
 
diff --git a/src/modbus_master.c b/src/modbus_master.c
index d2dd967..dbd2d19 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -31,6 +31,7 @@
 #include "modbus_master_RTU.h"
 #include "modbus_queue.h"
 #include "modbus_RTU.h"
+#include "modbus_PDU_common.h"
 #include "modbus_type.h"
 #include "modbus_driver_interface.h"
 #include "modbus_master_data_interface.h"
@@ -85,6 +86,7 @@ static void modbus_master_resp_timeout_handle(void);
 static void modbus_master_RTU_recv_state_handle(void);
 static void modbus_master_resp_recived_state_handling(void);
 
+static bool modbus_master_resp_match_req(void);
 static void modbus_master_msg_recived_correctly_state_handle(void);
 
 static void modbus_master_RTU_CRC_error_state_handling(void);
@@ -811,19 +813,71 @@ static void modbus_master_resp_recived_state_handling(void)
     }
 }
 
+/**
+ * @brief Checks that the received response is a response to the request that was sent.
+ *
+ * An exception response must carry the function code and consist of the exception code only. A read
+ * response must contain exactly as many data bytes as the request asked for. A write response must
+ * echo the address and the second field (value or quantity) of the request.
+ *
+ * @return true if function code, length and echoed fields of the response fit the request.
+ */
+static bool modbus_master_resp_match_req(void)
+{
+    const modbus_buf_t *req = msg_buf->req.data;
+    const modbus_buf_t *resp = msg_buf->resp.data;
+    uint8_t fun_code = req[MODBUS_FUNCTION_CODE_IDX];
+    uint16_t qty = read_u16_from_buf(&req[MODBUS_REQUEST_QTY_IDX]);
+    uint32_t resp_len = msg_buf->resp.len;
+    uint32_t byte_cnt;
+
+    if ((fun_code | MODBUS_EXCEPTION_CODE_MASK) == resp[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return (MODBUS_EXCEPTION_CODE_RESP_LEN + MODBUS_CRC_LEN) == resp_len;
+    }
+    if (fun_code != resp[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return false;
+    }
+    switch (fun_code)
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        byte_cnt = get_coil_din_byte_count(qty);
+        break;
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        byte_cnt = 2U * qty;
+        break;
+    default: // write requests, the lengths of single and multi write responses are the same
+        return ((MODBUS_WRITE_SINGLE_RESP_LEN + MODBUS_CRC_LEN) == resp_len) &&
+               (read_u16_from_buf(&req[MODBUS_REQUEST_ADR_IDX]) == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_ADR_IDX])) &&
+               (qty == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_SINGLE_DATA_IDX]));
+    }
+    return (byte_cnt == resp[MODBUS_RESP_READ_BYTE_CNT_IDX]) && ((MODBUS_READ_RESP_LEN + byte_cnt + MODBUS_CRC_LEN) == resp_len);
+}
+
 /**
  * @brief Handles the correct reception of a Modbus response message.
  *
  * This function is invoked when a Modbus response message is received correctly
- * without any frame or CRC errors. It calls `modbus_master_read_slave_resp` to
+ * without any frame or CRC errors. A response that does not fit the request is handled
+ * like a frame error. Otherwise it calls `modbus_master_read_slave_resp` to
  * process the received response stored in `msg_buf`. After processing, it finalizes
  * the message handling by calling `modbus_master_msg_process_end` to push the message
  * buffer back to the free queue and transition the state machine to idle state (`MODBUS_MASTER_IDLE`).
  */
 static void modbus_master_msg_recived_correctly_state_handle(void)
 {
-    modbus_master_read_slave_resp(msg_buf);
-    modbus_master_msg_process_end();
+    if (modbus_master_resp_match_req())
+    {
+        modbus_master_read_slave_resp(msg_buf);
+        modbus_master_msg_process_end();
+    }
+    else
+    {
+        modbus_master_frame_error_state_handling();
+    }
 }
 
 /**
-- 
2.43.0


From 9e6f17927a4fa455e9c65137521744fd5e46bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 08/15] fix: do not execute a slave request that is too short
 for its function code

---
 src/modbus_slave.c | 47 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index a793970..3c264e6 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -26,6 +26,7 @@
 #include "modbus_type.h"
 #include "modbus_driver_interface.h"
 #include <stddef.h>
+#include <stdbool.h>
 
 #ifdef UNIT_TEST
 #define PRIVATE
@@ -43,6 +44,7 @@ PRIVATE modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
 
 static void handle_modbus_slave_idle_state(void);
+static bool modbus_slave_req_is_complete(const modbus_req_resp_t *req);
 static void handle_modbus_slave_msg_recived_state(void);
 static void handle_modbus_slave_transmitting_resp_state(void);
 static void handle_modbus_slave_default_state(void);
@@ -158,6 +160,7 @@ void check_modbus_request(void)
  *
  * This function handles the Modbus slave state machine when it is in the idle state.
  * It checks for the expiration of the 1.5 character time and initiates reception of Modbus messages.
+ * A message that is too short for its function code is handled like a frame error.
  */
 static void handle_modbus_slave_idle_state(void)
 {
@@ -166,7 +169,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || !modbus_slave_req_is_complete(&slave_msg_ptr->req))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
@@ -174,6 +177,48 @@ static void handle_modbus_slave_idle_state(void)
     }
 }
 
+/**
+ * @brief Checks that a received request is as long as its function code requires.
+ *
+ * Fields of a shorter message would be taken from what an earlier message left in the buffer.
+ *
+ * @param req Received request, CRC included.
+ * @return true if all the fields of the request were received.
+ */
+static bool modbus_slave_req_is_complete(const modbus_req_resp_t *req)
+{
+    uint32_t min_len = MODBUS_FUNCTION_CODE_IDX + 1U + MODBUS_CRC_LEN;
+
+    if (req->len < min_len)
+    {
+        return false;
+    }
+    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        min_len = MODBUS_READ_REQUEST_LEN + MODBUS_CRC_LEN;
+        break;
+    case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
+        min_len = MODBUS_WRITE_SINGLE_REQUEST_LEN + MODBUS_CRC_LEN;
+        break;
+    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
+    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
+        min_len = MODBUS_WRITE_MULTI_REQUEST_LEN + MODBUS_CRC_LEN;
+        if (req->len >= min_len)
+        {
+            min_len += req->data[MODBUS_REQUEST_BYTE_CNT_IDX];
+        }
+        break;
+    default: // not supported function code
+        break;
+    }
+    return req->len >= min_len;
+}
+
 /**
  * @brief Handles the Modbus slave state machine in the message received state.
  *
-- 
2.43.0


From 38b2537ef3c15464990dfb3b480324ab82c2aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 09/15] fix: forget stale slave reception events when going
 back to idle

---
 src/modbus_slave.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 3c264e6..6599710 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -233,6 +233,7 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
@@ -255,12 +256,16 @@ static void handle_modbus_slave_msg_recived_state(void)
  *
  * This function handles the Modbus slave state machine when it is in the transmitting response state.
  * It checks for the completion of response transmission before transitioning back to the idle state.
+ * Whatever was received in the meantime is not a request, so its events are forgotten.
  */
 static void handle_modbus_slave_transmitting_resp_state(void)
 {
     if (MODBUS_FLAG_CLEARED == RESP_TRANSMITION_FLAG)
     {
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         slave_msg_ptr->resp.len = 0;
         slave_msg_ptr->req.len = 0;
     }
-- 
2.43.0


From 8ff39d8f6601473a96dcee5962157439ee3d083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 10/15] fix: drop a partly received request when the slave is
 initialised again

---
 src/modbus_slave.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 6599710..71d61c3 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -359,6 +359,8 @@ static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t pa
 static void init_modbus_slave_internall_data(modbus_device_ID_t Slave_ID)
 {
     modbus_slave_ID = Slave_ID;
+    slave_msg_ptr->req.len = 0;
+    slave_msg_ptr->resp.len = 0;
 
     slave_manager_state_machine = MODBUS_SLAVE_IDLE;
 
-- 
2.43.0


From 371956377b1e59df71dac6c09744958a34a81eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 11/15] fix: do not repeat a request endlessly when 255
 repetitions are configured

---
 src/modbus_master.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index dbd2d19..0874dbd 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -896,9 +896,9 @@ static void modbus_master_msg_recived_correctly_state_handle(void)
  */
 static void modbus_master_RTU_CRC_error_state_handling(void)
 {
-    modbus_master_msg_repeat_couter++;
-    if (MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR >= modbus_master_msg_repeat_couter)
+    if (MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR > modbus_master_msg_repeat_couter)
     {
+        modbus_master_msg_repeat_couter++;
         modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
         MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         msg_buf->resp.len = 0;
@@ -933,9 +933,9 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
  */
 static void modbus_master_frame_error_state_handling(void)
 {
-    modbus_master_msg_repeat_couter++;
-    if (MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR >= modbus_master_msg_repeat_couter)
+    if (MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR > modbus_master_msg_repeat_couter)
     {
+        modbus_master_msg_repeat_couter++;
         modbus_master_manager_state_machine = MODBUS_MASTER_REPEAT_REQUEST;
         MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         msg_buf->resp.len = 0;
-- 
2.43.0


From 8079904e34059ced78b36d815e35ba466bf87acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:55 +0000
Subject: [PATCH 12/15] fix: ignore the registration of application data beyond
 the slave's tables

---
 src/modbus_slave.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 71d61c3..bac19f3 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -61,52 +61,68 @@ static void modbus_frame_error_callback(void);
  * @brief Registers application data to Modbus slave coils table.
  *
  * This function registers application data to the Modbus slave coils table at the specified coil address.
+ * An address beyond the configured table is ignored.
  *
  * @param coil_adr Coil address where the application data will be registered.
  * @param app_data_ptr Pointer to the application data to be registered.
  */
 void register_app_data_to_modbus_slave_coils_table(modbus_adr_t coil_adr, modbus_coil_disin_t *app_data_ptr)
 {
-    register_app_data_to_modbus_coils_din_table(Slave_Coils, coil_adr, app_data_ptr);
+    if (coil_adr < MAIN_APP_COILS_QTY)
+    {
+        register_app_data_to_modbus_coils_din_table(Slave_Coils, coil_adr, app_data_ptr);
+    }
 }
 
 /**
  * @brief Registers application data to Modbus slave discrete inputs table.
  *
  * This function registers application data to the Modbus slave discrete inputs table at the specified address.
+ * An address beyond the configured table is ignored.
  *
  * @param disin_adr Discrete input address where the application data will be registered.
  * @param app_data_ptr Pointer to the application data to be registered.
  */
 void register_app_data_to_modbus_slave_din_table(modbus_adr_t disin_adr, modbus_coil_disin_t *app_data_ptr)
 {
-    register_app_data_to_modbus_coils_din_table(Slave_Discrete_Inputs, disin_adr, app_data_ptr);
+    if (disin_adr < MAIN_APP_DISCRET_INPUTS_QTY)
+    {
+        register_app_data_to_modbus_coils_din_table(Slave_Discrete_Inputs, disin_adr, app_data_ptr);
+    }
 }
 
 /**
  * @brief Registers application data to Modbus slave input registers table.
  *
  * This function registers application data to the Modbus slave input registers table at the specified register address.
+ * An address beyond the configured table is ignored.
  *
  * @param reg_adr Register address where the application data will be registered.
  * @param app_data_ptr Pointer to the application data to be registered.
  */
 void register_app_data_to_modbus_slave_inreg_table(modbus_adr_t reg_adr, modbus_reg_t *app_data_ptr)
 {
-    register_app_data_to_modbus_reg_table(Slave_Input_Registers, reg_adr, app_data_ptr);
+    if (reg_adr < MAIN_APP_INPUT_REG_QTY)
+    {
+        register_app_data_to_modbus_reg_table(Slave_Input_Registers, reg_adr, app_data_ptr);
+    }
 }
 
 /**
  * @brief Registers application data to Modbus slave holding registers table.
  *
  * This function registers application data to the Modbus slave holding registers table at the specified register address.
+ * An address beyond the configured table is ignored.
  *
  * @param reg_adr Register address where the application data will be registered.
  * @param app_data_ptr Pointer to the application data to be registered.
  */
 void register_app_data_to_modbus_slave_hreg_table(modbus_adr_t reg_adr, modbus_reg_t *app_data_ptr)
 {
-    register_app_data_to_modbus_reg_table(Slave_Holding_Registers, reg_adr, app_data_ptr);
+    if (reg_adr < MAIN_APP_HOLDING_REG_QTY)
+    {
+        register_app_data_to_modbus_reg_table(Slave_Holding_Registers, reg_adr, app_data_ptr);
+    }
 }
 
 /**
-- 
2.43.0


From d3e5bf5ee03fee8a971224a8f8d8b737f5ecf96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 13/15] fix: do nothing in the slave's poll function unless
 initialised in a supported mode

---
 src/modbus_slave.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index bac19f3..2c8f44c 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -154,6 +154,10 @@ void modbus_slave_init(modbus_mode_t mode, baud_t baud_rate, parity_t parity, mo
  */
 void check_modbus_request(void)
 {
+    if (NULL == slave_RTU_driver) // not initialised, or initialised in a mode that is not supported
+    {
+        return;
+    }
     switch (slave_manager_state_machine)
     {
     case MODBUS_SLAVE_IDLE:
-- 
2.43.0


From 9d57a683bb9668304c0fc6f9102de04007829d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:45 +0000
Subject: [PATCH 14/15] fix: do not let the slave take a silence from before a
 request for the one after it

---
 src/modbus_slave.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 2c8f44c..66acd61 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -405,10 +405,12 @@ static void modbus_resp_send_callback(void)
  * @brief Modbus T_1_5 character time expired callback function.
  *
  * This function serves as a callback handler when the T_1_5 character time has expired in Modbus communication.
- * It sets the timer flag to initiate the reception of Modbus messages.
+ * It sets the timer flag to initiate the reception of Modbus messages. The T_3_5 flag is cleared, because
+ * the T_3_5 character time of these bytes is still to come.
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
-- 
2.43.0


From a235784d4e6856c55d5fb378d64be3d42cfbe707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:59 +0000
Subject: [PATCH 15/15] fix: ignore a silence without any byte received since
 the request of the master was sent

---
 src/modbus_master.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 0874dbd..1facc21 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -744,6 +744,7 @@ void modbus_master_resp_timeout_handle(void)
  * This function processes the response received from the Modbus RTU interface:
  * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG. The MODBUS_MASTER_TIMER_3_5_CHAR_FLAG is left
  *   alone: when the poll comes late it already belongs to the response being handled.
+ * - Returns if nothing was received since the request was sent: the silence belongs to bytes seen before that.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
@@ -760,6 +761,10 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    if (0 == msg_buf->resp.len)
+    {
+        return;
+    }
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


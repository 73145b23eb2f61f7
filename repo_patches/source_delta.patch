From 60d1d89ca261d5970879aa5a76ee2b93e903be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:52 +0000
Subject: [PATCH 01/57] fix: report TCP start and write failures to the waiting
 coroutine

---
 runtime/nutils/tcp.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 617b86e..8439ad4 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -202,6 +202,7 @@ static inline void on_tcp_write_end_cb(uv_write_t *write_req, int status) {
         // 对端可能已经关闭了连接,导致写入失败等情况
         char *msg = tlsprintf("uv_write failed: %s", uv_strerror(status));
         DEBUGF("[on_tcp_write_end_cb] failed: %s, co=%p", msg, conn->co);
+        rti_co_throw(conn->co, msg, false);
     }
 
     co_ready(conn->co);
@@ -356,10 +357,16 @@ static void uv_async_tcp_connect(inner_conn_t *conn, struct sockaddr_in *dest, n
     uv_tcp_init(&global_loop, &conn->handle);
     uv_timer_init(&global_loop, &conn->timer);
 
-    uv_tcp_connect(&conn->conn_req, &conn->handle, (const struct sockaddr *) dest, on_tcp_connect_cb);
+    int result = uv_tcp_connect(&conn->conn_req, &conn->handle, (const struct sockaddr *) dest, on_tcp_connect_cb);
 
     free(dest);
 
+    if (result < 0) {
+        rti_co_throw(conn->co, tlsprintf("connection failed: %s", uv_strerror(result)), false);
+        co_ready(conn->co);
+        return;
+    }
+
     if (timeout_ms > 0) {
         uv_timer_start(&conn->timer, on_tcp_timeout_cb, timeout_ms, 0); // repeat == 0
     }
@@ -371,7 +378,13 @@ void rt_uv_tcp_connect(n_tcp_conn_t *n_conn, n_string_t ip, n_int64_t port, n_in
     coroutine_t *co = coroutine_get();
 
     struct sockaddr_in *dest = malloc(sizeof(struct sockaddr_in));
-    uv_ip4_addr(rt_string_ref(&ip), (int) port, dest);
+    int ret = uv_ip4_addr(rt_string_ref(&ip), (int) port, dest);
+    if (ret != 0) {
+        free(dest);
+        n_conn->closed = true;
+        rti_co_throw(co, tlsprintf("invalid IPv4 address: %s", rt_string_ref(&ip)), false);
+        return;
+    }
 
     inner_conn_t *conn = mallocz(sizeof(inner_conn_t));
     conn->timeout = false;
@@ -509,13 +522,17 @@ static void uv_async_tcp_listen(n_tcp_server_t *server) {
     server->inner->handle.data = server->inner;
 
     struct sockaddr_in addr;
-    uv_ip4_addr(rt_string_ref(&server->ip), (int) server->port, &addr);
-    uv_tcp_bind(&server->inner->handle, (const struct sockaddr *) &addr, 0);
-
-    int result = uv_listen((uv_stream_t *) &server->inner->handle, DEFAULT_BACKLOG, on_tcp_conn_cb);
+    int result = uv_ip4_addr(rt_string_ref(&server->ip), (int) server->port, &addr);
+    if (result == 0) {
+        result = uv_tcp_bind(&server->inner->handle, (const struct sockaddr *) &addr, 0);
+    }
+    if (result == 0) {
+        result = uv_listen((uv_stream_t *) &server->inner->handle, DEFAULT_BACKLOG, on_tcp_conn_cb);
+    }
     if (result) {
         // 端口占用等错误
         rti_co_throw(server->inner->listen_co, tlsprintf("listen failed: %s", uv_strerror(result)), false);
+        co_ready(server->inner->listen_co);
         return;
     }
 
-- 
2.43.0


From f6fa4c6eac8748d1f5e8bfdc82982f8f0d029efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:52 +0000
Subject: [PATCH 02/57] fix: resume the caller of TLS connect and write when
 the transport fails

---
 runtime/nutils/tls.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/runtime/nutils/tls.h b/runtime/nutils/tls.h
index e0e4d5b..91d9e20 100644
--- a/runtime/nutils/tls.h
+++ b/runtime/nutils/tls.h
@@ -26,6 +26,7 @@ typedef struct {
     bool read_timeout;
     bool read_waiting;
     bool read_started;
+    int write_status; // 最近一次 uv_write 的结果
     int64_t read_timeout_ms;
 
     uv_tcp_t handle; // 基础 tcp 链接
@@ -138,6 +139,7 @@ static inline void on_tls_write_end_cb(uv_write_t *write_req, int status) {
         char *msg = tlsprintf("tls uv_write failed: %s", uv_strerror(status));
         DEBUGF("[on_tls_write_end_cb] failed: %s, co=%p", msg, conn->co);
     }
+    conn->write_status = status;
 
     co_ready(conn->co);
     DEBUGF("[on_tls_write_end_cb] co=%p ready, status=%d", conn->co, conn->co->status);
@@ -153,7 +155,7 @@ static void uv_async_tls_write(inner_tls_conn_t *conn, char *buf, size_t len) {
     conn->write_req.data = conn;
     int result = uv_write(&conn->write_req, (uv_stream_t *) &conn->handle, &write_buf, 1, on_tls_write_end_cb);
     if (result < 0) {
-        rti_co_throw(conn->co, tlsprintf("TLS write failed: %s", uv_strerror(result)), false);
+        conn->write_status = result;
         co_ready(conn->co);
     }
 }
@@ -161,8 +163,14 @@ static void uv_async_tls_write(inner_tls_conn_t *conn, char *buf, size_t len) {
 static int mbedtls_send_cb(void *ctx, const unsigned char *buf, size_t len) {
     inner_tls_conn_t *conn = (inner_tls_conn_t *) ctx;
 
+    conn->co = coroutine_get();
+    conn->write_status = 0;
+
     global_waiting_send(uv_async_tls_write, conn, (void *) buf, (void *) len);
 
+    if (conn->write_status < 0) {
+        return MBEDTLS_ERR_NET_SEND_FAILED;
+    }
     return len;
 }
 
@@ -312,9 +320,16 @@ static void uv_async_tls_connect(inner_tls_conn_t *conn, struct sockaddr_in *des
     uv_tcp_init(&global_loop, &conn->handle);
     uv_timer_init(&global_loop, &conn->timer);
 
-    uv_tcp_connect(&conn->conn_req, &conn->handle, (const struct sockaddr *) dest, on_tls_connect_cb);
+    int result = uv_tcp_connect(&conn->conn_req, &conn->handle, (const struct sockaddr *) dest, on_tls_connect_cb);
 
     free(dest);
+    if (result < 0) {
+        rti_co_throw(conn->co, tlsprintf("TLS connection failed: %s", uv_strerror(result)), false);
+        uv_close((uv_handle_t *) &conn->timer, on_tls_timer_close_cb);
+        uv_close((uv_handle_t *) &conn->handle, on_tls_close_cb);
+        co_ready(conn->co);
+        return;
+    }
     if (timeout_ms > 0) {
         uv_timer_start(&conn->timer, on_tls_timeout_cb, timeout_ms, 0);
     }
-- 
2.43.0


From ef25020085932c5664a11a24eed9fa4631214a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:52 +0000
Subject: [PATCH 03/57] fix: check address parsing and bind result in HTTP
 listen

---
 runtime/nutils/http.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/http.c b/runtime/nutils/http.c
index f04dd82..5d5ce4f 100644
--- a/runtime/nutils/http.c
+++ b/runtime/nutils/http.c
@@ -380,10 +380,13 @@ static void uv_async_http_listen(inner_http_server_t *inner) {
     //    timer->data = inner;
     //    uv_timer_start(timer, test_timer_dump_count_cb, 1000, 1000);
 
-    uv_ip4_addr(rt_string_ref(&server->addr), server->port, &addr);
-    uv_tcp_bind(&inner->handle, (const struct sockaddr *) &addr, 0);
-
-    int result = uv_listen((uv_stream_t *) &inner->handle, DEFAULT_BACKLOG, on_http_conn_cb);
+    int result = uv_ip4_addr(rt_string_ref(&server->addr), server->port, &addr);
+    if (result == 0) {
+        result = uv_tcp_bind(&inner->handle, (const struct sockaddr *) &addr, 0);
+    }
+    if (result == 0) {
+        result = uv_listen((uv_stream_t *) &inner->handle, DEFAULT_BACKLOG, on_http_conn_cb);
+    }
     if (result) {
         rti_co_throw(inner->listen_co, tlsprintf("listen failed: %s", uv_strerror(result)), false);
         co_ready(inner->listen_co);
-- 
2.43.0


From 2e9611a3d6105e042e9a4fd8f2f5bfd8fd2d2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:52 +0000
Subject: [PATCH 04/57] fix: raise an error when reading a process pipe cannot
 start

---
 runtime/nutils/process.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtime/nutils/process.c b/runtime/nutils/process.c
index 73991f9..e166725 100644
--- a/runtime/nutils/process.c
+++ b/runtime/nutils/process.c
@@ -317,7 +317,12 @@ void rt_uv_process_wait(process_context_t *ctx) {
 }
 
 static void uv_async_process_read_stdout(process_context_t *ctx) {
-    uv_read_start((uv_stream_t *) &ctx->stdout_pipe.pipe, process_alloc_buffer_cb, on_read_stdout_cb);
+    int result = uv_read_start((uv_stream_t *) &ctx->stdout_pipe.pipe, process_alloc_buffer_cb, on_read_stdout_cb);
+    if (result < 0) {
+        coroutine_t *co = ctx->stdout_pipe.pipe.data;
+        rti_co_throw(co, "read pipe failed", false);
+        co_ready(co);
+    }
 }
 
 n_string_t rt_uv_process_read_stdout(process_context_t *ctx) {
@@ -343,7 +348,12 @@ n_string_t rt_uv_process_read_stdout(process_context_t *ctx) {
 }
 
 static void uv_async_process_read_stderr(process_context_t *ctx) {
-    uv_read_start((uv_stream_t *) &ctx->stderr_pipe.pipe, process_alloc_buffer_cb, on_read_stderr_cb);
+    int result = uv_read_start((uv_stream_t *) &ctx->stderr_pipe.pipe, process_alloc_buffer_cb, on_read_stderr_cb);
+    if (result < 0) {
+        coroutine_t *co = ctx->stderr_pipe.pipe.data;
+        rti_co_throw(co, "read pipe failed", false);
+        co_ready(co);
+    }
 }
 
 n_string_t rt_uv_process_read_stderr(process_context_t *ctx) {
-- 
2.43.0


From 733ba3df89664cb4d87237cbb6130898dd1bfd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:52 +0000
Subject: [PATCH 05/57] fix: resume the coroutine that closes a UDP socket

---
 runtime/nutils/udp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/nutils/udp.h b/runtime/nutils/udp.h
index 8cf4d49..d6ce594 100644
--- a/runtime/nutils/udp.h
+++ b/runtime/nutils/udp.h
@@ -179,6 +179,7 @@ void rt_uv_udp_close(n_udp_socket_t *s) {
         return;
     }
 
+    s->co = coroutine_get();
     global_waiting_send(uv_async_udp_close, s, 0, 0);
 
     s->closed = true;
-- 
2.43.0


From 3f2f0b7595cbe369607cad389aaf0254f5f62110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:12 +0000
Subject: [PATCH 06/57] fix: reuse a deleted slot when every hash slot is
 occupied

---
 runtime/nutils/hash.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 72d986b..4cbbb7a 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -82,6 +82,9 @@ static uint64_t find_hash_slot(uint64_t *hash_table, uint64_t capacity, uint8_t
 
     while (true) {
         if (attempts >= capacity) { // 防止无限循环
+            if (first_deleted_index != -1) {
+                return first_deleted_index;
+            }
             // 哈希表已满，需要扩容
             assert(false && "hash table is full, need to grow");
             return -1;
-- 
2.43.0


From fc8c6b5150cb8d53329c83ae4d4fae6e37d8dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:12 +0000
Subject: [PATCH 07/57] fix: deleting from a set must not drop or alias other
 keys

---
 runtime/nutils/set.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/set.c b/runtime/nutils/set.c
index 5349ee0..7da13f6 100644
--- a/runtime/nutils/set.c
+++ b/runtime/nutils/set.c
@@ -37,9 +37,8 @@ static bool _rt_set_add(n_set_t *m, void *key_ref) {
         key_index = m->length++;
         added = true;
     } else if (hash_value_deleted(hash_value)) {
-        m->length++;
+        key_index = m->length++;
         added = true;
-        key_index = extract_data_index(hash_value);
     } else {
         // 绝对的修改
         key_index = extract_data_index(hash_value);
@@ -183,7 +182,26 @@ void rt_set_delete(n_set_t *m, void *key_ref) {
         return;
     }
     uint64_t hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash, key_ref);
-    uint64_t *hash_value = &m->hash_table[hash_index];
-    *hash_value &= 1ULL << HASH_DELETED; // 配置删除标志即可
+    uint64_t hash_value = m->hash_table[hash_index];
+    if (hash_value_empty(hash_value) || hash_value_deleted(hash_value)) {
+        return;
+    }
+
+    uint64_t data_index = extract_data_index(hash_value);
+    uint64_t last_data_index = m->length - 1;
+    rtype_t *key_rtype = rt_find_rtype(m->key_rtype_hash);
+    uint64_t key_size = key_rtype->storage_size;
+
+    // key_data 保持紧凑，使用最后一个 key 填充被删除的位置
+    if (data_index != last_data_index) {
+        void *last_key_ref = m->key_data + last_data_index * key_size;
+        uint64_t last_hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash,
+                                                  last_key_ref);
+        rti_write_barrier_rtype(m->key_data + data_index * key_size, last_key_ref, key_rtype);
+        rt_set_data_index(m, last_hash_index, data_index);
+    }
+
+    m->hash_table[hash_index] = (1ULL << HASH_SET) | (1ULL << HASH_DELETED);
+    memset(m->key_data + last_data_index * key_size, 0, key_size);
     m->length--;
 }
-- 
2.43.0


From 35e7f369c3927806a34ce32e04510fb622bca9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 08/57] fix: sign-extend narrow signed integers before
 converting to float

---
 src/native/amd64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 0a8c791..9655371 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -867,10 +867,10 @@ static slice_t *amd64_native_sitof(closure_t *c, lir_op_t *op) {
 
     if (first->size < DWORD) {
         reg_t *first_reg = first->value;
-        amd64_asm_operand_t *new_first = AMD64_REG(reg_select(first_reg->index, TYPE_UINT32));
+        amd64_asm_operand_t *new_first = AMD64_REG(reg_select(first_reg->index, TYPE_INT32));
 
-        // 清空寄存器的高位部分
-        slice_push(operations, AMD64_INST("movzx", new_first, first));
+        // 符号扩展到 32 位
+        slice_push(operations, AMD64_INST("movsx", new_first, first));
         first = new_first;
     }
 
-- 
2.43.0


From 7c32197e08d40242c018922cc00073f49ae19059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 09/57] fix: converting an unsigned 64-bit integer to float
 dropped its lowest bit

---
 src/native/amd64.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/native/amd64.c b/src/native/amd64.c
index 9655371..1648501 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -926,15 +926,26 @@ static slice_t *amd64_native_uitof(closure_t *c, lir_op_t *op) {
             slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
         }
     } else {
-        // 64位：统一使用右移-转换-乘2
+        char *cvt = output->size == DWORD ? "cvtsi2ss" : "cvtsi2sd";
+        char *big_ident = label_ident_with_unique("uitof.big");
+        char *even_ident = label_ident_with_unique("uitof.even");
+        char *end_ident = label_ident_with_unique("uitof.end");
+
+        // 64位：最高位为 0 时可以直接按有符号数转换
+        slice_push(operations, AMD64_INST("cmp", first, AMD64_UINT32(0)));
+        slice_push(operations, AMD64_INST("jl", AMD64_SYMBOL(big_ident, true)));
+        slice_push(operations, AMD64_INST(cvt, output, first));
+        slice_push(operations, AMD64_INST("jmp", AMD64_SYMBOL(end_ident, true)));
+
+        // 最高位为 1 时使用右移-转换-乘2, 移出的最低位作为 sticky bit 合并回来
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(big_ident, true)));
         slice_push(operations, AMD64_INST("shr", first, AMD64_UINT8(1)));
-        if (output->size == DWORD) {
-            slice_push(operations, AMD64_INST("cvtsi2ss", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        } else {
-            slice_push(operations, AMD64_INST("cvtsi2sd", output, first));
-            slice_push(operations, AMD64_INST("add", output, output));
-        }
+        slice_push(operations, AMD64_INST("jae", AMD64_SYMBOL(even_ident, true)));
+        slice_push(operations, AMD64_INST("or", first, AMD64_UINT32(1)));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(even_ident, true)));
+        slice_push(operations, AMD64_INST(cvt, output, first));
+        slice_push(operations, AMD64_INST("add", output, output));
+        slice_push(operations, AMD64_INST("label", AMD64_SYMBOL(end_ident, true)));
     }
 
     return operations;
-- 
2.43.0


From ab2484d3698003a68c6084c507978bce7c398c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:31 +0000
Subject: [PATCH 10/57] fix: string pool lookup compares the whole content, not
 only up to the first zero byte

---
 runtime/nutils/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/nutils/string.c b/runtime/nutils/string.c
index 8cf1eaa..3b290c9 100644
--- a/runtime/nutils/string.c
+++ b/runtime/nutils/string.c
@@ -22,7 +22,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
     // check const
     mutex_lock(&const_str_pool_locker);
     n_string_t *pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-    if (pooled && pooled->length == length) {
+    if (pooled && pooled->length == length && memcmp(pooled->data, raw_string, length) == 0) {
         n_string_t result = *pooled;
         mutex_unlock(&const_str_pool_locker);
         return result;
@@ -57,7 +57,7 @@ n_string_t string_new_with_pool(void *raw_string, int64_t length) {
 
             mutex_lock(&const_str_pool_locker);
             pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-            if (pooled && pooled->length == length) {
+            if (pooled && pooled->length == length && memcmp(pooled->data, raw_string, length) == 0) {
                 str = *pooled;
                 mutex_unlock(&const_str_pool_locker);
                 free(pool_copy);
-- 
2.43.0


From 62afd9aed08e56d64b734bb12ec62496b905952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:02 +0000
Subject: [PATCH 11/57] fix: map and set keys are compared over their whole
 content

---
 runtime/nutils/hash.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 4cbbb7a..105a047 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -49,12 +49,14 @@ static inline uint64_t key_hash(rtype_t *rtype, void *key_ref) {
 
 static inline bool key_equal(rtype_t *rtype, void *actual, void *expect) {
     DEBUGF("[key_equal] actual=%p, expect=%p", actual, expect);
-    char *actual_str = rtype_value_to_str(rtype, actual);
-    char *expect_str = rtype_value_to_str(rtype, expect);
-    bool result = str_equal(actual_str, expect_str);
-    free((void *) actual_str);
-    free((void *) expect_str);
-    return result;
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *actual_str = actual;
+        n_string_t *expect_str = expect;
+        return actual_str->length == expect_str->length &&
+               memcmp(actual_str->data, expect_str->data, actual_str->length) == 0;
+    }
+
+    return memcmp(actual, expect, rtype->storage_size) == 0;
 }
 
 /**
-- 
2.43.0


From b3ac08ac7cec808b0293a1a53e94d3b5fc350f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:48 +0000
Subject: [PATCH 12/57] fix: select with the same channel in several cases no
 longer releases its lock twice

Cases are registered in lock order so the park callback can skip duplicates.
---
 runtime/rt_chan.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index d36bee0..d210557 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -611,8 +611,9 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
     linkco_t **nextp = NULL;
 
     nextp = &co->waiting;
+    // selpark_commit only skips neighbouring duplicates, so register in lock order
     for (int16_t i = 0; i < cases_count; i++) {
-        casi = i;
+        casi = lockorder[i];
         cas = &cases[casi];
         c = cas->chan;
 
@@ -664,14 +665,15 @@ int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool
 
     scase *k = NULL;
     for (int16_t i = 0; i < cases_count; i++) {
-        k = &cases[i];
+        int16_t o = lockorder[i];
+        k = &cases[o];
         if (lc == lclist) {
-            casi = i;
+            casi = o;
             cas = k;
             case_success = lclist->success;
         } else {
             c = k->chan;
-            if (i < sends_count) {
+            if (o < sends_count) {
                 waitq_remove(&c->sendq, lclist);
             } else {
                 waitq_remove(&c->recvq, lclist);
-- 
2.43.0


From 941c0851ff1e94605f7a2820b2cff94c5969d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:09 +0000
Subject: [PATCH 13/57] fix: literals share a constant only when kind and full
 content match

---
 src/lower/lower.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lower/lower.h b/src/lower/lower.h
index 7c6d943..c5c7009 100644
--- a/src/lower/lower.h
+++ b/src/lower/lower.h
@@ -7,14 +7,17 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
 
     // check value exists, if exists assign unique var ident, and add lea global to var ident
     // and change op use imm to var ident
-    char *key;
+    char *key = NULL;
     if (imm->kind == TYPE_RAW_STRING) {
-        key = str_connect("s:", imm->string_value);
+        // the table key is a c string, content with zero bytes cannot be shared by key
+        if (memchr(imm->string_value, '\0', imm->strlen) == NULL) {
+            key = str_connect("s:", imm->string_value);
+        }
     } else {
-        key = str_connect("f:", itoa(imm->int_value));
+        key = str_connect(imm->kind == TYPE_FLOAT32 ? "f32:" : "f64:", itoa(imm->int_value));
     }
 
-    asm_global_symbol_t *global_symbol = table_get(c->module->global_symbol_table, key);
+    asm_global_symbol_t *global_symbol = key ? table_get(c->module->global_symbol_table, key) : NULL;
     if (!global_symbol) {
         char *unique_name = label_ident_with_prefix(c->module, "g");
         global_symbol = NEW(asm_global_symbol_t);
@@ -40,7 +43,9 @@ static inline void lower_imm_symbol(closure_t *c, lir_operand_t *imm_operand, li
 
         symbol_table_set_raw_string(c->module, global_symbol->name, type_kind_new(TYPE_RAW_STRING), imm->strlen);
         slice_push(c->asm_symbols, global_symbol);
-        table_set(c->module->global_symbol_table, key, global_symbol);
+        if (key) {
+            table_set(c->module->global_symbol_table, key, global_symbol);
+        }
     }
 
     lir_symbol_var_t *symbol_var = NEW(lir_symbol_var_t);
-- 
2.43.0


From 79a70a804dba05eab9f77b3aa37923f144c08fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:35 +0000
Subject: [PATCH 14/57] fix: constant string concatenation and const strings
 keep zero bytes

---
 src/semantic/analyzer.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/semantic/analyzer.c b/src/semantic/analyzer.c
index e0c5840..d1e09c2 100644
--- a/src/semantic/analyzer.c
+++ b/src/semantic/analyzer.c
@@ -1691,14 +1691,15 @@ static void analyzer_constant_folding(module_t *m, ast_expr_t *expr) {
         // 处理字符串加法运算（字符串连接）
         if (left_literal->kind == TYPE_STRING && right_literal->kind == TYPE_STRING && binary_expr->op == AST_OP_ADD) {
             // 计算连接后的字符串长度
-            size_t left_len = strlen(left_literal->value);
-            size_t right_len = strlen(right_literal->value);
+            size_t left_len = left_literal->len;
+            size_t right_len = right_literal->len;
             size_t total_len = left_len + right_len + 1; // +1 for null terminator
 
             // 分配内存并连接字符串
             char *result_str = malloc(total_len);
-            strcpy(result_str, left_literal->value);
-            strcat(result_str, right_literal->value);
+            memcpy(result_str, left_literal->value, left_len);
+            memcpy(result_str + left_len, right_literal->value, right_len);
+            result_str[left_len + right_len] = '\0';
 
             // 创建结果字面量
             ast_literal_t *result_literal = NEW(ast_literal_t);
@@ -2099,7 +2100,13 @@ static void analyzer_constant_propagation(module_t *m, ast_expr_t *expr) {
 
     ast_literal_t *literal = NEW(ast_literal_t);
     literal->kind = right_literal->kind;
-    literal->value = strdup(right_literal->value);
+    if (right_literal->kind == TYPE_STRING) {
+        literal->value = malloc(right_literal->len + 1);
+        memcpy(literal->value, right_literal->value, right_literal->len);
+        literal->value[right_literal->len] = '\0';
+    } else {
+        literal->value = strdup(right_literal->value);
+    }
     literal->len = right_literal->len;
 
     expr->value = literal;
-- 
2.43.0


From 930edda43393617245c71f81bf4724811ff7e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:57 +0000
Subject: [PATCH 15/57] fix: copying a string literal keeps zero bytes

---
 src/ast.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index aaa9031..b1f9546 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -266,7 +266,13 @@ static ast_ident *ast_ident_copy(ast_ident *temp) {
 
 static ast_literal_t *ast_literal_copy(ast_literal_t *temp) {
     ast_literal_t *literal = COPY_NEW(ast_literal_t, temp);
-    literal->value = strdup(temp->value); // 根据实际情况复制，这里假设 value 是字符串
+    if (temp->kind == TYPE_STRING) {
+        literal->value = malloc(temp->len + 1);
+        memcpy(literal->value, temp->value, temp->len);
+        literal->value[temp->len] = '\0';
+    } else {
+        literal->value = strdup(temp->value);
+    }
     return literal;
 }
 
-- 
2.43.0


From cd3d2729ed212d865b5f16a6757dc00395f7e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:34 +0000
Subject: [PATCH 16/57] fix: an unassigned string converts to an empty C string
 instead of a null pointer

---
 runtime/nutils/nutils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 07c64ba..f5d8a1c 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -1096,5 +1096,9 @@ n_string_t rt_string_ref_new(void *raw_string, int64_t length) {
  */
 void *rt_string_ref(n_string_t *n_str) {
     DEBUGF("[rt_string_ref] length=%lu, data=%p", n_str->length, n_str->data);
+    // a string that was never assigned has no data yet
+    if (!n_str->data) {
+        return "";
+    }
     return n_str->data;
 }
-- 
2.43.0


From 3a03b08ead4b174c666c35f297e3c8fea3825628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:33 +0000
Subject: [PATCH 17/57] fix: element and field assignment evaluates the right
 side before the target is taken or written

---
 src/linear.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 95dd3b1..5bfa27f 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1149,13 +1149,14 @@ static void linear_vec_assign(module_t *m, ast_assign_stmt_t *stmt) {
 static void linear_array_assign(module_t *m, ast_assign_stmt_t *stmt) {
     // ptr 返回的是一个 indirect, 所以需要进行 lea 处理
     lir_operand_t *target = linear_array_access(m, stmt->left, NULL);
+    // the right side may read the element that is assigned, so it is complete before the element is written
+    lir_operand_t *src = linear_expr(m, stmt->right, NULL);
     if (is_gc_alloc(stmt->left.type.kind)) {
-        lir_operand_t *new_obj = linear_expr(m, stmt->right, NULL);
         lir_operand_t *dst_slot = lea_operand_pointer(m, target);
 
-        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, new_obj);
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, src);
     } else {
-        linear_expr(m, stmt->right, target);
+        linear_super_move(m, stmt->left.type, target, src);
     }
 }
 
@@ -1170,17 +1171,17 @@ static void linear_tuple_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     uint64_t offset = type_tuple_offset(tuple_type.tuple, tuple_access->index);
     lir_operand_t *dst = indirect_addr_operand(m, stmt->left.type, tuple_target, offset);
+    lir_operand_t *src = linear_expr(m, stmt->right, NULL);
 
     if (is_gc_alloc(stmt->left.type.kind)) {
-        lir_operand_t *obj = linear_expr(m, stmt->right, NULL);
         lir_operand_t *dst_slot = lea_operand_pointer(m, dst);
-        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, obj);
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, src);
     } else {
         if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
             dst = lea_operand_pointer(m, dst);
         }
 
-        linear_expr(m, stmt->right, dst);
+        linear_super_move(m, stmt->left.type, dst, src);
     }
 }
 
@@ -1243,6 +1244,9 @@ static void linear_map_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     lir_operand_t *key_ref = lea_operand_pointer(m, linear_expr(m, map_access->key, NULL));
 
+    // the right side may look up, insert into or grow the same map, so the slot is taken after it
+    lir_operand_t *src = linear_expr(m, stmt->right, NULL);
+
     // dst 是一个 slot 提供写入地址
     lir_operand_t *dst = temp_var_operand_with_alloc(m, type_kind_new(TYPE_ANYPTR));
     push_rt_call(m, RT_CALL_MAP_ASSIGN, dst, 2, map_target, key_ref);
@@ -1250,13 +1254,12 @@ static void linear_map_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     if (is_gc_alloc(stmt->left.type.kind)) {
         // 不包含 struct/array
-        lir_operand_t *obj = linear_expr(m, stmt->right, NULL);
-        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst, obj);
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst, src);
     } else {
         if (stmt->right.type.storage_kind != STORAGE_KIND_IND) {
             dst = indirect_addr_operand(m, stmt->right.type, dst, 0);
         }
-        linear_expr(m, stmt->right, dst);
+        linear_super_move(m, stmt->right.type, dst, src);
     }
 }
 
@@ -1287,20 +1290,20 @@ static void linear_struct_assign(module_t *m, ast_assign_stmt_t *stmt) {
     // 如果 stmt->right 是一个 arr/struct 这样的在内存中分配的区域，那么 linear 的返回值
     lir_operand_t *dst_slot = indirect_addr_operand(m, stmt->left.type, struct_target, offset);
 
+    // the right side may read the field that is assigned, so it is complete before the field is written
+    lir_operand_t *src = linear_expr(m, stmt->right, NULL);
+
     // TODO stmt->right.type.in_heap? handle
     if (is_gc_alloc(stmt->left.type.kind)) {
-        lir_operand_t *obj = linear_expr(m, stmt->right, NULL);
-
         dst_slot = lea_operand_pointer(m, dst_slot);
-        //        obj = lea_operand_pointer(m, obj);
 
-        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, obj);
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, dst_slot, src);
     } else {
         // lea [rax+16], rcx
         if (stmt->left.type.storage_kind == STORAGE_KIND_IND) {
             dst_slot = lea_operand_pointer(m, dst_slot);
         }
-        linear_expr(m, stmt->right, dst_slot);
+        linear_super_move(m, stmt->left.type, dst_slot, src);
     }
 }
 
-- 
2.43.0


From 945fae5d65b755a1b0ad35630bace424432875d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:11 +0000
Subject: [PATCH 18/57] fix: sign-extend narrow signed indexes before the
 bounds test

---
 src/linear.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/linear.c b/src/linear.c
index 5bfa27f..be94346 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -180,7 +180,11 @@ linear_inline_arr_element_addr_not_check(module_t *m, lir_operand_t *arr_target,
     int64_t index_storage_size = operand_type_storage_size(index_target);
     if (index_storage_size < POINTER_SIZE) {
         lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        if (is_signed(lir_operand_type(index_target).kind)) {
+            OP_PUSH(lir_op_sext(temp_index_target, index_target));
+        } else {
+            OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        }
         index_target = temp_index_target;
     }
 
@@ -204,7 +208,11 @@ linear_inline_arr_element_addr(module_t *m, lir_operand_t *arr_target, lir_opera
     int64_t index_storage_size = operand_type_storage_size(index_target);
     if (index_storage_size < POINTER_SIZE) {
         lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        if (is_signed(lir_operand_type(index_target).kind)) {
+            OP_PUSH(lir_op_sext(temp_index_target, index_target));
+        } else {
+            OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        }
         index_target = temp_index_target;
     }
 
@@ -254,7 +262,11 @@ linear_inline_vec_element_addr_no_check(module_t *m, lir_operand_t *vec_target,
     int64_t index_storage_size = operand_type_storage_size(index_target);
     if (index_storage_size < POINTER_SIZE) {
         lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        if (is_signed(lir_operand_type(index_target).kind)) {
+            OP_PUSH(lir_op_sext(temp_index_target, index_target));
+        } else {
+            OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        }
 
         index_target = temp_index_target;
     }
@@ -298,7 +310,11 @@ linear_inline_vec_element_addr(module_t *m, lir_operand_t *vec_target, lir_opera
     int64_t index_storage_size = operand_type_storage_size(index_target);
     if (index_storage_size < POINTER_SIZE) {
         lir_operand_t *temp_index_target = temp_var_operand(m, type_kind_new(TYPE_INT));
-        OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        if (is_signed(lir_operand_type(index_target).kind)) {
+            OP_PUSH(lir_op_sext(temp_index_target, index_target));
+        } else {
+            OP_PUSH(lir_op_uext(temp_index_target, index_target));
+        }
 
         index_target = temp_index_target;
     }
-- 
2.43.0


From 7745358967f268b83e312d99a3bb6d47718fdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:11 +0000
Subject: [PATCH 19/57] fix: reject vec lengths and capacities whose storage
 size overflows

---
 runtime/nutils/vec.c | 18 ++++++++++++++----
 runtime/nutils/vec.h |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 706de90..64e21e7 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -4,10 +4,10 @@
 #include "runtime/runtime.h"
 #include "utils/helper.h"
 
-static void rti_vec_grow(n_vec_t *vec, rtype_t *element_rtype, int custom_capacity) {
+static void rti_vec_grow(n_vec_t *vec, rtype_t *element_rtype, int64_t custom_capacity) {
     void *old_data = vec->data;
 
-    if (custom_capacity) {
+    if (custom_capacity > 0 && custom_capacity >= vec->length) {
         vec->capacity = custom_capacity;
     } else if (vec->capacity > 0) {
         vec->capacity = vec->capacity * 2;
@@ -90,6 +90,11 @@ n_vec_t rt_vec_new(int64_t hash, int64_t element_hash, int64_t length, void *val
     rtype_t *element_rtype = rt_find_rtype(element_hash);
     assert(element_rtype && "cannot find element_rtype with hash");
     int64_t element_size = element_rtype->storage_size;
+    if (element_size > 0 && capacity > INT64_MAX / element_size) {
+        rti_throw("vec len too large", true);
+        n_vec_t empty = {0};
+        return empty;
+    }
 
     // - 进行内存申请,申请回来一段内存是 memory_vec_t 大小的内存, memory_vec_* 就是限定这一片内存区域的结构体表示
     // 虽然数组也这么表示，但是数组本质上只是利用了 vec_data + 1 时会按照 sizeof(memory_vec_t) 大小的内存区域移动
@@ -104,7 +109,7 @@ n_vec_t rt_vec_new(int64_t hash, int64_t element_hash, int64_t length, void *val
 
         if (length > 0) {
             uint64_t zero = 0;
-            if (memcmp(value_ref, &zero, element_size) != 0) {
+            if (element_size > sizeof(zero) || memcmp(value_ref, &zero, element_size) != 0) {
                 DEBUGF("[rt_vec_new] will set default value_ref=%p, element_size=%lu", value_ref, element_size);
 
                 for (int64_t i = 0; i < length; i++) {
@@ -137,6 +142,11 @@ n_vec_t rt_vec_cap(int64_t hash, int64_t element_hash, int64_t capacity) {
 
     rtype_t *element_rtype = rt_find_rtype(element_hash);
     assert(element_rtype && "cannot find element_rtype with hash");
+    if (element_rtype->storage_size > 0 && capacity > INT64_MAX / (int64_t) element_rtype->storage_size) {
+        rti_throw("vec cap too large", true);
+        n_vec_t empty = {0};
+        return empty;
+    }
 
     // - 进行内存申请,申请回来一段内存是 memory_vec_t 大小的内存, memory_vec_* 就是限定这一片内存区域的结构体表示
     // 虽然数组也这么表示，但是数组本质上只是利用了 vec_data + 1 时会按照 sizeof(memory_vec_t) 大小的内存区域移动
@@ -240,7 +250,7 @@ void *rt_vec_ref(n_vec_t *l) {
     return l->data;
 }
 
-void rt_vec_grow(n_vec_t *vec, int64_t element_hash, int custom_capacity) {
+void rt_vec_grow(n_vec_t *vec, int64_t element_hash, int64_t custom_capacity) {
     assert(element_hash);
     rtype_t *element_rtype = rt_find_rtype(element_hash);
     assert(element_rtype);
diff --git a/runtime/nutils/vec.h b/runtime/nutils/vec.h
index 7d64fcd..2f8141c 100644
--- a/runtime/nutils/vec.h
+++ b/runtime/nutils/vec.h
@@ -60,7 +60,7 @@ void rt_vec_append(n_vec_t *dst, n_vec_t *src, int64_t element_hash);
  */
 void rt_vec_push(n_vec_t *vec, int64_t element_hash, void *ref);
 
-void rt_vec_grow(n_vec_t *vec, int64_t element_hash, int custom_capacity);
+void rt_vec_grow(n_vec_t *vec, int64_t element_hash, int64_t custom_capacity);
 
 n_anyptr_t rt_vec_iterator(n_vec_t *l, int64_t element_hash);
 
-- 
2.43.0


From 7709f4a0544dae7fbdad0868e19f0386978f2fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:59:54 +0000
Subject: [PATCH 20/57] fix: stop after a failed udp bind instead of going on
 with the socket

---
 runtime/nutils/udp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/nutils/udp.h b/runtime/nutils/udp.h
index d6ce594..3e256ca 100644
--- a/runtime/nutils/udp.h
+++ b/runtime/nutils/udp.h
@@ -205,6 +205,8 @@ static void uv_async_udp_bind(n_udp_socket_t *s) {
     if (result) {
         DEBUGF("[uv_async_udp_bind] bind failed: %s", uv_strerror(result));
         rti_co_throw(s->co, tlsprintf("udp bind failed: %s", uv_strerror(result)), false);
+        co_ready(s->co);
+        return;
     }
 
     uv_os_fd_t os_fd;
-- 
2.43.0


From 7822735059ddee0ed1127bd5ea3a37b021b3eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:59:54 +0000
Subject: [PATCH 21/57] fix: keep an error while the defers it leaves are run

A fallible call in a defer tested the error that was being unwound, so a
catch in the defer swallowed it, and without a catch the compiler unwound
the running defer again without end. The error is now set aside while the
defers run, and a running defer only unwinds the ones that have not run.
---
 runtime/nutils/nutils.c | 20 ++++++++++++
 runtime/nutils/nutils.h | 10 ++++++
 runtime/rtype.c         |  1 +
 runtime/rtype.h         |  6 ++++
 src/linear.c            | 71 ++++++++++++++++++++++++++++++++++-------
 src/lir.h               |  3 ++
 6 files changed, 99 insertions(+), 12 deletions(-)

diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index f5d8a1c..98276bf 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -726,6 +726,26 @@ n_interface_t co_remove_error() {
     return error;
 }
 
+held_error_t *co_hold_error() {
+    coroutine_t *co = coroutine_get();
+
+    held_error_t *held = rti_gc_malloc(sizeof(held_error_t), &held_error_rtype);
+    rti_write_barrier_ptr(&held->traces.data, co->traces.data, false);
+    held->traces = co->traces;
+
+    n_interface_t error = co_remove_error();
+    rti_write_barrier_rtype(&held->error, &error, &throwable_rtype);
+    return held;
+}
+
+void co_resume_error(held_error_t *held) {
+    coroutine_t *co = coroutine_get();
+
+    co->traces = held->traces;
+    rti_write_barrier_rtype(&co->error, &held->error, &throwable_rtype);
+    co->has_error = true;
+}
+
 uint8_t co_has_panic(bool be_catch, char *path, char *fn_name, n_int_t line, n_int_t column) {
     coroutine_t *co = coroutine_get();
     if (!co->has_error) {
diff --git a/runtime/nutils/nutils.h b/runtime/nutils/nutils.h
index 329019a..62a4f3e 100644
--- a/runtime/nutils/nutils.h
+++ b/runtime/nutils/nutils.h
@@ -51,8 +51,18 @@ void co_throw_error(n_interface_t *error, char *path, char *fn_name, n_int_t lin
 
 void throw_index_out_error(n_int_t *index, n_int_t *len, n_bool_t be_catch);
 
+// error set aside while the defers of the scopes it leaves are run
+typedef struct {
+    n_interface_t error;
+    n_vec_t traces;
+} held_error_t;
+
 n_interface_t co_remove_error();
 
+held_error_t *co_hold_error();
+
+void co_resume_error(held_error_t *held);
+
 uint8_t co_has_error(char *path, char *fn_name, n_int_t line, n_int_t column);
 
 uint8_t co_has_panic(bool be_catch, char *path, char *fn_name, n_int_t line, n_int_t column);
diff --git a/runtime/rtype.c b/runtime/rtype.c
index d3bcd77..026503d 100644
--- a/runtime/rtype.c
+++ b/runtime/rtype.c
@@ -19,6 +19,7 @@ rtype_t string_ref_rtype = {0};
 
 // GC_RTYPE(TYPE_STRUCT, 4, TYPE_GC_SCAN, TYPE_GC_SCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN);
 rtype_t errort_trace_rtype = {0};
+rtype_t held_error_rtype = {0};
 
 // GC_RTYPE(TYPE_STRUCT, 3, TYPE_GC_SCAN, TYPE_GC_SCAN, TYPE_GC_NOSCAN);
 rtype_t throwable_rtype = {0};
diff --git a/runtime/rtype.h b/runtime/rtype.h
index cc4cfb4..fbf635d 100644
--- a/runtime/rtype.h
+++ b/runtime/rtype.h
@@ -30,6 +30,8 @@ extern rtype_t errort_trace_rtype;
 
 extern rtype_t throwable_rtype;
 
+extern rtype_t held_error_rtype;
+
 extern rtype_t errort_rtype;
 
 // GC_RTYPE(TYPE_GC_ENV, 2, TYPE_GC_SCAN, TYPE_GC_NOSCAN);
@@ -144,6 +146,10 @@ static inline void builtin_rtype_init() {
     throwable_rtype = GC_RTYPE(TYPE_INTERFACE, 4, TYPE_GC_SCAN, TYPE_GC_SCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN);
     sc_map_put_64v(&rt_rtype_map, throwable_rtype.hash, &throwable_rtype);
 
+    held_error_rtype = GC_RTYPE(TYPE_STRUCT, 10, TYPE_GC_SCAN, TYPE_GC_SCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN,
+                                TYPE_GC_SCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN,
+                                TYPE_GC_NOSCAN);
+
     // 初始化错误 rtype
     errort_rtype = GC_RTYPE(TYPE_STRUCT, 6,
                             TYPE_GC_SCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN,
diff --git a/src/linear.c b/src/linear.c
index be94346..6d3a484 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -78,11 +78,26 @@ static linear_defer_scope_t *linear_defer_scope_new(module_t *m) {
 
 static void linear_emit_defer_stmt(module_t *m, ast_defer_stmt_t *defer_stmt);
 
+/**
+ * A defer that is running has left the list, so an error it raises only unwinds the ones that have not run yet,
+ * and belongs to the catch around the scope. The caller puts the count back when the scope is still open on other paths.
+ */
 static void linear_emit_scope_defer_stmts(module_t *m, linear_defer_scope_t *scope) {
+    ct_stack_t *catch_labels = m->current_closure->catch_error_labels;
+    ct_stack_t *inner_labels = stack_new();
+    while (catch_labels->count > scope->catch_depth) {
+        stack_push(inner_labels, stack_pop(catch_labels));
+    }
+
     for (int i = scope->defer_stmts->count - 1; i >= 0; --i) {
         ast_defer_stmt_t *defer_stmt = scope->defer_stmts->take[i];
+        scope->defer_stmts->count = i;
         linear_emit_defer_stmt(m, defer_stmt);
     }
+
+    while (inner_labels->count > 0) {
+        stack_push(catch_labels, stack_pop(inner_labels));
+    }
 }
 
 static void linear_defer_scope_enter(module_t *m) {
@@ -91,11 +106,12 @@ static void linear_defer_scope_enter(module_t *m) {
 }
 
 static void linear_defer_scope_leave(module_t *m) {
-    linear_defer_scope_t *scope = stack_pop(m->current_closure->defer_scopes);
+    linear_defer_scope_t *scope = stack_top(m->current_closure->defer_scopes);
     if (!scope) {
         return;
     }
     linear_emit_scope_defer_stmts(m, scope);
+    stack_pop(m->current_closure->defer_scopes);
 }
 
 static void linear_defer_register(module_t *m, ast_defer_stmt_t *defer_stmt) {
@@ -131,19 +147,27 @@ static bool linear_scope_need_unwind(linear_defer_scope_t *scope, linear_unwind_
     }
 }
 
+static void linear_unwind_from(module_t *m, stack_node *node, linear_unwind_mode_t mode, uint16_t depth) {
+    if (node == NULL) {
+        return;
+    }
+
+    linear_defer_scope_t *scope = node->value;
+    int count = scope->defer_stmts->count;
+    if (linear_scope_need_unwind(scope, mode, depth)) {
+        linear_emit_scope_defer_stmts(m, scope);
+    }
+    linear_unwind_from(m, node->next, mode, depth);
+    scope->defer_stmts->count = count;
+}
+
 static void linear_unwind_scopes(module_t *m, linear_unwind_mode_t mode, uint16_t depth) {
     ct_stack_t *defer_scopes = m->current_closure->defer_scopes;
     if (stack_empty(defer_scopes)) {
         return;
     }
 
-    for (stack_node *node = defer_scopes->top->next; node != NULL; node = node->next) {
-        linear_defer_scope_t *scope = node->value;
-        if (!linear_scope_need_unwind(scope, mode, depth)) {
-            continue;
-        }
-        linear_emit_scope_defer_stmts(m, scope);
-    }
+    linear_unwind_from(m, defer_scopes->top->next, mode, depth);
 }
 
 static void linear_unwind_all(module_t *m) {
@@ -162,12 +186,35 @@ static void linear_unwind_to_ret_depth(module_t *m, uint16_t depth) {
     linear_unwind_scopes(m, LINEAR_UNWIND_MODE_RET, depth);
 }
 
-static void linear_unwind_to_catch_depth(module_t *m, uint16_t depth) {
-    linear_unwind_scopes(m, LINEAR_UNWIND_MODE_CATCH, depth);
+static bool linear_has_pending_defer(module_t *m, linear_unwind_mode_t mode, uint16_t depth) {
+    ct_stack_t *defer_scopes = m->current_closure->defer_scopes;
+    if (stack_empty(defer_scopes)) {
+        return false;
+    }
+
+    for (stack_node *node = defer_scopes->top->next; node != NULL; node = node->next) {
+        linear_defer_scope_t *scope = node->value;
+        if (linear_scope_need_unwind(scope, mode, depth) && scope->defer_stmts->count > 0) {
+            return true;
+        }
+    }
+    return false;
+}
+
+// run the defers an error leaves with the error set aside, calls in them test and catch errors of their own
+static void linear_unwind_error(module_t *m, linear_unwind_mode_t mode, uint16_t depth) {
+    if (!linear_has_pending_defer(m, mode, depth)) {
+        return;
+    }
+
+    lir_operand_t *held = temp_var_operand(m, type_refof(type_kind_new(TYPE_INT)));
+    push_rt_call(m, RT_CALL_CO_HOLD_ERROR, held, 0);
+    linear_unwind_scopes(m, mode, depth);
+    push_rt_call(m, RT_CALL_CO_RESUME_ERROR, NULL, 1, held);
 }
 
 static void linear_bal_error(module_t *m, char *error_target_label, uint16_t catch_depth) {
-    linear_unwind_to_catch_depth(m, catch_depth);
+    linear_unwind_error(m, LINEAR_UNWIND_MODE_CATCH, catch_depth);
     OP_PUSH(lir_op_bal(lir_label_operand(error_target_label, true)));
 }
 
@@ -4067,7 +4114,7 @@ static void linear_throw(module_t *m, ast_throw_stmt_t *stmt) {
                  line_operand,
                  column_operand);
 
-    linear_unwind_all(m);
+    linear_unwind_error(m, LINEAR_UNWIND_MODE_ALL, 0);
 
     // 插入 return 标识(用来做 return check 的，check 完会清除的)
     OP_PUSH(lir_op_new(LIR_OPCODE_RETURN, NULL, NULL, NULL));
diff --git a/src/lir.h b/src/lir.h
index 2386852..e32f0d3 100644
--- a/src/lir.h
+++ b/src/lir.h
@@ -151,6 +151,8 @@
 #define RT_CALL_CO_THROW_ERROR "co_throw_error"
 
 #define RT_CALL_CO_REMOVE_ERROR "co_remove_error"
+#define RT_CALL_CO_HOLD_ERROR "co_hold_error"
+#define RT_CALL_CO_RESUME_ERROR "co_resume_error"
 #define RT_CALL_CO_HAS_ERROR "co_has_error"
 #define RT_CALL_CO_HAS_PANIC "co_has_panic"
 
@@ -272,6 +274,7 @@ static inline bool is_rtcall(string target) {
            str_equal(target, RT_CALL_GC_MALLOC) || str_equal(target, RT_CALL_FX_MALLOC) ||
            str_equal(target, RT_CALL_RUNTIME_EVAL_GC) || str_equal(target, RT_CALL_COROUTINE_ASYNC2) || str_equal(target, RT_CALL_CO_THROW_ERROR) ||
            str_equal(target, RT_CALL_CO_REMOVE_ERROR) || str_equal(target, RT_CALL_CO_HAS_ERROR) ||
+           str_equal(target, RT_CALL_CO_HOLD_ERROR) || str_equal(target, RT_CALL_CO_RESUME_ERROR) ||
            str_equal(target, RT_CALL_CO_HAS_PANIC) || str_equal(target, RT_CALL_PROCESSOR_SET_EXIT) ||
            str_equal(target, RT_CALL_UNION_TO_ANY);
 }
-- 
2.43.0


From 16944f975e5f23dcf109f2a3a25a99a91cdbef8a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:59:54 +0000
Subject: [PATCH 22/57] fix: let a throw inside try reach the catch of that try

---
 src/linear.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linear.c b/src/linear.c
index 6d3a484..ef96995 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -4114,6 +4114,13 @@ static void linear_throw(module_t *m, ast_throw_stmt_t *stmt) {
                  line_operand,
                  column_operand);
 
+    // the catch around the statement handles it, only an uncaught error leaves the function
+    uint16_t catch_depth = m->current_closure->catch_error_labels->count;
+    if (catch_depth > 0) {
+        linear_bal_error(m, stack_top(m->current_closure->catch_error_labels), catch_depth);
+        return;
+    }
+
     linear_unwind_error(m, LINEAR_UNWIND_MODE_ALL, 0);
 
     // 插入 return 标识(用来做 return check 的，check 完会清除的)
-- 
2.43.0


From 72b9a0a3c15a68e7a5d864f856751fc6fa9113f1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:02:09 +0000
Subject: [PATCH 23/57] fix: declare runtime.vec_new_out fallible, it raises on
 a bad capacity

---
 std/runtime/runtime.n | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/runtime/runtime.n b/std/runtime/runtime.n
index 470788d..a7a7176 100644
--- a/std/runtime/runtime.n
+++ b/std/runtime/runtime.n
@@ -10,7 +10,7 @@ pub fn vec_cap<T>(int hash, int element_hash, int cap):vec<T>!
 fn vec_alloc(int hash, int element_hash, int cap):anyptr!
 
 #linkid rt_vec_new_out
-pub fn vec_new_out(anyptr out, int hash, int element_hash, int cap)
+pub fn vec_new_out(anyptr out, int hash, int element_hash, int cap):void!
 
 #linkid rt_vec_push
 pub fn vec_push(anyptr list, int element_hash, anyptr val)
-- 
2.43.0


From 5e2c82613d4ed42175e6e5b7784766858af13a99 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:02:09 +0000
Subject: [PATCH 24/57] fix: report the error when a loop over a closed channel
 or an fx allocation fails

The loop went on with the last value for ever and the error surfaced at an
unrelated call or when the coroutine ended.
---
 src/linear.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.c b/src/linear.c
index ef96995..7b572d1 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -78,6 +78,8 @@ static linear_defer_scope_t *linear_defer_scope_new(module_t *m) {
 
 static void linear_emit_defer_stmt(module_t *m, ast_defer_stmt_t *defer_stmt);
 
+static void linear_has_panic(module_t *m);
+
 /**
  * A defer that is running has left the list, so an error it raises only unwinds the ones that have not run yet,
  * and belongs to the catch around the scope. The caller puts the count back when the scope is still open on other paths.
@@ -622,6 +624,7 @@ linear_unsafe_vec_new(module_t *m, type_t t, uint64_t len, lir_operand_t *target
         if (m->current_closure->is_fx) {
             uint64_t data_size = len * t.vec->element_type.storage_size;
             push_rt_call(m, RT_CALL_FX_MALLOC, data_ptr, 1, int_operand(data_size));
+            linear_has_panic(m);
         } else {
             lir_operand_t *element_hash = int_operand(type_hash(t.vec->element_type));
             lir_operand_t *len_operand = int_operand(len);
@@ -1723,6 +1726,9 @@ static void linear_for_iterator(module_t *m, ast_for_iterator_stmt_t *ast) {
         push_rt_call(m, RT_CALL_ITERATOR_NEXT_VALUE, cursor_operand, 4, iterator_target, int_operand(rtype_hash),
                      cursor_operand,
                      first_ref);
+        if (ast->iterate.type.kind == TYPE_CHAN) {
+            linear_has_panic(m); // recv on closed channel
+        }
     } else {
         push_rt_call(m, RT_CALL_ITERATOR_NEXT_KEY, cursor_operand, 4, iterator_target, int_operand(rtype_hash),
                      cursor_operand, first_ref);
-- 
2.43.0


From 154b66a96d1dbb82f30ffc44e65b252ea07f9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:29:43 +0000
Subject: [PATCH 25/57] fix: keep 64 bit offsets in read_at and write_at

---
 runtime/nutils/fs.c | 8 ++++----
 runtime/nutils/fs.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/nutils/fs.c b/runtime/nutils/fs.c
index 7619e1a..5d18549 100644
--- a/runtime/nutils/fs.c
+++ b/runtime/nutils/fs.c
@@ -199,11 +199,11 @@ n_int_t rt_uv_fs_read(fs_context_t *ctx, n_vec_t buf) {
     return rt_uv_fs_read_at(ctx, buf, -1);
 }
 
-static void uv_async_fs_read_at(fs_context_t *ctx, int offset) {
+static void uv_async_fs_read_at(fs_context_t *ctx, int64_t offset) {
     uv_fs_read(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_read_cb);
 }
 
-n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset) {
+n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     coroutine_t *co = coroutine_get();
     n_processor_t *p = processor_get();
     DEBUGF("[rt_uv_fs_read] read file: %ld", ctx->fd);
@@ -236,7 +236,7 @@ n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset) {
     return ctx->data_len;
 }
 
-static void uv_async_fs_write_at(fs_context_t *ctx, n_vec_t *buf, int offset) {
+static void uv_async_fs_write_at(fs_context_t *ctx, n_vec_t *buf, int64_t offset) {
     // 配置写入缓冲区并保存到 ctx 用于 fallback
     ctx->buf = uv_buf_init((char *) buf->data, buf->length);
     ctx->offset = offset; // 保存 offset 用于 fallback
@@ -245,7 +245,7 @@ static void uv_async_fs_write_at(fs_context_t *ctx, n_vec_t *buf, int offset) {
     uv_fs_write(&global_loop, &ctx->req, ctx->fd, &ctx->buf, 1, offset, on_write_cb);
 }
 
-n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset) {
+n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset) {
     coroutine_t *co = coroutine_get();
     n_processor_t *p = processor_get();
 
diff --git a/runtime/nutils/fs.h b/runtime/nutils/fs.h
index 7fa2d29..8fac35b 100644
--- a/runtime/nutils/fs.h
+++ b/runtime/nutils/fs.h
@@ -29,9 +29,9 @@ n_int_t rt_uv_fs_write(fs_context_t *ctx, n_vec_t buf);
 
 void rt_uv_fs_close(fs_context_t *ctx);
 
-n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int offset);
+n_int_t rt_uv_fs_read_at(fs_context_t *ctx, n_vec_t buf, int64_t offset);
 
-n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int offset);
+n_int_t rt_uv_fs_write_at(fs_context_t *ctx, n_vec_t buf, int64_t offset);
 
 uv_stat_t rt_uv_fs_stat(fs_context_t *ctx);
 
-- 
2.43.0


From 5706f3eb01a8f94cacbe015a88a2f38f85d6eaae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:29:43 +0000
Subject: [PATCH 26/57] fix: return the select index with the width compiled
 code reads

---
 runtime/rt_chan.c | 2 +-
 src/linear.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index d210557..f5fde68 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -487,7 +487,7 @@ static bool selpark_commit(coroutine_t *co, void *arg) {
  * @param _try
  * @return
  */
-int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool _try) {
+int64_t rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool _try) {
 
     DEBUGF("[rt_chan_select] cases = %p, sends_count = %d, recvs_count = %d", cases, sends_count, recvs_count);
 
diff --git a/src/linear.c b/src/linear.c
index 7b572d1..f6a50ee 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1993,7 +1993,7 @@ static void linear_select(module_t *m, ast_select_stmt_t *select_stmt) {
         cases_map[casi] = _i;
     }
 
-    // int rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool _try)
+    // int64_t rt_chan_select(scase *cases, int16_t sends_count, int16_t recvs_count, bool _try)
     // select has default, _try = true
     lir_operand_t *chan_select_case_index = temp_var_operand(m, type_kind_new(TYPE_INT));
     lir_var_t *scase_var = scase_target->value;
-- 
2.43.0


From fd926a0d04a466b00da5087353f71f002f142cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:29:43 +0000
Subject: [PATCH 27/57] fix: drop bindings of functions that do not exist

---
 std/crypto/utils.n                  | 12 ------------
 std/http/uv.n                       |  6 ------
 std/syscall/syscall.darwin.n        |  3 ---
 std/syscall/syscall.linux_amd64.n   |  3 ---
 std/syscall/syscall.linux_arm64.n   |  3 ---
 std/syscall/syscall.linux_riscv64.n |  3 ---
 6 files changed, 30 deletions(-)

diff --git a/std/crypto/utils.n b/std/crypto/utils.n
index 36feb7c..ac34846 100644
--- a/std/crypto/utils.n
+++ b/std/crypto/utils.n
@@ -191,9 +191,6 @@ pub fn mbedtls_pk_info_from_type(i32 pk_type):anyptr
 #linkid mbedtls_pk_setup
 pub fn mbedtls_pk_setup(ptr<mbedtls_pk_context> ctx, anyptr info):i32
 
-#linkid mbedtls_pk_rsa
-pub fn mbedtls_pk_rsa(mbedtls_pk_context ctx):ptr<mbedtls_rsa_context>
-
 #linkid mbedtls_rsa_copy
 pub fn mbedtls_rsa_copy(ptr<mbedtls_rsa_context> dst, ptr<mbedtls_rsa_context> src):i32
 
@@ -273,14 +270,5 @@ pub fn mbedtls_ssl_cookie_setup(ptr<mbedtls_ssl_cookie_ctx> ctx, anyptr f_rng, a
 pub fn mbedtls_ssl_conf_dtls_cookies(ptr<mbedtls_ssl_config> conf, anyptr f_cookie_write, anyptr f_cookie_check, anyptr p_cookie):void
 
 // DTLS-SRTP functions
-#linkid dtls_srtp_x509_digest
-pub fn dtls_srtp_x509_digest(ptr<mbedtls_x509_crt> crt, libc.cstr buf):void
-
-#linkid mbedtls_ssl_conf_dtls_srtp_protection_profiles
-pub fn mbedtls_ssl_conf_dtls_srtp_protection_profiles(ptr<mbedtls_ssl_config> conf, anyptr profiles):i32
-
-#linkid mbedtls_ssl_conf_srtp_mki_value_supported
-pub fn mbedtls_ssl_conf_srtp_mki_value_supported(ptr<mbedtls_ssl_config> conf, i32 support_mki_value):void
-
 #linkid mbedtls_ssl_conf_cert_req_ca_list
 pub fn mbedtls_ssl_conf_cert_req_ca_list(ptr<mbedtls_ssl_config> conf, i8 cert_req_ca_list):void
diff --git a/std/http/uv.n b/std/http/uv.n
index d32cae5..27d4a49 100644
--- a/std/http/uv.n
+++ b/std/http/uv.n
@@ -33,12 +33,6 @@ pub type conn_t = struct{
 #linkid rt_uv_http_listen
 pub fn http_listen(anyptr server):void!
 
-#linkid rt_uv_read
-pub fn read(anyptr client):string!
-
-#linkid rt_uv_write
-pub fn write(anyptr client, string data):void!
-
 #linkid rt_uv_conn_resp
 pub fn conn_resp(ptr<conn_t> ctx, string data)
 
diff --git a/std/syscall/syscall.darwin.n b/std/syscall/syscall.darwin.n
index 8d1523e..4c5dd3a 100644
--- a/std/syscall/syscall.darwin.n
+++ b/std/syscall/syscall.darwin.n
@@ -626,9 +626,6 @@ pub int SOCK_STREAM = 0x1
 #linkid syscall_call6
 pub fn call6(int number, anyptr a1, anyptr a2, anyptr a3, anyptr a4, anyptr a5, anyptr a6):int!
 
-#linkid syscall_getcwd
-fn syscall_getcwd():string
-
 #linkid getenv
 fn getenv(anyptr key):anyptr
 
diff --git a/std/syscall/syscall.linux_amd64.n b/std/syscall/syscall.linux_amd64.n
index 842f8af..125c610 100644
--- a/std/syscall/syscall.linux_amd64.n
+++ b/std/syscall/syscall.linux_amd64.n
@@ -552,9 +552,6 @@ pub int SOCK_STREAM = 0x1
 #linkid syscall_call6
 pub fn call6(int number, anyptr a1, anyptr a2, anyptr a3, anyptr a4, anyptr a5, anyptr a6):int!
 
-#linkid syscall_getcwd
-fn syscall_getcwd():string
-
 #linkid getenv
 fn getenv(anyptr key):anyptr
 
diff --git a/std/syscall/syscall.linux_arm64.n b/std/syscall/syscall.linux_arm64.n
index 471c7a1..82d8b03 100644
--- a/std/syscall/syscall.linux_arm64.n
+++ b/std/syscall/syscall.linux_arm64.n
@@ -580,9 +580,6 @@ int AT_EACCESS = 0x200
 #linkid syscall_call6
 pub fn call6(int number, anyptr a1, anyptr a2, anyptr a3, anyptr a4, anyptr a5, anyptr a6):int!
 
-#linkid syscall_getcwd
-fn syscall_getcwd():string
-
 #linkid getenv
 fn getenv(anyptr key):anyptr
 
diff --git a/std/syscall/syscall.linux_riscv64.n b/std/syscall/syscall.linux_riscv64.n
index d258d1b..af13efc 100644
--- a/std/syscall/syscall.linux_riscv64.n
+++ b/std/syscall/syscall.linux_riscv64.n
@@ -580,9 +580,6 @@ int AT_EACCESS = 0x200
 #linkid syscall_call6
 pub fn call6(int number, anyptr a1, anyptr a2, anyptr a3, anyptr a4, anyptr a5, anyptr a6):int!
 
-#linkid syscall_getcwd
-fn syscall_getcwd():string
-
 #linkid getenv
 fn getenv(anyptr key):anyptr
 
-- 
2.43.0


From 772ffd8ebacf2602d9138b67b56fa4549c67dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:29:43 +0000
Subject: [PATCH 28/57] fix: declare coroutine_new and uv_spawn with the
 arguments they take

---
 std/co/utils.n        | 2 +-
 std/process/process.n | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/co/utils.n b/std/co/utils.n
index adb19ae..f523fe8 100644
--- a/std/co/utils.n
+++ b/std/co/utils.n
@@ -1,5 +1,5 @@
 #linkid rt_coroutine_new
-fn coroutine_new(anyptr function, int flag, anyptr future):anyptr
+fn coroutine_new(anyptr function, int flag, anyptr future, anyptr arg):anyptr
 
 #linkid rt_coroutine_async
 pub fn coroutine_async(anyptr function, int flag, anyptr future):anyptr
diff --git a/std/process/process.n b/std/process/process.n
index 159f3aa..b044855 100644
--- a/std/process/process.n
+++ b/std/process/process.n
@@ -59,7 +59,7 @@ pub fn command(string name, [string] args):ref<command_t>! {
 }
 
 pub fn command_t.spawn(&self):ref<process_t>! {
-    var p = self.uv_spawn(self)
+    var p = self.uv_spawn()
 
     // Scheduling in the current thread will not cause competition
     go p.handle_stdout()
@@ -71,7 +71,7 @@ pub fn command_t.spawn(&self):ref<process_t>! {
 
 
 #linkid rt_uv_process_spawn
-fn command_t.uv_spawn(&self, ref<command_t> cmd):ref<process_t>!
+fn command_t.uv_spawn(&self):ref<process_t>!
 
 fn process_t.handle_stdin(&self):void! {
     defer self.close_stdin()
-- 
2.43.0


From 20d440a5a79b6c5fd0f2dd5a8a902e4653827d5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:29:43 +0000
Subject: [PATCH 29/57] fix: bind libc functions with the widths they are
 defined with

---
 std/libc/dirent.linux.n |  6 +++-
 std/libc/libc.n         | 68 +++++++++++++++++++++++++++++++++--------
 2 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/std/libc/dirent.linux.n b/std/libc/dirent.linux.n
index bfe37dd..1963a69 100644
--- a/std/libc/dirent.linux.n
+++ b/std/libc/dirent.linux.n
@@ -15,4 +15,8 @@ pub fn opendir(anyptr str):dir_t
 pub fn readdir(dir_t d):ptr<dirent_t>
 
 #linkid closedir
-pub fn closedir(dir_t d):int
\ No newline at end of file
+fn c_closedir(dir_t d):i32
+
+pub fn closedir(dir_t d):int {
+    return c_closedir(d) as int
+}
\ No newline at end of file
diff --git a/std/libc/libc.n b/std/libc/libc.n
index 4514c1f..5f815ed 100644
--- a/std/libc/libc.n
+++ b/std/libc/libc.n
@@ -1024,11 +1024,21 @@ pub fn nextafter(f64 x, f64 y):f64
 #linkid nextafterf
 pub fn nextafterf(f32 x, f32 y):f32
 
-#linkid nexttoward
-pub fn nexttoward(f64 x, f64 y):f64
+// the native nexttoward functions take a long double, which has no counterpart here
+pub fn nexttoward(f64 x, f64 y):f64 {
+    return nextafter(x, y)
+}
 
-#linkid nexttowardf
-pub fn nexttowardf(f32 x, f64 y):f32
+pub fn nexttowardf(f32 x, f64 y):f32 {
+    f64 from = x as f64
+    f32 to = y as f32
+    if to == x && y > from {
+        to = 1e300 as f32
+    } else if to == x && y < from {
+        to = -1e300 as f32
+    }
+    return nextafterf(x, to)
+}
 
 // Bessel 函数 (POSIX 扩展)
 #linkid j0
@@ -1386,7 +1396,11 @@ pub fn fchdir(i32 fd):i32
 pub fn alarm(u32 seconds):u32
 
 #linkid sleep
-pub fn sleep(int second)
+fn c_sleep(u32 second):u32
+
+pub fn sleep(int second) {
+    c_sleep(second as u32)
+}
 
 #linkid usleep
 pub fn usleep(u32 usec):i32
@@ -1894,7 +1908,7 @@ pub fn ntohl(u32 x):u32
 pub fn inet_pton(i32 family, anyptr src_str, anyptr dst_buf):i32
 
 #linkid inet_ntop
-pub fn inet_ntop(i32 family, anyptr src_buf, anyptr dst_str, i32 len):i32
+pub fn inet_ntop(i32 family, anyptr src_buf, anyptr dst_str, i32 len):cstr
 
 /*
  * Protections are chosen from these bits, or-ed together
@@ -1918,7 +1932,11 @@ int MAP_RENAME = 0x20
 
 // 通过空值 options 实现阻塞和非阻塞模式
 #linkid waitpid
-pub fn waitpid(int pid, ptr<int> status, int options):int
+fn c_waitpid(i32 pid, ptr<int> status, i32 options):i32
+
+pub fn waitpid(int pid, ptr<int> status, int options):int {
+    return c_waitpid(pid as i32, status, options as i32) as int
+}
 
 // --- signal 相关 <sys/signalfd.h> 和 <signal.h>
 pub type sigset_t = struct {
@@ -1963,10 +1981,18 @@ pub fn sigfillset(ref<sigset_t> sigset):i32
 pub fn sigprocmask(i32 how, ref<sigset_t> sigset, ptr<sigset_t> oldset):i32
 
 #linkid signalfd
-pub fn signalfd(int fd, ref<sigset_t> mask, i32 flags):i32
+fn c_signalfd(i32 fd, ref<sigset_t> mask, i32 flags):i32
+
+pub fn signalfd(int fd, ref<sigset_t> mask, i32 flags):i32 {
+    return c_signalfd(fd as i32, mask, flags)
+}
 
 #linkid prctl
-pub fn prctl(int option, u64 arg2, u64 arg3, u64 arg4, u64 arg5):int
+fn c_prctl(i32 option, u64 arg2, u64 arg3, u64 arg4, u64 arg5):i32
+
+pub fn prctl(int option, u64 arg2, u64 arg3, u64 arg4, u64 arg5):int {
+    return c_prctl(option as i32, arg2, arg3, arg4, arg5) as int
+}
 
 #linkid uv_hrtime
 pub fn uv_hrtime():u64
@@ -1979,19 +2005,35 @@ pub fn errno():int
 pub fn get_envs():[string]
 
 #linkid fork
-pub fn fork():int
+fn c_fork():i32
+
+pub fn fork():int {
+    return c_fork() as int
+}
 
 #linkid getcwd
 pub fn getcwd(cstr path, uint size):cstr
 
 #linkid mmap
-pub fn mmap(anyptr addr, int len, int prot, int flags, int fd, int off):anyptr
+fn c_mmap(anyptr addr, int len, i32 prot, i32 flags, i32 fd, int off):anyptr
+
+pub fn mmap(anyptr addr, int len, int prot, int flags, int fd, int off):anyptr {
+    return c_mmap(addr, len, prot as i32, flags as i32, fd as i32, off)
+}
 
 #linkid munmap
 pub fn munmap(anyptr addr, int len)
 
 #linkid isprint
-pub fn isprint(u8 c):bool
+fn c_isprint(i32 c):i32
+
+pub fn isprint(u8 c):bool {
+    return c_isprint(c as i32) != 0
+}
 
 #linkid isspace
-pub fn isspace(u8 c):bool
+fn c_isspace(i32 c):i32
+
+pub fn isspace(u8 c):bool {
+    return c_isspace(c as i32) != 0
+}
-- 
2.43.0


From e2cbc7652e74d6a8f97558d17427277803e09a01 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:41:13 +0000
Subject: [PATCH 30/57] fix: allocate room for the panic flag of runtime errors

---
 runtime/rtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/rtype.h b/runtime/rtype.h
index fbf635d..eaacddd 100644
--- a/runtime/rtype.h
+++ b/runtime/rtype.h
@@ -151,9 +151,9 @@ static inline void builtin_rtype_init() {
                                 TYPE_GC_NOSCAN);
 
     // 初始化错误 rtype
-    errort_rtype = GC_RTYPE(TYPE_STRUCT, 6,
+    errort_rtype = GC_RTYPE(TYPE_STRUCT, 7,
                             TYPE_GC_SCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN,
-                            TYPE_GC_NOSCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN);
+                            TYPE_GC_NOSCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN, TYPE_GC_NOSCAN);
     sc_map_put_64v(&rt_rtype_map, errort_rtype.hash, &errort_rtype);
 
     // 初始化环境变量 rtype
-- 
2.43.0


From 104cb921bd9e3ff1830fc20c6d67db717d5ef0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:41:13 +0000
Subject: [PATCH 31/57] fix: let the collector see the value held by an escaped
 any

---
 src/rtype.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rtype.h b/src/rtype.h
index c3be0e5..b3bb922 100644
--- a/src/rtype.h
+++ b/src/rtype.h
@@ -485,6 +485,7 @@ static inline rtype_t rtype_any(type_t t) {
     };
 
     bitmap_set(CTDATA(rtype.malloc_gc_bits_offset), 0);
+    bitmap_set(CTDATA(rtype.malloc_gc_bits_offset), 1);
 
     return rtype;
 }
-- 
2.43.0


From 834cc5f404e80fa84ac3a7343d213559d02fee7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:41:13 +0000
Subject: [PATCH 32/57] fix: keep the pointer map of structs larger than 64 KiB

---
 src/rtype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtype.h b/src/rtype.h
index b3bb922..0c1285a 100644
--- a/src/rtype.h
+++ b/src/rtype.h
@@ -820,7 +820,7 @@ static inline rtype_t rtype_struct(type_t t) {
 
     // 假设没有 struct， 可以根据所有 property 计算 gc bits
     offset = 0;
-    uint16_t last_ptr_offset = rtype_struct_gc_bits(gc_bits_offset, &offset, t.struct_);
+    int64_t last_ptr_offset = rtype_struct_gc_bits(gc_bits_offset, &offset, t.struct_);
 
     rtype_t rtype = {
             .gc_heap_size = size,
-- 
2.43.0


From bcceb79c8e045952b9757d4eda3c0b01116923c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:42:22 +0000
Subject: [PATCH 33/57] fix: keep the future of a running coroutine alive
 across collections

---
 runtime/collector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index c4dd6a5..025698b 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -811,6 +811,11 @@ static void gc_work() {
             insert_gc_worklist(&share_p->gc_worklist, wait_co->arg);
         }
 
+        // the coroutine writes its result into the future even if nobody else refers to it any more
+        if (span_of((addr_t) wait_co->future)) {
+            insert_gc_worklist(&share_p->gc_worklist, wait_co->future);
+        }
+
         // 只有第一次 resume 时才会初始化 co, 申请堆栈，并且绑定对应的 p
         if (!wait_co->aco.inited) {
             DEBUGF("[runtime_gc.gc_work] co=%p, fn=%p not init, will skip", wait_co, wait_co->fn);
-- 
2.43.0


From 4433d49faf1c9bbf1d837b1c34e55d5478049914 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:43:04 +0000
Subject: [PATCH 34/57] fix: do not keep resolved addresses in memory the
 collector cannot see

---
 runtime/nutils/dns.h | 58 ++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/runtime/nutils/dns.h b/runtime/nutils/dns.h
index eedc867..9cc6b69 100644
--- a/runtime/nutils/dns.h
+++ b/runtime/nutils/dns.h
@@ -5,7 +5,7 @@
 
 typedef struct {
     n_string_t host;
-    n_vec_t ips;
+    struct addrinfo *res; // need use uv_freeaddrinfo free
 } dns_ctx_t;
 
 static inline void on_dns_resolved_cb(uv_getaddrinfo_t *req, int status, struct addrinfo *res) {
@@ -18,32 +18,9 @@ static inline void on_dns_resolved_cb(uv_getaddrinfo_t *req, int status, struct
         return;
     }
 
-    // co->data = res; // addr info need use uv_freeaddrinfo free
+    // the coroutine converts the addresses itself, collected memory must not be kept in ctx
     dns_ctx_t *ctx = co->data;
-    n_vec_t *ips = &ctx->ips;
-    struct addrinfo *current = res;
-    while (current != NULL) {
-        if (current->ai_family == AF_INET) {
-            char addr[17] = {'\0'};
-            struct sockaddr_in *addr_in = (struct sockaddr_in *) current->ai_addr;
-
-            uv_ip4_name(addr_in, addr, 16);
-
-            n_string_t ip = rt_string_new((n_anyptr_t) addr);
-            rt_vec_push(ips, string_rtype.hash, &ip);
-        } else if (current->ai_family == AF_INET6) {
-            char addr6[INET6_ADDRSTRLEN] = {'\0'};
-
-            struct sockaddr_in6 *addr_in6 = (struct sockaddr_in6 *) current->ai_addr;
-            uv_ip6_name(addr_in6, addr6, sizeof(addr6));
-
-            n_string_t ip = rt_string_new((n_anyptr_t) addr6);
-            rt_vec_push(ips, string_rtype.hash, &ip);
-        }
-        current = current->ai_next;
-    }
-
-    uv_freeaddrinfo(res);
+    ctx->res = res;
     co_ready(co);
 }
 
@@ -71,7 +48,7 @@ n_vec_t rt_uv_dns_lookup(n_string_t host) {
 
     dns_ctx_t *ctx = malloc(sizeof(dns_ctx_t));
     ctx->host = host;
-    ctx->ips = rt_vec_cap(vec_rtype.hash, string_rtype.hash, 0);
+    ctx->res = NULL;
 
     uv_getaddrinfo_t *req = malloc(sizeof(uv_getaddrinfo_t));
     req->data = co;
@@ -80,9 +57,32 @@ n_vec_t rt_uv_dns_lookup(n_string_t host) {
     global_waiting_send(uv_async_getaddrinfo_register, req, ctx, 0);
     free(req);
 
-    n_vec_t result = ctx->ips;
+    n_vec_t ips = rt_vec_cap(vec_rtype.hash, string_rtype.hash, 0);
+    struct addrinfo *current = ctx->res;
+    while (current != NULL) {
+        if (current->ai_family == AF_INET) {
+            char addr[17] = {'\0'};
+            struct sockaddr_in *addr_in = (struct sockaddr_in *) current->ai_addr;
+
+            uv_ip4_name(addr_in, addr, 16);
+
+            n_string_t ip = rt_string_new((n_anyptr_t) addr);
+            rt_vec_push(&ips, string_rtype.hash, &ip);
+        } else if (current->ai_family == AF_INET6) {
+            char addr6[INET6_ADDRSTRLEN] = {'\0'};
+
+            struct sockaddr_in6 *addr_in6 = (struct sockaddr_in6 *) current->ai_addr;
+            uv_ip6_name(addr_in6, addr6, sizeof(addr6));
+
+            n_string_t ip = rt_string_new((n_anyptr_t) addr6);
+            rt_vec_push(&ips, string_rtype.hash, &ip);
+        }
+        current = current->ai_next;
+    }
+
+    uv_freeaddrinfo(ctx->res);
     free(ctx);
-    return result;
+    return ips;
 }
 
 #endif //NATURE_RUNTIME_NUTILS_DNS_H_
-- 
2.43.0


From a339d0624d780dc2db769b53af4506175231d679 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:44:10 +0000
Subject: [PATCH 35/57] fix: keep the queue entries of a woken coroutine alive
 until it runs

---
 runtime/collector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/collector.c b/runtime/collector.c
index 025698b..57a0474 100644
--- a/runtime/collector.c
+++ b/runtime/collector.c
@@ -405,6 +405,11 @@ static void scan_stack(n_processor_t *p, coroutine_t *co) {
         insert_gc_worklist(worklist, co->traces.data);
     }
 
+    // a linkco taken out of its channel is only known to the coroutine until it is resumed
+    if (co->waiting && span_of((addr_t) co->waiting)) {
+        insert_gc_worklist(worklist, co->waiting);
+    }
+
     if (co->flag & FLAG(CO_FLAG_RTFN)) {
         DEBUGF("[runtime_gc.scan_stack] co=%p runtime fn, return", co);
         return;
-- 
2.43.0


From 103ee162a1d933060c5b0991de2f9ec980470039 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:44:51 +0000
Subject: [PATCH 36/57] fix: do not inspect the waiter list of a mutex outside
 its lock

A waiter may queue itself between the read of waiter_count and the read of
the list, so the assertion could abort a correct program.
---
 runtime/rt_mutex.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/runtime/rt_mutex.c b/runtime/rt_mutex.c
index 7a32de8..0152667 100644
--- a/runtime/rt_mutex.c
+++ b/runtime/rt_mutex.c
@@ -267,7 +267,6 @@ void rt_mutex_waiter_release(rt_mutex_t *m, bool handoff) {
     atomic_add_int64(&m->sema, 1);
 
     if (atomic_load(&m->waiter_count) == 0) {
-        assert(m->waiters.count == 0);
         // 无锁状态下 sema 被抢占消费
         return;
     }
-- 
2.43.0


From 43cbc06f1b4cc7ff26b2adb425b5da8846297f80 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:51:33 +0000
Subject: [PATCH 37/57] fix: do not await a coroutine object that was already
 freed

---
 runtime/nutils/coroutine.c | 1 +
 runtime/processor.c        | 7 +++++++
 runtime/runtime.h          | 1 +
 std/builtin/coroutine.n    | 3 ++-
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/nutils/coroutine.c b/runtime/nutils/coroutine.c
index 6764031..a65cffc 100644
--- a/runtime/nutils/coroutine.c
+++ b/runtime/nutils/coroutine.c
@@ -2,6 +2,7 @@
 
 coroutine_t *rt_coroutine_async(void *fn, int64_t flag, n_future_t *fu) {
     coroutine_t *co = rt_coroutine_new(fn, flag, fu, NULL);
+    fu->await_co = co; // must be visible before co can run, coroutine_wrapper clears it on exit
     rt_coroutine_dispatch(co);
     DEBUGF("[rt_coroutine_async] co=%p, fn=%p, flag=%ld, fu=%p, size=%ld", co, fn, flag, fu, fu->size);
 
diff --git a/runtime/processor.c b/runtime/processor.c
index b88fff1..1481938 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -289,6 +289,9 @@ NO_OPTIMIZE static void coroutine_wrapper() {
     }
 
     co_set_status(p, co, CO_STATUS_DEAD);
+    if (co->future) {
+        co->future->await_co = NULL; // a dead co is freed and reused by gc_work, but the future may outlive it
+    }
     if (co->main) {
         main_coroutine_exited = true;
         DEBUGF("[runtime.coroutine_wrapper] co=%p main exited", co);
@@ -1040,6 +1043,10 @@ void rt_coroutine_return(void *result_ptr) {
 }
 
 void rt_coroutine_await(coroutine_t *target_co) {
+    if (!target_co) {
+        return; // already exited
+    }
+
     mutex_lock(&target_co->dead_locker);
     coroutine_t *src_co = coroutine_get();
     if (target_co->status == CO_STATUS_DEAD) {
diff --git a/runtime/runtime.h b/runtime/runtime.h
index 9090fe8..6f01efe 100644
--- a/runtime/runtime.h
+++ b/runtime/runtime.h
@@ -374,6 +374,7 @@ typedef struct n_future_t {
     int64_t size;
     void *result;
     n_union_t error; // 类似 result 一样可选的 error
+    uint8_t error_rest[sizeof(n_interface_t) - sizeof(value_casting)]; // error holds a whole throwable by value
     void *await_co;
 } n_future_t;
 
diff --git a/std/builtin/coroutine.n b/std/builtin/coroutine.n
index bb36d86..efcdd49 100644
--- a/std/builtin/coroutine.n
+++ b/std/builtin/coroutine.n
@@ -18,7 +18,8 @@ pub fn async<T>(fn():void! function, int flag):ref<future_t<T>> {
 
     // Establish mutually binding relationships, so even if the coroutine exits,
     // the related result/error will also be bound to the future to prevent being garbage collected.
-    fu.co = utils.coroutine_async(function as anyptr, flag, fu as anyptr)
+    // fu.co is set before the coroutine starts and cleared when it exits.
+    utils.coroutine_async(function as anyptr, flag, fu as anyptr)
 
     return fu
 }
-- 
2.43.0


From 9ac5dabab8820d1cd0ad357a9ff15477def15a30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:06:39 +0000
Subject: [PATCH 38/57] fix: include fallibility and rest parameters in the
 identity of function types

---
 src/rtype.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtype.h b/src/rtype.h
index 0c1285a..01bef83 100644
--- a/src/rtype.h
+++ b/src/rtype.h
@@ -107,7 +107,8 @@ static inline int64_t type_hash(type_t t) {
     }
 
     if (t.kind == TYPE_FN) {
-        char *str = dsprintf("%s.%" PRId64, t.fn->is_fx ? "fx" : "fn", type_hash(t.fn->return_type));
+        char *str = dsprintf("%s%s%s%s.%" PRId64, t.fn->is_fx ? "fx" : "fn", t.fn->is_errable ? "!" : "",
+                             t.fn->is_rest ? "..." : "", t.fn->is_c_variadic ? "v" : "", type_hash(t.fn->return_type));
         for (int i = 0; i < t.fn->param_types->length; ++i) {
             type_t *param_type = ct_list_value(t.fn->param_types, i);
             str = str_connect(
-- 
2.43.0


From fb4af1914d880d88183547f32d840c40c034305f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:06:39 +0000
Subject: [PATCH 39/57] fix: compare nested union types and repeated idents
 component by component

---
 src/semantic/infer.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index d78137f..40f4329 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -439,6 +439,11 @@ bool type_compare_no_ident(type_t dst, type_t src) {
 bool type_compare(type_t dst, type_t src) {
     table_t *visited = table_new();
 
+    // a value of a narrower union may be assigned to a wider one, inside other types unions must be the same
+    if (dst.kind == TYPE_UNION && src.kind == TYPE_UNION) {
+        return type_union_compare(dst.union_, src.union_, visited);
+    }
+
     return type_compare_visited(dst, src, visited);
 }
 
@@ -526,16 +531,6 @@ bool type_compare_visited(type_t dst, type_t src, table_t *visited) {
         return true;
     }
 
-    // ident 递归打断
-    if (dst.ident_kind == TYPE_IDENT_DEF) {
-        if (table_exist(visited, dst.ident)) {
-            return true;
-        }
-
-        table_set(visited, dst.ident, (void *) true);
-    }
-
-
     if (dst.kind != src.kind) {
         return false;
     }
@@ -557,7 +552,17 @@ bool type_compare_visited(type_t dst, type_t src, table_t *visited) {
         type_union_t *left_union_decl = dst.union_;
         type_union_t *right_union_decl = src.union_;
 
-        return type_union_compare(left_union_decl, right_union_decl, visited);
+        // 递归打断, 正在比较中的一对 union 视为相同
+        char *pair = dsprintf("%p:%p", left_union_decl, right_union_decl);
+        if (table_exist(visited, pair)) {
+            return true;
+        }
+
+        table_set(visited, pair, (void *) true);
+        bool equal = type_union_compare(left_union_decl, right_union_decl, visited) &&
+                     type_union_compare(right_union_decl, left_union_decl, visited);
+        table_delete(visited, pair);
+        return equal;
     }
 
     if (dst.kind == TYPE_TAGGED_UNION) {
-- 
2.43.0


From ef71119086b9372e39c78382e576f66d98c10b57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:08:03 +0000
Subject: [PATCH 40/57] fix: do not accept a value of one interface type where
 another is expected

---
 src/semantic/infer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 40f4329..843dc88 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -543,6 +543,15 @@ bool type_compare_visited(type_t dst, type_t src, table_t *visited) {
         return str_equal(dst.ident, src.ident);
     }
 
+    // interface 的方法表按 interface 生成，所以同样采用名义类型比较
+    if (dst.kind == TYPE_INTERFACE) {
+        if (dst.ident == NULL || src.ident == NULL || !str_equal(dst.ident, src.ident)) {
+            return false;
+        }
+
+        return type_compare_ident_args_visited(dst.args, src.args, visited);
+    }
+
     // any 可以批判任何类型，即使右值是 any 或者 union，union 需要经过特殊的 union_to_any 转换
     if (dst.kind == TYPE_ANY) {
         return true;
-- 
2.43.0


From b9943bd908dc1520391eff3b41c325c9a9015712 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:09:56 +0000
Subject: [PATCH 41/57] fix: diagnose array literals longer than the array and
 destructuring of non-tuples

---
 src/semantic/infer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index 843dc88..ca290b8 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1871,6 +1871,9 @@ static type_t infer_vec_new(module_t *m, ast_expr_t *expr, type_t target_type, t
             return reduction_type(m, result);
         }
 
+        INFER_ASSERTF(vec_new->elements->length <= type_array->length, "array literal has %d elements, but the array length is %d",
+                      vec_new->elements->length, (int) type_array->length);
+
         for (int i = 0; i < vec_new->elements->length; ++i) {
             ast_expr_t *item_expr = ct_list_value(vec_new->elements, i);
             infer_right_expr(m, item_expr, type_array->element_type);
@@ -3367,6 +3370,8 @@ static type_t infer_tuple_destr(module_t *m, ast_tuple_destr_t *destr) {
  * @return
  */
 static void infer_var_tuple_destr(module_t *m, ast_tuple_destr_t *destr, type_t t) {
+    INFER_ASSERTF(t.kind == TYPE_TUPLE, "cannot assign type '%s' to tuple", type_format(t));
+
     type_tuple_t *tuple_type = t.tuple;
     INFER_ASSERTF(destr->elements->length == tuple_type->elements->length,
                   "tuple destr length != tuple operand length");
-- 
2.43.0


From 934aebae6a386cd2dcffb1b4e00170fff0f84be7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:44:46 +0000
Subject: [PATCH 42/57] fix: report failures while writing objects, response
 files and copied outputs

---
 src/binary/elf/linker.c |  6 +++++-
 src/binary/mach/mach.h  |  6 +++++-
 src/build/build.c       | 12 ++++++++++--
 src/build/config.h      |  4 +++-
 src/ld/ld_macho.c       |  6 ++++--
 utils/helper.h          | 27 ++++++++++++++++++++-------
 6 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/binary/elf/linker.c b/src/binary/elf/linker.c
index a3ffe77..c3d087c 100644
--- a/src/binary/elf/linker.c
+++ b/src/binary/elf/linker.c
@@ -1765,5 +1765,9 @@ void elf_output(elf_context_t *ctx) {
         fwrite(&shdr, 1, sizeof(Elf64_Shdr), f);
     }
 
-    fclose(f);
+    bool write_failed = ferror(f) != 0;
+    if (fclose(f) != 0) {
+        write_failed = true;
+    }
+    assertf(!write_failed, "[elf_output] could not write '%s'", ctx->output);
 }
diff --git a/src/binary/mach/mach.h b/src/binary/mach/mach.h
index 2c8235e..c87791f 100644
--- a/src/binary/mach/mach.h
+++ b/src/binary/mach/mach.h
@@ -602,7 +602,11 @@ static inline bool mach_output_object(mach_context_t *ctx) {
     fwrite(ctx->symtab_command->str_table->data, 1, ctx->symtab_command->str_table->data_offset, f);
     file_offset += ctx->symtab_command->str_table->data_offset;
 
-    fclose(f);
+    bool write_failed = ferror(f) != 0;
+    if (fclose(f) != 0) {
+        write_failed = true;
+    }
+    assertf(!write_failed, "[mach_output_object] could not write '%s'", ctx->output);
 
     return true;
 }
diff --git a/src/build/build.c b/src/build/build.c
index a1ffa2c..9c012ac 100644
--- a/src/build/build.c
+++ b/src/build/build.c
@@ -851,7 +851,10 @@ static void custom_ld_elf_exe(slice_t *modules, char *use_ld, char *ldflags) {
     }
 
     fprintf(obj_list, "%s\n", custom_link_object_path());
-    fclose(obj_list);
+    bool list_failed = ferror(obj_list) != 0;
+    if (fclose(obj_list) != 0 || list_failed) {
+        assertf(false, "unable to write objects list file: %s", objects_file);
+    }
 
     // 添加必要的库文件
     slice_push(linker_libs, lib_file_path(LIB_START_FILE));
@@ -1048,7 +1051,10 @@ static void custom_ld_mach_exe(slice_t *modules, const char *use_ld,
 
 
     fprintf(obj_list, "%s\n", custom_link_object_path());
-    fclose(obj_list);
+    bool list_failed = ferror(obj_list) != 0;
+    if (fclose(obj_list) != 0 || list_failed) {
+        assertf(false, "unable to write objects list file: %s", objects_file);
+    }
 
     char *darwin_ld_arch;
     if (BUILD_ARCH == ARCH_AMD64) {
@@ -1169,6 +1175,8 @@ static void custom_ld_windows_exe(slice_t *modules, const char *use_ld,
             "Nature windows_amd64 sysroot path is too long");
     assertf(windows_linker_write_default_libraries(response, sysroot),
             "cannot write Windows linker response file '%s'", response_path);
+    assertf(!ferror(response), "cannot write Windows linker response file '%s'",
+            response_path);
     assertf(fclose(response) == 0,
             "cannot finish Windows linker response file '%s'",
             response_path);
diff --git a/src/build/config.h b/src/build/config.h
index 57ac24e..8baa2a8 100644
--- a/src/build/config.h
+++ b/src/build/config.h
@@ -85,7 +85,9 @@ static inline char *temp_dir() {
         strcpy(temp, BUILD_TMP_DIR);
     }
 
-    VOID mkdtemp(temp);
+    if (mkdtemp(temp) == NULL) {
+        assertf(false, "could not create temporary directory '%s'", temp);
+    }
 
     size_t size = strlen(temp) + 1;
     tmp_dir = malloc(size);
diff --git a/src/ld/ld_macho.c b/src/ld/ld_macho.c
index 076b337..93e1e88 100644
--- a/src/ld/ld_macho.c
+++ b/src/ld/ld_macho.c
@@ -426,7 +426,8 @@ static int ld_register_input_symbol(ld_context_t *ctx, ld_object_t *object, ld_i
     bool weak_ref = (input->entry.n_desc & LD_N_WEAK_REF) != 0;
     ld_symbol_t *symbol = ld_symbol_get_or_create(ctx, name);
     if (!symbol) {
-        return ctx->error ? ctx->error : LD_IO_ERROR;
+        return ctx->error ? ctx->error
+                          : ld_fail(ctx, LD_IO_ERROR, "cannot record symbol '%s'", name ? name : "");
     }
     symbol->referenced_dynamically |=
             (input->entry.n_desc & LD_N_REFERENCED_DYNAMICALLY) != 0;
@@ -451,7 +452,8 @@ static int ld_register_input_symbol(ld_context_t *ctx, ld_object_t *object, ld_i
         }
         alias_target = ld_symbol_get_or_create(ctx, input->alias_name);
         if (!alias_target) {
-            return ctx->error ? ctx->error : LD_IO_ERROR;
+            return ctx->error ? ctx->error
+                          : ld_fail(ctx, LD_IO_ERROR, "cannot record symbol '%s'", name ? name : "");
         }
     }
     ld_macho_symbol_rank_t candidate_rank =
diff --git a/utils/helper.h b/utils/helper.h
index d4f79cc..ea15684 100644
--- a/utils/helper.h
+++ b/utils/helper.h
@@ -460,8 +460,12 @@ static inline char *file_read(char *path) {
         exit(74);
     }
 
-    fseek(file, 0L, SEEK_END);
-    size_t fileSize = ftell(file);
+    long length = fseek(file, 0L, SEEK_END) == 0 ? ftell(file) : -1;
+    if (length < 0) {
+        fprintf(stderr, "Could not read file \"%s\".\n", path);
+        exit(74);
+    }
+    size_t fileSize = (size_t) length;
     rewind(file);
 
     char *buffer = (char *) mallocz(fileSize + 1);
@@ -606,19 +610,28 @@ static inline void *copy(char *dst, char *src, int mode) {
     assert(dst_fd && "open dst file failed");
 
 #ifdef __WINDOWS
-    _chmod(dst, mode);
+    bool failed = _chmod(dst, mode) != 0;
 #else
-    fchmod(fileno(dst_fd), mode);
+    bool failed = fchmod(fileno(dst_fd), mode) != 0;
 #endif
 
     char buf[1024] = {0};
-    while (!feof(src_fd)) {
+    while (!failed && !feof(src_fd)) {
         size_t size = fread(buf, 1, 1024, src_fd);
-        fwrite(buf, 1, size, dst_fd);
+        if (ferror(src_fd) || fwrite(buf, 1, size, dst_fd) != size) {
+            failed = true;
+        }
     }
 
     fclose(src_fd);
-    fclose(dst_fd);
+    if (fclose(dst_fd) != 0) {
+        failed = true;
+    }
+    if (failed) {
+        remove(dst);
+        fprintf(stderr, "Could not copy \"%s\" to \"%s\".\n", src, dst);
+        exit(74);
+    }
     return 0;
 }
 
-- 
2.43.0


From 81e12d54d5ab0ed3839a56040437e537f87673d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:58:08 +0000
Subject: [PATCH 43/57] fix: report overwritten references and container growth
 to the running collection

---
 runtime/linkco.h        | 10 +++++-----
 runtime/nutils/map.c    | 17 ++++++++++-------
 runtime/nutils/nutils.c | 20 ++++++++++++++++++--
 runtime/nutils/set.c    |  6 ++++--
 runtime/nutils/vec.c    | 19 +------------------
 runtime/rt_chan.c       |  8 ++++----
 src/linear.c            | 12 ++++++++++++
 7 files changed, 54 insertions(+), 38 deletions(-)

diff --git a/runtime/linkco.h b/runtime/linkco.h
index eac9c9a..4a7c662 100644
--- a/runtime/linkco.h
+++ b/runtime/linkco.h
@@ -102,13 +102,13 @@ static inline void linkco_list_push_head(rt_linkco_list_t *list, void *value) {
 
     if (list->head == NULL) {
         assert(list->rear == NULL);
-        list->head = new_linkco;
-        list->rear = new_linkco;
+        rti_write_barrier_ptr(&list->head, new_linkco, false);
+        rti_write_barrier_ptr(&list->rear, new_linkco, false);
     } else {
         assert(list->head);
-        new_linkco->next = list->head;
-        list->head->prev = new_linkco;
-        list->head = new_linkco;
+        rti_write_barrier_ptr(&new_linkco->next, list->head, false);
+        rti_write_barrier_ptr(&list->head->prev, new_linkco, false);
+        rti_write_barrier_ptr(&list->head, new_linkco, false);
     }
 
     list->count++;
diff --git a/runtime/nutils/map.c b/runtime/nutils/map.c
index 4b4d14e..955379d 100644
--- a/runtime/nutils/map.c
+++ b/runtime/nutils/map.c
@@ -33,10 +33,10 @@ static inline void rt_map_init_if_needed(n_map_t *m) {
 
     m->capacity = MAP_DEFAULT_CAPACITY;
     m->length = 0;
-    m->hash_table = rti_gc_malloc(sizeof(uint64_t) * m->capacity, NULL);
+    rti_write_barrier_ptr(&m->hash_table, rti_gc_malloc(sizeof(uint64_t) * m->capacity, NULL), false);
     memset(m->hash_table, 0, sizeof(uint64_t) * m->capacity);
-    m->key_data = rti_array_new(key_rtype, m->capacity);
-    m->value_data = rti_array_new(value_rtype, m->capacity);
+    rti_write_barrier_ptr(&m->key_data, rti_array_new(key_rtype, m->capacity), false);
+    rti_write_barrier_ptr(&m->value_data, rti_array_new(value_rtype, m->capacity), false);
 }
 
 
@@ -52,9 +52,9 @@ void map_grow(n_map_t *m) {
 
     m->length = 0;
     m->capacity *= 2;
-    m->key_data = rti_array_new(key_rtype, m->capacity);
-    m->value_data = rti_array_new(value_rtype, m->capacity);
-    m->hash_table = rti_gc_malloc(sizeof(int64_t) * m->capacity, NULL);
+    rti_write_barrier_ptr(&m->key_data, rti_array_new(key_rtype, m->capacity), false);
+    rti_write_barrier_ptr(&m->value_data, rti_array_new(value_rtype, m->capacity), false);
+    rti_write_barrier_ptr(&m->hash_table, rti_gc_malloc(sizeof(int64_t) * m->capacity, NULL), false);
 
     // 对所有的 key 进行 rehash, i 就是 data_index
     for (int data_index = 0; data_index < old_map.length; ++data_index) {
@@ -73,7 +73,7 @@ void map_grow(n_map_t *m) {
 
         // rehash
         void *new_value_ref = (void *) rt_map_assign(m, key_ref); // 这里会导致 m length 变长
-        memmove(new_value_ref, value_ref, value_size);
+        rti_write_barrier_rtype(new_value_ref, value_ref, value_rtype);
     }
 }
 
@@ -260,6 +260,9 @@ void rt_map_delete(n_map_t *m, void *key_ref) {
     }
 
     m->hash_table[hash_index] = (1ULL << HASH_SET) | (1ULL << HASH_DELETED);
+    // the removed references may still be held by a stack that is already scanned
+    rti_write_barrier_rtype(m->key_data + last_data_index * key_size, m->key_data + last_data_index * key_size, key_rtype);
+    rti_write_barrier_rtype(m->value_data + last_data_index * value_size, m->value_data + last_data_index * value_size, value_rtype);
     memset(m->key_data + last_data_index * key_size, 0, key_size);
     memset(m->value_data + last_data_index * value_size, 0, value_size);
     m->length--;
diff --git a/runtime/nutils/nutils.c b/runtime/nutils/nutils.c
index 98276bf..b3413d9 100644
--- a/runtime/nutils/nutils.c
+++ b/runtime/nutils/nutils.c
@@ -883,6 +883,14 @@ char *rtype_value_to_str(rtype_t *rtype, void *data_ref) {
     return NULL;
 }
 
+// the reference a slot is about to lose must survive the running mark phase
+static inline void shade_overwritten(void *slot) {
+    void *old = *(void **) slot;
+    if (old && span_of((addr_t) old)) {
+        shade_obj_grey(old);
+    }
+}
+
 // mark_black_new_obj 如果 new_obj 不是从 allocator(gc_malloc) 获取的新对象，则有必要主动 mark black 避免其被 sweep
 void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
     DEBUGF("[rt_write_barrier_ptr] slot=%p, new_obj=%p, barrier_ptr?=%d", slot, new_obj, gc_barrier_get());
@@ -892,6 +900,7 @@ void rti_write_barrier_ptr(void *slot, void *new_obj, bool mark_black_new_obj) {
     }
 
     // yuasa 删除写屏障 shade slot
+    shade_overwritten(slot);
     shade_obj_grey(slot);
 
     // stack 扫描完成后退化成黑色写屏障, 否则是是灰色写屏障
@@ -921,9 +930,8 @@ void write_barrier(void *slot, void *new_obj) {
 }
 
 void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) {
-    memmove(dst, src, rtype->storage_size);
-
     if (!gc_barrier_get() || rtype->last_ptr == 0) {
+        memmove(dst, src, rtype->storage_size);
         return;
     }
 
@@ -933,6 +941,14 @@ void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) {
     }
 
     uint64_t slot_count = align_up(rtype->storage_size, POINTER_SIZE) / POINTER_SIZE;
+    for (uint64_t i = 0; i < slot_count; ++i) {
+        if (bitmap_test(gc_bits, i)) {
+            shade_overwritten((uint8_t *) dst + (i * POINTER_SIZE));
+        }
+    }
+
+    memmove(dst, src, rtype->storage_size);
+
     for (uint64_t i = 0; i < slot_count; ++i) {
         if (!bitmap_test(gc_bits, i)) {
             continue;
diff --git a/runtime/nutils/set.c b/runtime/nutils/set.c
index 7da13f6..18774b4 100644
--- a/runtime/nutils/set.c
+++ b/runtime/nutils/set.c
@@ -17,8 +17,8 @@ static inline void rt_set_init_if_needed(n_set_t *m) {
 
     m->capacity = SET_DEFAULT_CAPACITY;
     m->length = 0;
-    m->key_data = rti_array_new(key_rtype, m->capacity);
-    m->hash_table = rti_gc_malloc(sizeof(uint64_t) * m->capacity, NULL);
+    rti_write_barrier_ptr(&m->key_data, rti_array_new(key_rtype, m->capacity), false);
+    rti_write_barrier_ptr(&m->hash_table, rti_gc_malloc(sizeof(uint64_t) * m->capacity, NULL), false);
     memset(m->hash_table, 0, sizeof(uint64_t) * m->capacity);
 }
 
@@ -202,6 +202,8 @@ void rt_set_delete(n_set_t *m, void *key_ref) {
     }
 
     m->hash_table[hash_index] = (1ULL << HASH_SET) | (1ULL << HASH_DELETED);
+    // the removed reference may still be held by a stack that is already scanned
+    rti_write_barrier_rtype(m->key_data + last_data_index * key_size, m->key_data + last_data_index * key_size, key_rtype);
     memset(m->key_data + last_data_index * key_size, 0, key_size);
     m->length--;
 }
diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 64e21e7..b982bc0 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -218,24 +218,7 @@ void rti_vec_assign(n_vec_t *l, uint64_t index, void *ref, rtype_t *element_rtyp
     uint64_t offset = l->element_size * index; // (size unit byte) * index
     void *p = l->data + offset;
 
-    memmove(p, ref, l->element_size);
-
-    if (!gc_barrier_get() || element_rtype->last_ptr == 0) {
-        return;
-    }
-
-    uint8_t *gc_bits = RTDATA(element_rtype->malloc_gc_bits_offset);
-    if (element_rtype->malloc_gc_bits_offset == -1) {
-        gc_bits = (uint8_t *) &element_rtype->gc_bits;
-    }
-    uint64_t slot_count = align_up(element_rtype->storage_size, POINTER_SIZE) / POINTER_SIZE;
-    for (uint64_t i = 0; i < slot_count; ++i) {
-        if (!bitmap_test(gc_bits, i)) {
-            continue;
-        }
-        void **slot = (void **) ((uint8_t *) p + (i * POINTER_SIZE));
-        rti_write_barrier_ptr(slot, *slot, false);
-    }
+    rti_write_barrier_rtype(p, ref, element_rtype);
 }
 
 uint64_t rt_vec_length(n_vec_t *l) {
diff --git a/runtime/rt_chan.c b/runtime/rt_chan.c
index f5fde68..2e92522 100644
--- a/runtime/rt_chan.c
+++ b/runtime/rt_chan.c
@@ -76,15 +76,15 @@ static inline void waitq_remove(waitq_t *waitq, linkco_t *lc) {
     linkco_t *y = lc->next;
     if (x != NULL) {
         if (y != NULL) {
-            x->next = y;
-            y->prev = x;
+            rti_write_barrier_ptr(&x->next, y, false);
+            rti_write_barrier_ptr(&y->prev, x, false);
             lc->next = NULL;
             lc->prev = NULL;
             return;
         }
         // end of queue
         x->next = NULL;
-        waitq->rear = x;
+        rti_write_barrier_ptr(&waitq->rear, x, false);
         lc->prev = NULL;
         return;
     }
@@ -92,7 +92,7 @@ static inline void waitq_remove(waitq_t *waitq, linkco_t *lc) {
     if (y != NULL) {
         // head of queue
         y->prev = NULL;
-        waitq->head = y;
+        rti_write_barrier_ptr(&waitq->head, y, false);
         lc->next = NULL;
         return;
     }
diff --git a/src/linear.c b/src/linear.c
index f6a50ee..a932472 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1383,6 +1383,11 @@ static void linear_ia_ptr_assign(module_t *m, ast_assign_stmt_t *stmt) {
 
     lir_operand_t *ptr_operand = linear_expr(m, unary_expr->operand, NULL);
 
+    if (is_gc_alloc(stmt->left.type.kind)) {
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, ptr_operand, src);
+        return;
+    }
+
     // *ptr = [a, b, c]
     // *ptr = 12
     lir_operand_t *dst;
@@ -1409,6 +1414,13 @@ static void linear_ident_assign(module_t *m, ast_assign_stmt_t *stmt) {
     lir_operand_t *dst = linear_ident(m, stmt->left, NULL); // ident
 
     assert(stmt->left.type.kind > 0 && stmt->left.type.kind != TYPE_UNKNOWN);
+
+    // a variable that lives outside the stack may already be scanned
+    if (dst->assert_type != LIR_OPERAND_VAR && is_gc_alloc(stmt->left.type.kind)) {
+        push_rt_call(m, RT_CALL_WRITE_BARRIER, NULL, 2, lea_operand_pointer(m, dst), src);
+        return;
+    }
+
     linear_super_move(m, stmt->left.type, dst, src);
 }
 
-- 
2.43.0


From b07cba2da91bffb6b1d5240b349af8a92db5e405 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:09:15 +0000
Subject: [PATCH 44/57] fix: a processor does not wait for the next collection
 when the stop request is withdrawn while it stops

---
 runtime/processor.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/processor.c b/runtime/processor.c
index 1481938..71814e2 100644
--- a/runtime/processor.c
+++ b/runtime/processor.c
@@ -438,7 +438,8 @@ static void processor_run(void *raw) {
             p->in_stw = global_safepoint.value; // 进入 stw 状态
 
             // runtime_gc 线程会解除 safe 状态，所以这里一直等待直到 global_safepoint 清零即可
-            while (p->in_stw == global_safepoint.value) {
+            // (the world may already run again when the value is read above)
+            while (p->in_stw > 0 && p->in_stw == global_safepoint.value) {
                 TRACEF("[runtime.processor_run] p_index=%d, need_stw=%lu, safe_point=%lu stw loop....", p->index,
                        p->need_stw, p->in_stw);
                 usleep(WAIT_BRIEF_TIME * 1000); // 1ms
-- 
2.43.0


From 1216b31e09a00f899e27e8a3762a222cb79608a4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:35:42 +0000
Subject: [PATCH 45/57] fix: a deferred block does not change the value being
 returned

---
 src/linear.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linear.c b/src/linear.c
index a932472..67401ea 100644
--- a/src/linear.c
+++ b/src/linear.c
@@ -1877,7 +1877,12 @@ static void linear_ret(module_t *m, ast_ret_stmt_t *stmt) {
 static void linear_return(module_t *m, ast_return_stmt_t *ast) {
     lir_operand_t *src = NULL;
     if (ast->expr != NULL) {
-        src = linear_expr(m, *ast->expr, NULL);
+        // a defer may change the variable the value comes from
+        lir_operand_t *target = NULL;
+        if (ast->expr->type.kind != TYPE_VOID && linear_has_pending_defer(m, LINEAR_UNWIND_MODE_ALL, 0)) {
+            target = temp_var_operand_with_alloc(m, ast->expr->type);
+        }
+        src = linear_expr(m, *ast->expr, target);
     }
 
     linear_unwind_all(m);
-- 
2.43.0


From 1d3186fc978eeb7b5ba17ca1283b27be01175ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:43:49 +0000
Subject: [PATCH 46/57] fix: sign extend the dividend of a signed division on
 amd64

---
 src/binary/encoding/amd64/opcode.c |  8 ++++++++
 src/native/amd64.c                 | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index be7573c..854df74 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -246,6 +246,11 @@ amd64_opcode_inst_t lea_r64_m = {"lea", "lea", 0, {0x8D}, {OPCODE_EXT_REX_W, OPC
 amd64_opcode_inst_t syscall_inst = {"syscall_inst", "syscall_inst", 0, {0x0F, 0x05}, {}, {}};
 
 // TODO 什么时候使用 near 什么时候使用 far?
+// sign extend ax/eax/rax into dx/edx/rdx
+amd64_opcode_inst_t cwd = {"cwd", "cwd", 0x66, {0x99}, {}, {}};
+amd64_opcode_inst_t cdq = {"cdq", "cdq", 0, {0x99}, {}, {}};
+amd64_opcode_inst_t cqo = {"cqo", "cqo", 0, {0x99}, {OPCODE_EXT_REX_W}, {}};
+
 amd64_opcode_inst_t ret = {"ret", "ret", 0, {0xC3}, {}, {}};
 
 amd64_opcode_inst_t push_r64 = {"push", "push", 0, {0x50}, {}, {{OPERAND_TYPE_R64, ENCODING_TYPE_OPCODE_PLUS}}};
@@ -578,6 +583,9 @@ void amd64_opcode_init() {
     opcode_tree_build(&jle_rel8);
     opcode_tree_build(&jle_rel32);
     opcode_tree_build(&ret);
+    opcode_tree_build(&cwd);
+    opcode_tree_build(&cdq);
+    opcode_tree_build(&cqo);
     opcode_tree_build(&push_rm64);
     opcode_tree_build(&push_r64);
     opcode_tree_build(&pop_r64);
diff --git a/src/native/amd64.c b/src/native/amd64.c
index 1648501..ea4b8a4 100644
--- a/src/native/amd64.c
+++ b/src/native/amd64.c
@@ -396,6 +396,16 @@ static slice_t *amd64_native_div(closure_t *c, lir_op_t *op) {
         amd64_asm_operand_t *second = lir_operand_trans_amd64(c, op, op->second);
 
         if (op->code == LIR_OPCODE_SDIV) {
+            // 有符号除法的被除数高位需要使用符号位填充
+            if (second->size == BYTE) {
+                slice_push(operations, AMD64_INST("movsx", AMD64_REG(ax), AMD64_REG(al)));
+            } else if (second->size == WORD) {
+                slice_push(operations, AMD64_INST("cwd"));
+            } else if (second->size == DWORD) {
+                slice_push(operations, AMD64_INST("cdq"));
+            } else {
+                slice_push(operations, AMD64_INST("cqo"));
+            }
             slice_push(operations, AMD64_INST("idiv", second));
         } else {
             slice_push(operations, AMD64_INST("div", second));
-- 
2.43.0


From 2e576848392765282327483f29cf149703d60c77 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:33:16 +0000
Subject: [PATCH 47/57] fix: describe every reported element of arrays and zero
 sized structs in type metadata

---
 src/rtype.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rtype.h b/src/rtype.h
index 01bef83..c0bef74 100644
--- a/src/rtype.h
+++ b/src/rtype.h
@@ -317,16 +317,19 @@ static inline rtype_t rtype_array(type_t t) {
             .hash = type_hash(t),
             .kind = TYPE_ARR,
             .length = t.array->length, // array length 特殊占用
-            .hashes_offset = data_put(NULL, sizeof(int64_t)),
             .malloc_gc_bits_offset = -1,
     };
+    rtype.hashes_offset = data_put(NULL, sizeof(int64_t) * rtype.length); // one hash per reported element
 
     rtype.malloc_gc_bits_offset = data_put(NULL, calc_gc_bits_size(rtype.gc_heap_size, POINTER_SIZE));
 
     int64_t offset = 0;
     rtype.last_ptr = rtype_array_gc_bits(rtype.malloc_gc_bits_offset, &offset, t.array);
 
-    ((int64_t *) CTDATA(rtype.hashes_offset))[0] = type_hash(t.array->element_type);
+    int64_t element_hash = type_hash(t.array->element_type);
+    for (int i = 0; i < rtype.length; ++i) {
+        ((int64_t *) CTDATA(rtype.hashes_offset))[i] = element_hash;
+    }
 
     return rtype;
 }
@@ -781,7 +784,7 @@ static inline int64_t rtype_tuple_gc_bits(int64_t gc_bits_offset, int64_t *offse
  */
 static inline rtype_t rtype_struct(type_t t) {
     int64_t size = t.storage_size;
-    if (size == 0) {
+    if (size == 0 && t.struct_->properties->length == 0) {
         rtype_t rtype = {
                 .gc_heap_size = 1, // 空 struct 默认占用 1 一个字节, 让 gc malloc 可以编译通过
                 .hash = type_hash(t),
@@ -795,6 +798,10 @@ static inline rtype_t rtype_struct(type_t t) {
         return rtype;
     }
 
+    if (size == 0) {
+        size = 1; // only zero sized properties
+    }
+
     int64_t gc_bits_offset = data_put(NULL, calc_gc_bits_size(size, POINTER_SIZE));
 
     int64_t fields_size = sizeof(rtype_field_t) * t.struct_->properties->length;
-- 
2.43.0


From 56abaa3b505b7249276a7f6c0ee8cc8457e4459f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:53:00 +0000
Subject: [PATCH 48/57] fix: reject RISC-V upper immediates whose rounding
 overflows

---
 src/ld/ld_elf_reloc.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/ld/ld_elf_reloc.c b/src/ld/ld_elf_reloc.c
index 5bd089c..944cd44 100644
--- a/src/ld/ld_elf_reloc.c
+++ b/src/ld/ld_elf_reloc.c
@@ -2749,6 +2749,12 @@ static int ld_elf_reloc_riscv_require_u32(
             description, instruction);
 }
 
+/* The low 12 bits are sign extended, so the upper part is rounded up by 0x800
+   and must still fit after that. */
+static bool ld_elf_reloc_riscv_hi20_fits(int64_t value) {
+    return value >= INT32_MIN && value <= INT32_MAX - 0x800;
+}
+
 static void ld_elf_reloc_riscv_write_u_type(uint8_t *place,
                                             int64_t value) {
     uint32_t instruction = ld_elf_reloc_read_u32(place);
@@ -3036,6 +3042,12 @@ static int ld_elf_reloc_apply_riscv64(
                         0x7fU, 0x17U, "AUIPC") != LD_OK) {
                 return LD_RELOCATION_ERROR;
             }
+            if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
+                return ld_elf_reloc_fail(
+                        ctx, object, section, relocation, arch,
+                        values->symbol_name,
+                        "GOT entry + A - P does not fit the AUIPC range");
+            }
             ld_elf_reloc_riscv_write_u_type(place, delta);
             return LD_OK;
         case LD_R_RISCV_PCREL_LO12_I:
@@ -3132,6 +3144,12 @@ static int ld_elf_reloc_apply_riscv64(
                             0x7fU, 0x37U, "LUI") != LD_OK) {
                     return LD_RELOCATION_ERROR;
                 }
+                if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
+                    return ld_elf_reloc_fail(
+                            ctx, object, section, relocation, arch,
+                            values->symbol_name,
+                            "value does not fit the LUI range");
+                }
                 ld_elf_reloc_riscv_write_u_type(place, delta);
             } else {
                 instruction = ld_elf_reloc_read_u32(place);
@@ -3175,6 +3193,12 @@ static int ld_elf_reloc_apply_riscv64(
                             0x7fU, 0x37U, "LUI") != LD_OK) {
                     return LD_RELOCATION_ERROR;
                 }
+                if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
+                    return ld_elf_reloc_fail(
+                            ctx, object, section, relocation, arch,
+                            values->symbol_name,
+                            "value does not fit the LUI range");
+                }
                 ld_elf_reloc_riscv_write_u_type(place, delta);
             } else {
                 instruction = ld_elf_reloc_read_u32(place);
@@ -3401,7 +3425,7 @@ static int ld_elf_reloc_apply_riscv64(
                     "0x%08x",
                     low);
         }
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
@@ -3419,7 +3443,7 @@ static int ld_elf_reloc_apply_riscv64(
         return LD_OK;
     }
     if (relocation->type == LD_R_RISCV_PCREL_HI20) {
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_hi20_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
-- 
2.43.0


From 57e9cdc6be428cba588d9b780b00c396b40bb6ef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:53:18 +0000
Subject: [PATCH 49/57] fix: reject AArch64 thread pointer offsets the
 instruction pair cannot hold

---
 src/ld/ld_elf_reloc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ld/ld_elf_reloc.c b/src/ld/ld_elf_reloc.c
index 944cd44..eba45df 100644
--- a/src/ld/ld_elf_reloc.c
+++ b/src/ld/ld_elf_reloc.c
@@ -2197,7 +2197,7 @@ static int ld_elf_reloc_apply_aarch64(
                         "the signed 64-bit range");
             }
             int64_t high = ld_elf_reloc_floor_shift_16(delta);
-            if (!ld_elf_reloc_signed_fits(high, 16U)) {
+            if (high < 0 || !ld_elf_reloc_signed_fits(high, 16U)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -2225,6 +2225,12 @@ static int ld_elf_reloc_apply_aarch64(
                         "TLSDESC local-exec offset S + A - TP does not fit "
                         "a signed 32-bit value");
             }
+            if (delta < 0) {
+                return ld_elf_reloc_fail(
+                        ctx, object, section, relocation, arch,
+                        values->symbol_name,
+                        "TLSDESC local-exec offset S + A - TP is negative");
+            }
             uint32_t instruction =
                     0xf2800000U | ((uint32_t) (uint16_t) delta << 5U);
             ld_elf_reloc_write_u32(place, instruction);
@@ -2243,11 +2249,12 @@ static int ld_elf_reloc_apply_aarch64(
             }
             if (relocation->type == LD_R_AARCH64_TLSLE_ADD_TPREL_HI12) {
                 int64_t high = ld_elf_reloc_floor_shift_12(delta);
-                if (!ld_elf_reloc_signed_fits(high, 12U)) {
+                if (high < 0 || high > 0xfff) {
                     return ld_elf_reloc_fail(
                             ctx, object, section, relocation, arch,
                             values->symbol_name,
-                            "TLS high-12 value does not fit signed 12 bits");
+                            "TLS high-12 value does not fit unsigned 12 "
+                            "bits");
                 }
                 ld_elf_reloc_write_imm12(
                         place, (uint16_t) ((uint64_t) high & 0xfffU));
-- 
2.43.0


From dda3cf4bb9ced8630d55aa6b83fd841607cec258 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:16:37 +0000
Subject: [PATCH 50/57] fix: keep the default marker of match and select cases
 when copying

---
 src/ast.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index b1f9546..9b3e7eb 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -686,8 +686,10 @@ static ast_select_stmt_t *ast_select_copy(module_t *m, ast_select_stmt_t *temp)
     SLICE_FOR(temp->cases) {
         ast_select_case_t *match_case = SLICE_VALUE(temp->cases);
 
-        ast_select_case_t *new_select_case = NEW(ast_select_case_t);
-        new_select_case->on_call = ast_call_copy(m, match_case->on_call);
+        ast_select_case_t *new_select_case = COPY_NEW(ast_select_case_t, match_case);
+        if (match_case->on_call) {
+            new_select_case->on_call = ast_call_copy(m, match_case->on_call);
+        }
         if (match_case->recv_var) {
             new_select_case->recv_var = ast_var_decl_copy(m, match_case->recv_var);
         }
@@ -710,7 +712,7 @@ static ast_match_t *ast_match_copy(module_t *m, ast_match_t *temp) {
     SLICE_FOR(temp->cases) {
         ast_match_case_t *match_case = SLICE_VALUE(temp->cases);
 
-        ast_match_case_t *new_match_case = NEW(ast_match_case_t);
+        ast_match_case_t *new_match_case = COPY_NEW(ast_match_case_t, match_case);
         new_match_case->cond_list = ast_list_expr_copy(m, match_case->cond_list);
         new_match_case->handle_body = ast_body_copy(m, match_case->handle_body);
         slice_push(cases, new_match_case);
-- 
2.43.0


From 926b61d4a2bd1e898ee23b0df566b20d01909828 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:16:37 +0000
Subject: [PATCH 51/57] fix: copy array types deeply for each generic instance

---
 src/ast.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 9b3e7eb..f75dc8c 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -146,6 +146,10 @@ static type_ptr_t *type_pointer_copy(module_t *m, type_ptr_t *temp) {
 
 static type_array_t *type_array_copy(module_t *m, type_array_t *temp) {
     type_array_t *array = COPY_NEW(type_array_t, temp);
+    if (temp->length_expr) {
+        array->length_expr = ast_expr_copy(m, temp->length_expr);
+    }
+    array->element_type = type_copy(m, temp->element_type);
     return array;
 }
 
-- 
2.43.0


From a1a6cee8f560fcdcd00abbb41fb0e5efce1543e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:16:37 +0000
Subject: [PATCH 52/57] fix: copy ternary expressions in generic functions

---
 src/ast.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index f75dc8c..b9fd3d3 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -365,6 +365,14 @@ static ast_binary_expr_t *ast_binary_copy(module_t *m, ast_binary_expr_t *temp)
     return binary;
 }
 
+static ast_ternary_expr_t *ast_ternary_copy(module_t *m, ast_ternary_expr_t *temp) {
+    ast_ternary_expr_t *ternary = COPY_NEW(ast_ternary_expr_t, temp);
+    ternary->condition = *ast_expr_copy(m, &temp->condition);
+    ternary->consequent = *ast_expr_copy(m, &temp->consequent);
+    ternary->alternate = *ast_expr_copy(m, &temp->alternate);
+    return ternary;
+}
+
 static ast_map_access_t *ast_map_access_copy(module_t *m, ast_map_access_t *temp) {
     ast_map_access_t *access = COPY_NEW(ast_map_access_t, temp);
     access->left = *ast_expr_copy(m, &temp->left);
@@ -540,6 +548,10 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_unary_copy(m, temp->value);
             break;
         }
+        case AST_EXPR_TERNARY: {
+            expr->value = ast_ternary_copy(m, temp->value);
+            break;
+        }
         case AST_EXPR_ACCESS: {
             expr->value = ast_access_copy(m, temp->value);
             break;
-- 
2.43.0


From 7b2def85fcd035f98fb3941d589776c69ca088a4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:16:37 +0000
Subject: [PATCH 53/57] fix: copy the union tag of is and as expressions

---
 src/ast.c            | 20 ++++++++++++++++++++
 src/semantic/infer.c |  1 +
 2 files changed, 21 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index b9fd3d3..cc19ec5 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -290,6 +290,9 @@ static ast_as_expr_t *ast_as_expr_copy(module_t *m, ast_as_expr_t *temp) {
     ast_as_expr_t *as_expr = COPY_NEW(ast_as_expr_t, temp);
     as_expr->src = *ast_expr_copy(m, &temp->src);
     as_expr->target_type = type_copy(m, temp->target_type);
+    if (temp->union_tag) {
+        as_expr->union_tag = ast_expr_copy(m, temp->union_tag);
+    }
     return as_expr;
 }
 
@@ -349,9 +352,21 @@ static ast_is_expr_t *ast_is_expr_copy(module_t *m, ast_is_expr_t *temp) {
     if (temp->binding) {
         is_expr->binding = ast_expr_copy(m, temp->binding);
     }
+    if (temp->union_tag) {
+        is_expr->union_tag = ast_expr_copy(m, temp->union_tag);
+    }
     return is_expr;
 }
 
+static ast_tagged_union_t *ast_tagged_union_copy(module_t *m, ast_tagged_union_t *temp) {
+    ast_tagged_union_t *tagged_union = COPY_NEW(ast_tagged_union_t, temp);
+    tagged_union->union_type = type_copy(m, temp->union_type);
+    if (temp->arg) {
+        tagged_union->arg = ast_expr_copy(m, temp->arg);
+    }
+    return tagged_union;
+}
+
 static ast_unary_expr_t *ast_unary_copy(module_t *m, ast_unary_expr_t *temp) {
     ast_unary_expr_t *unary = COPY_NEW(ast_unary_expr_t, temp);
     unary->operand = *ast_expr_copy(m, &temp->operand);
@@ -638,6 +653,11 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_is_expr_copy(m, temp->value);
             break;
         }
+        case AST_EXPR_TAGGED_UNION_ELEMENT:
+        case AST_EXPR_TAGGED_UNION_NEW: {
+            expr->value = ast_tagged_union_copy(m, temp->value);
+            break;
+        }
         case AST_CATCH: {
             expr->value = ast_catch_copy(m, temp->value);
             break;
diff --git a/src/semantic/infer.c b/src/semantic/infer.c
index ca290b8..51af738 100644
--- a/src/semantic/infer.c
+++ b/src/semantic/infer.c
@@ -1141,6 +1141,7 @@ static type_t infer_as_expr(module_t *m, ast_expr_t *expr) {
     // as union tag
     if (as_expr->union_tag) {
         INFER_ASSERTF(as_expr->src.type.kind == TYPE_TAGGED_UNION, "unexpected as expr");
+        infer_tagged_union_element(m, as_expr->union_tag, as_expr->src.type);
         ast_tagged_union_t *tag = as_expr->union_tag->value;
         tag->element->type = reduction_type(m, tag->element->type);
         as_expr->target_type = tag->element->type;
-- 
2.43.0


From d192ed45188b383502807ab3148868eedb48fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:16:37 +0000
Subject: [PATCH 54/57] fix: copy tuple destructuring declarations in generic
 functions

---
 src/ast.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index cc19ec5..56f0d90 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -11,6 +11,8 @@ static ast_stmt_t *ast_stmt_copy(module_t *m, ast_stmt_t *temp);
 
 static ast_call_t *ast_call_copy(module_t *m, ast_call_t *temp);
 
+static ast_var_decl_t *ast_var_decl_copy(module_t *m, ast_var_decl_t *temp);
+
 static ast_catch_t *ast_catch_copy(module_t *m, ast_catch_t *temp);
 
 static ast_match_t *ast_match_copy(module_t *m, ast_match_t *temp);
@@ -621,6 +623,10 @@ ast_expr_t *ast_expr_copy(module_t *m, ast_expr_t *temp) {
             expr->value = ast_tuple_destr_copy(m, temp->value);
             break;
         }
+        case AST_VAR_DECL: {
+            expr->value = ast_var_decl_copy(m, temp->value);
+            break;
+        }
         case AST_EXPR_TUPLE_ACCESS: {
             expr->value = ast_tuple_access_copy(m, temp->value);
             break;
-- 
2.43.0


From efbbd842768b1038b66d86ae043607e48d399665 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:16:37 +0000
Subject: [PATCH 55/57] fix: copy closure captures for each generic instance

---
 src/ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 56f0d90..07ab91e 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -992,7 +992,7 @@ ast_fndef_t *ast_fndef_copy(module_t *m, ast_fndef_t *temp) {
     fndef->return_type = type_copy(m, temp->return_type);
     fndef->params = ast_fn_formals_copy(m, temp->params);
     fndef->type = type_copy(m, temp->type);
-    fndef->capture_exprs = temp->capture_exprs;
+    fndef->capture_exprs = temp->capture_exprs ? ast_list_expr_copy(m, temp->capture_exprs) : NULL;
     fndef->fn_name = temp->fn_name;
     fndef->fn_name_with_pkg = temp->fn_name_with_pkg;
     fndef->rel_path = temp->rel_path;
-- 
2.43.0


From 3c55772089afa78c4b6d3381e5ce73576cbb05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:30:04 +0000
Subject: [PATCH 56/57] fix: count connection references atomically

---
 runtime/nutils/tcp.h |  8 ++++----
 runtime/nutils/tls.h | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/runtime/nutils/tcp.h b/runtime/nutils/tcp.h
index 8439ad4..3c5bdd4 100644
--- a/runtime/nutils/tcp.h
+++ b/runtime/nutils/tcp.h
@@ -27,7 +27,7 @@ typedef struct {
     uv_write_t write_req;
     uv_connect_t conn_req;
     uv_timer_t timer;
-    int ref_count;
+    _Atomic int ref_count;
     n_vec_t buf;
 } inner_conn_t;
 
@@ -115,8 +115,8 @@ static void free_conn(inner_server_t *inner) {
 
 
 static inline void conn_release(inner_conn_t *conn) {
-    conn->ref_count -= 1;
-    if (conn->ref_count == 0) {
+    int ref_count = --conn->ref_count;
+    if (ref_count == 0) {
         if (conn->co) {
             co_ready(conn->co);
         }
@@ -129,7 +129,7 @@ static inline void conn_release(inner_conn_t *conn) {
 
         DEBUGF("[conn_release] ref count = 0, freed")
     } else {
-        DEBUGF("[conn_release] ref count = %d, skip", conn->ref_count);
+        DEBUGF("[conn_release] ref count = %d, skip", ref_count);
     }
 }
 
diff --git a/runtime/nutils/tls.h b/runtime/nutils/tls.h
index 91d9e20..28929c9 100644
--- a/runtime/nutils/tls.h
+++ b/runtime/nutils/tls.h
@@ -33,7 +33,7 @@ typedef struct {
     uv_write_t write_req;
     uv_connect_t conn_req;
     uv_timer_t timer;
-    int ref_count;
+    _Atomic int ref_count;
 
     // mbedTLS 相关
     mbedtls_ssl_context ssl;
@@ -57,15 +57,15 @@ static void tls_cleanup_ssl_context(inner_tls_conn_t *conn);
 static void uv_async_conn_close(inner_tls_conn_t *conn);
 
 static inline void tls_release_conn(inner_tls_conn_t *conn) {
-    conn->ref_count -= 1;
-    assert(conn->ref_count >= 0);
+    int ref_count = --conn->ref_count;
+    assert(ref_count >= 0);
 
-    if (conn->ref_count == 0) {
+    if (ref_count == 0) {
         tls_cleanup_ssl_context(conn);
         free(conn);
         DEBUGF("[tls_release_conn] ref count = 0, cleaned and freed")
     } else {
-        DEBUGF("[tls_release_conn] ref count = %d, skip", conn->ref_count);
+        DEBUGF("[tls_release_conn] ref count = %d, skip", ref_count);
     }
 }
 
-- 
2.43.0


From 24ef13532627700dd3207b195c38e72190c32e54 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:35:40 +0000
Subject: [PATCH 57/57] fix: copy constant definitions in generic functions

---
 src/ast.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ast.c b/src/ast.c
index 07ab91e..b581b06 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -712,6 +712,13 @@ static ast_var_decl_t *ast_var_decl_copy(module_t *m, ast_var_decl_t *temp) {
     return var_decl;
 }
 
+static ast_constdef_stmt_t *ast_constdef_copy(module_t *m, ast_constdef_stmt_t *temp) {
+    ast_constdef_stmt_t *stmt = COPY_NEW(ast_constdef_stmt_t, temp);
+    stmt->type = type_copy(m, temp->type);
+    stmt->right = ast_expr_copy(m, temp->right);
+    return stmt;
+}
+
 static ast_vardef_stmt_t *ast_vardef_copy(module_t *m, ast_vardef_stmt_t *temp) {
     ast_vardef_stmt_t *vardef = COPY_NEW(ast_vardef_stmt_t, temp);
     vardef->var_decl = *ast_var_decl_copy(m, &temp->var_decl);
@@ -886,6 +893,10 @@ static ast_stmt_t *ast_stmt_copy(module_t *m, ast_stmt_t *temp) {
             stmt->value = ast_vardef_copy(m, temp->value);
             break;
         }
+        case AST_STMT_CONSTDEF: {
+            stmt->value = ast_constdef_copy(m, temp->value);
+            break;
+        }
         case AST_STMT_VAR_TUPLE_DESTR: {
             stmt->value = ast_var_tuple_def_copy(m, temp->value);
             break;
-- 
2.43.0


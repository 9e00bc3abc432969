From feb7755f2e559f52d65917cf2e3f844abb5e4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:24 +0000
Subject: [PATCH 01/40] hook: overridable MPMC queue block size
 (SALTICIDAE_SIM_MPMCQ_SIZE)

---
 include/salticidae/queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 77636e8..3ed3fee 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -87,7 +87,12 @@ class FreeList {
     }
 };
 
+#ifdef SALTICIDAE_SIM_MPMCQ_SIZE
+/* simulation hook: small blocks make block boundaries reachable */
+const size_t MPMCQ_SIZE = SALTICIDAE_SIM_MPMCQ_SIZE;
+#else
 const size_t MPMCQ_SIZE = 4096;
+#endif
 
 template<typename T>
 class MPMCQueue {
-- 
2.43.0


From b632f87531ba55f62cbbd9c720a21e72b8745696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:38 +0000
Subject: [PATCH 02/40] fix: MPMCQueue dequeue could use a block recycled
 before its reference was taken

A consumer that loaded the head block and was delayed before taking a
reference could end up dequeuing from the same block after it was recycled
as a later block of the queue: items came out of order, or the queue seemed
empty while it was not. Re-check the head after taking the reference.
---
 include/salticidae/queue.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 3ed3fee..2bce24e 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -211,6 +211,14 @@ class MPMCQueue {
             if (!hcnt) continue;
             if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_relaxed))
                 continue;
+            /* h could have been recycled (and even be in use as another block
+             * of the queue) before the reference was taken, from now on it
+             * can't */
+            if (this->head.load(std::memory_order_acquire) != h)
+            {
+                blks.release_ref(h);
+                continue;
+            }
 
             auto hh = h->head.load(std::memory_order_relaxed);
             auto tt = h->tail.load(std::memory_order_relaxed);
-- 
2.43.0


From c03cc1f888e35c8286f90673df4975a202112936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:43 +0000
Subject: [PATCH 03/40] fix: a full receive buffer could stall a connection
 forever

When recv_buffer reached max_recv_buff_size, reading was paused without
giving the received data to the upper layer (and, with small segments, before
a whole message was there), so nothing ever resumed it.
---
 include/salticidae/conn.h    |  4 ++++
 include/salticidae/network.h | 10 +++++++++-
 src/conn.cpp                 |  6 ++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index f08ba66..51ae35c 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -178,6 +178,10 @@ class ConnPool {
     virtual Conn *create_conn() = 0;
     /** Called when new data is available. */
     virtual void on_read(const conn_t &) {}
+    /** Called when the recv_buffer has reached its limit while there may be
+     * more data to read. Returns false if the reading should pause until the
+     * upper layer resumes it. */
+    virtual bool on_recv_full(const conn_t &) { return false; }
     /** Called when the underlying connection is established. */
     virtual void on_worker_setup(const conn_t &) {}
     /** Called when the underlying connection is established. */
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5aaa3bf..c4ed69c 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -133,6 +133,13 @@ class MsgNetwork: public ConnPool {
     const uint32_t msg_magic;
     ConnPool::Conn *create_conn() override { return new Conn(); }
     void on_read(const ConnPool::conn_t &) override;
+    bool on_recv_full(const ConnPool::conn_t &_conn) override {
+        /* consume the received messages first: only pause when it is the
+         * incoming queue that blocks, as the rest of an incomplete message
+         * still needs to be received */
+        on_read(_conn);
+        return !static_pointer_cast<Conn>(_conn)->msg_sleep;
+    }
 
     void on_worker_setup(const ConnPool::conn_t &_conn) override {
         auto conn = static_pointer_cast<Conn>(_conn);
@@ -691,9 +698,10 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             }
         }
     }
-    if (conn->ready_recv && recv_buffer.len() < conn->max_recv_buff_size)
+    if (conn->ready_recv)
     {
         /* resume reading from socket */
+        conn->ready_recv = false;
         conn->ev_socket.del();
         conn->ev_socket.add(FdEvent::READ |
                             (conn->ready_send ? 0: FdEvent::WRITE));
diff --git a/src/conn.cpp b/src/conn.cpp
index 41704ca..0b98a6a 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -114,7 +114,8 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     ssize_t ret = recv_chunk_size;
     while (ret == (ssize_t)recv_chunk_size)
     {
-        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size &&
+            !conn->cpool->on_recv_full(conn))
         {
             /* recv_buffer is full, temporarily mask the READ event */
             conn->ev_socket.del();
@@ -203,7 +204,8 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     auto &tls = conn->tls;
     while (ret == (ssize_t)recv_chunk_size)
     {
-        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size &&
+            !conn->cpool->on_recv_full(conn))
         {
             conn->ev_socket.del();
             conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
-- 
2.43.0


From a2f1bf80ec191b621b5bc202289e3353494f970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:43 +0000
Subject: [PATCH 04/40] fix: writing an empty segment blocked the data queued
 after it

---
 include/salticidae/conn.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 51ae35c..b3df3de 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -143,6 +143,8 @@ class ConnPool {
         /** Write data to the connection (non-blocking). The data will be sent
          * whenever I/O is available. */
         bool write(bytearray_t &&data) {
+            /* an empty segment would be taken for the end of the buffer */
+            if (data.empty()) return true;
             return send_buffer.push(std::move(data), !cpool->max_send_buff_size);
         }
     };
-- 
2.43.0


From 0ffa038f1f70256ee1866c5f72281c696fcaf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 05/40] fix: oversized message after a full incoming queue
 ended the process

The error raised while resuming from ev_enqueue_poll propagated through libuv.
---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index c4ed69c..f55b18b 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -152,7 +152,12 @@ class MsgNetwork: public ConnPool {
                     return;
                 }
                 conn->msg_sleep = false;
-                on_read(conn);
+                try {
+                    on_read(conn);
+                } catch (...) {
+                    this->recoverable_error(std::current_exception(), -1);
+                    this->worker_terminate(conn);
+                }
             });
     }
 
-- 
2.43.0


From d065f13eb914a304d97dfa974273d78270b115c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 06/40] fix: a corrupt message held up the intact ones received
 after it

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f55b18b..20d2b6b 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -692,7 +692,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             if (!msg.verify_checksum())
             {
                 SALTICIDAE_LOG_WARN("checksums do not match, dropping the message");
-                break;
+                continue;
             }
 #endif
             if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))
-- 
2.43.0


From bd0408e245804d7f298a8c26348d51a60c8c36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:52 +0000
Subject: [PATCH 07/40] fix: terminating a connection while it is handed to a
 worker

The termination of a connecting connection is queued; by the time it ran the
connection could already belong to a worker, whose socket was then closed
under it.
---
 src/conn.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index 0b98a6a..ca2bb43 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -293,6 +293,11 @@ void ConnPool::disp_terminate(const conn_t &conn) {
         worker_terminate(conn);
     else
         disp_tcall->async_call([this, conn](ThreadCall::Handle &) {
+            if (conn->worker)
+            { /* it has been handed over to a worker in the meantime */
+                worker_terminate(conn);
+                return;
+            }
             if (!conn->set_terminated()) return;
             on_worker_teardown(conn);
             //conn->stop();
-- 
2.43.0


From d8b435d525043c524e280ed26369f5b39ace9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:06 +0000
Subject: [PATCH 08/40] fix: socket leak when setting up a new connection fails

---
 src/conn.cpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index ca2bb43..f84fbc8 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -318,15 +318,21 @@ void ConnPool::accept_client(int fd, int) {
         else
         {
             int one = 1;
-            if (setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
-                //setsockopt(client_fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
-            if (fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+            conn_t conn;
+            try {
+                if (setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
+                    //setsockopt(client_fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
+                    setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
+                    throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+                if (fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
+                    throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+                conn = create_conn();
+            } catch (...) {
+                close(client_fd);
+                throw;
+            }
 
             NetAddr addr((struct sockaddr_in *)&client_addr);
-            conn_t conn = create_conn();
             conn->send_buffer.set_capacity(max_send_buff_size);
             conn->recv_chunk_size = recv_chunk_size;
             conn->max_recv_buff_size = max_recv_buff_size;
@@ -402,13 +408,19 @@ ConnPool::conn_t ConnPool::_connect(const NetAddr &addr) {
     int one = 1;
     if ((fd = socket(AF_INET, SOCK_STREAM, IPPROTO_TCP)) < 0)
         throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
-    if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
-        //setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
-    if (fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
-    conn_t conn = create_conn();
+    conn_t conn;
+    try {
+        if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
+            //setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
+            setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
+            throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
+        if (fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
+            throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
+        conn = create_conn();
+    } catch (...) {
+        close(fd);
+        throw;
+    }
     conn->send_buffer.set_capacity(max_send_buff_size);
     conn->recv_chunk_size = recv_chunk_size;
     conn->max_recv_buff_size = max_recv_buff_size;
-- 
2.43.0


From 1d63c8f6e946342c16ef2d09d02247e00328ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:06 +0000
Subject: [PATCH 09/40] fix: a failed accept() disabled listening for good

---
 include/salticidae/conn.h |  1 +
 src/conn.cpp              | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index b3df3de..c62bb6b 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -211,6 +211,7 @@ class ConnPool {
 
     /* owned by the dispatcher */
     FdEvent ev_listen;
+    TimerEvent ev_listen_resume; /**< re-enables ev_listen after a failed accept() */
     std::unordered_map<int, conn_t> pool;
     int listen_fd;  /**< for accepting new network connections */
 
diff --git a/src/conn.cpp b/src/conn.cpp
index f84fbc8..beb5c10 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -312,8 +312,12 @@ void ConnPool::accept_client(int fd, int) {
         socklen_t addr_size = sizeof(struct sockaddr_in);
         if ((client_fd = accept(fd, &client_addr, &addr_size)) < 0)
         {
+            int err = errno;
+            /* pause for a while as the cause could persist (such as running
+             * out of file descriptors) */
             ev_listen.del();
-            throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+            ev_listen_resume.add(0.1);
+            throw ConnPoolError(SALTI_ERROR_ACCEPT, err);
         }
         else
         {
@@ -375,6 +379,7 @@ void ConnPool::_listen(NetAddr listen_addr) {
     int one = 1;
     if (listen_fd != -1)
     { /* reset the previous listen() */
+        ev_listen_resume.clear();
         ev_listen.clear();
         close(listen_fd);
     }
@@ -399,6 +404,9 @@ void ConnPool::_listen(NetAddr listen_addr) {
         throw ConnPoolError(SALTI_ERROR_LISTEN, errno);
     ev_listen = FdEvent(disp_ec, listen_fd,
                 std::bind(&ConnPool::accept_client, this, _1, _2));
+    ev_listen_resume = TimerEvent(disp_ec, [this](TimerEvent &) {
+        ev_listen.add(FdEvent::READ);
+    });
     ev_listen.add(FdEvent::READ);
     SALTICIDAE_LOG_INFO("listening to %u", ntohs(listen_addr.port));
 }
-- 
2.43.0


From d59d404133b1ee71daa8693491965fccfa998aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:20 +0000
Subject: [PATCH 10/40] fix: stop() of a TLS network could end the process by
 SIGPIPE

---
 include/salticidae/conn.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index c62bb6b..a08d9d7 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -27,6 +27,7 @@
 
 #ifdef __cplusplus
 #include <cassert>
+#include <csignal>
 #include <cstdint>
 #include <arpa/inet.h>
 #include <unistd.h>
@@ -575,6 +576,12 @@ class ConnPool {
         /* join all worker threads */
         for (size_t i = 1; i < nworker; i++)
             workers[i].get_handle().join();
+        /* shutting down TLS on a broken connection raises SIGPIPE, which is
+         * blocked in the worker threads but not necessarily here */
+        sigset_t sigpipe, old_mask, pending;
+        sigemptyset(&sigpipe);
+        sigaddset(&sigpipe, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &sigpipe, &old_mask);
         for (auto it: pool)
         {
             auto &conn = it.second;
@@ -583,6 +590,13 @@ class ConnPool {
             conn->set_terminated();
             release_conn(conn);
         }
+        sigpending(&pending);
+        if (!sigismember(&old_mask, SIGPIPE) && sigismember(&pending, SIGPIPE))
+        {
+            int sig;
+            sigwait(&sigpipe, &sig);
+        }
+        pthread_sigmask(SIG_SETMASK, &old_mask, NULL);
     }
 
     void stop() {
-- 
2.43.0


From e66baf511e8207511629f2a8e2c9b6beed0eb1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:42 +0000
Subject: [PATCH 11/40] fix: TLS connections were closed when the socket buffer
 got full

The retried SSL_write() uses another buffer, which OpenSSL rejects by default.
---
 include/salticidae/crypto.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index d17a919..9859384 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -372,7 +372,9 @@ class TLS {
         else
             SSL_set_connect_state(ssl);
 
-        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
+        /* unsent data are kept in another buffer before the next attempt */
+        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE |
+                            SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     }
 
     TLS(const TLS &) = delete;
-- 
2.43.0


From bb76a2cd5acb50c9c16aa0811213e31fbe2e9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:40 +0000
Subject: [PATCH 12/40] fix: errors of one TLS connection were taken for errors
 of another

SSL_get_error() looks at the thread's error queue, which is shared by all
connections of a worker and was never cleared.
---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 9859384..560d46a 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -30,6 +30,7 @@
 
 #ifdef __cplusplus
 #include <openssl/sha.h>
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 #include <openssl/bn.h>
 
@@ -383,6 +384,7 @@ class TLS {
     bool do_handshake(int &want_io_type) {
         /* want_io_type: 0 for read, 1 for write */
         /* return true if handshake is completed */
+        ERR_clear_error();
         auto ret = SSL_do_handshake(ssl);
         if (ret == 1) return true;
         auto err = SSL_get_error(ssl, ret);
@@ -403,10 +405,12 @@ class TLS {
     }
 
     inline int send(const void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_write(ssl, buff, size);
     }
 
     inline int recv(void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_read(ssl, buff, size);
     }
 
-- 
2.43.0


From 83fec848dcd963904c29bab377b023b710b3e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:03 +0000
Subject: [PATCH 13/40] fix: a TLS handshake that never completes kept the
 connection forever

conn_server_timeout only covered the TCP part of the connection set-up.
---
 include/salticidae/conn.h | 7 +++++++
 src/conn.cpp              | 1 +
 2 files changed, 8 insertions(+)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index a08d9d7..90ca08a 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -90,6 +90,7 @@ class ConnPool {
         TimedFdEvent ev_connect;
         /* initialized and destroyed by the worker */
         FdEvent ev_socket;
+        TimerEvent ev_handshake_timeout;
         /** does not need to wait if true */
         bool ready_send;
         bool ready_recv;
@@ -193,6 +194,7 @@ class ConnPool {
     virtual void on_worker_teardown(const conn_t &conn) {
         if (conn->worker) conn->worker->unfeed();
         if (conn->tls) conn->tls->shutdown();
+        conn->ev_handshake_timeout.clear();
         conn->ev_socket.clear();
         conn->send_buffer.get_queue().unreg_handler();
     }
@@ -313,6 +315,11 @@ class ConnPool {
                                 conn->mode == Conn::ConnMode::PASSIVE);
                         conn->send_data_func = Conn::_send_data_tls_handshake;
                         conn->recv_data_func = Conn::_recv_data_tls_handshake;
+                        conn->ev_handshake_timeout = TimerEvent(ec, [conn](TimerEvent &) {
+                            SALTICIDAE_LOG_INFO("%s tls handshake timeout", std::string(*conn).c_str());
+                            conn->cpool->worker_terminate(conn);
+                        });
+                        conn->ev_handshake_timeout.add(cpool->conn_server_timeout);
                         conn->ev_socket.add(FdEvent::READ | FdEvent::WRITE);
                     }
                     else
diff --git a/src/conn.cpp b/src/conn.cpp
index beb5c10..0495b39 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -245,6 +245,7 @@ void ConnPool::Conn::_recv_data_tls_handshake(const conn_t &conn, int, int) {
     if (conn->tls->do_handshake(ret))
     {
         /* finishing TLS handshake */
+        conn->ev_handshake_timeout.clear();
         conn->send_data_func = _send_data_tls;
         /* do not start receiving data immediately */
         conn->recv_data_func = _recv_data_dummy;
-- 
2.43.0


From 1dad82089e42d3e754af47a1781b8ccdc391d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 14/40] fix: detach a replaced outbound connection from its
 peer

A new attempt (the retry timer, conn_peer() or a pong arriving on an earlier
connection) replaces Peer::outbound_conn, but the replaced connection kept
pointing to the peer. Its late teardown was then taken for the loss of the
established connection (failing the assertions in on_dispatcher_teardown() and
pong_handler()), reset the nonce of the handshake in progress, or accessed the
peer after del_peer(). conn_peer() also forgot the attempt without ending it.
---
 include/salticidae/network.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 20d2b6b..34ee4bb 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -988,9 +988,11 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     conn->peer = p;
     conn->manual = false;
     if (p->outbound_conn)
+    {
+        p->outbound_conn->peer = nullptr;
         this->disp_terminate(p->outbound_conn);
+    }
     p->outbound_conn = conn;
-    assert(pending_peers.count(conn->get_addr()) == 0);
 }
 
 template<typename O, O _, O __>
@@ -1119,10 +1121,11 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*old_conn).c_str());
-                        assert(old_conn->peer == nullptr);
+                        old_conn->peer = nullptr;
                         this->disp_terminate(old_conn);
                     }
                     old_conn = conn;
+                    conn->peer = p.get();
                     if (p->get_nonce() < msg.nonce)
                     {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: choses connection %s",
@@ -1215,7 +1218,12 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
             p->inbound_conn = nullptr;
-            p->outbound_conn = nullptr;
+            if (p->outbound_conn)
+            {
+                p->outbound_conn->peer = nullptr;
+                this->disp_terminate(p->outbound_conn);
+                p->outbound_conn = nullptr;
+            }
             p->ev_ping_timer.del();
             p->nonce = 0;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
-- 
2.43.0


From 464da0d513175cdc6f0cd68ccb29f22e2df0fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 15/40] fix: do not abort or diverge on an unusable handshake
 reply

A pong on a connection that does not go to the peer's current address (changed
by set_peer_addr() in the meantime, a manual connect(), or another peer's
certificate at that address) failed an assertion. A pong that is not usable
because the peer is already connected was ignored while the remote considered
that connection as established, so the two sides could stay with different
connections. Manual connections no longer take part in the peer handshake
(their loss is not noticed by the peer).
---
 include/salticidae/network.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 34ee4bb..8f8ecca 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -805,15 +805,22 @@ void PeerNetwork<O, _, __>::on_dispatcher_setup(const ConnPool::conn_t &_conn) {
     tcall_reset_timeout(conn->worker, conn, conn_timeout);
     if (conn->get_mode() == Conn::ConnMode::ACTIVE)
     {
-        auto pid = get_peer_id(conn, conn->get_addr());
-        auto it = known_peers.find(pid);
-        if (it == known_peers.end())
+        if (conn->manual)
+        {
+            /* not for the handshake with a peer, even if it is a known one */
+            send_msg(MsgPing(listen_addr, 0), conn);
+            return;
+        }
+        if (!conn->peer)
         {
-            if (conn->manual)
-                send_msg(MsgPing(listen_addr, 0), conn);
-            else
-                throw PeerNetworkError(SALTI_ERROR_PEER_NOT_MATCH);
+            /* the attempt is no longer needed */
+            this->disp_terminate(conn);
+            return;
         }
+        auto pid = get_peer_id(conn, conn->get_addr());
+        auto it = known_peers.find(pid);
+        if (it == known_peers.end() || it->second.get() != conn->peer)
+            throw PeerNetworkError(SALTI_ERROR_PEER_NOT_MATCH);
         else
         {
             pinfo_slock_t _g(known_peers_lock);
@@ -1094,7 +1101,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
             if (conn->is_terminated()) return;
             if (!msg.claimed_addr.is_null()) /* handshake pong */
             {
-                if (conn->get_mode() == Conn::ConnMode::ACTIVE)
+                if (conn->get_mode() == Conn::ConnMode::ACTIVE && !conn->manual)
                 {
                     auto pid = get_peer_id(conn, conn->get_addr());
                     pinfo_slock_t _g(known_peers_lock);
@@ -1109,9 +1116,15 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         return;
                     }
                     auto &p = pit->second;
-                    assert(!p->addr.is_null() && p->addr == conn->get_addr());
                     if (p->state != Peer::State::DISCONNECTED ||
-                        p->addr != msg.claimed_addr) return;
+                        p->addr != conn->get_addr() ||
+                        p->addr != msg.claimed_addr)
+                    {
+                        /* the remote may have chosen this connection, so it
+                         * cannot be left open */
+                        if (p->conn != conn) this->disp_terminate(conn);
+                        return;
+                    }
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color,
                         tty_secondary_color, p->id_hex.c_str(), tty_reset_color);
-- 
2.43.0


From 5d5a942a942013c5d6a1384a4c68b9a0f826ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 16/40] fix: respect the number of tries given to conn_peer()

The retry timer re-armed itself regardless of ntry, so that a peer was
contacted forever even if a single try was asked for; on the other hand
conn_peer(ntry = 1) to a connected peer made no attempt at all. Also, the
attempt is skipped instead of failing an assertion when the address has been
reset to null by set_peer_addr().
---
 include/salticidae/network.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8f8ecca..0ff94d5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -854,6 +854,8 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     if (p->state != Peer::State::DISCONNECTED)
     {
         assert(p->conn == conn);
+        /* getting reconnected after the loss counts as a try */
+        if (p->state == Peer::State::CONNECTED && p->cur_ntry > 0) p->cur_ntry--;
         p->state = Peer::State::DISCONNECTED;
         p->outbound_conn = nullptr;
         p->ev_ping_timer.del();
@@ -886,7 +888,6 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     });
     p->inbound_conn = nullptr;
     /* auto retry the connection */
-    if (p->cur_ntry > 0) p->cur_ntry--;
     if (p->cur_ntry)
     {
         p->nonce = 0;
@@ -1242,8 +1243,10 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
-                    start_active_conn(p);
-                    p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
+                    if (p->cur_ntry > 0) p->cur_ntry--;
+                    if (!p->addr.is_null()) start_active_conn(p);
+                    if (p->cur_ntry)
+                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
             });
 
-- 
2.43.0


From e5b6a0cf221be2f140d5d285673968673c5f9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 17/40] fix: only accept heartbeat pongs on the established
 peer connection

A heartbeat pong sent before the handshake has finished was evaluated with
uninitialized flags and could dereference the null chosen_conn.
---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 0ff94d5..8386aaa 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -474,6 +474,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
             retry_delay(0), ntry(0), cur_ntry(0),
             ev_ping_timer(
                 TimerEvent(pn->disp_ec, std::bind(&Peer::ping_timer, this, _1))),
+            ping_timer_ok(false), pong_msg_ok(false),
             ping_period(pn->ping_period),
             inbound_preempt_ping(nullptr),
             state(DISCONNECTED) {}
@@ -1165,7 +1166,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
             else /* heartbeat pong */
             {
                 auto p = conn->peer;
-                if (!p)
+                if (!p || p->state != Peer::State::CONNECTED || p->conn != conn)
                 {
                     SALTICIDAE_LOG_WARN("%s%s%s: unexpected pong mesage",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color);
-- 
2.43.0


From 12f16aeaff6d5971f4c79e43d5942d44f0b17085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 18/40] fix: keep retrying after a preempting inbound handshake

When an inbound handshake preempts the established connection, the retry timer
was not armed, so the peer was never contacted again if that handshake failed.
conn_peer() called before the deferred handshake is handled left a null
connection to be used for it.
---
 include/salticidae/network.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8386aaa..827dc18 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -882,6 +882,9 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
             delete iping;
         });
         p->inbound_conn = nullptr;
+        /* in case the inbound handshake does not succeed */
+        if (p->cur_ntry)
+            p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
         return;
     }
     this->user_tcall->async_call([this, conn](ThreadCall::Handle &) {
@@ -1232,7 +1235,8 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ntry = ntry;
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
-            p->inbound_conn = nullptr;
+            if (!p->inbound_preempt_ping) /* not deferred */
+                p->inbound_conn = nullptr;
             if (p->outbound_conn)
             {
                 p->outbound_conn->peer = nullptr;
-- 
2.43.0


From db10c95999b5a02a95bf7fe42a50c5763302101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 19/40] fix: become passive upon conn_peer(ntry = 0)

The side that gives up its retries used a random nonce for good, so it kept
rejecting the remote whose nonce happened to be larger.
---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 827dc18..c0b1f88 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1244,7 +1244,7 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                 p->outbound_conn = nullptr;
             }
             p->ev_ping_timer.del();
-            p->nonce = 0;
+            p->nonce = ntry ? 0 : passive_nonce;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
-- 
2.43.0


From b6bf166d2bf07b6fe26624be229e18b37aed9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 20/40] fix: exclude senders while a peer connection is being
 replaced

finish_handshake() assigns Peer::conn and moves the unsent data while holding
the lock in shared mode only, as do the threads that send to the peer: they
could copy a half-assigned reference or add a message to the old connection
after its data has been moved (losing it).
---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index c0b1f88..f1428ff 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1027,7 +1027,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::PASSIVE)
                 {
                     auto pid = get_peer_id(conn, msg.claimed_addr);
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
@@ -1109,7 +1109,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::ACTIVE && !conn->manual)
                 {
                     auto pid = get_peer_id(conn, conn->get_addr());
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
-- 
2.43.0


From bf89c33c7cbec513001292e9c0ab5fb982b107ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:39 +0000
Subject: [PATCH 21/40] fix: get_npending() returned a boolean

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f1428ff..7dfc750 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1344,7 +1344,7 @@ bool PeerNetwork<O, _, __>::has_peer(const PeerId &pid) const {
 
 template<typename O, O _, O __>
 size_t PeerNetwork<O, _, __>::get_npending() const {
-    return *(static_cast<bool *>(this->disp_tcall->call(
+    return *(static_cast<size_t *>(this->disp_tcall->call(
                 [this](ThreadCall::Handle &h) {
         h.set_result(pending_peers.size());
     }).get()));
-- 
2.43.0


From e45349e72f1926b734954c1e4c714a895e551ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:13 +0000
Subject: [PATCH 22/40] fix: do not send the rest of a message over a new peer
 connection

The data left over by the previous connection is moved to the new one when a
peer gets reconnected. If its first segment had been sent partially, the rest
of that message corrupted the framing of the new connection. Besides, messages
in excess of the send buffer limit were dropped on the way.
---
 include/salticidae/conn.h    | 5 ++++-
 include/salticidae/network.h | 8 +++++++-
 src/conn.cpp                 | 8 ++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 90ca08a..c00a1f2 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -94,6 +94,9 @@ class ConnPool {
         /** does not need to wait if true */
         bool ready_send;
         bool ready_recv;
+        /** whether the first segment in send_buffer is the leftover of a
+         * partially sent one */
+        bool partial_send;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
         socket_io_func *send_data_func;
@@ -118,7 +121,7 @@ class ConnPool {
             worker(nullptr),
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
-            ready_send(false), ready_recv(false),
+            ready_send(false), ready_recv(false), partial_send(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 7dfc750..db6b1a5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -955,7 +955,13 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
             if (!buff_seg.size()) break;
-            new_conn->write(std::move(buff_seg));
+            if (old_conn->partial_send)
+            {
+                /* the rest of a message is useless to the new connection */
+                old_conn->partial_send = false;
+                continue;
+            }
+            new_conn->send_buffer.push(std::move(buff_seg), true);
         }
         old_conn->peer = nullptr;
     }
diff --git a/src/conn.cpp b/src/conn.cpp
index 0495b39..193f67a 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -89,13 +89,17 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->partial_send = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partial_send = false;
     }
     /* the send_buffer is empty though the kernel buffer is still available, so
      * temporarily mask the WRITE event and mark the `ready_send` flag */
@@ -180,13 +184,17 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->partial_send = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partial_send = false;
     }
     conn->ev_socket.del();
     conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
-- 
2.43.0


From 332487f36dcf33f1035874980f3a6745fb72e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:10 +0000
Subject: [PATCH 23/40] fix: a full send buffer must not suppress the heartbeat

When max_send_buff_size is set and the user has filled the send buffer, the
ping (or pong) was dropped silently. No further ping is sent until its pong
arrives, so the connection to a healthy peer was torn down by the timeout.
---
 include/salticidae/network.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index db6b1a5..f5a6f05 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -537,6 +537,11 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
     void _ping_msg_cb(const conn_t &conn, uint16_t port);
     void _pong_msg_cb(const conn_t &conn, uint16_t port);
     void finish_handshake(Peer *peer);
+    /** Send a message that has to be sent even if the send buffer is full. */
+    template<typename MsgType>
+    void send_ctrl_msg(const MsgType &msg, const conn_t &conn) {
+        conn->send_buffer.push(Msg(msg, this->msg_magic).serialize(), true);
+    }
     void replace_pending_conn(const conn_t &conn);
     void start_active_conn(Peer *peer);
     static void tcall_reset_timeout(ConnPool::Worker *worker,
@@ -825,7 +830,7 @@ void PeerNetwork<O, _, __>::on_dispatcher_setup(const ConnPool::conn_t &_conn) {
         else
         {
             pinfo_slock_t _g(known_peers_lock);
-            send_msg(MsgPing(
+            send_ctrl_msg(MsgPing(
                 listen_addr,
                 it->second->get_nonce()), conn);
         }
@@ -916,7 +921,7 @@ void PeerNetwork<O, _, __>::Peer::send_ping() {
     ping_timer_ok = false;
     pong_msg_ok = false;
     tcall_reset_timeout(chosen_conn->worker, chosen_conn, pn->conn_timeout);
-    pn->send_msg(MsgPing(), chosen_conn);
+    pn->send_ctrl_msg(MsgPing(), chosen_conn);
 }
 
 template<typename O, O _, O __>
@@ -1062,7 +1067,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                     SALTICIDAE_LOG_DEBUG("%s%s%s: inbound handshake from %s%s%s",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color,
                         tty_secondary_color, p->id_hex.c_str(), tty_reset_color);
-                    send_msg(MsgPong(listen_addr, p->get_nonce()), conn);
+                    send_ctrl_msg(MsgPong(listen_addr, p->get_nonce()), conn);
                     auto &old_conn = p->inbound_conn;
                     if (old_conn && old_conn != conn)
                     {
@@ -1099,7 +1104,10 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 SALTICIDAE_LOG_INFO("%s%s%s: ping from %s",
                     tty_secondary_color, id_hex.c_str(), tty_reset_color,
                     std::string(*conn).c_str());
-                send_msg(MsgPong(), conn);
+                if (conn->peer)
+                    send_ctrl_msg(MsgPong(), conn);
+                else
+                    send_msg(MsgPong(), conn);
             }
         } catch (...) { this->disp_error_cb(std::current_exception()); }
     });
-- 
2.43.0


From 5abc5bf6b76e985f691ea83755e3abf58b042c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:22 +0000
Subject: [PATCH 24/40] fix: reject a second handshake on the connection of a
 peer

---
 include/salticidae/network.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f5a6f05..28455eb 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1037,6 +1037,15 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
             {
                 if (conn->get_mode() == Conn::ConnMode::PASSIVE)
                 {
+                    if (conn->peer)
+                    {
+                        /* it is already the connection of a peer */
+                        SALTICIDAE_LOG_WARN("%s%s%s: repeated inbound handshake from %s",
+                            tty_secondary_color, id_hex.c_str(), tty_reset_color,
+                            std::string(*conn).c_str());
+                        this->disp_terminate(conn);
+                        return;
+                    }
                     auto pid = get_peer_id(conn, msg.claimed_addr);
                     pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
-- 
2.43.0


From d79106fb50951600a439263338439f724ca98688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 25/40] fix: leak of the control block of a shared reference

When the last strong and the last weak reference were dropped concurrently,
both sides could see the other one in progress (dcnt) and neither freed the
control block.
---
 include/salticidae/ref.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index bb5fb3a..fef18e6 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -177,25 +177,21 @@ struct _RCCtl {
 
 struct _ARCCtl {
     std::atomic_size_t ref_cnt;
+    /* number of weak references, plus one as long as there is a strong one */
     std::atomic_size_t weak_cnt;
-    std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
-        dcnt++;
-        if (--ref_cnt) { dcnt--; return false; }
-        if (weak_cnt) { dcnt--; return true; }
-        if (!--dcnt) delete this;
+        if (--ref_cnt) return false;
+        release_weak();
         return true;
     }
     void release_weak() {
-        dcnt++;
-        if (--weak_cnt) { dcnt--; return; }
-        if (ref_cnt) { dcnt--; return; }
-        if (!--dcnt) delete this;
+        if (--weak_cnt) return;
+        delete this;
     }
     size_t get_cnt() { return ref_cnt.load(); }
-    _ARCCtl(): ref_cnt(1), weak_cnt(0), dcnt(0) {}
+    _ARCCtl(): ref_cnt(1), weak_cnt(1) {}
     ~_ARCCtl() {}
 };
 
-- 
2.43.0


From 11f4472cbec839535229373ed768637db26cb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:07 +0000
Subject: [PATCH 26/40] fix: a weak reference could revive a destroyed object

The last strong reference may be dropped between the check of the count and
its increment.
---
 include/salticidae/ref.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index fef18e6..d883fbb 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -158,6 +158,8 @@ struct _RCCtl {
     size_t ref_cnt;
     size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    /* add a reference unless the object is already gone */
+    bool try_add_ref() { return ref_cnt ? (ref_cnt++, true) : false; }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -180,6 +182,13 @@ struct _ARCCtl {
     /* number of weak references, plus one as long as there is a strong one */
     std::atomic_size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    /* add a reference unless the object is already gone */
+    bool try_add_ref() {
+        size_t cnt = ref_cnt.load();
+        while (cnt)
+            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;
+        return false;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -343,11 +352,10 @@ class _RcObjBase {
     }
 
     _RcObjBase(const _WeakObjBase<T, R> &other) {
-        if (other.ctl && other.ctl->ref_cnt)
+        if (other.ctl && other.ctl->try_add_ref())
         {
             obj = other.obj;
             ctl = other.ctl;
-            ctl->add_ref();
         }
         else
         {
-- 
2.43.0


From 6dd97c444d2ce27478700dc9a09e994c8c522f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:45 +0000
Subject: [PATCH 27/40] fix: protect the client table of ClientNetwork

The dispatcher adds and removes connections while other threads look up the
address they send to.
---
 include/salticidae/network.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 28455eb..9248797 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -290,6 +290,9 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
 
     private:
     std::unordered_map<NetAddr, typename MsgNet::conn_t> addr2conn;
+    /** protects addr2conn, which is changed by the dispatcher and used by any
+     * thread sending messages */
+    std::mutex addr2conn_lock;
 
     public:
     class Conn: public MsgNet::Conn {
@@ -1435,6 +1438,7 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
+    mutex_lg_t _g(cn->addr2conn_lock);
     cn->addr2conn.erase(addr);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
@@ -1443,7 +1447,9 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    conn->get_net()->addr2conn.erase(conn->get_addr());
+    auto cn = conn->get_net();
+    mutex_lg_t _g(cn->addr2conn_lock);
+    cn->addr2conn.erase(conn->get_addr());
 }
 
 template<typename OpcodeType>
@@ -1472,10 +1478,15 @@ inline bool ClientNetwork<OpcodeType>::send_msg(const MsgType &msg, const NetAdd
 
 template<typename OpcodeType>
 inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &addr) {
-    auto it = addr2conn.find(addr);
-    if (it == addr2conn.end())
-        throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
-    return MsgNet::_send_msg(msg, it->second);
+    typename MsgNet::conn_t conn;
+    {
+        mutex_lg_t _g(addr2conn_lock);
+        auto it = addr2conn.find(addr);
+        if (it == addr2conn.end())
+            throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
+        conn = it->second;
+    }
+    return MsgNet::_send_msg(msg, conn);
 }
 
 template<typename O, O OPCODE_PING, O _>
-- 
2.43.0


From 5eddd31811c9527ad126d167d56576fd27a7315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:45 +0000
Subject: [PATCH 28/40] fix: a closed connection removed the client that reuses
 its address

---
 include/salticidae/network.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 9248797..3ae6c1b 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1449,7 +1449,10 @@ void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_
     auto conn = static_pointer_cast<Conn>(_conn);
     auto cn = conn->get_net();
     mutex_lg_t _g(cn->addr2conn_lock);
-    cn->addr2conn.erase(conn->get_addr());
+    /* the address may already be used by a newer connection */
+    auto it = cn->addr2conn.find(conn->get_addr());
+    if (it != cn->addr2conn.end() && it->second.get() == conn.get())
+        cn->addr2conn.erase(it);
 }
 
 template<typename OpcodeType>
-- 
2.43.0


From f02e0a4d7f2c50c6c091ae34f82a4179a8961810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:45 +0000
Subject: [PATCH 29/40] fix: report a refused deferred send to a client

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 3ae6c1b..3853b1f 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1467,7 +1467,8 @@ inline int32_t ClientNetwork<OpcodeType>::_send_msg_deferred(Msg &&msg, const Ne
     this->disp_tcall->async_call(
             [this, msg=std::move(msg), addr, id](ThreadCall::Handle &) {
         try {
-            _send_msg(msg, addr);
+            if (!_send_msg(msg, addr))
+                throw ClientNetworkError(SALTI_ERROR_CONN_NOT_READY);
         } catch (...) { this->recoverable_error(std::current_exception(), id); }
     });
     return id;
-- 
2.43.0


From aa93002c0dee5780ac87ffb4d68dcf34775d5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:21 +0000
Subject: [PATCH 30/40] fix: an older connection replaced the client that
 reuses its address

---
 include/salticidae/network.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 3853b1f..1e0c4ac 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -297,8 +297,16 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     public:
     class Conn: public MsgNet::Conn {
         friend ClientNetwork;
+        /** the order in which the connections are accepted */
+        const uint64_t seq;
+
+        static uint64_t next_seq() {
+            static std::atomic<uint64_t> cnt{0};
+            return cnt.fetch_add(1, std::memory_order_relaxed);
+        }
+
         public:
-        Conn() = default;
+        Conn(): seq(next_seq()) {}
         ClientNetwork *get_net() {
             return static_cast<ClientNetwork *>(ConnPool::Conn::get_pool());
         }
@@ -1439,6 +1447,11 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
     mutex_lg_t _g(cn->addr2conn_lock);
+    auto it = cn->addr2conn.find(addr);
+    /* a newer connection from the same address could have been set up earlier,
+     * by another worker */
+    if (it != cn->addr2conn.end() &&
+        static_cast<Conn *>(it->second.get())->seq > conn->seq) return;
     cn->addr2conn.erase(addr);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
-- 
2.43.0


From 6ccc2ca4efdd61487e022e405148e3af12645ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 31/40] fix: msg_magic() of the network configuration returned
 nothing

Control ran off the end of a function returning a reference, so a program
setting the message magic crashed or misbehaved.
---
 include/salticidae/network.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 1e0c4ac..52289d6 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -202,6 +202,7 @@ class MsgNetwork: public ConnPool {
 
         Config &msg_magic(uint32_t x) {
             _msg_magic = x;
+            return *this;
         }
     };
 
-- 
2.43.0


From f464450434a30e1f6b027c70757e4bbb542f0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 32/40] fix: the TLS certificate check could not be enabled

tls_skip_ca_check() took a pointer: only a null pointer turned the check
(and the verification callback) on.
---
 include/salticidae/conn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index c00a1f2..4b1efde 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -490,7 +490,7 @@ class ConnPool {
             return *this;
         }
 
-        Config &tls_skip_ca_check(bool *x) {
+        Config &tls_skip_ca_check(bool x) {
             _tls_skip_ca_check = x;
             return *this;
         }
-- 
2.43.0


From 005e98512c8b836498f537cb9bd925019f2db89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 33/40] fix: C interface reported refused messages as sent

peernetwork_send_msg() and clientnetwork_send_msg() dropped the result of
the send and returned true for messages that were not accepted.
---
 src/network.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/network.cpp b/src/network.cpp
index d81b569..f888ff9 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -295,8 +295,7 @@ void peernetwork_conn_free(const peernetwork_conn_t *self) { delete self; }
 
 bool peernetwork_send_msg(peernetwork_t *self, const msg_t * msg, const peerid_t *peer) {
     try {
-        self->_send_msg(*msg, *peer);
-        return true;
+        return self->_send_msg(*msg, *peer);
     } catch (...) {
         return false;
     }
@@ -365,8 +364,7 @@ void clientnetwork_conn_free(const clientnetwork_conn_t *self) { delete self; }
 
 bool clientnetwork_send_msg(clientnetwork_t *self, const msg_t * msg, const netaddr_t *addr) {
     try {
-        self->_send_msg(*msg, *addr);
-        return true;
+        return self->_send_msg(*msg, *addr);
     } catch (...) {
         return false;
     }
-- 
2.43.0


From e07edc2b947182d63a8c98e463fbf223c77531ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 34/40] fix: datastream_get_*() always reported success

Reading beyond the end of a data stream through the C interface set the
success flag to false and then to true again.
---
 src/stream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stream.cpp b/src/stream.cpp
index 6b208aa..92a2d83 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -99,15 +99,15 @@ bool datastream_put_data(datastream_t *self, const uint8_t *base, size_t size) {
     return true;
 }
 
-uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-
-int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
+uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+
+int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
+int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; *succ = true; try {*self >> val;} catch (...) {*succ = false;} return val; }
 
 const uint8_t *datastream_get_data_inplace(datastream_t *self, size_t len) {
     try {
-- 
2.43.0


From 0cd231148da51aac1f74221e56c41eaf1070ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 35/40] fix: moving the bytes out of a DataStream brought back
 the ones already read

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1ac166a..22d0d00 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -188,7 +188,9 @@ class DataStream {
     }
 
     operator bytearray_t () && {
-        return buffer;
+        buffer.erase(buffer.begin(), buffer.begin() + offset);
+        offset = 0;
+        return std::move(buffer);
     }
 
     operator std::string () const & {
-- 
2.43.0


From b8f024b0e9270ce69b3605438b62975574ab3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 36/40] fix: a failed get_data_inplace() moved the stream past
 its end

---
 include/salticidae/stream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 22d0d00..d310bd7 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -114,12 +114,12 @@ class DataStream {
     }
 
     const uint8_t *get_data_inplace(size_t len) {
-        auto res = (uint8_t *)&*(buffer.begin() + offset);
-        offset += len;
 #ifndef SALTICIDAE_NOCHECK
-        if (offset > buffer.size())
+        if (len > buffer.size() - offset)
             throw std::ios_base::failure("insufficient buffer");
 #endif
+        auto res = (uint8_t *)&*(buffer.begin() + offset);
+        offset += len;
         return res;
     }
 
-- 
2.43.0


From 60eac556f149a88353ba8da68296a314efbeacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 37/40] fix: null Bits had uninitialised sizes

---
 include/salticidae/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index d310bd7..238b66b 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -328,12 +328,13 @@ class _Bits {
 
     public:
 
-    _Bits(): data(nullptr) {}
+    _Bits(): data(nullptr), nbits(0), ndata(0) {}
     _Bits(const bytearray_t &arr) {
         load(&*arr.begin(), arr.size());
     }
 
     _Bits(const _Bits &other): nbits(other.nbits), ndata(other.ndata) {
+        if (other.data == nullptr) return;
         data = new _impl_type[ndata];
         memmove(data.get(), other.data.get(), ndata * sizeof(_impl_type));
     }
-- 
2.43.0


From 18910ff72315d677047f49358003806399122b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 38/40] fix: Bits::load() lost the high bits of each word

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 238b66b..a4ef550 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -357,7 +357,7 @@ class _Bits {
         {
             _impl_type x = 0;
             for (unsigned j = 0, k = 0; j < sizeof(_impl_type); j++, k += 8)
-                if (arr < end) x |= *(arr++) << k;
+                if (arr < end) x |= (_impl_type)*(arr++) << k;
             *(ptr++) = x;
         }
     }
-- 
2.43.0


From ff7fc393b99fca7c5d38660b3cbbb19e4b858729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 39/40] fix: Bits::unserialize() trusted the length it was
 given

---
 include/salticidae/stream.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index a4ef550..b0802f5 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -381,9 +381,16 @@ class _Bits {
     }
 
     void unserialize(DataStream &s) {
-        s >> nbits;
-        nbits = letoh(nbits);
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        uint32_t n;
+        s >> n;
+        n = letoh(n);
+        const uint32_t nd = n / bit_per_datum + !!(n % bit_per_datum);
+#ifndef SALTICIDAE_NOCHECK
+        if (s.size() / sizeof(_impl_type) < nd)
+            throw std::ios_base::failure("insufficient buffer");
+#endif
+        nbits = n;
+        ndata = nd;
         data = new _impl_type[ndata];
         for (_impl_type *ptr = data.get(); ptr < data.get() + ndata; ptr++)
         {
-- 
2.43.0


From 9a22e6c02e699fab1a8fdda5eb89df7ff68ac5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 40/40] fix: load_hex() accepted strings that are not
 hexadecimal

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index b0802f5..fcffb80 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -177,7 +177,9 @@ class DataStream {
         for (p = hex_str.data(), bp = &*buffer.begin();
             p < hex_str.data() + len; p += 2, bp++)
         {
-            if (sscanf(p, "%02x", &tmp) != 1)
+            if (!isxdigit((unsigned char)p[0]) ||
+                !isxdigit((unsigned char)p[1]) ||
+                sscanf(p, "%02x", &tmp) != 1)
                 throw std::invalid_argument("not a valid hex string");
             *bp = tmp;
         }
-- 
2.43.0


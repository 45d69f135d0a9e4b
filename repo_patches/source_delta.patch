From 86a818366e6fe39e07c75a6aed622b428febaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:38 +0000
Subject: [PATCH 01/75] fix: IPv4 address and port bytes above 0x7f were sign
 extended

---
 src/app/common/reactor/types/LinkAddr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..f8a8c48 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -17,17 +17,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<std::uint8_t>(addr.data[4]);
+    std::uint16_t b = static_cast<std::uint8_t>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<std::uint8_t>(addr.data[0]);
+    std::uint32_t b = static_cast<std::uint8_t>(addr.data[1]);
+    std::uint32_t c = static_cast<std::uint8_t>(addr.data[2]);
+    std::uint32_t d = static_cast<std::uint8_t>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From 441f47f2e4a8f132a5a9b36fbff8b3e8743705ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:38 +0000
Subject: [PATCH 02/75] fix: Modbus frame split over several reads was judged
 before it was complete

---
 src/app/modbus/ModbusCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..3a832ec 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,7 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= aduPktLen() + aduHdrLen;
 }
 
 bool ModbusCodec::isAduDataLenValid() const
-- 
2.43.0


From 1d9e278e8722bb8041ccfe3177821899068ddd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:38 +0000
Subject: [PATCH 03/75] fix: Modbus client dropped a request silently on a
 reply with invalid length

---
 src/app/modbus/client/ModbusClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..4bc6b24 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -84,6 +84,7 @@ Status ModbusClient::receive()
     if (pduBuf.size() > maxAduLen)
     {
         LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
+        provideRspTimeout();
         return Status::done;
     }
 
@@ -117,6 +118,7 @@ Status ModbusClient::receive()
     if (not codec.isAduDataLenValid())
     {
         LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+        provideRspTimeout();
         return Status::done;
     }
 
-- 
2.43.0


From 5c4c969041a5dfc6153b2db935c301acc8131bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:38 +0000
Subject: [PATCH 04/75] fix: Modbus client took data received before a request
 was sent as its reply

---
 src/app/modbus/client/ModbusClient.cpp        | 26 +++++++++++++++++++
 src/app/modbus/client/ModbusClient.hpp        |  2 ++
 .../modbus/client/ModbusClientConnected.cpp   |  4 +--
 src/app/modbus/client/ModbusClientSend.cpp    |  4 +--
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 4bc6b24..7cfe229 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -63,6 +63,12 @@ Status ModbusClient::send()
         return Status::codecError;
     }
 
+    if (Status::error == discardReceived())
+    {
+        LM(MODBUS, LI, "Client-%u, link is closed", uid);
+        return Status::error;
+    }
+
     LM(MODBUS, LD, "Client-%u, TX ADU %s", uid, buf.toString().c_str());
 
     int rc = link->send(buf.begin(), buf.size());
@@ -74,6 +80,26 @@ Status ModbusClient::send()
     return Status::done;
 }
 
+Status ModbusClient::discardReceived()
+{
+    while (true)
+    {
+        pduBuf.reset();
+        auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+            LM(MODBUS, LW, "Client-%u, unexpected data is discarded", uid);
+        break;
+        case reactor::LinkResult::na:
+            return Status::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Status::error;
+        }
+    }
+}
+
 void ModbusClient::receivePreaction()
 {
     pduBuf.reset();
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..31f0a2f 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -53,6 +53,8 @@ public:
 
     Status send();
 
+    Status discardReceived();
+
     void receivePreaction();
 
     Status receive();
diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..b356d28 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -15,7 +15,7 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
 
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discardReceived())
     {
     case Status::error:
     {
@@ -26,7 +26,7 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     break;
     default:
     {
-        LM(MODBUS, LE, "Unexpected");
+        LM(MODBUS, LI, "Unexpected data");
     }
     break;
     }
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..8d724da 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -19,7 +19,7 @@ void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discardReceived())
     {
     case Status::error:
     {
@@ -30,7 +30,7 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     break;
     default:
     {
-        LM(MODBUS, LE, "Unexpected");
+        LM(MODBUS, LI, "Unexpected data");
     }
     break;
     }
-- 
2.43.0


From 37bdf8f8d6d56f0728b5b427c8157693b7718d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:38 +0000
Subject: [PATCH 05/75] fix: Modbus server passed fields of an earlier request
 on with the current one

---
 src/app/modbus/ModbusCodec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 3a832ec..ec84c79 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -191,6 +191,7 @@ bool ModbusCodec::decode(AduRequest& adu)
         }
         adu.startItem = buf.readBe();
         adu.numItems = buf.readBe();
+        adu.numBytes = 0;
         if (pduLen(adu.func, adu.numItems) > maxPduLen)
         {
             LM(MODBUS, LE, "ADU decode, unexpected number of items(%u) in request", adu.numItems);
@@ -207,6 +208,7 @@ bool ModbusCodec::decode(AduRequest& adu)
             return false;
         }
         adu.startItem = buf.readBe();
+        adu.numItems = 0;
         adu.numBytes = 2;
         adu.data[1] = buf.read();
         adu.data[0] = buf.read();
-- 
2.43.0


From ab76501b11aa4aee63464f562b561e137bb8e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:15 +0000
Subject: [PATCH 06/75] fix: end of stream was reported as an empty successful
 read

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..5d4c99e 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc && 0 != len)
+    {
+        LM(GEN, LI, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From 222f3908340476789291a505fa0623f54ad052fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:15 +0000
Subject: [PATCH 07/75] fix: sending on a link could kill the process or lose
 data unnoticed

---
 src/app/common/reactor/Link.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 5d4c99e..caf0f97 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,9 +104,15 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    ssize_t const rc = ::send(fd, data, len, MSG_NOSIGNAL);
+    if (-1 == rc)
     {
-        LM(GEN, LE, "write errno: %d", errno);
+        LM(GEN, LE, "send errno: %d", errno);
+        return -1;
+    }
+    if (static_cast<std::size_t>(rc) != len)
+    {
+        LM(GEN, LE, "send incomplete: %zd of %zu", rc, len);
         return -1;
     }
     return 1;
-- 
2.43.0


From 256189c9aae09d981d0ec7fc9d5ba037487f40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:15 +0000
Subject: [PATCH 08/75] fix: link that got connected and received data at once
 was treated as failed

---
 src/app/common/reactor/Link.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index caf0f97..927fbd8 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -155,33 +155,31 @@ void Link::onFileDescriptorEvent(int events)
         LM(GEN, LE, "Handler is undefined");
         return;
     }
-    switch (events)
+    if (events & ~(EPOLLIN | EPOLLOUT))
     {
-    case EPOLLIN:
-    {
-        handler(LinkEvent::data);
+        close();
+        handler(LinkEvent::error);
+        return;
     }
-    break;
-    case EPOLLOUT:
+    if (events & EPOLLOUT)
     {
         if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))
         {
             LM(GEN, LE, "fd mod");
             close();
             handler(LinkEvent::error);
+            return;
         }
-        else
+        int const connectedFd = fd;
+        handler(LinkEvent::connected);
+        if (not handler || connectedFd != fd)
         {
-            handler(LinkEvent::connected);
+            return;
         }
     }
-    break;
-    default:
+    if (events & EPOLLIN)
     {
-        close();
-        handler(LinkEvent::error);
-    }
-    break;
+        handler(LinkEvent::data);
     }
 }
 
-- 
2.43.0


From 3416fe153582b7d0e3c0998807ba29b5a2698e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:00 +0000
Subject: [PATCH 09/75] fix: Modbus configuration with a bad item was not
 answered or answered as success

---
 src/app/modbus/Modbus.cpp | 78 ++++++++++++++++++++++++++-------------
 src/app/modbus/Modbus.hpp |  3 ++
 2 files changed, 56 insertions(+), 25 deletions(-)

diff --git a/src/app/modbus/Modbus.cpp b/src/app/modbus/Modbus.cpp
index c0e1e62..3926f9f 100644
--- a/src/app/modbus/Modbus.cpp
+++ b/src/app/modbus/Modbus.cpp
@@ -19,47 +19,75 @@ Modbus::~Modbus()
 
 void Modbus::receive(MsgModbusConfigReq const& req)
 {
+    reactor::MsgStore<MsgModbusConfigRsp> msgStore;
+    MsgModbusConfigRsp& rsp = msgStore.getMsg();
+    rsp.numItems = req.numItems;
     for (unsigned i = 0; i < req.numItems; ++i)
     {
-        ModbusConfig const& item = req.items[i];
-        switch (item.mode)
+        rsp.items[i].id = req.items[i].id;
+        rsp.items[i].status = config(req.items[i]);
+    }
+    Sender::sendMsg(msgStore);
+}
+
+MsgStatus Modbus::config(ModbusConfig const& item)
+{
+    switch (item.mode)
+    {
+    case ModbusConfig::Mode::server:
+    {
+        if (item.id >= servers.size())
         {
-        case ModbusConfig::Mode::server:
+            LM(MODBUS, LE, "Invalid serverId, %u", item.id);
+            return MsgStatus::error;
+        }
+        try
         {
-            if (item.id >= servers.size())
-            {
-                LM(MODBUS, LE, "Invalid serverId, %u", item.id);
-                continue;
-            }
             ModbusServer::Init init{item.id, item.addr};
             servers[item.id] = std::make_unique<ModbusServer>(init);
             servers[item.id]->start();
         }
-        break;
-        case ModbusConfig::Mode::client:
+        catch (std::exception const& e)
+        {
+            LM(MODBUS, LE, "Can not start server-%u: %s", item.id, e.what());
+            servers[item.id].reset();
+            return MsgStatus::error;
+        }
+        return MsgStatus::success;
+    }
+    break;
+    case ModbusConfig::Mode::client:
+    {
+        if (item.id >= clients.size())
+        {
+            LM(MODBUS, LE, "Invalid clientId, %u", item.id);
+            return MsgStatus::error;
+        }
+        try
         {
-            if (item.id >= clients.size())
-            {
-                LM(MODBUS, LE, "Invalid clientId, %u", item.id);
-                continue;
-            }
             ModbusClient::Init init{item.id, item.addr};
             clients[item.id] = std::make_unique<ModbusClient>(init);
+        }
+        catch (std::exception const& e)
+        {
+            LM(MODBUS, LE, "Can not create client-%u: %s", item.id, e.what());
+            clients[item.id].reset();
+            return MsgStatus::error;
+        }
+        try
+        {
             clients[item.id]->start();
         }
-        break;
+        catch (std::exception const& e)
+        {
+            // connecting is retried by the client
+            LM(MODBUS, LE, "Can not connect client-%u: %s", item.id, e.what());
         }
+        return MsgStatus::success;
     }
-
-    reactor::MsgStore<MsgModbusConfigRsp> msgStore;
-    MsgModbusConfigRsp& rsp = msgStore.getMsg();
-    rsp.numItems = req.numItems;
-    for (unsigned i = 0; i < req.numItems; ++i)
-    {
-        rsp.items[i].id = req.items[i].id;
-        rsp.items[i].status = MsgStatus::success;
+    break;
     }
-    Sender::sendMsg(msgStore);
+    return MsgStatus::error;
 }
 
 void Modbus::receive(MsgModbusClientAduReq const& req)
diff --git a/src/app/modbus/Modbus.hpp b/src/app/modbus/Modbus.hpp
index 2a95b47..625249e 100644
--- a/src/app/modbus/Modbus.hpp
+++ b/src/app/modbus/Modbus.hpp
@@ -4,6 +4,7 @@
 #include <memory>
 
 #include "MsgModbusConfigReq.hpp"
+#include "MsgStatus.hpp"
 #include "MsgModbusClientAduReq.hpp"
 #include "MsgModbusAduRsp.hpp"
 
@@ -32,6 +33,8 @@ public:
     void receive(MsgModbusAduRsp const&);
 
 private:
+    MsgStatus config(ModbusConfig const&);
+
     std::vector<std::unique_ptr<ModbusServer>> servers;
     std::vector<std::unique_ptr<ModbusClient>> clients;
 };
-- 
2.43.0


From c5384c223956e5496cccefe838d83e5e0fec864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:00 +0000
Subject: [PATCH 10/75] fix: Modbus server lost a session for ever when
 accepting a connection failed

---
 src/app/modbus/server/ModbusServer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..db39e58 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -52,8 +52,17 @@ void ModbusServer::onAcceptEvent()
     }
 
     ModbusSession& session = sessionPool.get(uid);
-    session.prepare(id);
-    acceptor->accept(session.getLink());
+    try
+    {
+        session.prepare(id);
+        acceptor->accept(session.getLink());
+    }
+    catch (std::exception const& e)
+    {
+        LM(MODBUS, LE, "Server-%u, can not accept: %s", id, e.what());
+        session.releaseSession();
+        return;
+    }
     session.start();
 }
 
-- 
2.43.0


From 0b43df06b0fd736c66bcc4a2a7cd81ff0762e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:00 +0000
Subject: [PATCH 11/75] fix: Modbus server trusted session id and data length
 of answers blindly

---
 src/app/modbus/server/ModbusServer.cpp          | 5 +++++
 src/app/modbus/server/session/ModbusSession.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index db39e58..9fdec64 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -39,6 +39,11 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
+    if (rsp.sessionId >= maxNumSession)
+    {
+        LM(MODBUS, LE, "Server-%u, invalid sessionId, %u", id, rsp.sessionId);
+        return;
+    }
     sessionPool.get(rsp.sessionId).receive(rsp);
 }
 
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..499d3f4 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -169,6 +169,11 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     }
 
     AduRespond aduRsp;
+    if (rsp.numBytes > sizeof(aduRsp.data))
+    {
+        LM(MODBUS, LE, "Session-%u, unexpected number of bytes %u", uid, rsp.numBytes);
+        return Result::done;
+    }
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
     aduRsp.addr = storedAdu.addr;
-- 
2.43.0


From 3ba51dbfdbcd0f916e540d95185f393045e8d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:00 +0000
Subject: [PATCH 12/75] fix: an answer to another Modbus transaction ended the
 wait for the right one

---
 src/app/modbus/server/session/ModbusSession.cpp                 | 2 +-
 src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 499d3f4..63ee04e 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -159,7 +159,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     {
         LM(MODBUS, LE, "Session-%u, transactId is unexpected %u vs %u"
             , uid, storedAdu.transactId, rsp.transactId);
-        return Result::done;
+        return Result::noerror;
     }
 
     if (rsp.status != MsgStatus::success)
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 1f87949..d4d4080 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -43,6 +43,8 @@ void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm,
         fsm.transit<ModbusSessionConnected>();
     }
     break;
+    case Result::noerror:
+    break;
     default:
     {
         LM(MODBUS, LE, "Unexpected");
-- 
2.43.0


From 7c4f394719774da2a055a2ace32c4e2030a67370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:00 +0000
Subject: [PATCH 13/75] fix: Modbus server ignored requests for 5 s after a
 malformed one

---
 src/app/modbus/server/session/ModbusSession.cpp          | 4 ++--
 src/app/modbus/server/session/ModbusSessionConnected.cpp | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 63ee04e..ffb8699 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -124,7 +124,7 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, PDU is invalid", uid);
         // TODO provide error to client
-        return Result::done;
+        return Result::codecError;
     }
 
     LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
@@ -133,7 +133,7 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, ADU decode error", uid);
         // TODO provide error to client
-        return Result::done;
+        return Result::codecError;
     }
 
     reactor::MsgStore<MsgModbusAduReq> msgStore;
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index f80e526..d1bc161 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -28,13 +28,14 @@ void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
         fsm.transit<ModbusSessionWaitModbusAduRsp>();
     }
     break;
-    case Result::noerror:
+    case Result::codecError:
     {
+        // nothing was passed on, be ready for the next request
+        fsm.getEntity().receivePreaction();
     }
     break;
-    default:
+    case Result::noerror:
     {
-        LM(MODBUS, LE, "Unexpected");
     }
     break;
     }
-- 
2.43.0


From 65afa7d0100006fe18221f50c0977d90f214ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:36 +0000
Subject: [PATCH 14/75] fix: Modbus single coil value was put on the wire in
 the wrong byte order

---
 src/app/modbus/ModbusCodec.cpp | 48 ++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ec84c79..31b0e27 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -121,8 +121,16 @@ bool ModbusCodec::encode(AduRequest const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            buf.write(adu.data[0]);
+            buf.write(adu.data[1]);
+        }
+        else
+        {
+            buf.write(adu.data[1]);
+            buf.write(adu.data[0]);
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -210,8 +218,16 @@ bool ModbusCodec::decode(AduRequest& adu)
         adu.startItem = buf.readBe();
         adu.numItems = 0;
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            adu.data[0] = buf.read();
+            adu.data[1] = buf.read();
+        }
+        else
+        {
+            adu.data[1] = buf.read();
+            adu.data[0] = buf.read();
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -305,8 +321,16 @@ bool ModbusCodec::encode(AduRespond const& adu)
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.writeBe(adu.startItem);
-        buf.write(adu.data[1]);
-        buf.write(adu.data[0]);
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            buf.write(adu.data[0]);
+            buf.write(adu.data[1]);
+        }
+        else
+        {
+            buf.write(adu.data[1]);
+            buf.write(adu.data[0]);
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
@@ -385,8 +409,16 @@ bool ModbusCodec::decode(AduRespond& adu)
         }
         adu.startItem = buf.readBe();
         adu.numBytes = 2;
-        adu.data[1] = buf.read();
-        adu.data[0] = buf.read();
+        if (adu.func == ModbusFunction::forceSingleCoil)
+        {
+            adu.data[0] = buf.read();
+            adu.data[1] = buf.read();
+        }
+        else
+        {
+            adu.data[1] = buf.read();
+            adu.data[0] = buf.read();
+        }
     }
     break;
     case ModbusFunction::presetMultipleRegisters:
-- 
2.43.0


From 7f4c864e450ea1723ad51f139163a55c5cfd7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 15/75] fix: Modbus exception replies were neither produced nor
 understood as the protocol defines them

---
 src/app/modbus/ModbusCodec.cpp                | 30 ++++++++++++-------
 src/app/modbus/ModbusCodec.hpp                |  1 +
 src/app/modbus/client/ModbusClient.cpp        | 14 ++++-----
 .../modbus/server/session/ModbusSession.cpp   |  2 +-
 4 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 31b0e27..103d472 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -264,18 +264,18 @@ bool ModbusCodec::decode(AduRequest& adu)
 
 bool ModbusCodec::encode(AduRespond const& adu)
 {
-    switch (adu.func)
-    {
-    case ModbusFunction::modbusError:
+    if (adu.error != ModbusError::noerror)
     {
         buf.writeBe(adu.transactId);
         buf.writeBe(modbusProtocolId);
         buf.writeBe(1 + 1 + 1);
         buf.write(adu.addr);
-        buf.write(toUint8(adu.func));
+        buf.write(toUint8(adu.func) | exceptionFlag);
         buf.write(toUint8(adu.error));
+        return true;
     }
-    break;
+    switch (adu.func)
+    {
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
@@ -369,15 +369,23 @@ bool ModbusCodec::decode(AduRespond& adu)
     }
     uint16_t const pktLen = buf.readBe();
     adu.addr = buf.read();
-    adu.func = fromUint8<ModbusFunction>(buf.read());
-
-    switch (adu.func)
-    {
-    case ModbusFunction::modbusError:
+    unsigned const func = buf.read();
+    adu.func = fromUint8<ModbusFunction>(func & ~exceptionFlag);
+    adu.error = ModbusError::noerror;
+    if (func & exceptionFlag)
     {
         adu.error = fromUint8<ModbusError>(buf.read());
+        adu.numBytes = 0;
+        if (pktLen != 3 || adu.error == ModbusError::noerror)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected exception");
+            return false;
+        }
+        return true;
     }
-    break;
+
+    switch (adu.func)
+    {
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
diff --git a/src/app/modbus/ModbusCodec.hpp b/src/app/modbus/ModbusCodec.hpp
index c3583e9..e7bb160 100644
--- a/src/app/modbus/ModbusCodec.hpp
+++ b/src/app/modbus/ModbusCodec.hpp
@@ -39,6 +39,7 @@ private:
     static constexpr unsigned aduFuncCodeOffset = 7;
     static constexpr unsigned aduRspErrorCodeOffset = 8;
     static constexpr unsigned aduHdrLen = 6;
+    static constexpr unsigned exceptionFlag = 0x80;
 
     PduBuffer& buf;
 };
diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 7cfe229..1e0c12f 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -185,13 +185,6 @@ Status ModbusClient::receive()
         provideRspError(aduReq);
         return Status::done;
     }
-    if (ModbusFunction::modbusError == aduRsp.func)
-    {
-        LM(MODBUS, LW, "Client-%u, modbus error code (%s)"
-            , uid, toString(aduRsp.error));
-        provideRspModbusError(aduReq, aduRsp.error);
-        return Status::done;
-    }
     if (aduReq.func != aduRsp.func)
     {
         LM(MODBUS, LW, "Client-%u, unexpected function %s vs %s"
@@ -199,6 +192,13 @@ Status ModbusClient::receive()
         provideRspError(aduReq);
         return Status::done;
     }
+    if (ModbusError::noerror != aduRsp.error)
+    {
+        LM(MODBUS, LW, "Client-%u, modbus error code (%s)"
+            , uid, toString(aduRsp.error));
+        provideRspModbusError(aduReq, aduRsp.error);
+        return Status::done;
+    }
 
     reactor::MsgStore<MsgModbusClientAduRsp> msgStore;
     MsgModbusClientAduRsp& rsp = msgStore.getMsg();
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index ffb8699..1e52e25 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -175,7 +175,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
         return Result::done;
     }
     aduRsp.transactId = rsp.transactId;
-    aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
+    aduRsp.func = storedAdu.func;
     aduRsp.addr = storedAdu.addr;
     aduRsp.error = rsp.error;
     aduRsp.startItem = storedAdu.startItem;
-- 
2.43.0


From 5ac92b4629881980fae4f5a5f84032efbf06512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:41 +0000
Subject: [PATCH 16/75] fix: replies to Modbus coil and discrete input reads
 were not supported

---
 src/app/modbus/ModbusCodec.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 103d472..a3bdd61 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -276,6 +276,21 @@ bool ModbusCodec::encode(AduRespond const& adu)
     }
     switch (adu.func)
     {
+    case ModbusFunction::readCoilStatus:
+    case ModbusFunction::readDiscreteInputs:
+    {
+        buf.writeBe(adu.transactId);
+        buf.writeBe(modbusProtocolId);
+        buf.writeBe(1 + 1 + 1 + adu.numBytes);
+        buf.write(adu.addr);
+        buf.write(toUint8(adu.func));
+        buf.write(adu.numBytes);
+        for (unsigned i = 0; i < adu.numBytes; ++i)
+        {
+            buf.write(adu.data[i]);
+        }
+    }
+    break;
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
@@ -386,6 +401,21 @@ bool ModbusCodec::decode(AduRespond& adu)
 
     switch (adu.func)
     {
+    case ModbusFunction::readCoilStatus:
+    case ModbusFunction::readDiscreteInputs:
+    {
+        adu.numBytes = buf.read();
+        if (pktLen != adu.numBytes + 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected number of bytes: %u", adu.numBytes);
+            return false;
+        }
+        for (unsigned i = 0; i < adu.numBytes; ++i)
+        {
+            adu.data[i] = buf.read();
+        }
+    }
+    break;
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
-- 
2.43.0


From 2bf59ae7d97065dbdeb7de970df08d371babb9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:07 +0000
Subject: [PATCH 17/75] fix: Modbus client did not notice that its connection
 was reset while it was idle

---
 src/app/modbus/client/ModbusClientConnected.cpp | 7 +++++++
 src/app/modbus/client/ModbusClientConnected.hpp | 2 ++
 src/app/modbus/client/ModbusClientReceive.cpp   | 7 +++++++
 src/app/modbus/client/ModbusClientReceive.hpp   | 2 ++
 src/app/modbus/client/ModbusClientSend.cpp      | 7 +++++++
 src/app/modbus/client/ModbusClientSend.hpp      | 2 ++
 6 files changed, 27 insertions(+)

diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index b356d28..880e467 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -32,4 +32,11 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientConnected::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 } // namespace app::modbus
diff --git a/src/app/modbus/client/ModbusClientConnected.hpp b/src/app/modbus/client/ModbusClientConnected.hpp
index a5d1594..b8a9da3 100644
--- a/src/app/modbus/client/ModbusClientConnected.hpp
+++ b/src/app/modbus/client/ModbusClientConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
 private:
 
 };
diff --git a/src/app/modbus/client/ModbusClientReceive.cpp b/src/app/modbus/client/ModbusClientReceive.cpp
index ce289d2..b3793dd 100644
--- a/src/app/modbus/client/ModbusClientReceive.cpp
+++ b/src/app/modbus/client/ModbusClientReceive.cpp
@@ -45,6 +45,13 @@ void ModbusClientReceive::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientReceive::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientReceive::onTimer(ModbusClientFsm& fsm)
 {
     LM(MODBUS, LI, "onTimer");
diff --git a/src/app/modbus/client/ModbusClientReceive.hpp b/src/app/modbus/client/ModbusClientReceive.hpp
index 5fbcb19..5f6a649 100644
--- a/src/app/modbus/client/ModbusClientReceive.hpp
+++ b/src/app/modbus/client/ModbusClientReceive.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 8d724da..9da040e 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -36,6 +36,13 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientSend::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientSend::onTimer(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().send())
diff --git a/src/app/modbus/client/ModbusClientSend.hpp b/src/app/modbus/client/ModbusClientSend.hpp
index 55ef2f9..51bada2 100644
--- a/src/app/modbus/client/ModbusClientSend.hpp
+++ b/src/app/modbus/client/ModbusClientSend.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
-- 
2.43.0


From ae8b16eca0d695fcf468b62f9edc557efd25b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:09 +0000
Subject: [PATCH 18/75] fix: Modbus server lost requests that arrived together
 with or right after another one

---
 src/app/modbus/ModbusCodec.cpp                |  6 +++
 src/app/modbus/ModbusCodec.hpp                |  2 +
 .../modbus/server/session/ModbusSession.cpp   | 52 +++++++------------
 .../server/session/ModbusSessionConnected.cpp | 15 +++---
 .../session/ModbusSessionWaitModbusAduRsp.cpp | 16 +-----
 5 files changed, 39 insertions(+), 52 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index a3bdd61..222c0d9 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -44,6 +44,12 @@ unsigned ModbusCodec::pduLen(ModbusFunction func, unsigned numItems) const
     }
 }
 
+unsigned ModbusCodec::numMissingBytes() const
+{
+    unsigned const len = isAduHdrReceived() ? aduHdrLen + aduPktLen() : aduHdrLen;
+    return len > buf.size() ? len - buf.size() : 0;
+}
+
 bool ModbusCodec::isAduHdrReceived() const
 {
     return buf.size() >= aduHdrLen;
diff --git a/src/app/modbus/ModbusCodec.hpp b/src/app/modbus/ModbusCodec.hpp
index e7bb160..8118163 100644
--- a/src/app/modbus/ModbusCodec.hpp
+++ b/src/app/modbus/ModbusCodec.hpp
@@ -15,6 +15,8 @@ public:
 
     unsigned aduPktLen() const;
 
+    unsigned numMissingBytes() const;
+
     unsigned pduLen(ModbusFunction, unsigned) const;
 
     bool isAduHdrReceived() const;
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 1e52e25..477974d 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -83,41 +83,29 @@ void ModbusSession::receivePreaction()
 
 Result ModbusSession::receive()
 {
-    if (pduBuf.size() > maxAduLen)
-    {
-        LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
-        return Result::done;
-    }
-
-    auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
-    switch (result.status)
-    {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Result::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Result::error;
-    }
-
-    pduBuf.seek(result.len);
-
     ModbusCodec codec(pduBuf);
 
-    if (not codec.isAduHdrReceived())
-    {
-        return Result::noerror;
-    }
-
-    if (not codec.isAduDataLenValid())
+    // read no further than the end of the ADU, what follows is the next one
+    while (codec.numMissingBytes())
     {
-        return Result::error;
-    }
-
-    if (not codec.isAduReceived())
-    {
-        return Result::noerror;
+        auto const& result = link->receive(pduBuf.end(), codec.numMissingBytes());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+        break;
+        case reactor::LinkResult::na:
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
+
+        pduBuf.seek(result.len);
+
+        if (codec.isAduHdrReceived() && not codec.isAduDataLenValid())
+        {
+            return Result::error;
+        }
     }
 
     if (not codec.isAduValid())
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index d1bc161..2893c25 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -12,11 +12,19 @@ void ModbusSessionConnected::onEnter(ModbusSessionFsm& fsm)
 {
     fsm.getEntity().startTimer(ModbusSession::inactiveTimeout);
     fsm.getEntity().receivePreaction();
+    // the next request can be there already
+    onDataReceived(fsm);
 }
 
 void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    Result result;
+    while (Result::codecError == (result = fsm.getEntity().receive()))
+    {
+        // nothing was passed on, be ready for the next request
+        fsm.getEntity().receivePreaction();
+    }
+    switch (result)
     {
     case Result::error:
     {
@@ -29,11 +37,6 @@ void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
     }
     break;
     case Result::codecError:
-    {
-        // nothing was passed on, be ready for the next request
-        fsm.getEntity().receivePreaction();
-    }
-    break;
     case Result::noerror:
     {
     }
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index d4d4080..9d68f40 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -12,21 +12,9 @@ void ModbusSessionWaitModbusAduRsp::onEnter(ModbusSessionFsm& fsm)
     fsm.getEntity().startTimer(ModbusSession::aduRspTimeout);
 }
 
-void ModbusSessionWaitModbusAduRsp::onDataReceived(ModbusSessionFsm& fsm)
+void ModbusSessionWaitModbusAduRsp::onDataReceived(ModbusSessionFsm&)
 {
-    switch (fsm.getEntity().receive())
-    {
-    case Result::error:
-    {
-        fsm.transit<ModbusSessionInit>();
-    }
-    break;
-    default:
-    {
-        LM(MODBUS, LE, "Unexpected");
-    }
-    break;
-    }
+    // it is read when the current request is completed
 }
 
 void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm, MsgModbusAduRsp const& rsp)
-- 
2.43.0


From 115c1ee917e9fd8381e4c2f913e933c4f827b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:06 +0000
Subject: [PATCH 19/75] fix: Modbus client missed the end of the connection
 when it came together with data

---
 src/app/modbus/client/ModbusClient.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 1e0c12f..ac14295 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -48,6 +48,12 @@ void ModbusClient::stopTimer()
 
 Status ModbusClient::send()
 {
+    if (Status::error == discardReceived())
+    {
+        LM(MODBUS, LI, "Client-%u, link is closed", uid);
+        return Status::error;
+    }
+
     if (aduStorage.empty())
     {
         return Status::noerror;
@@ -63,12 +69,6 @@ Status ModbusClient::send()
         return Status::codecError;
     }
 
-    if (Status::error == discardReceived())
-    {
-        LM(MODBUS, LI, "Client-%u, link is closed", uid);
-        return Status::error;
-    }
-
     LM(MODBUS, LD, "Client-%u, TX ADU %s", uid, buf.toString().c_str());
 
     int rc = link->send(buf.begin(), buf.size());
@@ -138,7 +138,7 @@ Status ModbusClient::receive()
 
     if (not codec.isAduHdrReceived())
     {
-        return Status::noerror;
+        return receive(); // there can be more: data events are edge triggered
     }
 
     if (not codec.isAduDataLenValid())
@@ -150,7 +150,7 @@ Status ModbusClient::receive()
 
     if (not codec.isAduReceived())
     {
-        return Status::noerror;
+        return receive();
     }
 
     AduRequest const& aduReq = aduStorage.front();
-- 
2.43.0


From 6f7d6b04ff22622ec548be0a293a466f05d3f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:51 +0000
Subject: [PATCH 20/75] fix: messages behind one whose handler throws got stuck
 in the mailbox

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..bfb2b7a 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -153,7 +153,15 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            try
+            {
+                handler(msg);
+            }
+            catch(const std::exception& e)
+            {
+                // the messages behind this one are still to be delivered
+                LM(GEN, LE, "Handler of msgId=%zu: %s", msg.getMsgId(), e.what());
+            }
         }
         else
         {
-- 
2.43.0


From 2b74a7aed1e89ce81fd4d6611434a5684405f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 21/75] fix: events of a closed link or timer reached its next
 user, and a throwing handler lost other events

---
 src/app/common/reactor/Epoll.cpp | 35 ++++++++++++++++++++++++++++----
 src/app/common/reactor/Epoll.hpp |  2 ++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..9b2b712 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -11,6 +11,14 @@
 namespace app::reactor
 {
 
+struct Epoll::Batch
+{
+    struct epoll_event events[MAX_EVENTS];
+    int num;
+};
+
+thread_local Epoll::Batch* Epoll::batch = nullptr;
+
 Epoll::Epoll(unsigned id_)
     : id(id_)
 {
@@ -44,6 +52,14 @@ int Epoll::mod(FileDescriptorInterface& fd, int events)
 
 int Epoll::del(FileDescriptorInterface& fd)
 {
+    // Events which are fetched already must not reach whoever uses the object next
+    for (int n = 0; nullptr != batch && n < batch->num; ++n)
+    {
+        if (batch->events[n].data.ptr == &fd)
+        {
+            batch->events[n].data.ptr = nullptr;
+        }
+    }
     struct epoll_event ev;
     ev.events = 0;
     ev.data.ptr = &fd;
@@ -52,8 +68,8 @@ int Epoll::del(FileDescriptorInterface& fd)
 
 void Epoll::wait()
 {
-    struct epoll_event events[MAX_EVENTS];
-
+    Batch current;
+    struct epoll_event* const events = current.events;
     int nfds = ::epoll_wait(epollfd, events, MAX_EVENTS, DEFAULT_TIMEOUT);
     if (nfds == -1)
     {
@@ -61,15 +77,26 @@ void Epoll::wait()
         throw std::runtime_error("epoll_wait");
     }
 
+    current.num = nfds;
+    batch = &current;
     for (int n = 0; n < nfds; ++n)
     {
         if (events[n].data.ptr == nullptr)
         {
-            throw std::runtime_error("invalid ptr");
+            continue; // closed by a handler of this batch
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch(const std::exception& e)
+        {
+            // the other events are edge triggered and would be lost
+            LM(GEN, LE, "Event handler: %s", e.what());
+        }
     }
+    batch = nullptr;
 }
 
 } // namespace app::reactor
diff --git a/src/app/common/reactor/Epoll.hpp b/src/app/common/reactor/Epoll.hpp
index f30c311..6c7b885 100644
--- a/src/app/common/reactor/Epoll.hpp
+++ b/src/app/common/reactor/Epoll.hpp
@@ -32,6 +32,8 @@ private:
     static constexpr int DEFAULT_TIMEOUT = 1000;
 
     int epollfd;
+    struct Batch;
+    static thread_local Batch* batch;
 };
 
 } // namespace app::reactor
-- 
2.43.0


From ce446989eaa182464f140e7079c461db3c911dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:44 +0000
Subject: [PATCH 22/75] fix: a timer that could not be created was lost for
 ever

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 src/app/common/reactor/Timer.cpp   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index bfb2b7a..b14dd97 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch(const std::exception&)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..db62d8b 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 1eeaf3fd96b569612bb917dfc544a4cbc7b2dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 23/75] fix: a failed accept leaked the descriptor or left the
 link unusable

---
 src/app/common/reactor/Acceptor.cpp | 10 +++++++++-
 src/app/common/reactor/Link.cpp     |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..4c10cc9 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -128,7 +128,15 @@ void Acceptor::accept(LinkInterface& link)
         throw std::runtime_error("fcntl");
     }
 
-    link.setFileDescriptor(fd);
+    try
+    {
+        link.setFileDescriptor(fd);
+    }
+    catch(const std::exception&)
+    {
+        ::close(fd);
+        throw;
+    }
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 927fbd8..e17b7a5 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -30,7 +30,7 @@ Link::~Link()
 
 void Link::setFileDescriptor(int val)
 {
-    if (-1 != fd)
+    if (-1 != fd && -1 != val)
     {
         throw std::runtime_error("already connected");
     }
-- 
2.43.0


From 6566760ff3f1c1cc7a36dd89e7c74a17b545f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:49 +0000
Subject: [PATCH 24/75] fix: dropping a listener that is not listening
 terminated the process

---
 src/app/common/reactor/Acceptor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 4c10cc9..3dcfcfb 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -82,7 +82,8 @@ void Acceptor::close()
 {
     if (-1 == sfd)
     {
-        throw std::runtime_error("invalid sfd");
+        LM(GEN, LI, "sfd is closed");
+        return;
     }
     LM(GEN, LD, "Close");
     if (-1 == epoll.del(*this))
-- 
2.43.0


From 2f350f29d52c72242f8140233bc67564512afa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:51 +0000
Subject: [PATCH 25/75] fix: an address could not be listened on again for a
 minute after its connections were closed

---
 src/app/common/reactor/Acceptor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 3dcfcfb..c0169d5 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -50,6 +50,12 @@ void Acceptor::listen(LinkAddr const& address)
     {
         throw std::runtime_error("socket");
     }
+    int const enable = 1;
+    if (-1 == ::setsockopt(sfd, SOL_SOCKET, SO_REUSEADDR, &enable, sizeof(enable)))
+    {
+        LM(GEN, LW, "setsockopt errno: %d", errno);
+    }
+
     struct sockaddr_in addr;
     addr.sin_family = AF_INET;
     addr.sin_port = htons(ipv4port(address));
-- 
2.43.0


From 3cd62bfdd3b4274b0efea405cdf0dcf4c09c9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:55 +0000
Subject: [PATCH 26/75] fix: handlers could run after stop and while their
 components were destroyed

---
 src/app/common/reactor/Reactor.cpp        |  8 +++++++-
 src/app/common/reactor/ReactorManager.cpp |  6 ++----
 src/app/common/reactor/Thread.cpp         | 15 ++++++++++++++-
 src/app/common/reactor/Thread.hpp         |  3 +++
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b14dd97..8d4ca5d 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -39,6 +39,7 @@ Reactor::Reactor(Init const& init)
 
 Reactor::~Reactor()
 {
+    stop();
 }
 
 void Reactor::registerHandler(MsgId id, MsgHandler handler)
@@ -136,6 +137,11 @@ void Reactor::start()
 void Reactor::stop()
 {
     stopped = true;
+    event->send();
+    for (auto& thread : threads)
+    {
+        thread->join();
+    }
 }
 
 void Reactor::onFdEvent(uint64_t val)
@@ -145,7 +151,7 @@ void Reactor::onFdEvent(uint64_t val)
         return;
     }
 
-    for (uint64_t ev = 0; ev < val; ++ev)
+    for (uint64_t ev = 0; ev < val && not stopped; ++ev)
     {
         alignas(64) char localBuf[maxMsgSize];
         if (not msgMemStorage->pop(&localBuf[0]))
diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index a3454bd..19ef1b4 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -1,8 +1,6 @@
 #include "ReactorManager.hpp"
 
 #include <iostream>
-#include <chrono>
-#include <thread>
 
 #include "MsgInterface.hpp"
 #include "ReactorInterface.hpp"
@@ -18,6 +16,8 @@ ReactorManager::ReactorManager()
 
 ReactorManager::~ReactorManager()
 {
+    // the components must not be in use any more when they are destroyed
+    stop();
 }
 
 void ReactorManager::send(MsgInterface const& msg)
@@ -61,8 +61,6 @@ void ReactorManager::stop()
     {
         reactor->stop();
     }
-    using namespace std::chrono_literals;
-    std::this_thread::sleep_for(100ms);
 }
 
 
diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index 14d05be..9cd7909 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -23,6 +23,7 @@ static void* executer(void* args)
 Thread::Thread(uint64_t cpuMask_, ThreadHandler& handler_)
     : cpuMask(cpuMask_)
     , handler(handler_)
+    , started(false)
 {
     int result = pthread_attr_init(&attr);
     if (result != 0)
@@ -33,17 +34,28 @@ Thread::Thread(uint64_t cpuMask_, ThreadHandler& handler_)
 
 Thread::~Thread()
 {
+    join();
     int result = pthread_attr_destroy(&attr);
     if (result != 0)
     {
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
-    result = pthread_join(tid, nullptr);
+}
+
+void Thread::join()
+{
+    if (not started)
+    {
+        return;
+    }
+    int result = pthread_join(tid, nullptr);
     if (result != 0)
     {
         LM(GEN, LE, "pthread_join");
+        return;
     }
+    started = false;
 }
 
 void Thread::start()
@@ -60,6 +72,7 @@ void Thread::start()
     {
         throw std::runtime_error("pthread_create");
     }
+    started = true;
 
     if (0 == cpuMask)
     {
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index b35edf8..271daa2 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -18,10 +18,13 @@ public:
 
     void start();
 
+    void join();
+
 private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
     pthread_t tid;
+    bool started;
     pthread_attr_t attr;
 };
 
-- 
2.43.0


From 26757cc84ddeb22a205343343f8185a7940f2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:57 +0000
Subject: [PATCH 27/75] fix: sending to an unknown component modified the
 component table from any thread

---
 src/app/common/reactor/ReactorManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index 19ef1b4..3fd3063 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -22,13 +22,13 @@ ReactorManager::~ReactorManager()
 
 void ReactorManager::send(MsgInterface const& msg)
 {
-    auto& comp = components[msg.getCompId()];
-    if (nullptr == comp)
+    auto it = components.find(msg.getCompId());
+    if (it == components.end() || nullptr == it->second)
     {
         LM(GEN, LE, "Can not find component, compId=%zu", msg.getCompId());
         return;
     }
-    comp->getReactor().send(msg);
+    it->second->getReactor().send(msg);
 }
 
 void ReactorManager::addComponent(std::unique_ptr<ComponentInterface> comp)
-- 
2.43.0


From f7080f371fd866d1153803100c72510f1de11e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:12 +0000
Subject: [PATCH 28/75] fix: messages of almost or more than the maximum size
 overwrote the next message

---
 src/app/common/reactor/MsgMemStorage.cpp | 14 +++++++++++---
 src/app/common/reactor/MsgMemStorage.hpp |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..0f0c30f 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -11,7 +11,7 @@ MsgMemStorage::MsgMemStorage(std::size_t chunkSize_, std::size_t numChunks_)
     , freeIds(numChunks)
     , busyIds(numChunks)
 {
-    auto const totalMem = chunkSize * numChunks;
+    auto const totalMem = itemSize() * numChunks;
 
     mem = ::malloc(totalMem + 15);
 
@@ -30,8 +30,11 @@ MsgMemStorage::~MsgMemStorage()
 
 bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
+    if (len > chunkSize)
+    {
+        return false;
+    }
     std::lock_guard<std::mutex> guard(mutex);
-
     if (freeIds.empty())
     {
         return false;
@@ -63,7 +66,12 @@ bool MsgMemStorage::pop(void* data)
 
 void* MsgMemStorage::get(unsigned id)
 {
-    return (void*)((uintptr_t)ptr + chunkSize * id);
+    return (void*)((uintptr_t)ptr + itemSize() * id);
+}
+
+std::size_t MsgMemStorage::itemSize() const
+{
+    return (sizeof(Item) + chunkSize + 15) & ~(std::size_t)0x0F;
 }
 
 } // namespace app::reactor
diff --git a/src/app/common/reactor/MsgMemStorage.hpp b/src/app/common/reactor/MsgMemStorage.hpp
index 71b1d47..9b569d7 100644
--- a/src/app/common/reactor/MsgMemStorage.hpp
+++ b/src/app/common/reactor/MsgMemStorage.hpp
@@ -26,6 +26,7 @@ private:
         char data[];
     };
     void* get(unsigned);
+    std::size_t itemSize() const;
 
     std::size_t const chunkSize;
     std::size_t const numChunks;
-- 
2.43.0


From 59116e270d6271b881941788d5ca2c1cf31b6e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:48 +0000
Subject: [PATCH 29/75] fix: long log messages overflowed the buffer

---
 src/app/common/logger/Logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/logger/Logger.hpp b/src/app/common/logger/Logger.hpp
index 6c7f6f7..cd9e4d5 100644
--- a/src/app/common/logger/Logger.hpp
+++ b/src/app/common/logger/Logger.hpp
@@ -35,7 +35,7 @@ enum class LogLevel
     if (app::LogLevel::LM_LEVEL >= app::Logger::getInst().getTaskLogLevel(app::LogTask::LM_TASK)) \
     {\
         char temporary___[1024];\
-        sprintf(temporary___, __VA_ARGS__);\
+        snprintf(temporary___, sizeof(temporary___), __VA_ARGS__);\
         app::Logger::getInst().dispatch(temporary___, app::LogLevel::LM_LEVEL, app::LogTask::LM_TASK, __FILE__, __LINE__);\
     }\
 }
-- 
2.43.0


From dca399ad41d78d0583514ce2a7cecdbf8d2d450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:50 +0000
Subject: [PATCH 30/75] fix: a handler that releases its own timer, link or
 listener was destroyed while it ran

---
 src/app/common/reactor/Acceptor.cpp |  4 +++-
 src/app/common/reactor/Link.cpp     | 10 ++++++----
 src/app/common/reactor/Timer.cpp    |  4 +++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index c0169d5..e6b11e2 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -115,7 +115,9 @@ void Acceptor::onFileDescriptorEvent(int)
         LM(GEN, LW, "Handler is undefined");
         return;
     }
-    handler();
+    // the handler may release the acceptor
+    AcceptorHandler const current = handler;
+    current();
 }
 
 void Acceptor::accept(LinkInterface& link)
diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index e17b7a5..9a8ed55 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -155,10 +155,12 @@ void Link::onFileDescriptorEvent(int events)
         LM(GEN, LE, "Handler is undefined");
         return;
     }
+    // the handler may release the link
+    LinkHandler const current = handler;
     if (events & ~(EPOLLIN | EPOLLOUT))
     {
         close();
-        handler(LinkEvent::error);
+        current(LinkEvent::error);
         return;
     }
     if (events & EPOLLOUT)
@@ -167,11 +169,11 @@ void Link::onFileDescriptorEvent(int events)
         {
             LM(GEN, LE, "fd mod");
             close();
-            handler(LinkEvent::error);
+            current(LinkEvent::error);
             return;
         }
         int const connectedFd = fd;
-        handler(LinkEvent::connected);
+        current(LinkEvent::connected);
         if (not handler || connectedFd != fd)
         {
             return;
@@ -179,7 +181,7 @@ void Link::onFileDescriptorEvent(int events)
     }
     if (events & EPOLLIN)
     {
-        handler(LinkEvent::data);
+        current(LinkEvent::data);
     }
 }
 
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index db62d8b..6a77985 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -129,7 +129,9 @@ void Timer::onFileDescriptorEvent(int)
     }
     if (handler)
     {
-        handler();
+        // the handler may release the timer
+        TimerHandler const current = handler;
+        current();
     }
 }
 
-- 
2.43.0


From b3c11b86fe180919ee0589051660e818724bf5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 31/75] fix: data event of a link closed on connect could reach
 its next user

---
 src/app/common/reactor/Link.cpp | 6 ++++--
 src/app/common/reactor/Link.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 9a8ed55..d4bad22 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -17,6 +17,7 @@ namespace app::reactor
 Link::Link(EpollInterface& epoll_)
     : epoll(epoll_)
     , fd(-1)
+    , numClosed(0)
 {
 }
 
@@ -90,6 +91,7 @@ void Link::close()
         LM(GEN, LE, "close errno: %d", errno);
     }
     fd = -1;
+    ++numClosed;
 }
 
 void Link::release()
@@ -172,9 +174,9 @@ void Link::onFileDescriptorEvent(int events)
             current(LinkEvent::error);
             return;
         }
-        int const connectedFd = fd;
+        unsigned const connection = numClosed;
         current(LinkEvent::connected);
-        if (not handler || connectedFd != fd)
+        if (connection != numClosed)
         {
             return;
         }
diff --git a/src/app/common/reactor/Link.hpp b/src/app/common/reactor/Link.hpp
index 4566fea..35ca23f 100644
--- a/src/app/common/reactor/Link.hpp
+++ b/src/app/common/reactor/Link.hpp
@@ -38,6 +38,7 @@ private:
     EpollInterface& epoll;
     LinkHandler handler;
     int fd;
+    unsigned numClosed;
 };
 
 } // namespace app::reactor
-- 
2.43.0


From 09f407b6a16cfe86ed7549ecaa0eb2142caa0ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:04 +0000
Subject: [PATCH 32/75] fix: OPC UA buffer could be read and written out of its
 bounds and miscounted its data once some was read

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 24 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..4419893 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,8 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +19,19 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (head >= maxPacketLen)
+    {
+        throw std::runtime_error("SDU buffer is full");
+    }
     packet[head++] = val;
 }
 
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::runtime_error("SDU buffer has no more data");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
@@ -30,27 +40,27 @@ std::uint8_t OpcUaSduBuffer::read()
 
 std::uint8_t const* OpcUaSduBuffer::begin() const
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::begin()
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::end()
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint8_t const* OpcUaSduBuffer::end() const
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint32_t OpcUaSduBuffer::size() const
 {
-    return head;
+    return head - tail;
 }
 
 std::uint32_t OpcUaSduBuffer::capacity() const
@@ -60,6 +70,10 @@ std::uint32_t OpcUaSduBuffer::capacity() const
 
 void OpcUaSduBuffer::seek(std::uint32_t val)
 {
+    if (val > capacity())
+    {
+        throw std::runtime_error("SDU buffer is exceeded");
+    }
     head += val;
 }
 
-- 
2.43.0


From 88852be63a097a1fc18f70a7e03cc1768e64a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:16 +0000
Subject: [PATCH 33/75] fix: OPC UA lengths were trusted blindly, null arrays
 were refused and null strings kept the old content

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 12 ++++++++++++
 src/app/common/ua/common/OpcUaBinaryCodec.hpp |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..63c34cc 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -25,6 +26,14 @@ std::uint8_t OpcUaBinaryCodec::read()
     return buffer.read();
 }
 
+void OpcUaBinaryCodec::checkLength(std::int32_t len) const
+{
+    if (len < 0 || static_cast<std::uint32_t>(len) > buffer.size())
+    {
+        throw std::runtime_error("Length is invalid");
+    }
+}
+
 OpcUaSduBuffer& OpcUaBinaryCodec::buf()
 {
     return buffer;
@@ -257,8 +266,10 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
     s >> len;
     if (len == -1)
     {
+        val.clear();
         return s;
     }
+    s.checkLength(len);
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
@@ -327,6 +338,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
         val.clear();
         return s;
     }
+    s.checkLength(len);
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..c7129ba 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -69,6 +69,8 @@ public:
 
     std::uint8_t read();
 
+    void checkLength(std::int32_t) const;
+
     OpcUaSduBuffer& buf();
 
     OpcUaSduBuffer const& buf() const;
@@ -241,6 +243,13 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
     Int32 arrayLength;
     s >> arrayLength;
+    if (arrayLength == -1)
+    {
+        arr.clear();
+        return s;
+    }
+    s.checkLength(arrayLength); // an element takes one byte at least
+    arr.clear();
     arr.resize(arrayLength);
     for (auto& it : arr)
     {
-- 
2.43.0


From 51a06ac9dacbcc2b4dd3d078da6046e3821eb70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:04 +0000
Subject: [PATCH 34/75] fix: two-byte OPC UA node id kept the namespace of the
 decoded variable's old content

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 63c34cc..ab46f74 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -377,6 +377,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
 
         Byte identifier;
         s >> identifier;
+        nodeId.namespaceIndex = 0;
         emplace<UInt32>(nodeId.value) = identifier;
     }
     break;
-- 
2.43.0


From 9be589ba0cb0c18d6fbd8c65a1af0763aea7a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:14 +0000
Subject: [PATCH 35/75] fix: unknown OPC UA node id and variant encodings
 terminated the process or were taken as empty values

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index ab46f74..c91f4ac 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -411,7 +411,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("NodeId encoding is unknown");
     }
     return s;
 }
@@ -457,7 +457,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("NodeId has no value");
     }
     return s;
 }
@@ -785,7 +785,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("Variant type is unknown");
         }
         return s;
     }
@@ -906,8 +906,8 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         case DataTypeId::DataValue:
         case DataTypeId::Variant:
         case DataTypeId::DiagnosticInfo:
-            LM(GEN, LE, "Unexpected");
-        break;
+        default:
+            throw std::runtime_error("Variant type is not supported");
         };
     }
     return s;
-- 
2.43.0


From 034d35a46e72e2f08bfa92506f9a4317d7285cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 36/75] fix: OPC UA expanded node id put its flags in the first
 byte of the buffer, not in its own

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index c91f4ac..bd6dfd4 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -602,7 +602,10 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, XmlElement const&)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 {
-    uint8_t const& encodingMask = *s.buf().begin();
+    data.namespaceUri.reset();
+    data.serverIndex.reset();
+    s.checkLength(1);
+    uint8_t const encodingMask = *s.buf().begin();
     s >> data.nodeId;
     if (encodingMask & 0x80)
     {
@@ -617,16 +620,16 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 {
-    uint8_t& encodingMask = *s.buf().begin();
+    uint8_t* const encodingMask = s.buf().end();
     s << data.nodeId;
     if (data.encodingMask() & 0x1)
     {
-        encodingMask |= 0x80;
+        *encodingMask |= 0x80;
         s << data.namespaceUri;
     }
     if (data.encodingMask() & 0x2)
     {
-        encodingMask |= 0x40;
+        *encodingMask |= 0x40;
         s << data.serverIndex;
     }
     return s;
-- 
2.43.0


From af45f3b73af8cf96db9ba010474ad0f7efda2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:35 +0000
Subject: [PATCH 37/75] fix: decoded OPC UA values kept optional fields of the
 variable's old content

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index bd6dfd4..595c259 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -481,6 +481,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
 {
     Byte encodingMask;
     s >> encodingMask;
+    diagInfo = DiagnosticInfo{};
     if (encodingMask & 0x1)
     {
         s >> diagInfo.symbolicId;
@@ -563,6 +564,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, LocalizedText& lt)
 {
     Byte encodingMask;
     s >> encodingMask;
+    lt = LocalizedText{};
     if (encodingMask & 0x1)
     {
         s >> lt.locale;
@@ -639,6 +641,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExtensionObject& data)
 {
     Byte encodingMask;
     s >> data.nodeId >> encodingMask;
+    data.byteString.reset();
     switch (encodingMask)
     {
     case 0:
@@ -681,6 +684,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DataValue& data)
 {
     Byte encodingMask;
     s >> encodingMask;
+    data = DataValue{};
     if (encodingMask & 0x1)
     {
         s >> data.value;
@@ -743,6 +747,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
 {
     Byte encodingMask;
     s >> encodingMask;
+    variant = Variant{};
     if (0 == encodingMask)
     {
         return s;
-- 
2.43.0


From 5b8d851299c8cfe26fc04c26d448a129a041dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:17 +0000
Subject: [PATCH 38/75] fix: OPC UA diagnostic info and data value swapped two
 bits of their encoding masks

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp    | 16 ++++++++--------
 src/app/common/ua/common/types/DataValue.hpp     |  2 +-
 .../common/ua/common/types/DiagnosticInfo.hpp    |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 595c259..57de8e2 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -490,11 +490,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
     {
         s >> diagInfo.namespaceUri;
     }
-    if (encodingMask & 0x4)
+    if (encodingMask & 0x8)
     {
         s >> diagInfo.locale;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x4)
     {
         s >> diagInfo.localizedText;
     }
@@ -525,11 +525,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DiagnosticInfo const& diagInfo
     {
         s << diagInfo.namespaceUri;
     }
-    if (encodingMask & 0x4)
+    if (encodingMask & 0x8)
     {
         s << diagInfo.locale;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x4)
     {
         s << diagInfo.localizedText;
     }
@@ -697,11 +697,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DataValue& data)
     {
         s >> data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s >> data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s >> data.serverTimeStampt;
     }
@@ -728,11 +728,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DataValue const& data)
     {
         s << data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s << data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s << data.serverTimeStampt;
     }
diff --git a/src/app/common/ua/common/types/DataValue.hpp b/src/app/common/ua/common/types/DataValue.hpp
index 3e42eb2..66e73cb 100644
--- a/src/app/common/ua/common/types/DataValue.hpp
+++ b/src/app/common/ua/common/types/DataValue.hpp
@@ -31,8 +31,8 @@ struct DataValue : public StructType<DataTypeId::DataValue>
               value.value
             , status
             , sourceTimestampt
-            , sourcePicoSeconds
             , serverTimeStampt
+            , sourcePicoSeconds
             , serverPicoSeconds
         );
     }
diff --git a/src/app/common/ua/common/types/DiagnosticInfo.hpp b/src/app/common/ua/common/types/DiagnosticInfo.hpp
index bc81eb1..7e7b8ff 100644
--- a/src/app/common/ua/common/types/DiagnosticInfo.hpp
+++ b/src/app/common/ua/common/types/DiagnosticInfo.hpp
@@ -45,8 +45,8 @@ struct DiagnosticInfo : public StructType<DataTypeId::DiagnosticInfo>
         (
               symbolicId
             , namespaceUri
-            , locale
             , localizedText
+            , locale
             , additionalInfo
             , innerStatusCode
             , innerDiagnosticInfo
-- 
2.43.0


From e9ce6ad75a8f7cf1442c98c0860c885aa26a0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:31 +0000
Subject: [PATCH 39/75] fix: OPC UA xml element was not encoded at all

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 10 ++++++++--
 src/app/common/ua/common/types/XmlElement.hpp |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 57de8e2..5159ae3 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -592,13 +592,19 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, LocalizedText const& lt)
     return s;
 }
 
-OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, XmlElement&)
+OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, XmlElement& val)
 {
+    ByteString tmpl;
+    s >> tmpl;
+    val.val = std::move(tmpl.val);
     return s;
 }
 
-OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, XmlElement const&)
+OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, XmlElement const& val)
 {
+    ByteString tmpl;
+    tmpl.val = val.val;
+    s << tmpl;
     return s;
 }
 
diff --git a/src/app/common/ua/common/types/XmlElement.hpp b/src/app/common/ua/common/types/XmlElement.hpp
index 8b375f9..fdf5f72 100644
--- a/src/app/common/ua/common/types/XmlElement.hpp
+++ b/src/app/common/ua/common/types/XmlElement.hpp
@@ -5,6 +5,9 @@
 namespace app::ua
 {
 
-using XmlElement = NumericType<DataTypeId::XmlElement, std::uint8_t>;
+struct XmlElement : public StringType<DataTypeId::XmlElement>
+{
+    using StringType::StringType;
+};
 
 } // namespace app::ua
-- 
2.43.0


From 690bd3ebe98caeccbebec05a48a4be282720f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:47 +0000
Subject: [PATCH 40/75] fix: OPC UA variant lost array dimensions, refused most
 arrays and compared absent dimensions

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 83 +++++++++++++++++++
 src/app/common/ua/common/types/Variant.hpp    |  5 +-
 2 files changed, 86 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 5159ae3..0c0250b 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -798,9 +798,88 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<DynamicArray<UInt32>>();
         }
         break;
+        case DataTypeId::Int64:
+        {
+            s >> variant.emplace<DynamicArray<Int64>>();
+        }
+        break;
+        case DataTypeId::UInt64:
+        {
+            s >> variant.emplace<DynamicArray<UInt64>>();
+        }
+        break;
+        case DataTypeId::Float:
+        {
+            s >> variant.emplace<DynamicArray<Float>>();
+        }
+        break;
+        case DataTypeId::Double:
+        {
+            s >> variant.emplace<DynamicArray<Double>>();
+        }
+        break;
+        case DataTypeId::String:
+        {
+            s >> variant.emplace<DynamicArray<String>>();
+        }
+        break;
+        case DataTypeId::DateTime:
+        {
+            s >> variant.emplace<DynamicArray<DateTime>>();
+        }
+        break;
+        case DataTypeId::Guid:
+        {
+            s >> variant.emplace<DynamicArray<Guid>>();
+        }
+        break;
+        case DataTypeId::ByteString:
+        {
+            s >> variant.emplace<DynamicArray<ByteString>>();
+        }
+        break;
+        case DataTypeId::XmlElement:
+        {
+            s >> variant.emplace<DynamicArray<XmlElement>>();
+        }
+        break;
+        case DataTypeId::NodeId:
+        {
+            s >> variant.emplace<DynamicArray<NodeId>>();
+        }
+        break;
+        case DataTypeId::ExpandedNodeId:
+        {
+            s >> variant.emplace<DynamicArray<ExpandedNodeId>>();
+        }
+        break;
+        case DataTypeId::StatusCode:
+        {
+            s >> variant.emplace<DynamicArray<StatusCode>>();
+        }
+        break;
+        case DataTypeId::QualifiedName:
+        {
+            s >> variant.emplace<DynamicArray<QualifiedName>>();
+        }
+        break;
+        case DataTypeId::LocalizedText:
+        {
+            s >> variant.emplace<DynamicArray<LocalizedText>>();
+        }
+        break;
+        case DataTypeId::ExtensionObject:
+        {
+            s >> variant.emplace<DynamicArray<ExtensionObject>>();
+        }
+        break;
         default:
             throw std::runtime_error("Variant type is unknown");
         }
+        if (encodingMask & 0x40)
+        {
+            s >> variant.arrayDimensions;
+        }
         return s;
     }
     else
@@ -939,6 +1018,10 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Variant const& variant)
     {
         s << arg;
     }, *variant.value);
+    if (encodingMask & 0x40)
+    {
+        s << variant.arrayDimensions;
+    }
     return s;
 }
 
diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 9db8968..641b0d5 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -92,14 +92,15 @@ struct Variant : public StructType<DataTypeId::Variant>
         {
             cmpValue = not (this->value || rhs.value);
         }
-        bool cmpArrayDimensions = *this->arrayDimensions == *rhs.arrayDimensions;
+        bool cmpArrayDimensions = this->arrayDimensions == rhs.arrayDimensions;
         return cmpValue && cmpArrayDimensions;
     }
     std::uint8_t encodingMask() const
     {
         // see type Value
         auto toDataTypeId = [](auto val) { return val < 22 ? val + 1 : ((val - 21) | 0x80); };
-        return value ? toDataTypeId(value->index()) : 0;
+        std::uint8_t const mask = value ? toDataTypeId(value->index()) : 0;
+        return (mask & 0x80) && arrayDimensions ? mask | 0x40 : mask;
     }
     template <typename T, typename...ARGS>
     T& emplace(ARGS...args)
-- 
2.43.0


From 7ada00602e76fc74556b72cef2523f83dd7b947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:32 +0000
Subject: [PATCH 41/75] fix: OPC UA frames that arrived joined or split closed
 the connection or stayed unread

---
 .../ua/transport/server/UaTcpConnection.cpp   | 62 +++++++++----------
 .../server/UaTcpConnectionConnected.cpp       | 33 +++++-----
 .../server/UaTcpConnectionReceiveHello.cpp    |  1 +
 3 files changed, 47 insertions(+), 49 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..3af0d4a 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -175,44 +175,38 @@ void UaTcpConnection::receivePreaction()
 
 UaTcpConnection::Result UaTcpConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rxBuffer.size() > 1024)
+    // data is reported once: read until the frame is complete or nothing is left
+    while (true)
     {
-        LM(UATL, LE, "Uid-%u, received packet is invalid", connectionId);
-        return Result::error;
-    }
-
-    auto const& result = link->receive(rxBuffer.end(), rxBuffer.capacity());
-    switch (result.status)
-    {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Result::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Result::error;
-    }
-
-    rxBuffer.seek(result.len);
-
-    if (rxBuffer.size() < messageHeaderSize)
-    {
-        return Result::noerror;
-    }
+        std::uint32_t frameSize = messageHeaderSize;
+        if (rxBuffer.size() >= messageHeaderSize)
+        {
+            frameSize = getMsgSizeFromHdr(rxBuffer.begin());
+            if (frameSize < messageHeaderSize || frameSize > rxBuffer.size() + rxBuffer.capacity())
+            {
+                LM(UATL, LE, "Uid-%u, packet has invalid size", connectionId);
+                return Result::error;
+            }
+            if (rxBuffer.size() == frameSize)
+            {
+                return Result::done;
+            }
+        }
 
-    if (rxBuffer.size() < getMsgSizeFromHdr(rxBuffer.begin()))
-    {
-        return Result::noerror;
-    }
+        auto const& result = link->receive(rxBuffer.end(), frameSize - rxBuffer.size());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+        break;
+        case reactor::LinkResult::na:
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
 
-    if (rxBuffer.size() != getMsgSizeFromHdr(rxBuffer.begin()))
-    {
-        LM(UATL, LE, "Uid-%u, packet has invalid size", connectionId);
-        return Result::error;
+        rxBuffer.seek(result.len);
     }
-
-    return Result::done;
 }
 
 UaTcpConnection::Result UaTcpConnection::receiveHello()
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0157c5c..e96290e 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -14,22 +14,25 @@ void UaTcpConnectionConnected::onEnter(UaTcpConnection& fsm)
 
 void UaTcpConnectionConnected::onDataReceived(UaTcpConnection& fsm)
 {
-    switch (fsm.receiveSecuredMessage())
+    while (true)
     {
-    case UaTcpConnection::Result::noerror:
-    break;
-    case UaTcpConnection::Result::done:
-    {
-        fsm.startTimer(opcUaTcpReceiveTimeout);
-        fsm.receivePreaction();
-    }
-    break;
-    case UaTcpConnection::Result::error:
-    {
-        fsm.sendUaConnectionReleaseInd();
-        fsm.transit<UaTcpConnectionInit>();
-    }
-    break;
+        switch (fsm.receiveSecuredMessage())
+        {
+        case UaTcpConnection::Result::noerror:
+            return;
+        case UaTcpConnection::Result::done:
+        {
+            fsm.startTimer(opcUaTcpReceiveTimeout);
+            fsm.receivePreaction();
+        }
+        break;
+        case UaTcpConnection::Result::error:
+        {
+            fsm.sendUaConnectionReleaseInd();
+            fsm.transit<UaTcpConnectionInit>();
+        }
+        return;
+        }
     }
 }
 
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..dfb814c 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -22,6 +22,7 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     case UaTcpConnection::Result::done:
     {
         fsm.transit<UaTcpConnectionConnected>();
+        fsm.getState().onDataReceived(fsm);
     }
     break;
     case UaTcpConnection::Result::error:
-- 
2.43.0


From d8fd7c993a2373e7cf7b946d35bf2e3b3fa7c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:36 +0000
Subject: [PATCH 42/75] fix: OPC UA connection acknowledged any first message
 and kept failed connections until a timeout

---
 src/app/ua/transport/server/UaTcpConnection.cpp   | 15 +++++++++++----
 .../transport/server/UaTcpConnectionConnected.cpp |  6 ++++++
 .../transport/server/UaTcpConnectionConnected.hpp |  2 ++
 .../server/UaTcpConnectionReceiveHello.cpp        |  5 +++++
 .../server/UaTcpConnectionReceiveHello.hpp        |  2 ++
 5 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 3af0d4a..a85beb0 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -136,7 +136,15 @@ void UaTcpConnection::acceptLink(reactor::LinkPtr& link_)
             getState().onConnected(*this);
         break;
         case reactor::LinkEvent::data:
-            getState().onDataReceived(*this);
+            try
+            {
+                getState().onDataReceived(*this);
+            }
+            catch (std::exception const& e)
+            {
+                LM(UATL, LE, "Uid-%u, received packet is invalid: %s", connectionId, e.what());
+                getState().onError(*this);
+            }
         break;
         case reactor::LinkEvent::error:
             getState().onError(*this);
@@ -221,13 +229,12 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
+    if (not isMsgHello(rxBuffer.begin()))
     {
         LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
         return Result::error;
     }
-*/
+
     OpcUaBinaryCodec codec(rxBuffer);
 
     MessageHeader hdr;
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index e96290e..5c5f3c9 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -92,6 +92,12 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
     fsm.transit<UaTcpConnectionInit>();
 }
 
+void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)
+{
+    fsm.sendUaConnectionReleaseInd();
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
     fsm.sendUaConnectionReleaseInd();
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
index 2147924..cd71e85 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
@@ -24,6 +24,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaConnectionReleaseReq const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index dfb814c..d4fff09 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -33,6 +33,11 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     }
 }
 
+void UaTcpConnectionReceiveHello::onError(UaTcpConnection& fsm)
+{
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionReceiveHello::onTimer(UaTcpConnection& fsm)
 {
     fsm.transit<UaTcpConnectionInit>();
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..f100976 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From 874c442d4ec09ff859743e3f3dda3a5481a80f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:40 +0000
Subject: [PATCH 43/75] fix: big OPC UA frame overflowed the message it was
 copied to

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index a85beb0..8748897 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -4,6 +4,9 @@
 #include "OpcUaBinaryCodec.hpp"
 #include "UaTcpDefs.hpp"
 #include "UaTransportSender.hpp"
+#include "MaxMsgSize.hpp"
+
+#include <algorithm>
 
 namespace app::ua::transport
 {
@@ -298,6 +301,12 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
 
     LM(UATL, LD, "Uid-%u, receiveSecuredMessage: %s", connectionId, toString(msgType).c_str());
 
+    if (rxBuffer.size() > reactor::maxMsgSize - std::max({sizeof(MsgUaSecuredMessageReceiveInd), sizeof(MsgUaOpenSecureChannelReq), sizeof(MsgUaCloseSecureChannelReq)}))
+    {
+        LM(UATL, LE, "Uid-%u, packet is too big", connectionId);
+        return Result::error;
+    }
+
     switch (msgType)
     {
     case UaSecMsgType::msg:
-- 
2.43.0


From c57341287418f656e2c5a7f02c16cebfc46cc541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 44/75] fix: OPC UA connection was lost for ever when its timer
 could not be created

---
 src/app/ua/transport/server/UaTcpConnectionInit.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index c9a0801..9a19aa6 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -12,8 +12,17 @@ void UaTcpConnectionInit::onEnter(UaTcpConnection& fsm)
 
 void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.acceptLink(link);
-    fsm.allocTimer();
+    try
+    {
+        fsm.acceptLink(link);
+        fsm.allocTimer();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Can not accept: %s", e.what());
+        fsm.release();
+        return;
+    }
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 7d686f60196a670f7d0831ed27ed7019c9c2fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:41 +0000
Subject: [PATCH 45/75] fix: OPC UA channel renewal opened another channel and
 lost the first one

---
 src/app/ua/securechannel/UaSecureChannel.cpp             | 6 ++++++
 .../ua/securechannel/channel/UaServerSecureChannel.cpp   | 6 ++++++
 .../channel/UaServerSecureChannelEstablished.cpp         | 9 +++++++++
 .../channel/UaServerSecureChannelEstablished.hpp         | 1 +
 .../securechannel/channel/UaServerSecureChannelState.hpp | 2 ++
 src/app/ua/transport/server/UaTcpConnection.cpp          | 8 ++++++++
 src/app/ua/transport/server/UaTcpConnection.hpp          | 1 +
 7 files changed, 33 insertions(+)

diff --git a/src/app/ua/securechannel/UaSecureChannel.cpp b/src/app/ua/securechannel/UaSecureChannel.cpp
index 3742022..14eb088 100644
--- a/src/app/ua/securechannel/UaSecureChannel.cpp
+++ b/src/app/ua/securechannel/UaSecureChannel.cpp
@@ -25,6 +25,12 @@ void UaSecureChannel::receive(MsgUaSecureChannelConfigReq const&)
 
 void UaSecureChannel::receive(MsgUaOpenSecureChannelReq const& msg)
 {
+    if (0 != msg.secureChannelId)
+    {
+        auto& channel = serverSecureChannelPool.get(msg.secureChannelId);
+        channel.getState().onRenew(channel, msg);
+        return;
+    }
     UaSecureChannelId uid;
     if (not serverSecureChannelPool.alloc(uid))
     {
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..3938005 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -51,6 +51,12 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaOpenSecureChan
     UaOpenSecureChannelReqCont req;
     rxCodec >> req;
 
+    if (connectionId && (*connectionId != msgReq.connectionId || rxSeqHdr.sequenceNumber != (storedRxSequenceNumber + 1)))
+    {
+        LM(UASC, LE, "Uid-%u, unexpected renew", secureChannelId);
+        return Result::error;
+    }
+
     connectionId = msgReq.connectionId;
     storedRxSequenceNumber = rxSeqHdr.sequenceNumber;
     storedTokenId = ::rand() % 0x7FFFFFFF;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..5b97d94 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -5,6 +5,15 @@
 namespace app::ua::securechannel
 {
 
+void UaServerSecureChannelEstablished::onRenew(UaServerSecureChannel& fsm, MsgUaOpenSecureChannelReq const& msg)
+{
+    if (UaServerSecureChannel::Result::done != fsm.receive(msg))
+    {
+        fsm.sendUaConnectionReleaseReq(msg.connectionId);
+        fsm.transit<UaServerSecureChannelInit>();
+    }
+}
+
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
     fsm.receive(msg);
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp
index 2138d7a..3aa2cfe 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp
@@ -12,6 +12,7 @@ public:
 
     char const* name() const final { return "UaServerSecureChannelEstablished"; }
 
+    void onRenew(UaServerSecureChannel&, MsgUaOpenSecureChannelReq const&) final;
     void onReceive(UaServerSecureChannel&, MsgUaCloseSecureChannelReq const&) final;
     void onReceive(UaServerSecureChannel&, MsgUaAssociateSecureChannelReq const&) final;
     void onReceive(UaServerSecureChannel&, MsgUaConnectionReleaseInd const&) final;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelState.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannelState.hpp
index 43f8400..3aa6356 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelState.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelState.hpp
@@ -22,6 +22,8 @@ public:
 
     virtual void onReceive(UaServerSecureChannel&, MsgUaOpenSecureChannelReq const&) { LM(UASC, LE, "Unexpected"); }
 
+    virtual void onRenew(UaServerSecureChannel&, MsgUaOpenSecureChannelReq const&) { LM(UASC, LE, "Unexpected"); }
+
     virtual void onReceive(UaServerSecureChannel&, MsgUaCloseSecureChannelReq const&) { LM(UASC, LE, "Unexpected"); }
 
     virtual void onReceive(UaServerSecureChannel&, MsgUaAssociateSecureChannelReq const&) { LM(UASC, LE, "Unexpected"); }
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 8748897..de60161 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -159,6 +159,7 @@ void UaTcpConnection::acceptLink(reactor::LinkPtr& link_)
 void UaTcpConnection::release()
 {
     associatedSecureChannelId = {};
+    secureChannelRequested = false;
     link.reset();
     timer.reset();
     releaser.release(connectionId);
@@ -328,6 +329,13 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
     break;
     case UaSecMsgType::opn:
     {
+        // one channel per connection: the first request opens it, the others renew it
+        if (secureChannelRequested ? not associatedSecureChannelId || *associatedSecureChannelId != hdr.secureChannelId : 0 != hdr.secureChannelId)
+        {
+            LM(UATL, LE, "Uid-%u, unexpected secureChannelId", connectionId);
+            return Result::error;
+        }
+        secureChannelRequested = true;
         reactor::MsgStore<MsgUaOpenSecureChannelReq> msgStore;
         auto& msg = msgStore.getMsg();
         msg.connectionId = connectionId;
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..f93816f 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -60,6 +60,7 @@ private:
     reactor::TimerPtr timer;
     OpcUaSduBuffer rxBuffer;
     std::optional<UaSecureChannelId> associatedSecureChannelId;
+    bool secureChannelRequested{false};
 };
 
 } // namespace app::ua::transport
-- 
2.43.0


From dad459fbad76ad745ecd0833f15cbbda85cae82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 46/75] fix: malformed OPC UA message left its channel and
 connection open or lost the channel for ever

---
 .../channel/UaServerSecureChannel.hpp             | 15 +++++++++++++++
 .../channel/UaServerSecureChannelEstablished.cpp  |  6 +++---
 .../channel/UaServerSecureChannelInit.cpp         |  2 +-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..6857d2d 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,21 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    // a message that can not be decoded is an error
+    template <typename MSG>
+    Result tryReceive(MSG const& msg)
+    {
+        try
+        {
+            return receive(msg);
+        }
+        catch (std::exception const& e)
+        {
+            LM(UASC, LE, "Uid-%u, message is invalid: %s", secureChannelId, e.what());
+        }
+        return Result::error;
+    }
+
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 5b97d94..dae7060 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,7 +7,7 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onRenew(UaServerSecureChannel& fsm, MsgUaOpenSecureChannelReq const& msg)
 {
-    if (UaServerSecureChannel::Result::done != fsm.receive(msg))
+    if (UaServerSecureChannel::Result::done != fsm.tryReceive(msg))
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
         fsm.transit<UaServerSecureChannelInit>();
@@ -16,7 +16,7 @@ void UaServerSecureChannelEstablished::onRenew(UaServerSecureChannel& fsm, MsgUa
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
-    fsm.receive(msg);
+    fsm.tryReceive(msg);
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
 }
@@ -38,7 +38,7 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
-    if (UaServerSecureChannel::Result::done != fsm.receive(msg))
+    if (UaServerSecureChannel::Result::done != fsm.tryReceive(msg))
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
         fsm.transit<UaServerSecureChannelInit>();
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
index 6e19646..81ffb61 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
@@ -12,7 +12,7 @@ void UaServerSecureChannelInit::onEnter(UaServerSecureChannel& fsm)
 
 void UaServerSecureChannelInit::onReceive(UaServerSecureChannel& fsm, MsgUaOpenSecureChannelReq const& msg)
 {
-    if (UaServerSecureChannel::Result::done == fsm.receive(msg))
+    if (UaServerSecureChannel::Result::done == fsm.tryReceive(msg))
     {
         fsm.transit<UaServerSecureChannelEstablished>();
     }
-- 
2.43.0


From 3b5887e8f1c3c09ec1378dca98f626eb4aecc2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:48 +0000
Subject: [PATCH 47/75] fix: OPC UA channel was lost for ever when its
 connection ended while it was being opened

---
 .../securechannel/channel/UaServerSecureChannel.hpp |  1 +
 .../channel/UaServerSecureChannelEstablished.cpp    |  6 +++++-
 src/app/ua/transport/server/UaTcpConnection.cpp     | 13 ++++++++++++-
 src/app/ua/transport/server/UaTcpConnection.hpp     |  1 +
 src/app/ua/transport/server/UaTcpConnectionInit.cpp |  6 ++++++
 src/app/ua/transport/server/UaTcpConnectionInit.hpp |  2 ++
 .../server/UaTcpConnectionReceiveHello.cpp          |  6 ++++++
 .../server/UaTcpConnectionReceiveHello.hpp          |  2 ++
 8 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 6857d2d..dba7006 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -49,6 +49,7 @@ public:
         return Result::error;
     }
 
+    bool   isConnection(UaConnectionId id) const { return connectionId && *connectionId == id; }
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index dae7060..2f73732 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -26,8 +26,12 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+    {
+        return;
+    }
     fsm.transit<UaServerSecureChannelInit>();
 }
 
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index de60161..a7141a1 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -30,9 +30,14 @@ void UaTcpConnection::sendUaConnectionReleaseInd()
         LM(UATL, LE, "Uid-%u, Can not send UaConnectionReleaseInd, secure channel id is undefined", connectionId);
         return;
     }
+    sendUaConnectionReleaseInd(*associatedSecureChannelId);
+}
+
+void UaTcpConnection::sendUaConnectionReleaseInd(UaSecureChannelId secureChannelId)
+{
     reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
     msgStore.getMsg().connectionId = connectionId;
-    msgStore.getMsg().secureChannelId = *associatedSecureChannelId;
+    msgStore.getMsg().secureChannelId = secureChannelId;
     Sender::sendMsg(msgStore);
 }
 
@@ -70,6 +75,12 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (not secureChannelRequested)
+    {
+        // it was requested by an earlier user of this connection
+        sendUaConnectionReleaseInd(msg.secureChannelId);
+        return Result::done;
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index f93816f..992aa7a 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -51,6 +51,7 @@ public:
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
+    void sendUaConnectionReleaseInd(UaSecureChannelId);
 private:
 
     UaConnectionId const connectionId;
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index 9a19aa6..78bb3a3 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -10,6 +10,12 @@ void UaTcpConnectionInit::onEnter(UaTcpConnection& fsm)
     fsm.release();
 }
 
+void UaTcpConnectionInit::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    // the connection that requested the channel is gone
+    fsm.sendUaConnectionReleaseInd(msg.secureChannelId);
+}
+
 void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& link)
 {
     try
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.hpp b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
index 210adfa..3bc5f79 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
@@ -14,6 +14,8 @@ public:
 
     void onEnter(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onAcceptLink(UaTcpConnection&, reactor::LinkPtr&) final;
 };
 
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index d4fff09..016769f 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -13,6 +13,12 @@ void UaTcpConnectionReceiveHello::onEnter(UaTcpConnection& fsm)
     fsm.receivePreaction();
 }
 
+void UaTcpConnectionReceiveHello::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    // the connection that requested the channel is gone
+    fsm.sendUaConnectionReleaseInd(msg.secureChannelId);
+}
+
 void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
 {
     switch (fsm.receiveHello())
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index f100976..09f55bd 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -14,6 +14,8 @@ public:
 
     void onEnter(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onDataReceived(UaTcpConnection&) final;
 
     void onError(UaTcpConnection&) final;
-- 
2.43.0


From 6228906c7f10fa478f27c89daecfa3aeaaa06e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:07 +0000
Subject: [PATCH 48/75] fix: every unknown OPC UA service id took memory for
 ever

---
 src/app/ua/service/UaService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..555685e 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -49,14 +49,14 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto const serv = services.find(static_cast<DataTypeId>(serviceId));
+    if (services.end() == serv)
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    serv->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From 032565f08843e617602e3f883474bd92d7e8077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:13 +0000
Subject: [PATCH 49/75] fix: OPC UA session token was used as an unchecked
 index

---
 src/app/common/ua/common/UaEntityPool.hpp       | 2 +-
 src/app/ua/service/session/UaSessionService.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..9b822cd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *(pool.at(uid - 1));
     }
 
 private:
diff --git a/src/app/ua/service/session/UaSessionService.cpp b/src/app/ua/service/session/UaSessionService.cpp
index b3432e9..7b156ec 100644
--- a/src/app/ua/service/session/UaSessionService.cpp
+++ b/src/app/ua/service/session/UaSessionService.cpp
@@ -44,7 +44,7 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionRe
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaActivateSessionReq const& msg)
 {
     auto& nodeId = msg.requestHdr.authentificationToken;
-    if (std::holds_alternative<UInt32>(nodeId.value))
+    if (std::holds_alternative<UInt32>(nodeId.value) && 0 == nodeId.namespaceIndex)
     {
         EntityId uid = (std::get<UInt32>(nodeId.value));
         auto& session = sessionPool.get(uid);
@@ -59,7 +59,7 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaActivateSession
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCloseSessionReq const& msg)
 {
     auto& nodeId = msg.requestHdr.authentificationToken;
-    if (std::holds_alternative<UInt32>(nodeId.value))
+    if (std::holds_alternative<UInt32>(nodeId.value) && 0 == nodeId.namespaceIndex)
     {
         EntityId uid = (std::get<UInt32>(nodeId.value));
         auto& session = sessionPool.get(uid);
-- 
2.43.0


From 4083d2c63ee2ffae3bced93cc1dfbb2d690b2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:34 +0000
Subject: [PATCH 50/75] fix: OPC UA session could be first activated and closed
 by any channel

---
 src/app/ua/service/session/UaSession.cpp          |  7 +++++++
 src/app/ua/service/session/UaSession.hpp          |  2 ++
 src/app/ua/service/session/UaSessionActivated.cpp |  5 +++++
 src/app/ua/service/session/UaSessionCreated.cpp   | 10 ++++++++++
 4 files changed, 24 insertions(+)

diff --git a/src/app/ua/service/session/UaSession.cpp b/src/app/ua/service/session/UaSession.cpp
index f963565..c0a8433 100644
--- a/src/app/ua/service/session/UaSession.cpp
+++ b/src/app/ua/service/session/UaSession.cpp
@@ -26,8 +26,15 @@ void UaSession::release()
     sessionReleaser.release(sessionId);
 }
 
+bool UaSession::isSecureChannel(UaEncodedMessageHdr const& hdr) const
+{
+    return secureChannelId && *secureChannelId == hdr.secureChannelId;
+}
+
 UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionReq const& req)
 {
+    secureChannelId = hdr.secureChannelId;
+
     UaCreateSessionRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
     rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;
diff --git a/src/app/ua/service/session/UaSession.hpp b/src/app/ua/service/session/UaSession.hpp
index d9b0d0e..d35a0c8 100644
--- a/src/app/ua/service/session/UaSession.hpp
+++ b/src/app/ua/service/session/UaSession.hpp
@@ -25,6 +25,8 @@ public:
 
     void release();
 
+    bool isSecureChannel(UaEncodedMessageHdr const&) const;
+
     Result receive(UaEncodedMessageHdr const&, UaCreateSessionReq const&);
     Result receive(UaEncodedMessageHdr const&, UaActivateSessionReq const&);
     Result receive(UaEncodedMessageHdr const&, UaCloseSessionReq const&);
diff --git a/src/app/ua/service/session/UaSessionActivated.cpp b/src/app/ua/service/session/UaSessionActivated.cpp
index 51027ee..07ee3ab 100644
--- a/src/app/ua/service/session/UaSessionActivated.cpp
+++ b/src/app/ua/service/session/UaSessionActivated.cpp
@@ -12,6 +12,11 @@ void UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hd
 
 void UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr, UaCloseSessionReq const& req)
 {
+    if (not fsm.isSecureChannel(hdr))
+    {
+        LM(UASRV, LE, "Unexpected secure channel Id");
+        return;
+    }
     fsm.receive(hdr, req);
     fsm.transit<UaSessionInit>();
 }
diff --git a/src/app/ua/service/session/UaSessionCreated.cpp b/src/app/ua/service/session/UaSessionCreated.cpp
index b50b1fe..8e314f6 100644
--- a/src/app/ua/service/session/UaSessionCreated.cpp
+++ b/src/app/ua/service/session/UaSessionCreated.cpp
@@ -8,12 +8,22 @@ namespace app::ua::service
 
 void UaSessionCreated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr, UaActivateSessionReq const& req)
 {
+    if (not fsm.isSecureChannel(hdr))
+    {
+        LM(UASRV, LE, "Unexpected secure channel Id");
+        return;
+    }
     fsm.receive(hdr, req);
     fsm.transit<UaSessionActivated>();
 }
 
 void UaSessionCreated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr, UaCloseSessionReq const& req)
 {
+    if (not fsm.isSecureChannel(hdr))
+    {
+        LM(UASRV, LE, "Unexpected secure channel Id");
+        return;
+    }
     fsm.receive(hdr, req);
     fsm.transit<UaSessionInit>();
 }
-- 
2.43.0


From 0f6b51a5bcca5dfb25689d8e1ebe19cfd7bfe33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:20 +0000
Subject: [PATCH 51/75] fix: OPC UA answers were dropped when a session was
 activated while they were on the way

---
 src/app/ua/securechannel/channel/UaServerSecureChannel.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index 3938005..6ffe47e 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -225,11 +225,6 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessage
         LM(UASC, LE, "Uid-%u, unexpected connectionId", secureChannelId);
         return Result::error;
     }
-    if (sessionId && *sessionId != msgReq.hdr.sessionId)
-    {
-        LM(UASC, LE, "Uid-%u, unexpected sessionId", secureChannelId);
-        return Result::error;
-    }
 
     OpcUaSduBuffer tx;
 
-- 
2.43.0


From 7502d9d37f0e464d3c24254047d39fe688865197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:40 +0000
Subject: [PATCH 52/75] fix: answers of the OPC UA channel and service
 subsystems never reached the controller

---
 src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp  | 2 +-
 src/app/common/msg/MsgUaSecureChannelInitRsp.hpp    | 2 +-
 src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp | 2 +-
 src/app/common/msg/MsgUaServiceConfigRsp.hpp        | 2 +-
 src/app/common/msg/MsgUaServiceInitRsp.hpp          | 2 +-
 src/app/common/msg/MsgUaServiceReleaseRsp.hpp       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
index 95d09c2..820267b 100644
--- a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelConfigRsp>
+struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compController, MsgIds::uaSecureChannelConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
index 7ea60c3..fcc92e8 100644
--- a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelInitRsp>
+struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compController, MsgIds::uaSecureChannelInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
index a71c126..1fde3df 100644
--- a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelReleaseRsp>
+struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compController, MsgIds::uaSecureChannelReleaseRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceConfigRsp.hpp b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
index b325533..119a477 100644
--- a/src/app/common/msg/MsgUaServiceConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compUaSecChannel, MsgIds::uaServiceConfigRsp>
+struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compController, MsgIds::uaServiceConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceInitRsp.hpp b/src/app/common/msg/MsgUaServiceInitRsp.hpp
index 928aada..92c45c9 100644
--- a/src/app/common/msg/MsgUaServiceInitRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compUaSecChannel, MsgIds::uaServiceInitRsp>
+struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compController, MsgIds::uaServiceInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
index bdacea3..412c9ba 100644
--- a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaServiceReleaseRsp>
+struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compController, MsgIds::uaServiceReleaseRsp>
 {
 };
 
-- 
2.43.0


From ed9b67da228fb8fec39c9947235061e9c9e8f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:22 +0000
Subject: [PATCH 53/75] fix: OPC UA connection library rejected frames that
 arrived joined or split

---
 .../protocols/connection/ClientConnection.cpp |  1 +
 .../connection/ClientConnectionConnected.cpp  | 36 +++----
 .../connection/ClientConnectionReceiveAck.cpp |  1 +
 .../protocols/connection/OpcUaConnection.cpp  | 94 ++++++++++++-------
 .../protocols/connection/OpcUaConnection.hpp  |  5 +-
 .../protocols/connection/ServerConnection.cpp |  1 +
 .../connection/ServerConnectionConnected.cpp  | 36 +++----
 .../ServerConnectionReceiveHello.cpp          |  1 +
 8 files changed, 106 insertions(+), 69 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnection.cpp b/src/app/common/ua/protocols/connection/ClientConnection.cpp
index f5f274a..0d84910 100644
--- a/src/app/common/ua/protocols/connection/ClientConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnection.cpp
@@ -36,6 +36,7 @@ void ClientConnection::onLinkEvent(reactor::LinkEvent ev)
         getState().onConnected(*this);
     break;
     case reactor::LinkEvent::data:
+        dataReceived();
         getState().onDataReceived(*this);
     break;
     case reactor::LinkEvent::error:
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..9dfb26d 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -14,23 +14,27 @@ void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
 {
-    switch (fsm.receive())
+    // frames may have arrived together; the connection may get closed by the handler
+    while (&fsm.getState() == this)
     {
-    case OpcUaConnection::Result::noerror:
-    break;
-    case OpcUaConnection::Result::done:
-    {
-        fsm.notifyDataReceived();
-        fsm.receivePreaction();
-    }
-    break;
-    case OpcUaConnection::Result::error:
-    {
-        fsm.closeLink();
-        fsm.notifyError();
-        fsm.transit<ClientConnectionInit>();
-    }
-    break;
+        switch (fsm.receive())
+        {
+        case OpcUaConnection::Result::noerror:
+            return;
+        case OpcUaConnection::Result::done:
+        {
+            fsm.notifyDataReceived();
+            fsm.receivePreaction();
+        }
+        break;
+        case OpcUaConnection::Result::error:
+        {
+            fsm.closeLink();
+            fsm.notifyError();
+            fsm.transit<ClientConnectionInit>();
+        }
+        break;
+        }
     }
 }
 
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 8bc6483..f232879 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -21,6 +21,7 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     case OpcUaConnection::Result::done:
     {
         fsm.transit<ClientConnectionConnected>();
+        fsm.getState().onDataReceived(fsm);
     }
     break;
     case OpcUaConnection::Result::error:
diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index b98e635..8d79458 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -2,6 +2,8 @@
 #include "MessageHeader.hpp"
 #include "Logger.hpp"
 
+#include <algorithm>
+
 namespace app::ua
 {
 
@@ -40,6 +42,8 @@ void OpcUaConnection::releaseResources()
 {
     link.reset();
     timer.reset();
+    received.reset();
+    dataAvailable = false;
 }
 
 void OpcUaConnection::connectLink()
@@ -68,46 +72,64 @@ void OpcUaConnection::receivePreaction()
     rx.reset();
 }
 
-OpcUaConnection::Result OpcUaConnection::receive()
+void OpcUaConnection::dataReceived()
 {
-    // TODO REMOVE MN
-    if (rx.size() > 1024)
-    {
-        LM(UA, LW, "Received packet is invalid");
-        return Result::error;
-    }
-
-    auto const& result = link->receive(rx.end(), rx.capacity());
-    switch (result.status)
-    {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Result::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Result::error;
-    }
-
-    rx.seek(result.len);
-
-    if (rx.size() < messageHeaderSize)
-    {
-        return Result::noerror;
-    }
-
-    if (rx.size() < getMsgSizeFromHdr(rx.begin()))
-    {
-        return Result::noerror;
-    }
+    dataAvailable = true;
+}
 
-    if (rx.size() != getMsgSizeFromHdr(rx.begin()))
+OpcUaConnection::Result OpcUaConnection::receive()
+{
+    while (true)
     {
-        LM(UA, LW, "Packet has invalid size");
-        return Result::error;
+        std::uint32_t frameSize = messageHeaderSize;
+        if (rx.size() >= messageHeaderSize)
+        {
+            frameSize = getMsgSizeFromHdr(rx.begin());
+            if (frameSize < messageHeaderSize || frameSize > rx.size() + rx.capacity())
+            {
+                LM(UA, LW, "Packet has invalid size");
+                return Result::error;
+            }
+            if (rx.size() == frameSize)
+            {
+                return Result::done;
+            }
+        }
+
+        if (received.size() != 0)
+        {
+            for (auto num = std::min(frameSize - rx.size(), received.size()); num; --num)
+            {
+                rx.write(received.read());
+            }
+            continue;
+        }
+
+        if (not dataAvailable)
+        {
+            return Result::noerror;
+        }
+
+        received.reset();
+        auto const capacity = received.capacity();
+        auto const& result = link->receive(received.end(), capacity);
+
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+        break;
+        case reactor::LinkResult::na:
+            dataAvailable = false;
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
+
+        received.seek(result.len);
+        // data is reported once: there may be more if the buffer was filled
+        dataAvailable = static_cast<std::uint32_t>(result.len) == capacity;
     }
-
-    return Result::done;
 }
 
 void OpcUaConnection::startTimer(long timeout)
diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.hpp b/src/app/common/ua/protocols/connection/OpcUaConnection.hpp
index 8fa1162..b476812 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.hpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.hpp
@@ -83,6 +83,7 @@ protected:
     void closeLink();
 
     void receivePreaction();
+    void dataReceived();
 
     Result receive();
 
@@ -103,7 +104,9 @@ private:
     reactor::LinkAddr addr;
     reactor::LinkPtr link;
     reactor::TimerPtr timer;
-    OpcUaSduBuffer rx;
+    OpcUaSduBuffer rx;          // one frame
+    OpcUaSduBuffer received;    // what was read behind it
+    bool dataAvailable{false};
     OpcUaConnectionHandler& handler;
 };
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnection.cpp b/src/app/common/ua/protocols/connection/ServerConnection.cpp
index 3c91233..ec85d35 100644
--- a/src/app/common/ua/protocols/connection/ServerConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnection.cpp
@@ -42,6 +42,7 @@ void ServerConnection::onLinkEvent(reactor::LinkEvent ev)
         getState().onConnected(*this);
     break;
     case reactor::LinkEvent::data:
+        dataReceived();
         getState().onDataReceived(*this);
     break;
     case reactor::LinkEvent::error:
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..87c07d0 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -14,23 +14,27 @@ void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
 {
-    switch (fsm.receive())
+    // frames may have arrived together; the connection may get closed by the handler
+    while (&fsm.getState() == this)
     {
-    case OpcUaConnection::Result::noerror:
-    break;
-    case OpcUaConnection::Result::done:
-    {
-        fsm.notifyDataReceived();
-        fsm.receivePreaction();
-    }
-    break;
-    case OpcUaConnection::Result::error:
-    {
-        fsm.closeLink();
-        fsm.notifyError();
-        fsm.transit<ServerConnectionInit>();
-    }
-    break;
+        switch (fsm.receive())
+        {
+        case OpcUaConnection::Result::noerror:
+            return;
+        case OpcUaConnection::Result::done:
+        {
+            fsm.notifyDataReceived();
+            fsm.receivePreaction();
+        }
+        break;
+        case OpcUaConnection::Result::error:
+        {
+            fsm.closeLink();
+            fsm.notifyError();
+            fsm.transit<ServerConnectionInit>();
+        }
+        break;
+        }
     }
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index d000581..399a403 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -30,6 +30,7 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
         case OpcUaConnection::Result::done:
         {
             fsm.transit<ServerConnectionConnected>();
+            fsm.getState().onDataReceived(fsm);
         }
         break;
         case OpcUaConnection::Result::error:
-- 
2.43.0


From 5ef39f308026c52c3fe0ccabc88970b5e9a1a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:55 +0000
Subject: [PATCH 54/75] fix: OPC UA connection library did not report a lost
 link

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp   | 6 ++++++
 .../ua/protocols/connection/ClientConnectionConnected.hpp   | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp  | 2 ++
 .../ua/protocols/connection/ServerConnectionConnected.cpp   | 6 ++++++
 .../ua/protocols/connection/ServerConnectionConnected.hpp   | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp   | 6 ++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp   | 2 ++
 8 files changed, 32 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 9dfb26d..ddd0bb8 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -44,6 +44,12 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnected::onError(ClientConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
index 7429905..5a98495 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index f232879..d70994d 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -34,6 +34,12 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 3e11196..5dcb312 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index 87c07d0..d0bb565 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -44,6 +44,12 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnected::onError(ServerConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
index 4e8cdec..16af096 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index 399a403..f1e432e 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -53,6 +53,12 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
+{
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 827c39b..e45c686 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From 816662a696cd9afebd4fef3f7ab991748f338fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:59 +0000
Subject: [PATCH 55/75] fix: OPC UA connection library kept a connection with a
 malformed frame

---
 .../ua/protocols/connection/ClientConnection.cpp       | 10 +++++++++-
 .../ua/protocols/connection/ServerConnection.cpp       | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnection.cpp b/src/app/common/ua/protocols/connection/ClientConnection.cpp
index 0d84910..bf22142 100644
--- a/src/app/common/ua/protocols/connection/ClientConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnection.cpp
@@ -37,7 +37,15 @@ void ClientConnection::onLinkEvent(reactor::LinkEvent ev)
     break;
     case reactor::LinkEvent::data:
         dataReceived();
-        getState().onDataReceived(*this);
+        try
+        {
+            getState().onDataReceived(*this);
+        }
+        catch (std::exception const& e)
+        {
+            LM(UA, LE, "received packet is invalid: %s", e.what());
+            getState().onError(*this);
+        }
     break;
     case reactor::LinkEvent::error:
         getState().onError(*this);
diff --git a/src/app/common/ua/protocols/connection/ServerConnection.cpp b/src/app/common/ua/protocols/connection/ServerConnection.cpp
index ec85d35..a1717cc 100644
--- a/src/app/common/ua/protocols/connection/ServerConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnection.cpp
@@ -43,7 +43,15 @@ void ServerConnection::onLinkEvent(reactor::LinkEvent ev)
     break;
     case reactor::LinkEvent::data:
         dataReceived();
-        getState().onDataReceived(*this);
+        try
+        {
+            getState().onDataReceived(*this);
+        }
+        catch (std::exception const& e)
+        {
+            LM(UA, LE, "received packet is invalid: %s", e.what());
+            getState().onError(*this);
+        }
     break;
     case reactor::LinkEvent::error:
         getState().onError(*this);
-- 
2.43.0


From 4545f6406daa15cd1104ad85562b8d6ea34d9e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:01 +0000
Subject: [PATCH 56/75] fix: OPC UA connection library crashed when it was
 closed on being established

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp       | 2 +-
 .../ua/protocols/connection/ServerConnectionConnected.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index ddd0bb8..cadc35e 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index d0bb565..d346f93 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
-- 
2.43.0


From 11228012964dfb338f2812d1bfc655686922a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:04 +0000
Subject: [PATCH 57/75] fix: OPC UA connection library ignored a new connection
 made on an error

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp | 6 +++---
 .../protocols/connection/ClientConnectionConnecting.cpp   | 6 +++---
 .../protocols/connection/ClientConnectionReceiveAck.cpp   | 6 +++---
 .../ua/protocols/connection/ServerConnectionConnected.cpp | 6 +++---
 .../protocols/connection/ServerConnectionConnecting.cpp   | 6 +++---
 .../protocols/connection/ServerConnectionReceiveHello.cpp | 8 ++++----
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index cadc35e..cde93c8 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -30,8 +30,8 @@ void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
         case OpcUaConnection::Result::error:
         {
             fsm.closeLink();
-            fsm.notifyError();
             fsm.transit<ClientConnectionInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -46,15 +46,15 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
 
 void ClientConnectionConnected::onError(ClientConnection& fsm)
 {
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyClosed();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyClosed();
 }
 
 void ClientConnectionConnected::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index c4a38e6..2c03b4e 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -30,8 +30,8 @@ void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -40,16 +40,16 @@ void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
 void ClientConnectionConnecting::onError(ClientConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnecting::onTimer(ClientConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnecting::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index d70994d..3eab1bf 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -27,8 +27,8 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -36,15 +36,15 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
 
 void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
 {
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionReceiveAck::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index d346f93..2d6e680 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -30,8 +30,8 @@ void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
         case OpcUaConnection::Result::error:
         {
             fsm.closeLink();
-            fsm.notifyError();
             fsm.transit<ServerConnectionInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -46,15 +46,15 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
 
 void ServerConnectionConnected::onError(ServerConnection& fsm)
 {
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyClosed();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyClosed();
 }
 
 void ServerConnectionConnected::onExit(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 7390b3c..d7961cb 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -29,8 +29,8 @@ void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -39,16 +39,16 @@ void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
 void ServerConnectionConnecting::onError(ServerConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnecting::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnecting::onExit(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index f1e432e..4ce4393 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -36,8 +36,8 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
         case OpcUaConnection::Result::error:
         {
             fsm.closeLink();
-            fsm.notifyError();
             fsm.transit<ServerConnectionInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -46,8 +46,8 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -55,16 +55,16 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
 
 void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
 {
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionReceiveHello::onExit(ServerConnection& fsm)
-- 
2.43.0


From 402e53c522af67c2fb8f9b595537e267fe727bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:07 +0000
Subject: [PATCH 58/75] fix: OPC UA connection library crashed when sending
 without a connection

---
 src/app/common/ua/protocols/connection/OpcUaConnection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index 8d79458..ed4b061 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -58,6 +58,12 @@ void OpcUaConnection::closeLink()
 
 OpcUaConnection::Result OpcUaConnection::send(OpcUaSduBuffer const& tx)
 {
+    if (not link)
+    {
+        LM(UA, LE, "not connected");
+        return Result::error;
+    }
+
     int rc = link->send(tx.begin(), tx.size());
     if (rc <= 0)
     {
-- 
2.43.0


From 33ef2784c3dbadd85f9f906e303ca5c4144cdd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:09 +0000
Subject: [PATCH 59/75] fix: OPC UA connection library ignored close before it
 was established

---
 .../ua/protocols/connection/ClientConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionConnecting.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp  | 2 ++
 .../ua/protocols/connection/ServerConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ServerConnectionConnecting.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp   | 6 ++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp   | 2 ++
 8 files changed, 32 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index 2c03b4e..27b149a 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -44,6 +44,12 @@ void ClientConnectionConnecting::onError(ClientConnection& fsm)
     fsm.notifyError();
 }
 
+void ClientConnectionConnecting::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnecting::onTimer(ClientConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
index b2690a3..24731d6 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 3eab1bf..9a76ac1 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -40,6 +40,12 @@ void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
     fsm.notifyError();
 }
 
+void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 5dcb312..9628454 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -18,6 +18,8 @@ public:
 
     void onError(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index d7961cb..6c83683 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -43,6 +43,12 @@ void ServerConnectionConnecting::onError(ServerConnection& fsm)
     fsm.notifyError();
 }
 
+void ServerConnectionConnecting::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnecting::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
index dcb1a11..527d58d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index 4ce4393..9b58a61 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -59,6 +59,12 @@ void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
     fsm.notifyError();
 }
 
+void ServerConnectionReceiveHello::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index e45c686..02db3f5 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -18,6 +18,8 @@ public:
 
     void onError(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From e03fd25e87876d83236edc74ae3eed28a8854f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:43 +0000
Subject: [PATCH 60/75] fix: OPC UA connection library kept resources of a
 failed connect without reporting it

---
 .../connection/ClientConnectionConnecting.cpp | 13 +++++++--
 .../connection/ClientConnectionInit.cpp       | 14 ++++++++--
 .../connection/ServerConnectionConnecting.cpp | 13 +++++++--
 .../connection/ServerConnectionInit.cpp       | 28 ++++++++++++++++---
 4 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index 27b149a..981c85a 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -8,8 +8,17 @@ namespace app::ua
 
 void ClientConnectionConnecting::onEnter(ClientConnection& fsm)
 {
-    fsm.connectLink();
-    fsm.startTimer(ClientConnection::connectTimeout);
+    try
+    {
+        fsm.connectLink();
+        fsm.startTimer(ClientConnection::connectTimeout);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LE, "can not connect: %s", e.what());
+        fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
+    }
 }
 
 void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
index b02911e..17ecdf7 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
@@ -13,8 +13,18 @@ void ClientConnectionInit::onEnter(ClientConnection& fsm)
 void ClientConnectionInit::onConnect(ClientConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LE, "can not connect: %s", e.what());
+        fsm.releaseResources();
+        fsm.notifyError();
+        return;
+    }
     fsm.transit<ClientConnectionConnecting>();
 }
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 6c83683..1ac372b 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -8,8 +8,17 @@ namespace app::ua
 
 void ServerConnectionConnecting::onEnter(ServerConnection& fsm)
 {
-    fsm.connectLink();
-    fsm.startTimer(ServerConnection::connectTimeout);
+    try
+    {
+        fsm.connectLink();
+        fsm.startTimer(ServerConnection::connectTimeout);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LE, "can not connect: %s", e.what());
+        fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
+    }
 }
 
 void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index e1b0626..9d9c77d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -14,15 +14,35 @@ void ServerConnectionInit::onEnter(ServerConnection& fsm)
 void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr const& addr)
 {
     fsm.setLinkAddr(addr);
-    fsm.allocLink();
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocLink();
+        fsm.allocTimer();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LE, "can not connect: %s", e.what());
+        fsm.releaseResources();
+        fsm.notifyError();
+        return;
+    }
     fsm.transit<ServerConnectionConnecting>();
 }
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.setLink(link);
-    fsm.allocTimer();
+    try
+    {
+        fsm.setLink(link);
+        fsm.allocTimer();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LE, "can not accept: %s", e.what());
+        fsm.releaseResources();
+        fsm.notifyError();
+        return;
+    }
     fsm.transit<ServerConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 6372069d5d473393d9310e2a55b96d12d12b6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:52 +0000
Subject: [PATCH 61/75] fix: OPC UA secure channel library took messages of
 other channels and renewals out of sequence

---
 .../secure/OpcUaServerSecureChannel.cpp       | 19 ++++++++++++++++++-
 .../secure/OpcUaServerSecureChannel.hpp       |  2 +-
 .../OpcUaServerSecureChannelEstablished.cpp   |  2 +-
 ...OpcUaServerSecureChannelReceiveOpenReq.cpp |  2 +-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 06f022c..0138e26 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -80,7 +80,7 @@ void OpcUaServerSecureChannel::closeConnection()
     connection.close();
 }
 
-OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq()
+OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq(bool renew)
 {
     OpcUaBinaryCodec codec(connection.getRxBuffer());
 
@@ -93,6 +93,11 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq
     UaSequenceHeader seqHdr;
     codec >> seqHdr;
 
+    if (renew && (hdr.secureChannelId != secureChannelId || seqHdr.sequenceNumber != (storedRxSequenceNumber + 1)))
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, unexpected renew");
+        return Result::error;
+    }
     storedRxSequenceNumber = seqHdr.sequenceNumber;
     storedRequestId = seqHdr.requestId;
 
@@ -111,6 +116,12 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveCloseSecureChannelRe
     UaMessageHeader hdr;
     codec >> hdr;
 
+    if (hdr.secureChannelId != secureChannelId)
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, unexpected secureChannelId");
+        return Result::error;
+    }
+
     UaSecurityTokenHeader secHdr;
     codec >> secHdr;
 
@@ -139,6 +150,12 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
     UaMessageHeader hdr;
     codec >> hdr;
 
+    if (hdr.secureChannelId != secureChannelId)
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, unexpected secureChannelId");
+        return Result::error;
+    }
+
     UaSecurityTokenHeader secHdr;
     codec >> secHdr;
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
index c56c24a..cc6f579 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
@@ -45,7 +45,7 @@ private:
 
     void acceptConnection(reactor::LinkPtr&);
     void closeConnection();
-    Result receiveOpenSecureChannelReq();
+    Result receiveOpenSecureChannelReq(bool renew);
     Result receiveCloseSecureChannelReq();
     Result receiveSecureChannelReq();
     Result sendOpenSecureChannelRsp();
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
index 2c10e61..cd8ff04 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
@@ -7,7 +7,7 @@ namespace app::ua
 
 void OpcUaServerSecureChannelEstablished::onOpenSecureChannelReq(OpcUaServerSecureChannel& fsm)
 {
-    switch (fsm.receiveOpenSecureChannelReq())
+    switch (fsm.receiveOpenSecureChannelReq(true))
     {
     case OpcUaSecureChannel::Result::noerror:
     break;
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
index ec44244..d15ec42 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
@@ -8,7 +8,7 @@ namespace app::ua
 
 void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerSecureChannel& fsm)
 {
-    switch (fsm.receiveOpenSecureChannelReq())
+    switch (fsm.receiveOpenSecureChannelReq(false))
     {
     case OpcUaSecureChannel::Result::noerror:
     break;
-- 
2.43.0


From e8fbd5dfe45236ce69fc4a80086fc96928dd4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:56 +0000
Subject: [PATCH 62/75] fix: OPC UA secure channel library answered an open
 request without its handle

---
 src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp | 2 ++
 src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 0138e26..859dba3 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -104,6 +104,7 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveOpenSecureChannelReq
     UaOpenSecureChannelReqCont req;
     codec >> req;
 
+    storedRequestHandle = req.msg.requestHdr.requestHandle;
     storedRequestedLifetime = req.msg.requestLifetime;
 
     return Result::done;
@@ -243,6 +244,7 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::sendOpenSecureChannelRsp()
 
     UaOpenSecureChannelRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
+    rsp.msg.responseHdr.requestHandle = storedRequestHandle;
     rsp.msg.serverProtocolVer = opcUaProtocolVersion;
     rsp.msg.securityToken.secureChannelId = secureChannelId;
     rsp.msg.securityToken.tokenId = tokenId;
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
index cc6f579..3b8acce 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
@@ -57,6 +57,7 @@ private:
     std::uint32_t sequenceNumberTx{1};
     std::uint32_t storedRxSequenceNumber;
     std::uint32_t storedRequestId;
+    std::uint32_t storedRequestHandle;
     std::uint32_t storedRequestedLifetime;
     std::uint32_t tokenId;
 };
-- 
2.43.0


From 4753c0f667f364ebfb7ee664cd7384c094932aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 63/75] fix: OPC UA secure channel library lost events while it
 changed its state

---
 .../secure/OpcUaServerSecureChannelConnecting.cpp  |  4 ++--
 .../secure/OpcUaServerSecureChannelEstablished.cpp | 14 +++++++-------
 .../secure/OpcUaServerSecureChannelInit.cpp        |  2 +-
 .../OpcUaServerSecureChannelReceiveOpenReq.cpp     |  8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp
index bd593e7..328b468 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp
@@ -13,14 +13,14 @@ void OpcUaServerSecureChannelConnecting::onConnected(OpcUaServerSecureChannel& f
 
 void OpcUaServerSecureChannelConnecting::onClosed(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyClosed();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyClosed();
 }
 
 void OpcUaServerSecureChannelConnecting::onError(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyError();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyError();
 }
 
 } // namespace app::ua
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
index cd8ff04..f69346d 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
@@ -22,9 +22,9 @@ void OpcUaServerSecureChannelEstablished::onOpenSecureChannelReq(OpcUaServerSecu
         case OpcUaSecureChannel::Result::noerror:
         case OpcUaSecureChannel::Result::error:
         {
-            fsm.notifyError();
             fsm.closeConnection();
             fsm.transit<OpcUaServerSecureChannelInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -32,9 +32,9 @@ void OpcUaServerSecureChannelEstablished::onOpenSecureChannelReq(OpcUaServerSecu
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -48,16 +48,16 @@ void OpcUaServerSecureChannelEstablished::onCloseSecureChannelReq(OpcUaServerSec
     break;
     case OpcUaSecureChannel::Result::done:
     {
-        fsm.notifyClosed();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyClosed();
     }
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -76,9 +76,9 @@ void OpcUaServerSecureChannelEstablished::onSecureChannelReq(OpcUaServerSecureCh
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -86,14 +86,14 @@ void OpcUaServerSecureChannelEstablished::onSecureChannelReq(OpcUaServerSecureCh
 
 void OpcUaServerSecureChannelEstablished::onClosed(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyClosed();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyClosed();
 }
 
 void OpcUaServerSecureChannelEstablished::onError(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyError();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyError();
 }
 
 } // namespace app::ua
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.cpp
index 6379459..47d2d0b 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.cpp
@@ -7,8 +7,8 @@ namespace app::ua
 
 void OpcUaServerSecureChannelInit::onOpen(OpcUaServerSecureChannel& fsm, reactor::LinkPtr& link)
 {
-    fsm.acceptConnection(link);
     fsm.transit<OpcUaServerSecureChannelConnecting>();
+    fsm.acceptConnection(link);
 }
 
 } // namespace app::ua
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
index d15ec42..df013e8 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
@@ -24,9 +24,9 @@ void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerS
         case OpcUaSecureChannel::Result::noerror:
         case OpcUaSecureChannel::Result::error:
         {
-            fsm.notifyError();
             fsm.closeConnection();
             fsm.transit<OpcUaServerSecureChannelInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -34,9 +34,9 @@ void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerS
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -44,14 +44,14 @@ void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerS
 
 void OpcUaServerSecureChannelReceiveOpenReq::onClosed(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyClosed();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyClosed();
 }
 
 void OpcUaServerSecureChannelReceiveOpenReq::onError(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyError();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyError();
 }
 
 } // namespace app::ua
-- 
2.43.0


From e98c93f5b4b97e0fbb133df96f4621faf1cc17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 64/75] fix: OPC UA secure channel library ignored unexpected
 messages

---
 .../ua/protocols/secure/OpcUaServerSecureChannel.cpp      | 4 +++-
 .../ua/protocols/secure/OpcUaServerSecureChannelState.hpp | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 859dba3..9ccf569 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -4,6 +4,8 @@
 #include "OpcUaProtocolDefs.hpp"
 #include "TimeUtils.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -39,7 +41,7 @@ void OpcUaServerSecureChannel::onConnectionDataReceivedEvent()
     }
     else
     {
-        LM(UA, LE, "OpcUaServerSecureChannel-0, unexpected packet type");
+        throw std::runtime_error("unexpected packet type");
     }
 }
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp
index b391738..c4a830e 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp
@@ -3,6 +3,8 @@
 #include "Logger.hpp"
 #include "OpcUaConnection.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -21,11 +23,11 @@ public:
 
     virtual void onClosed(OpcUaServerSecureChannel&) { LM(UA, LE, "Unexpected"); }
 
-    virtual void onOpenSecureChannelReq(OpcUaServerSecureChannel&) { LM(UA, LE, "Unexpected"); }
+    virtual void onOpenSecureChannelReq(OpcUaServerSecureChannel&) { throw std::runtime_error("unexpected packet"); }
 
-    virtual void onCloseSecureChannelReq(OpcUaServerSecureChannel&) { LM(UA, LE, "Unexpected"); }
+    virtual void onCloseSecureChannelReq(OpcUaServerSecureChannel&) { throw std::runtime_error("unexpected packet"); }
 
-    virtual void onSecureChannelReq(OpcUaServerSecureChannel&) { LM(UA, LE, "Unexpected"); }
+    virtual void onSecureChannelReq(OpcUaServerSecureChannel&) { throw std::runtime_error("unexpected packet"); }
 
     virtual void onError(OpcUaServerSecureChannel&) { LM(UA, LE, "Unexpected"); }
 
-- 
2.43.0


From 17b33ce0362fc77367309bf42c06f8cef68a4dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:22 +0000
Subject: [PATCH 65/75] fix: OPC UA secure channel library never reported that
 a channel is open

---
 .../protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
index df013e8..576c90a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
@@ -19,6 +19,7 @@ void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerS
         case OpcUaSecureChannel::Result::done:
         {
             fsm.transit<OpcUaServerSecureChannelEstablished>();
+            fsm.notifyEstablished();
         }
         break;
         case OpcUaSecureChannel::Result::noerror:
-- 
2.43.0


From 6ffd08af3b7945e1fbfd6811a5a8413a290eacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:40 +0000
Subject: [PATCH 66/75] fix: OPC UA secure channel library overflowed its
 buffer and ignored failures when sending

---
 .../secure/OpcUaServerSecureChannel.cpp       | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 9ccf569..bee6377 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -1,5 +1,6 @@
 #include "OpcUaServerSecureChannel.hpp"
 #include "OpcUaServerSecureChannelInit.hpp"
+#include "OpcUaServerSecureChannelEstablished.hpp"
 #include "OpcUaBinaryCodec.hpp"
 #include "OpcUaProtocolDefs.hpp"
 #include "TimeUtils.hpp"
@@ -184,6 +185,12 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
 
 void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
 {
+    if (&getState() != &app::getSingleton<OpcUaServerSecureChannelEstablished>())
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, channel is not open");
+        return;
+    }
+
     OpcUaSduBuffer tx;
     OpcUaBinaryCodec codec(tx);
 
@@ -200,10 +207,15 @@ void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
     codec << secHdr;
 
     UaSequenceHeader seqHdr;
-    seqHdr.sequenceNumber = sequenceNumberTx++;
+    seqHdr.sequenceNumber = sequenceNumberTx;
     seqHdr.requestId = storedRequestId;
     codec << seqHdr;
 
+    if (buf.size() > tx.capacity())
+    {
+        throw std::runtime_error("message is too big");
+    }
+    ++sequenceNumberTx;
     std::memcpy(tx.end(), buf.begin(), buf.size());
     tx.seek(buf.size());
 
@@ -215,7 +227,11 @@ void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
     break;
     case OpcUaConnection::Result::noerror:
     case OpcUaConnection::Result::error:
-    {}
+    {
+        closeConnection();
+        transit<OpcUaServerSecureChannelInit>();
+        notifyError();
+    }
     break;
     }
 }
-- 
2.43.0


From 9a3fe9d657e65c9008d620e4ae21e468d641b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:43 +0000
Subject: [PATCH 67/75] fix: OPC UA secure channel library ignored close

---
 .../ua/protocols/secure/OpcUaServerSecureChannel.cpp       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index bee6377..427bbf0 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -63,7 +63,12 @@ void OpcUaServerSecureChannel::open(reactor::LinkPtr& link)
 
 void OpcUaServerSecureChannel::close()
 {
-    //getState().onClosed(*this);
+    if (&getState() == &app::getSingleton<OpcUaServerSecureChannelInit>())
+    {
+        return;
+    }
+    closeConnection();
+    transit<OpcUaServerSecureChannelInit>();
 }
 
 OpcUaSduBuffer& OpcUaServerSecureChannel::getRxBuffer()
-- 
2.43.0


From 64816d549d82f4f9272c7f26174234b2d0f4cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 68/75] fix: OPC UA secure channel library took its states of
 other units for different ones

---
 .../common/ua/protocols/secure/OpcUaServerSecureChannel.cpp   | 4 ++--
 .../protocols/secure/OpcUaServerSecureChannelEstablished.hpp  | 2 ++
 .../ua/protocols/secure/OpcUaServerSecureChannelInit.hpp      | 2 ++
 .../ua/protocols/secure/OpcUaServerSecureChannelState.hpp     | 4 ++++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 427bbf0..24bae72 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -63,7 +63,7 @@ void OpcUaServerSecureChannel::open(reactor::LinkPtr& link)
 
 void OpcUaServerSecureChannel::close()
 {
-    if (&getState() == &app::getSingleton<OpcUaServerSecureChannelInit>())
+    if (getState().isIdle())
     {
         return;
     }
@@ -190,7 +190,7 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
 
 void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
 {
-    if (&getState() != &app::getSingleton<OpcUaServerSecureChannelEstablished>())
+    if (not getState().isOpen())
     {
         LM(UA, LE, "OpcUaServerSecureChannel-0, channel is not open");
         return;
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.hpp
index 3fd5cd8..3fdf31a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.hpp
@@ -12,6 +12,8 @@ public:
 
     char const* name() const final { return "OpcUaServerSecureChannelEstablished"; }
 
+    bool isOpen() const final { return true; }
+
     void onOpenSecureChannelReq(OpcUaServerSecureChannel&) final;
 
     void onCloseSecureChannelReq(OpcUaServerSecureChannel&) final;
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.hpp
index 47d6890..69c3faf 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelInit.hpp
@@ -12,6 +12,8 @@ public:
 
     char const* name() const final { return "OpcUaServerSecureChannelInit"; }
 
+    bool isIdle() const final { return true; }
+
     void onOpen(OpcUaServerSecureChannel&, reactor::LinkPtr&) final;
 };
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp
index c4a830e..d2110ac 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelState.hpp
@@ -17,6 +17,10 @@ public:
 
     virtual char const* name() const = 0;
 
+    virtual bool isIdle() const { return false; }
+
+    virtual bool isOpen() const { return false; }
+
     virtual void onConnected(OpcUaServerSecureChannel&) { LM(UA, LE, "Unexpected"); }
 
     virtual void onOpen(OpcUaServerSecureChannel&, reactor::LinkPtr&) { LM(UA, LE, "Unexpected"); }
-- 
2.43.0


From 78ed1f07993b745cf3319bd9941c5f702641f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:04 +0000
Subject: [PATCH 69/75] fix: controller crashed on a stop request while stopped

---
 src/app/controller/ControllerComponent.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..6397a80 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,10 +49,16 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
-    modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
-    opcUa.reset();
+    if (modbus)
+    {
+        modbus->receive(req);
+        modbus.reset();
+    }
+    if (opcUa)
+    {
+        opcUa->getState().onReceive(*opcUa, req);
+        opcUa.reset();
+    }
 }
 
 void ControllerComponent::receive(MsgModbusInitRsp const& rsp)
-- 
2.43.0


From c44bae642860f564c8607db4a64db5f090453f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 70/75] fix: controller did not release Modbus when stopped
 while configuring it

---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..35af8db 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -2,6 +2,7 @@
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
 #include "ModbusTestRun.hpp"
+#include "ModbusTestInit.hpp"
 
 namespace app::controller
 {
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..2fc21af 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -16,6 +16,8 @@ public:
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
 
+    void onStop(ModbusTestFsm&) final;
+
 private:
     /* data */
 };
-- 
2.43.0


From ef3b70539825faa1f1ad356c9372777ecb3cc8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:34 +0000
Subject: [PATCH 71/75] fix: controller accessed Modbus test data out of bounds
 for requests of other clients

---
 .../controller/modbus/ModbusTestController.cpp    | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..a787fb4 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -341,6 +341,21 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
 
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    if (req.transactId >= testCases.size()
+        || req.startItem * 2u + std::max<unsigned>(req.numItems * 2u, req.numBytes) > testCases[req.transactId].rsp.data.size())
+    {
+        reactor::MsgStore<MsgModbusAduRsp> msgStore;
+        MsgModbusAduRsp& rsp = msgStore.getMsg();
+        rsp.serverId = req.serverId;
+        rsp.sessionId = req.sessionId;
+        rsp.transactId = req.transactId;
+        rsp.error = ModbusError::illegalDataAddress;
+        rsp.status = MsgStatus::success;
+        rsp.numBytes = 0;
+        Sender::sendMsg(msgStore);
+        return Result::done;
+    }
+
     auto& it = testCases[req.transactId];
 
     switch (req.func)
-- 
2.43.0


From 861b36b06abad06e0a75c06fca5a487ee147ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:52 +0000
Subject: [PATCH 72/75] fix: Queue writes elements its vector does not have

Room was reserved but no element existed, so every access was out of
bounds (builds with library assertions end at once).
---
 src/app/common/utils/Queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/utils/Queue.hpp b/src/app/common/utils/Queue.hpp
index b947c6f..f529f2f 100644
--- a/src/app/common/utils/Queue.hpp
+++ b/src/app/common/utils/Queue.hpp
@@ -19,7 +19,7 @@ public:
         , begin(0)
         , end(0)
     {
-        data.reserve(capacity);
+        data.resize(capacity);
     }
     ~Queue()
     {}
-- 
2.43.0


From 4c5f305690908a874fe7f2c34d11d59234dd012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:24 +0000
Subject: [PATCH 73/75] fix: Modbus decoding read bytes of short frames that
 were never received

A frame whose length field covers no function code (or no header of a
multiple write) was judged by whatever the receive buffer held.
---
 src/app/modbus/ModbusCodec.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 222c0d9..6eac423 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -184,6 +184,11 @@ bool ModbusCodec::decode(AduRequest& adu)
         return false;
     }
     uint16_t const pktLen = buf.readBe();
+    if (pktLen < 3) // address, function and at least one byte
+    {
+        LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+        return false;
+    }
     adu.addr = buf.read();
     if (std::min(adu.addr, maxAddr) != adu.addr || std::max(adu.addr, minAddr) != adu.addr)
     {
@@ -238,6 +243,11 @@ bool ModbusCodec::decode(AduRequest& adu)
     break;
     case ModbusFunction::presetMultipleRegisters:
     {
+        if (pktLen < 7)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.startItem = buf.readBe();
         adu.numItems = buf.readBe();
         adu.numBytes = buf.read();
@@ -389,6 +399,11 @@ bool ModbusCodec::decode(AduRespond& adu)
         return false;
     }
     uint16_t const pktLen = buf.readBe();
+    if (pktLen < 3) // address, function and at least one byte
+    {
+        LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+        return false;
+    }
     adu.addr = buf.read();
     unsigned const func = buf.read();
     adu.func = fromUint8<ModbusFunction>(func & ~exceptionFlag);
-- 
2.43.0


From 3d7333b49a3a60c32ff44755530ba99097d9bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 74/75] fix: Modbus server sent the late answer to an earlier
 request to whoever used its session and transaction id next

---
 src/app/modbus/server/ModbusServer.cpp          |  9 ++-------
 src/app/modbus/server/ModbusServer.hpp          |  2 --
 src/app/modbus/server/session/ModbusSession.cpp | 11 ++++++++++-
 src/app/modbus/server/session/ModbusSession.hpp |  2 ++
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index 9fdec64..c6d14c6 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -12,7 +12,7 @@ namespace app::modbus
 ModbusServer::ModbusServer(Init const& init)
     : id(init.id)
     , addr(init.addr)
-    , sessionPool(*this, maxNumSession)
+    , sessionPool(*this, ModbusSession::maxNumSession)
 {
 }
 
@@ -39,12 +39,7 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
-    if (rsp.sessionId >= maxNumSession)
-    {
-        LM(MODBUS, LE, "Server-%u, invalid sessionId, %u", id, rsp.sessionId);
-        return;
-    }
-    sessionPool.get(rsp.sessionId).receive(rsp);
+    sessionPool.get(rsp.sessionId % ModbusSession::maxNumSession).receive(rsp);
 }
 
 void ModbusServer::onAcceptEvent()
diff --git a/src/app/modbus/server/ModbusServer.hpp b/src/app/modbus/server/ModbusServer.hpp
index f70d460..04a34eb 100644
--- a/src/app/modbus/server/ModbusServer.hpp
+++ b/src/app/modbus/server/ModbusServer.hpp
@@ -37,8 +37,6 @@ public:
 
 private:
 
-    static constexpr unsigned maxNumSession = 256;
-
     void onAcceptEvent();
 
     void onReleaseSession(ModbusSession::Uid) final;
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 477974d..5a22404 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -13,6 +13,7 @@ namespace app::modbus
 
 ModbusSession::ModbusSession(ModbusSessionHandler& handler_, Uid uid_)
     : uid(uid_)
+    , requestId(uid_)
     , fsm(*this)
     , handler(handler_)
     , storedAdu(&storedAduBuf[0])
@@ -128,7 +129,9 @@ Result ModbusSession::receive()
     MsgModbusAduReq& req = msgStore.getMsg();
 
     req.serverId = serverId;
-    req.sessionId = uid;
+    // each request gets another id: the answer to an earlier one may still be on the way
+    requestId += maxNumSession;
+    req.sessionId = requestId;
     req.transactId = storedAdu.transactId;
     req.func = storedAdu.func;
     req.addr = storedAdu.addr;
@@ -143,6 +146,12 @@ Result ModbusSession::receive()
 
 Result ModbusSession::send(MsgModbusAduRsp const& rsp)
 {
+    if (rsp.sessionId != requestId)
+    {
+        LM(MODBUS, LE, "Session-%u, answer to an earlier request", uid);
+        return Result::noerror;
+    }
+
     if (rsp.transactId != storedAdu.transactId)
     {
         LM(MODBUS, LE, "Session-%u, transactId is unexpected %u vs %u"
diff --git a/src/app/modbus/server/session/ModbusSession.hpp b/src/app/modbus/server/session/ModbusSession.hpp
index b9bd1f8..d91e90a 100644
--- a/src/app/modbus/server/session/ModbusSession.hpp
+++ b/src/app/modbus/server/session/ModbusSession.hpp
@@ -58,6 +58,7 @@ public:
 
     void releaseSession();
 
+    static constexpr unsigned maxNumSession = 256;
     static constexpr long inactiveTimeout = 30000000;
     static constexpr long aduRspTimeout = 5000000;
 
@@ -68,6 +69,7 @@ private:
     void onTimerEvent();
 
     Uid const uid;
+    EntityId requestId;
     EntityId serverId;
     ModbusSessionFsm fsm;
     ModbusSessionHandler &handler;
-- 
2.43.0


From 206ac5ca0d146db79ba5ba586be4c49dbf77cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 75/75] fix: messages for an OPC UA connection, channel or
 session that had ended hit the next one with the same id

---
 src/app/common/ua/common/UaEntityPool.hpp     | 26 +++++++++++++++++--
 .../channel/UaServerSecureChannel.hpp         |  4 ++-
 src/app/ua/service/session/UaSession.hpp      |  4 ++-
 .../ua/transport/server/UaTcpConnection.hpp   |  4 ++-
 src/app/ua/transport/server/UaTcpServer.cpp   | 10 +++++++
 5 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 9b822cd..5a8e234 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -2,6 +2,7 @@
 
 #include <vector>
 #include <memory>
+#include <stdexcept>
 
 #include "Queue.hpp"
 #include "EntityId.hpp"
@@ -27,6 +28,7 @@ public:
         {
             pool.push_back(std::make_unique<ENTITY>(uid + 1, others...));
             ids.push(uid + 1);
+            uids.push_back(uid + 1);
         }
     }
 
@@ -40,6 +42,8 @@ public:
         }
         uid = ids.front();
         ids.pop();
+        uids[slot(uid)] = uid;
+        pool[slot(uid)]->setUid(uid);
         LM(UA, LD, "Alloc %s uid=%u", name, uid);
         return true;
     }
@@ -47,17 +51,35 @@ public:
     void release(EntityId uid)
     {
         LM(UA, LD, "Release %s uid=%u", name, uid);
-        ids.push(uid);
+        // the next user of the entity gets another id: messages for this one may still be on the way
+        ids.push(uid < maxUid ? uid + capacity : slot(uid) + 1);
+    }
+
+    bool contains(EntityId uid) const
+    {
+        return uids[slot(uid)] == uid;
     }
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool.at(uid - 1));
+        if (not contains(uid))
+        {
+            throw std::out_of_range("entity is not in use");
+        }
+        return *pool[slot(uid)];
     }
 
 private:
+    static constexpr EntityId maxUid = 0x7FFFFFFF - 2 * capacity;
+
+    static unsigned slot(EntityId uid)
+    {
+        return (uid - 1) % capacity;
+    }
+
     const char* name;
     std::vector<std::unique_ptr<ENTITY>> pool;
+    std::vector<EntityId> uids;
     app::Queue<EntityId> ids;
 };
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index dba7006..e58d431 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -28,6 +28,8 @@ public:
 
     ~UaServerSecureChannel();
 
+    void setUid(EntityId uid) { secureChannelId = uid; }
+
     Result receive(MsgUaOpenSecureChannelReq const&);
     Result receive(MsgUaCloseSecureChannelReq const&);
     Result receive(MsgUaAssociateSecureChannelReq const&);
@@ -61,7 +63,7 @@ private:
     Result receiveCloseSecureChannelReq();
     Result receiveSecureChannelReq();
 
-    UaSecureChannelId const secureChannelId;
+    UaSecureChannelId secureChannelId;
     reactor::ReactorInterface& reactor;
     ReleaserInterface& releaser;
 
diff --git a/src/app/ua/service/session/UaSession.hpp b/src/app/ua/service/session/UaSession.hpp
index d35a0c8..8cd7887 100644
--- a/src/app/ua/service/session/UaSession.hpp
+++ b/src/app/ua/service/session/UaSession.hpp
@@ -23,6 +23,8 @@ public:
 
     ~UaSession();
 
+    void setUid(EntityId uid) { sessionId = uid; }
+
     void release();
 
     bool isSecureChannel(UaEncodedMessageHdr const&) const;
@@ -34,7 +36,7 @@ public:
 
 private:
 
-    UaSessionId const sessionId;
+    UaSessionId sessionId;
     std::optional<UaSecureChannelId> secureChannelId;
     ReleaserInterface& sessionReleaser;
 };
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 992aa7a..fc7dc42 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -34,6 +34,8 @@ public:
 
     ~UaTcpConnection();
 
+    void setUid(EntityId uid) { connectionId = uid; }
+
     Result receive(MsgUaOpenSecureChannelRsp const&);
     Result receive(MsgUaCloseSecureChannelRsp const&);
     Result receive(MsgUaSecuredMessageSendReq const&);
@@ -54,7 +56,7 @@ public:
     void sendUaConnectionReleaseInd(UaSecureChannelId);
 private:
 
-    UaConnectionId const connectionId;
+    UaConnectionId connectionId;
     reactor::ReactorInterface& reactor;
     ReleaserInterface& releaser;
     reactor::LinkPtr link;
diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index 926c0d9..56e4f11 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -1,4 +1,5 @@
 #include "UaTcpServer.hpp"
+#include "UaTransportSender.hpp"
 #include "Logger.hpp"
 
 namespace app::ua::transport
@@ -17,6 +18,15 @@ UaTcpServer::~UaTcpServer()
 
 void UaTcpServer::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (not connectionPool.contains(msg.connectionId))
+    {
+        // the connection that requested the channel is gone
+        reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
+        msgStore.getMsg().connectionId = msg.connectionId;
+        msgStore.getMsg().secureChannelId = msg.secureChannelId;
+        Sender::sendMsg(msgStore);
+        return;
+    }
     auto& connection = connectionPool.get(msg.connectionId);
     connection.getState().onReceive(connection, msg);
 }
-- 
2.43.0


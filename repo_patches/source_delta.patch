From 4d5379fd58c5254ca8f708278e25cc06d04b51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:06 +0000
Subject: [PATCH 01/28] fix: CircularBuffer usage count overflows for
 capacities above 127

---
 src/CircularBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CircularBuffer.h b/src/CircularBuffer.h
index ba4bc4b..e9d8454 100644
--- a/src/CircularBuffer.h
+++ b/src/CircularBuffer.h
@@ -133,7 +133,7 @@ void CircularBuffer<E>::clear()
 template <typename E>
 uint8_t CircularBuffer<E>::bufUse()
 {
-  int8_t size = capacity;
+  int size = capacity;
   if (!full)
   {
     size = head - tail;
-- 
2.43.0


From 421b0458977148e934780d4eaf2807834b644e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:21 +0000
Subject: [PATCH 02/28] fix: reject writes to node variable index 0

---
 src/NodeVariableService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NodeVariableService.cpp b/src/NodeVariableService.cpp
index bab8fff..4656311 100644
--- a/src/NodeVariableService.cpp
+++ b/src/NodeVariableService.cpp
@@ -90,7 +90,7 @@ void NodeVariableService::handleSetNV(const VlcbMessage *msg, unsigned int nn)
     }
 
     Configuration *module_config = controller->getModuleConfig();
-    if (msg->data[3] > module_config->EE_NUM_NVS)
+    if (msg->data[3] == 0 || msg->data[3] > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
@@ -120,7 +120,7 @@ void NodeVariableService::handleSetAndReadNV(const VlcbMessage *msg, unsigned in
 
     byte nvindex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
-    if (nvindex > module_config->EE_NUM_NVS)
+    if (nvindex == 0 || nvindex > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSETRD, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
-- 
2.43.0


From 08ae9b1b19b086c09a76912e4d54c7f775280685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 03/28] fix: reading an unused event table index is answered
 with an error

---
 src/EventTeachingService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index aec6cab..e50da02 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -245,7 +245,7 @@ void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex
   if (isThisNodeNumber(nn))
   {
     Configuration *module_config = controller->getModuleConfig();
-    if ((eventIndex >= module_config->EE_MAX_EVENTS) && (module_config->getEvTableEntry(eventIndex) == 0))
+    if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
       controller->sendCMDERR(CMDERR_INV_EN_IDX);
       controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_EN_IDX);
-- 
2.43.0


From 1a87135dafa019a78d9338c38024fcdeab4f1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 04/28] fix: teaching a new event by a later event variable
 stores its identity

---
 src/EventTeachingService.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index e50da02..b7c64cd 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -435,7 +435,8 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   byte index = module_config->findExistingEvent(nn, en);
 
   // not found - it's a new event
-  if (index >= module_config->EE_MAX_EVENTS)
+  bool isNewEvent = (index >= module_config->EE_MAX_EVENTS);
+  if (isNewEvent)
   {
     // DEBUG_SERIAL << F("ets> existing event not found - creating a new one if space available") << endl;
     index = module_config->findEventSpace();
@@ -454,8 +455,8 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // write the event to EEPROM at this location -- EVs are indexed from 1 but storage offsets start at zero !!
   // DEBUG_SERIAL << F("ets> writing EV = ") << evnum << F(", at index = ") << index << F(", offset = ") << (module_config->EE_EVENTS_START + (index * module_config->EE_BYTES_PER_EVENT)) << endl;
 
-  // don't repeat this for subsequent EVs
-  if (evnum <= 1)
+  // don't repeat this for subsequent EVs of an event that is already stored
+  if (isNewEvent || evnum <= 1)
   {
     module_config->writeEvent(index, &msg->data[1]);
   }
-- 
2.43.0


From 00e954d44f4c4fbfda87def9d3c78b18882237c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 05/28] fix: learn mode commands for other nodes are ignored

---
 src/EventTeachingService.cpp | 10 ++++++++--
 src/EventTeachingService.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index b7c64cd..aefcb79 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -45,7 +45,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   {
   case OPC_MODE:
     // 76 - Set Operating Mode
-    handleLearnMode(msg);
+    handleLearnMode(msg, nn);
     break;
 
   case OPC_NNLRN:
@@ -111,9 +111,15 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   }
 }
 
-void EventTeachingService::handleLearnMode(const VlcbMessage *msg)
+void EventTeachingService::handleLearnMode(const VlcbMessage *msg, unsigned int nn)
 {
   //DEBUG_SERIAL << F("ets> MODE -- request op-code received for NN = ") << nn << endl;
+  if (!isThisNodeNumber(nn))
+  {
+    // Not for this module.
+    return;
+  }
+
   byte requestedMode = msg->data[3];
   switch (requestedMode)
   {
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 0b6ddf4..55e2ba1 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -28,7 +28,7 @@ private:
   bool bLearn = false;
 
   void handleMessage(const VlcbMessage *msg);
-  void handleLearnMode(const VlcbMessage *msg);
+  void handleLearnMode(const VlcbMessage *msg, unsigned int nn);
   void handleLearn(unsigned int nn);
   void handleUnlearnEvent(const VlcbMessage *msg, unsigned int nn, unsigned int en);
   void handleUnlearn(unsigned int nn);
-- 
2.43.0


From 51de57deae3e3336935ff5c19f3ceec57a6f19d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 06/28] fix: event variables of deleted events are not mistaken
 for produced events

---
 src/Configuration.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 74cec09..9f0e941 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -184,7 +184,13 @@ byte Configuration::findExistingEventByEv(byte evnum, byte evval) const
   {
     if (getEventEVval(i, evnum) == evval)
     {
-      break;
+      // Skip unused entries. Their event variables are left over from deleted events.
+      byte tarray[EE_HASH_BYTES];
+      readEvent(i, tarray);
+      if (!nnenEquals(tarray, unused_entry))
+      {
+        break;
+      }
     }
   }
   return i;
-- 
2.43.0


From e3e7c04f2e87effd900a5bc8dfa4256e79a56075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 07/28] fix: event status requests without a handler used an
 uninitialised pointer

---
 src/EventProducerService.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 9cd78d5..528c220 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -37,7 +37,7 @@ public:
   
 
 private:
-  void (*requesteventhandler)(byte index, const VlcbMessage *msg);
+  void (*requesteventhandler)(byte index, const VlcbMessage *msg) = nullptr;
   void handleProdSvcMessage(const VlcbMessage *msg);
   
   void setProducedEvents();
-- 
2.43.0


From fa6db8719f39c01385a69ab88ead7e1fcd252329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 08/28] fix: producing an event when the event table is full
 does not write beyond it

---
 src/EventProducerService.cpp | 38 ++++++++++++++++++++++++++++++------
 src/EventProducerService.h   |  2 +-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 986cf17..fde1f92 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -47,7 +47,12 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   
   byte index = module_config->findEventSpace();
   //TODO: Consider full event table error message. Should error come from Configuration?
-  
+  if (index >= module_config->EE_MAX_EVENTS)
+  {
+    // No space to store the event. Nothing must be written beyond the event table.
+    return index;
+  }
+
   // Find next available event number.
   unsigned int eventNum;
   for (eventNum = 1; eventNum <= module_config->EE_MAX_EVENTS; eventNum++)
@@ -92,13 +97,17 @@ void EventProducerService::process(const Action * action)
   }
 }
 
-void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
+bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
 {
   Configuration *module_config = controller->getModuleConfig();
   byte index = module_config->findExistingEventByEv(evIndex, evValue);
   if (index >= module_config->EE_MAX_EVENTS)
   {
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
   }
 
   module_config->readEvent(index, nn_en);
@@ -108,8 +117,13 @@ void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
     // This table entry was not initalised correctly.
     // This may happen if an event is deleted but the hash table is not updated.
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
     module_config->readEvent(index, nn_en);
   }
+  return true;
 }
 
 void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en)
@@ -125,7 +139,10 @@ void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte
 void EventProducerService::sendEvent(bool state, byte evValue)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -147,7 +164,10 @@ void EventProducerService::sendEvent(bool state, byte evValue)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -170,7 +190,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -194,7 +217,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2, byte data3)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 528c220..5249ba0 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -42,7 +42,7 @@ private:
   
   void setProducedEvents();
   byte createDefaultEvent(byte evValue);
-  void findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
+  bool findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
   void sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en);
 
   bool uninit = false;
-- 
2.43.0


From 16ed5982f3419eca25a461c70363d990d5e7c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 09/28] fix: creating 255 default produced events terminates

---
 src/EventProducerService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index fde1f92..1521b73 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -33,7 +33,7 @@ void EventProducerService::begin()
 
 void EventProducerService::setProducedEvents()
 { 
-  for (byte i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
+  for (unsigned int i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
   {
     createDefaultEvent(i);    
   }    
-- 
2.43.0


From 3c5348c7a917566690e66a1df9de24f78ce99120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 10/28] fix: reject truncated NENRD instead of answering for
 event index 0

---
 src/EventTeachingService.cpp | 11 +++++++++--
 src/EventTeachingService.h   |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index aefcb79..813f3ff 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -75,7 +75,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
 
   case OPC_NENRD:
     // 72 - request read stored event by event index
-    handleReadEventIndex(nn, msg->data[3]);
+    handleReadEventIndex(msg, nn);
     break;
 
   case OPC_REVAL:
@@ -244,12 +244,19 @@ void EventTeachingService::handleReadEvents(unsigned int nn)
   }      // for me
 }
 
-void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex)
+void EventTeachingService::handleReadEventIndex(const VlcbMessage *msg, unsigned int nn)
 {
   // DEBUG_SERIAL << F("ets> NERD : request all stored events for nn = ") << nn << endl;
 
   if (isThisNodeNumber(nn))
   {
+    if (msg->len < 4)
+    {
+      controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_CMD);
+      return;
+    }
+
+    byte eventIndex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
     if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 55e2ba1..09a6dc4 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -34,7 +34,7 @@ private:
   void handleUnlearn(unsigned int nn);
   void handleRequestEventCount(unsigned int nn);
   void handleReadEvents(unsigned int nn);
-  void handleReadEventIndex(unsigned int nn, byte eventIndex);
+  void handleReadEventIndex(const VlcbMessage *msg, unsigned int nn);
   void handleReadEventVariable(const VlcbMessage *msg, unsigned int nn);
   void handleClearEvents(unsigned int nn);
   void handleGetFreeEventSlots(unsigned int nn);
-- 
2.43.0


From 6cfe66427af4c69d11e8ac826e03a373c7429599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 11/28] fix: each SerialGC keeps its own receive position

---
 src/SerialGC.cpp | 1 -
 src/SerialGC.h   | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialGC.cpp b/src/SerialGC.cpp
index 4484e58..e5cd45f 100644
--- a/src/SerialGC.cpp
+++ b/src/SerialGC.cpp
@@ -33,7 +33,6 @@ namespace VLCB
   bool SerialGC::available()
   {
     bool result = false;
-    static int rxIndex = 0;
     if (serial.available())
     {     
       char c = serial.read();
diff --git a/src/SerialGC.h b/src/SerialGC.h
index 58a6090..07e54d0 100644
--- a/src/SerialGC.h
+++ b/src/SerialGC.h
@@ -46,6 +46,7 @@ namespace VLCB
     typeof(Serial)& serial;
 	
     char rxBuffer[RXBUFFERSIZE]; // Define a byte array to store the incoming data
+    int rxIndex = 0;             // Next free position in rxBuffer, 0 when outside a message
     char txBuffer[RXBUFFERSIZE]; // Define a byte array to store the outgoing data
     CANFrame rxCANFrame;
 
-- 
2.43.0


From 70abcdd6becd87d8bb4c923b004a892a683189c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 12/28] fix: CAN2515 reset keeps the polling mode

---
 src/CAN2515.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index 86fddef..a8fc851 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -185,7 +185,7 @@ void CAN2515::reset()
 {
   canp->end();
   delete canp;
-  begin();
+  begin(_poll);
 }
 
 //
-- 
2.43.0


From 5b9214d5279ab8c02ee4875cc576e6f88edf2b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 13/28] fix: long message fragments of other streams do not
 affect the reception in progress

---
 src/LongMessageService.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 23eb939..1462432 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -152,8 +152,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
 
 	// DEBUG_SERIAL << F("> L: processing received long message packet, message length = ") << _incoming_message_length << F(", rcvd so far = ") << _incoming_bytes_received << endl;
 
-	_last_fragment_received = millis();
-
 	byte i, j;
 
   if (!_is_receiving)
@@ -181,7 +179,8 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
             _incoming_bytes_received = 0;
             memset(_receive_buffer, 0, _receive_buffer_len);
             _receive_buffer_index = 0;
-            _expected_next_receive_sequence_num = 0;
+            _expected_next_receive_sequence_num = 1;
+            _last_fragment_received = millis();
             // DEBUG_SERIAL << F("> L: received header packet for stream id = ") << _receive_stream_id << F(", message length = ") << _incoming_message_length << F(", user buffer len = ") << _receive_buffer_len << endl;
             break;
           }
@@ -208,6 +207,9 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
       {
         // and it's the expected sequence id
 
+        _last_fragment_received = millis();
+        ++_expected_next_receive_sequence_num;
+
         // DEBUG_SERIAL << F("> L: received continuation packet, seq = ") << _expected_next_receive_sequence_num << endl;
 
         // for each of the maximum five payload bytes, up to the total message length and the user buffer length
@@ -261,9 +263,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     }
 	}	// it's a continuation fragment
 
-	// the sequence number may wrap from 255 to 0, which is absolutely fine
-	++_expected_next_receive_sequence_num;
-
 	/// finally, once the message has been completely received ...
 
 	if (_incoming_message_length > 0 && _incoming_bytes_received >= _incoming_message_length)
-- 
2.43.0


From fe3678bbc09bab1e15b3631ff19e088ba21acda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 14/28] fix: long message reception follows the wrap of the
 sequence number

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 1462432..c90ad5d 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -203,7 +203,7 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     {
       // it's the same stream id
 
-      if (frame->data[2] == _expected_next_receive_sequence_num)
+      if (frame->data[2] == lowByte(_expected_next_receive_sequence_num))   // the sequence number wraps from 255 to 0
       {
         // and it's the expected sequence id
 
-- 
2.43.0


From aab2b885c360f2412dfa769c43549bff65bc406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 15/28] fix: an empty long message is complete with its header

---
 src/LongMessageService.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index c90ad5d..ffc8c06 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -182,6 +182,13 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
             _expected_next_receive_sequence_num = 1;
             _last_fragment_received = millis();
             // DEBUG_SERIAL << F("> L: received header packet for stream id = ") << _receive_stream_id << F(", message length = ") << _incoming_message_length << F(", user buffer len = ") << _receive_buffer_len << endl;
+
+            if (_incoming_message_length == 0)
+            {
+              // an empty message has no continuation packets, so it is already complete
+              _is_receiving = false;
+              (void)(*_messagehandler)(_receive_buffer, 0, _receive_stream_id, LONG_MESSAGE_COMPLETE);
+            }
             break;
           }
         }
-- 
2.43.0


From dca87cdfab7e72f5cffb683fe2d5a87697d960fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 16/28] fix: LongMessageServiceEx refuses a message when no
 send context is free

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index ffc8c06..da81541 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -423,7 +423,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 		}
 	}
 
-	if (i > _num_send_contexts)
+	if (i >= _num_send_contexts)
   {
 		// DEBUG_SERIAL << F("> Lex: ERROR: unable to find free send context") << endl;
 		return false;
-- 
2.43.0


From 00eb43b1d6b3f992540dd5e8feeb6f4a22237346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 17/28] fix: LongMessageServiceEx copies messages by their
 length

---
 src/LongMessageService.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index da81541..7ba16c9 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -431,10 +431,17 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 
 	// DEBUG_SERIAL << F("> Lex: using send context = ") << i << endl;
 
+	// copy the message to the send context, will free later. It may contain any bytes, including zeroes
+	byte *buffer = (byte *)malloc(msg_len > 0 ? msg_len : 1);
+	if (buffer == NULL)
+  {
+		return false;
+	}
+	memcpy(buffer, msg, msg_len);
+
 	// initialise context
 	_send_context[i]->in_use = true;
-	// _send_context[i]->buffer = (byte *)msg;
-	_send_context[i]->buffer = (byte *)strdup((char *)msg);														// copy the message to the send content, will free later
+	_send_context[i]->buffer = buffer;
 	_send_context[i]->send_buffer_len = msg_len;
 	_send_context[i]->send_stream_id = stream_id;
   _send_context[i]->send_buffer_index = 0;
-- 
2.43.0


From 358115dc81792ff583a8fca20d06cb79081efb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 18/28] fix: each LongMessageServiceEx keeps its own position
 in its list of send contexts

---
 src/LongMessageService.cpp | 34 ++++++++++++++++------------------
 src/LongMessageService.h   |  1 +
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 7ba16c9..d186fb0 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -478,8 +478,6 @@ bool LongMessageServiceEx::process()
 	byte i;
 	VlcbMessage frame;
 
-	static byte context = 0;				// we round-robin the context list when sending
-
 	/// check receive timeout for each active context
 
 	for (i = 0; i < _num_receive_contexts; i++)
@@ -496,43 +494,43 @@ bool LongMessageServiceEx::process()
 
 	/// send the next outgoing fragment from each active context, after a configurable delay to avoid flooding the bus
 	/// concurrent streams will be interleaved
-	if (_send_context[context]->in_use && millis() - _send_context[context]->last_fragment_sent >= _msg_delay)
+	if (_next_send_context < _num_send_contexts && _send_context[_next_send_context]->in_use && millis() - _send_context[_next_send_context]->last_fragment_sent >= _msg_delay)
   {
 		// DEBUG_SERIAL << F("> Lex: processing send context = ") << context << endl;
 
 		memset(&frame.data, 0, sizeof(frame.data));
-		frame.data[1] = _send_context[context]->send_stream_id;
-		frame.data[2] = _send_context[context]->send_sequence_num;
+		frame.data[1] = _send_context[_next_send_context]->send_stream_id;
+		frame.data[2] = _send_context[_next_send_context]->send_sequence_num;
 
 		/// only the last fragment is potentially less than 5 bytes long
-    for (i = 0; i < 5 && _send_context[context]->send_buffer_index < _send_context[context]->send_buffer_len; i++)  // for up to 5 bytes of payload
+    for (i = 0; i < 5 && _send_context[_next_send_context]->send_buffer_index < _send_context[_next_send_context]->send_buffer_len; i++)  // for up to 5 bytes of payload
     {
-			frame.data[i + 3] = _send_context[context]->buffer[_send_context[context]->send_buffer_index];																// take the next byte
-			// DEBUG_SERIAL << F("> Lex: consumed data byte = ") << (char)_send_context[context]->buffer[_send_context[context]->send_buffer_index] << endl;
-			++_send_context[context]->send_buffer_index;
+			frame.data[i + 3] = _send_context[_next_send_context]->buffer[_send_context[_next_send_context]->send_buffer_index];																// take the next byte
+			// DEBUG_SERIAL << F("> Lex: consumed data byte = ") << (char)_send_context[_next_send_context]->buffer[_send_context[_next_send_context]->send_buffer_index] << endl;
+			++_send_context[_next_send_context]->send_buffer_index;
 		}
 
 		ret = sendMessageFragment(&frame);																												// send the data packet
-		// DEBUG_SERIAL << F("> Lex: process: sent message fragment, seq = ") << _send_context[context]->send_sequence_num << F(", size = ") << i << F(", ret  = ") << ret << endl;
+		// DEBUG_SERIAL << F("> Lex: process: sent message fragment, seq = ") << _send_context[_next_send_context]->send_sequence_num << F(", size = ") << i << F(", ret  = ") << ret << endl;
 
 		// release context once message content exhausted
-		if (_send_context[context]->send_buffer_index >= _send_context[context]->send_buffer_len)
+		if (_send_context[_next_send_context]->send_buffer_index >= _send_context[_next_send_context]->send_buffer_len)
     {
-			_send_context[context]->in_use = false;
-			_send_context[context]->send_buffer_len = 0;
-			free(_send_context[context]->buffer);
+			_send_context[_next_send_context]->in_use = false;
+			_send_context[_next_send_context]->send_buffer_len = 0;
+			free(_send_context[_next_send_context]->buffer);
 			// DEBUG_SERIAL << F("> Lex: message complete, context released") << endl;
     }
     else
     {
-			++_send_context[context]->send_sequence_num;
-			_send_context[context]->last_fragment_sent = millis();
+			++_send_context[_next_send_context]->send_sequence_num;
+			_send_context[_next_send_context]->last_fragment_sent = millis();
 		}
 	}
 
 	// increment context counter and wrap
-	++context;
-	context = (context >= _num_send_contexts) ? 0 : context;
+	++_next_send_context;
+	_next_send_context = (_next_send_context >= _num_send_contexts) ? 0 : _next_send_context;
 	return ret;
 }
 
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index 87855d3..fc13f08 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -111,6 +111,7 @@ private:
 
   bool _use_crc = false;
   byte _num_receive_contexts = NUM_EX_CONTEXTS, _num_send_contexts = NUM_EX_CONTEXTS;
+  byte _next_send_context = 0;        // we round-robin the context list when sending
   receive_context_t **_receive_context = NULL;
   send_context_t **_send_context = NULL;
 };
-- 
2.43.0


From 3d1b8e8a0027ccbc88dbe09eefccb694bd021531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 19/28] fix: LongMessageServiceEx reception follows the wrap of
 the sequence number

---
 src/LongMessageService.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index d186fb0..a81848e 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -576,7 +576,17 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 	// DEBUG_SERIAL << F("> Lex: handling incoming message fragment") << endl;
 	// DEBUG_SERIAL.flush();
 
-  if (frame->data[2] == 0)
+  // find a receive context that is expecting this fragment. The sequence number wraps from 255 to 0
+  for (i = 0; i < _num_receive_contexts; i++)
+  {
+    if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1]
+        && lowByte(_receive_context[i]->expected_next_receive_sequence_num) == frame->data[2])
+    {
+      break;
+    }
+  }
+
+  if (frame->data[2] == 0 && i >= _num_receive_contexts)
   {
     // sequence zero = a header packet with start of new stream
 
@@ -637,13 +647,16 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 
     // DEBUG_SERIAL << F("> Lex: this is a continuation packet") << endl;
 
-    // find a matching receive context, using the stream ID and sender CANID
-    for (i = 0; i < _num_receive_contexts; i++)
+    // if out of sequence, find a matching receive context, using the stream ID and sender CANID
+    if (i >= _num_receive_contexts)
     {
-      if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1])
+      for (i = 0; i < _num_receive_contexts; i++)
       {
-        // DEBUG_SERIAL << F("> Lex: found matching receive context = ") << i << endl;
-        break;
+        if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == frame->data[1])
+        {
+          // DEBUG_SERIAL << F("> Lex: found matching receive context = ") << i << endl;
+          break;
+        }
       }
     }
 
@@ -655,7 +668,7 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
     }
 
     // error if out of sequence
-    if (frame->data[2] != _receive_context[i]->expected_next_receive_sequence_num)
+    if (frame->data[2] != lowByte(_receive_context[i]->expected_next_receive_sequence_num))
     {
       // DEBUG_SERIAL << F("> Lex: ERROR: expected receive sequence num = ") << _receive_context[i]->expected_next_receive_sequence_num << F(" but got = ") << frame->data[2] << endl;
       (void) (*_messagehandler)(_receive_context[i]->buffer, _receive_context[i]->receive_buffer_index,
-- 
2.43.0


From 645155d9d0755e500b561f409d094e8f8177e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 20/28] fix: LongMessageServiceEx completes empty messages with
 their header

---
 src/LongMessageService.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index a81848e..9190346 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -464,6 +464,13 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	bool ret = sendMessageFragment(&frame);					// send the header packet
 	_send_context[i]->send_sequence_num = 1;																	  			// the next send sequence number - it's fine if it wraps around
 
+	// an empty message is complete with its header
+	if (msg_len == 0)
+  {
+		_send_context[i]->in_use = false;
+		free(_send_context[i]->buffer);
+	}
+
 	// DEBUG_SERIAL << F("> Lex: message header sent, stream id = ") << stream_id << F(", message length = ") << msg_len << F(", ret = ") << ret << endl;
 	return (ret);
 }
@@ -626,6 +633,13 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
             _receive_context[i]->expected_next_receive_sequence_num = 1;
             _receive_context[i]->last_fragment_received = millis();
             // DEBUG_SERIAL << F("> Lex: received header packet for stream id = ") << _receive_context[i]->receive_stream_id << F(", message length = ") << _receive_context[i]->incoming_message_length << endl;
+
+            if (_receive_context[i]->incoming_message_length == 0)
+            {
+              // an empty message has no continuation packets, so it is already complete
+              _receive_context[i]->in_use = false;
+              (void) (*_messagehandler)(_receive_context[i]->buffer, 0, _receive_context[i]->receive_stream_id, LONG_MESSAGE_COMPLETE);
+            }
           }
           else
           {
-- 
2.43.0


From b5b6fadb3e4492d998f7f5e7ad8977ba156a09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 21/28] fix: received checksums are compared only when
 checksums are used

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 9190346..439f394 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -711,7 +711,7 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
           tmpcrc = crc16((uint8_t *) _receive_context[i]->buffer, _receive_context[i]->receive_buffer_index);
         }
 
-        if (_receive_context[i]->incoming_message_crc != tmpcrc)
+        if (_use_crc && _receive_context[i]->incoming_message_crc != tmpcrc)
         {
           // DEBUG_SERIAL << F("> Lex: message CRC error, expected = ") << _receive_context[i]->incoming_message_crc << F(", calculated = ") << tmpcrc << endl;
           status = LONG_MESSAGE_CRC_ERROR;
-- 
2.43.0


From dfda07aa809af402393c7b4429eef7d5e423500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 22/28] fix: flash writes crossing a page boundary continue at
 the start of the next page

---
 src/FlashStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d24cf70..d557068 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -215,7 +215,7 @@ bool flash_write_bytes(const uint16_t address, const uint8_t *data, const uint16
       buffer_index = 0;                                 // set cache buffer index to zero
     }
 
-    cache_page.data[buffer_index + a] = data[a];
+    cache_page.data[buffer_index++] = data[a];
   }
 
   // set page dirty flag
-- 
2.43.0


From 6c88131c7bb5b27f4931d875f51514b84155bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 23/28] fix: flash storage begin() remembers that page 0 is
 cached

---
 src/FlashStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d557068..1a41ce9 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -31,6 +31,7 @@ void FlashStorage::begin()
   }
 
   // cache the first page into memory
+  curr_page_num = 0;
   flash_cache_page(0);
 #endif
 }
-- 
2.43.0


From c72c6960cd5e946ac6cf4ed060b4023c36ff385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 24/28] fix: Due storage reset clears variables and events

---
 src/DueEepromEmulationStorage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DueEepromEmulationStorage.cpp b/src/DueEepromEmulationStorage.cpp
index fdcaf75..6de2335 100644
--- a/src/DueEepromEmulationStorage.cpp
+++ b/src/DueEepromEmulationStorage.cpp
@@ -90,7 +90,10 @@ void DueEepromEmulationStorage::setChipEEPROMVal(unsigned int eeaddress, byte va
 //
 void DueEepromEmulationStorage::reset()
 {
-
+  for (unsigned int addr = 10; addr < 4096; addr++)
+  {
+    setChipEEPROMVal(addr, 0xff);
+  }
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 43223989689476f0197e4ea904460d36764e23e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 25/28] fix: external EEPROM writes do not cross device pages

---
 src/EepromExternalStorage.cpp | 39 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/EepromExternalStorage.cpp b/src/EepromExternalStorage.cpp
index 24093ec..2a36877 100644
--- a/src/EepromExternalStorage.cpp
+++ b/src/EepromExternalStorage.cpp
@@ -118,24 +118,29 @@ void EepromExternalStorage::write(unsigned int eeaddress, byte data)
 //
 void EepromExternalStorage::writeBytes(unsigned int eeaddress, const byte src[], byte numbytes)
 {
-  // *** TODO *** handle greater than 32 bytes -> the Arduino I2C write buffer size
-  // max write = EEPROM pagesize - 64 bytes
-
-  I2Cbus->beginTransmission(external_address);
-  I2Cbus->write((int) (eeaddress >> 8));   // MSB
-  I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
-
-  for (byte i = 0; i < numbytes; i++)
-  {
-    I2Cbus->write(src[i]);
-  }
-
-  int r = I2Cbus->endTransmission();
-  delay(5);
-
-  if (r < 0)
+  // A transmission must not cross an EEPROM page boundary, as the device would wrap around within the page,
+  // and must fit in the I2C write buffer of 32 bytes. All page sizes are multiples of 16.
+  byte i = 0;
+  while (i < numbytes)
   {
-    // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    I2Cbus->beginTransmission(external_address);
+    I2Cbus->write((int) (eeaddress >> 8));   // MSB
+    I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
+
+    do
+    {
+      I2Cbus->write(src[i++]);
+      ++eeaddress;
+    }
+    while (i < numbytes && eeaddress % 16 != 0);
+
+    int r = I2Cbus->endTransmission();
+    delay(5);
+
+    if (r < 0)
+    {
+      // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    }
   }
 }
 
-- 
2.43.0


From c21feb64c2b37b102b54621bd2b50b4e72d14fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 26/28] fix: console lists all of 255 node variables

---
 src/SerialUserInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialUserInterface.cpp b/src/SerialUserInterface.cpp
index b3a52e1..af95525 100644
--- a/src/SerialUserInterface.cpp
+++ b/src/SerialUserInterface.cpp
@@ -111,7 +111,7 @@ void SerialUserInterface::processSerialInput()
         Serial << F("   NV   Val") << endl;
         Serial << F("  --------------------") << endl;
 
-        for (byte j = 1; j <= modconfig->EE_NUM_NVS; j++)
+        for (int j = 1; j <= modconfig->EE_NUM_NVS; j++)
         {
           byte v = modconfig->readNV(j);
           sprintf(msgstr, " - %02d : %3hd | 0x%02hx", j, v, v);
-- 
2.43.0


From af1033e1265b88555baa508b01cd53bdaff35021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 27/28] fix: CAN2515 reset keeps the configured SPI bus

---
 src/CAN2515.cpp | 3 ++-
 src/CAN2515.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index a8fc851..519744d 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -42,6 +42,7 @@ bool CAN2515::begin(bool poll, SPIClass & spi)
   _numMsgsSent = 0;
   _numMsgsRcvd = 0;
   _poll = poll;
+  _spi = &spi;
 
   ACAN2515Settings settings(_osc_freq, CANBITRATE);
 
@@ -185,7 +186,7 @@ void CAN2515::reset()
 {
   canp->end();
   delete canp;
-  begin(_poll);
+  begin(_poll, *_spi);
 }
 
 //
diff --git a/src/CAN2515.h b/src/CAN2515.h
index 547b355..bc9a916 100644
--- a/src/CAN2515.h
+++ b/src/CAN2515.h
@@ -75,6 +75,9 @@ private:
 
 #ifdef ARDUINO_ARCH_RP2040
   byte _mosi_pin, _miso_pin, _sck_pin;
+  SPIClassRP2040 *_spi;
+#else
+  SPIClass *_spi;
 #endif
 };
 
-- 
2.43.0


From e0b314c9a8a6460ae858d9b28d630c9c80b24649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:33 +0000
Subject: [PATCH 28/28] fix: CircularBuffer counters count beyond 255

---
 src/CircularBuffer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CircularBuffer.h b/src/CircularBuffer.h
index e9d8454..f8947cc 100644
--- a/src/CircularBuffer.h
+++ b/src/CircularBuffer.h
@@ -39,9 +39,9 @@ private:
 
   // Diagnostic metrics
   uint8_t hwm = 0;  // High watermark
-  uint8_t numPuts = 0;
-  uint8_t numGets = 0;
-  uint8_t numOverflows = 0;
+  unsigned int numPuts = 0;
+  unsigned int numGets = 0;
+  unsigned int numOverflows = 0;
 
   E *buffer;
 };
-- 
2.43.0


From 964c588182547632918cc79c776f38d6c7cd9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 01/41] fix: a message published while the bus goes to sleep no
 longer waits for the next poll

Bus::Run() waited on a mutex that publishers do not hold, so a notification
sent between evaluating the predicate and blocking was lost and the message
was only delivered after the poll interval.
---
 include/lamppost/bus/Bus.h |  1 -
 src/lamppost/bus/Bus.cpp   | 31 +++++++++++++++----------------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f89078d..23f8fef 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -43,7 +43,6 @@ namespace lp
       std::mutex mQueueMutex;
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
-      std::mutex mNotifierMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a2ad53f..5b7c6a8 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -136,26 +136,25 @@ namespace lp
 
     void Bus::Run()
     {
-      std::unique_lock<std::mutex> notifierLock(mNotifierMutex);
-
       while(mShouldRun)
       {
-        mNotifier.wait_for(notifierLock,
-                           std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
-                           [this]
-                           {
-                             std::lock_guard<std::mutex> lock(mQueueMutex);
-                             return !mQueuedMessages.empty() || !mShouldRun;
-                           });
-
-        if(!mShouldRun)
-        {
-          break;
-        }
-
         std::deque<messages::Message> queuedMessages;
         {
-          std::lock_guard<std::mutex> lock(mQueueMutex);
+          // Wait on the queue's own mutex: a message queued between checking the queue and going to sleep would
+          // otherwise not wake up the bus.
+          std::unique_lock<std::mutex> queueLock(mQueueMutex);
+          mNotifier.wait_for(queueLock,
+                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
+                             [this]
+                             {
+                               return !mQueuedMessages.empty() || !mShouldRun;
+                             });
+
+          if(!mShouldRun)
+          {
+            break;
+          }
+
           queuedMessages = mQueuedMessages;
 
           mQueuedMessages.clear();
-- 
2.43.0


From edecc4bc303c2a1c4b7b7db8ec3fc1778280cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 02/41] fix: synchronize Publisher::Reset with
 Publisher::Publish

Deleting a publisher while another thread publishes through it raced on the
publishing function (null function call, use after free).
---
 include/lamppost/bus/Publisher.h | 2 ++
 src/lamppost/bus/Publisher.cpp   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/lamppost/bus/Publisher.h b/include/lamppost/bus/Publisher.h
index 10346c4..09c358c 100644
--- a/include/lamppost/bus/Publisher.h
+++ b/include/lamppost/bus/Publisher.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -19,6 +20,7 @@ namespace lp
     class Publisher : public BusParticipant
     {
     private:
+      std::recursive_mutex mPublishingFunctionMutex;
       DatagramCallbackType mPublishingFunction;
 
     public:
diff --git a/src/lamppost/bus/Publisher.cpp b/src/lamppost/bus/Publisher.cpp
index 27b2d2c..aeab8ae 100644
--- a/src/lamppost/bus/Publisher.cpp
+++ b/src/lamppost/bus/Publisher.cpp
@@ -19,6 +19,8 @@ namespace lp
 
     void Publisher::Publish(messages::Datagram datagram)
     {
+      // Held during the call: once Reset() has returned, nothing is published anymore.
+      std::lock_guard<std::recursive_mutex> lock(mPublishingFunctionMutex);
       if(mPublishingFunction != nullptr)
       {
         mPublishingFunction(datagram);
@@ -27,6 +29,7 @@ namespace lp
 
     void Publisher::Reset()
     {
+      std::lock_guard<std::recursive_mutex> lock(mPublishingFunctionMutex);
       mPublishingFunction = nullptr;
     }
   } // namespace bus
-- 
2.43.0


From a3a98a7dd709c32dbdcd6d7b3c8394df9aaaa835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 03/41] fix: synchronize changing a subscriber's callback with
 its delivery

SetDatagramCallback(), SetMessageCallback() and Reset() replaced the callback
while the bus thread was calling it.
---
 include/lamppost/bus/Subscriber.h |  2 ++
 src/lamppost/bus/Subscriber.cpp   | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/bus/Subscriber.h b/include/lamppost/bus/Subscriber.h
index b074913..7d86121 100644
--- a/include/lamppost/bus/Subscriber.h
+++ b/include/lamppost/bus/Subscriber.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -18,6 +19,7 @@ namespace lp
     class Subscriber : public BusParticipant
     {
     private:
+      std::mutex mCallbackMutex;
       MessageCallbackType mCallback;
 
     public:
diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index ec00ad2..824c1b7 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -25,19 +25,27 @@ namespace lp
 
     void Subscriber::Receive(messages::Message message)
     {
-      if(mCallback != nullptr)
+      MessageCallbackType callback;
       {
-        mCallback(message);
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(message);
       }
     }
 
     void Subscriber::Reset()
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = nullptr;
     }
 
     void Subscriber::SetDatagramCallback(DatagramCallbackType callback)
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = [callback](lp::messages::Message message)
         {
           messages::Datagram datagram = message.GetDatagram();
@@ -49,6 +57,7 @@ namespace lp
 
     void Subscriber::SetMessageCallback(MessageCallbackType callback)
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = callback;
     }
 
-- 
2.43.0


From 0c01e263ccd17c1952a0a6d2e07eeb2b6da8bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 04/41] fix: deleting something that is not a member of the bus
 has no effect

DeleteSubscriber() and DeletePublisher() crashed on a null pointer and muted
participants that belong to another bus.
---
 include/lamppost/bus/Bus.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 23f8fef..3d52c5c 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -3,6 +3,7 @@
 
 
 // System includes
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <condition_variable>
@@ -75,8 +76,11 @@ namespace lp
       void DeleteManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
       {
         std::lock_guard<std::mutex> lock(mutex);
-        container.remove(instance);
-        instance->Reset();
+        if(std::find(container.begin(), container.end(), instance) != container.end())
+        {
+          container.remove(instance);
+          instance->Reset();
+        }
       }
 
       template<class ClassType>
-- 
2.43.0


From 935753c0dee86d28514d278db3a09ee4085522d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 05/41] fix: callbacks may add and remove subscribers and child
 busses

Distribute() calls the callbacks with the subscriber and child bus lists
locked, so a callback that subscribes, unsubscribes or creates a child bus
locked a mutex its own thread already held.
---
 include/lamppost/bus/Bus.h | 20 ++++++++++----------
 src/lamppost/bus/Bus.cpp   | 17 +++++++++++------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 3d52c5c..9fbe1f4 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -50,7 +50,7 @@ namespace lp
 
       std::mutex mPublishersMutex;
       std::list<std::shared_ptr<Publisher>> mPublishers;
-      std::mutex mSubscribersMutex;
+      std::recursive_mutex mSubscribersMutex;
       std::list<std::shared_ptr<Subscriber>> mSubscribers;
 
       std::mutex mActionProvidersMutex;
@@ -61,21 +61,21 @@ namespace lp
       void Publish(std::string topic, lp::messages::Datagram datagram);
       void Distribute(messages::Message message);
 
-      template<class ClassType, class ... Args>
-      std::shared_ptr<ClassType> CreateManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, Args ... args)
+      template<class MutexType, class ClassType, class ... Args>
+      std::shared_ptr<ClassType> CreateManagedResource(MutexType& mutex, std::list<std::shared_ptr<ClassType>>& container, Args ... args)
       {
         std::shared_ptr<ClassType> instance = std::make_shared<ClassType>(std::forward<Args>(args)...);
 
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<MutexType> lock(mutex);
         container.push_back(instance);
 
         return instance;
       };
 
-      template<class ClassType>
-      void DeleteManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
+      template<class MutexType, class ClassType>
+      void DeleteManagedResource(MutexType& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
       {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<MutexType> lock(mutex);
         if(std::find(container.begin(), container.end(), instance) != container.end())
         {
           container.remove(instance);
@@ -83,10 +83,10 @@ namespace lp
         }
       }
 
-      template<class ClassType>
-      bool ContainsManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
+      template<class MutexType, class ClassType>
+      bool ContainsManagedResource(MutexType& mutex, std::list<std::shared_ptr<ClassType>>& container, std::shared_ptr<ClassType> instance)
       {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<MutexType> lock(mutex);
         return std::find(container.begin(), container.end(), instance) != container.end();
       }
 
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 5b7c6a8..c485b5b 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -182,8 +182,10 @@ namespace lp
       if(mShouldRun)
       {
         {
-          std::lock_guard<std::mutex> lock(mSubscribersMutex);
-          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
+          // Callbacks may add and remove subscribers and child busses.
+          std::lock_guard<std::recursive_mutex> lock(mSubscribersMutex);
+          const std::list<std::shared_ptr<Subscriber>> subscribers = mSubscribers;
+          for(const std::shared_ptr<Subscriber>& subscriber : subscribers)
           {
             if(TopicMatchesPattern(subscriber->GetTopic(), message.GetTopic()))
             {
@@ -192,12 +194,15 @@ namespace lp
           }
         }
 
+        std::map<std::string, std::shared_ptr<Bus>> childBusses;
         {
           std::lock_guard<std::mutex> lock(mChildBussesMutex);
-          for(std::pair<std::string, std::shared_ptr<Bus>> pair : mChildBusses)
-          {
-            pair.second->Distribute(message);
-          }
+          childBusses = mChildBusses;
+        }
+
+        for(std::pair<std::string, std::shared_ptr<Bus>> pair : childBusses)
+        {
+          pair.second->Distribute(message);
         }
       }
     }
-- 
2.43.0


From 3d05b8c4acf4255fb8652d3f9e6063c184d53635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 06/41] fix: stopping a root bus that is just being started is
 not lost

Start() unconditionally discarded a Stop() that came before it, e.g. from a
signal handler, and then ran forever.
---
 src/lamppost/bus/Bus.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index c485b5b..a191a76 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -7,7 +7,7 @@ namespace lp
   {
     Bus::Bus(std::string name)
       : Identifiable(name),
-        mShouldRun(false),
+        mShouldRun(true),
         mIsRootBus(true)
     {
       if(name.empty())
@@ -126,12 +126,13 @@ namespace lp
 
     void Bus::Start()
     {
-      mShouldRun = true;
-
+      // A root bus that was stopped before it runs does not run at all.
       if(mIsRootBus)
       {
         Run();
       }
+
+      mShouldRun = true;
     }
 
     void Bus::Run()
-- 
2.43.0


From de18b0bc6791a672b8c223b56aea11338debc48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 07/41] fix: synchronize detaching a bus with publishing on it

Detach() cleared the publishing function while other threads were calling it
or handing it to a new child bus.
---
 include/lamppost/bus/Bus.h |  1 +
 src/lamppost/bus/Bus.cpp   | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 9fbe1f4..4d149c8 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -44,6 +44,7 @@ namespace lp
       std::mutex mQueueMutex;
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
+      std::recursive_mutex mPublishMessageFunctionMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a191a76..734bd5d 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -45,7 +45,10 @@ namespace lp
 
     Bus::~Bus()
     {
-      mPublishMessageFunction = nullptr;
+      {
+        std::lock_guard<std::recursive_mutex> lock(mPublishMessageFunctionMutex);
+        mPublishMessageFunction = nullptr;
+      }
 
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
@@ -72,7 +75,9 @@ namespace lp
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
       }
 
+      std::unique_lock<std::recursive_mutex> publishLock(mPublishMessageFunctionMutex);
       std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, mPublishMessageFunction);
+      publishLock.unlock();
       mChildBusses[name] = childBus;
 
       childBus->Start();
@@ -98,6 +103,8 @@ namespace lp
 
     void Bus::Publish(messages::Message message)
     {
+      // Held during the call: once the bus is detached, nothing reaches the parent bus anymore.
+      std::lock_guard<std::recursive_mutex> lock(mPublishMessageFunctionMutex);
       if(mPublishMessageFunction != nullptr)
       {
         mPublishMessageFunction(message);
@@ -210,8 +217,11 @@ namespace lp
 
     void Bus::Detach()
     {
-      mPublishMessageFunction = nullptr;
-      
+      {
+        std::lock_guard<std::recursive_mutex> lock(mPublishMessageFunctionMutex);
+        mPublishMessageFunction = nullptr;
+      }
+
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
-- 
2.43.0


From 6460d4bc904bdaae013a1f69086dfd002a6932a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 08/41] fix: publishers that outlive their bus no longer use it

A publisher still referenced after its bus was destroyed called into freed
memory.
---
 src/lamppost/bus/Bus.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 734bd5d..1ebcaa1 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -45,6 +45,15 @@ namespace lp
 
     Bus::~Bus()
     {
+      {
+        // Publishers refer to this bus and may outlive it.
+        std::lock_guard<std::mutex> lock(mPublishersMutex);
+        for(const std::shared_ptr<Publisher>& publisher : mPublishers)
+        {
+          publisher->Reset();
+        }
+      }
+
       {
         std::lock_guard<std::recursive_mutex> lock(mPublishMessageFunctionMutex);
         mPublishMessageFunction = nullptr;
-- 
2.43.0


From 974c70ea607ea3d045dd52259a8a0dd30ac1cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 09/41] fix: synchronize access to the open requests of an
 action consumer

The requesting threads and the bus thread modified the map of open requests
concurrently.
---
 include/lamppost/bus/ActionConsumer.h |  1 +
 src/lamppost/bus/ActionConsumer.cpp   | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..462c7b4 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -28,6 +28,7 @@ namespace lp
       std::shared_ptr<Subscriber> mResponseSubscriber;
       std::shared_ptr<Publisher> mRequestPublisher;
 
+      std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
     public:
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..a2859b1 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -30,7 +30,10 @@ namespace lp
 
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = callback;
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
@@ -72,12 +75,20 @@ namespace lp
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback = nullptr;
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+        {
+          callback = mOpenRequests[invocationId];
+          mOpenRequests.erase(invocationId);
+        }
       }
 
+      if(callback != nullptr)
+      {
+        callback(response);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From 18e421eeceb2c3e57b8d3bc1db07025239478ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 10/41] fix: a response that arrives after Request() timed out
 is ignored

The response callback referred to local variables of Request(), which had
returned, and the open request was never removed. A response arriving before
Request() started to wait could also be missed.
---
 include/lamppost/bus/ActionConsumer.h |  2 +
 src/lamppost/bus/ActionConsumer.cpp   | 56 ++++++++++++++++++---------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 462c7b4..e83ca6f 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -31,6 +31,8 @@ namespace lp
       std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
+      std::string SendRequest(messages::Datagram request, std::function<void(messages::Datagram)> callback);
+
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
       ~ActionConsumer() = default;
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index a2859b1..226d216 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -28,6 +28,13 @@ namespace lp
         throw exceptions::ArgumentNullException("callback", "Callback may not be null.");
       }
 
+      SendRequest(request, callback);
+    }
+
+    std::string ActionConsumer::SendRequest(
+      messages::Datagram request,
+      std::function<void(messages::Datagram)> callback)
+    {
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
       {
@@ -40,37 +47,50 @@ namespace lp
       wrappedRequest["request"] = request;
 
       mRequestPublisher->Publish(wrappedRequest);
+
+      return uuidString;
     }
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
+      // Shared with the callback, which may still run after this function has given up waiting.
+      struct PendingResponse
+      {
+        std::condition_variable cv;
+        std::mutex mtx;
+        messages::Datagram response;
+        bool waiting = true;
+      };
 
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      std::shared_ptr<PendingResponse> pending = std::make_shared<PendingResponse>();
 
-      RequestAsync(
+      std::string invocationId = SendRequest(
         request,
-        [&](messages::Datagram internalResponse)
+        [pending](messages::Datagram internalResponse)
         {
-          if(waiting)
+          std::lock_guard<std::mutex> lock(pending->mtx);
+          if(pending->waiting)
           {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
+            pending->response = internalResponse;
+            pending->waiting = false;
+            pending->cv.notify_one();
           }
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      {
+        std::unique_lock<std::mutex> ul(pending->mtx);
+        pending->cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
+                             [pending]
+                             {
+                               return !pending->waiting;
+                             });
+        pending->waiting = false;
+      }
+
+      std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+      mOpenRequests.erase(invocationId);
 
-      return response;
+      return pending->response;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
-- 
2.43.0


From d0723ded18df3a30d26cc463c2163fa5a7e91b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 11/41] fix: action requests and responses without an
 invocation id are ignored

A datagram without a string 'invocationId' on an action's topic threw an
exception on the bus thread, which ended the process.
---
 include/lamppost/bus/Bus.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 4d149c8..18779ff 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -140,10 +140,12 @@ namespace lp
         requestSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            // TODO: Check for presence of invocationId field here.
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            std::string invocationId = datagram.Get<std::string>("invocationId");
 
-            instance->ProcessRequest(invocationId, datagram);
+            if(!invocationId.empty())
+            {
+              instance->ProcessRequest(invocationId, datagram);
+            }
           });
 
         return instance;
@@ -166,10 +168,14 @@ namespace lp
         responseSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
-            messages::Datagram response = datagram["response"];
+            std::string invocationId = datagram.Get<std::string>("invocationId");
 
-            instance->ProcessResponse(invocationId, response);
+            if(!invocationId.empty())
+            {
+              messages::Datagram response = datagram["response"];
+
+              instance->ProcessResponse(invocationId, response);
+            }
           });
 
         return instance;
-- 
2.43.0


From 44aff7edf9573138a513f7845f26fb046ce14d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 12/41] fix: reading an index of something that is not a list
 leaves it unchanged

The content was discarded before the index turned out to be out of bounds.
---
 src/lamppost/messages/RawDatagram.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..1ce44d4 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -129,14 +129,7 @@ namespace lp
 
     std::shared_ptr<RawDatagram>& RawDatagram::Get(unsigned int index)
     {
-      if(mType != RawDatagramType::List)
-      {
-        mType = RawDatagramType::List;
-        mDictionary.clear();
-        mValue = nullptr;
-      }
-
-      if(index >= mList.size())
+      if(mType != RawDatagramType::List || index >= mList.size())
       {
         throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
       }
-- 
2.43.0


From 8b89c9cfe85fac7aef445f2df57a4ba6999c0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 13/41] fix: string literals are stored in datagrams as strings

Assigning a literal stored the boolean true, constructing a datagram from one
stored a bare pointer that was lost on the wire.
---
 include/lamppost/messages/RawDatagram.h |  2 ++
 src/lamppost/messages/RawDatagram.cpp   | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/lamppost/messages/RawDatagram.h b/include/lamppost/messages/RawDatagram.h
index a70081d..9f0599d 100644
--- a/include/lamppost/messages/RawDatagram.h
+++ b/include/lamppost/messages/RawDatagram.h
@@ -63,6 +63,7 @@ namespace lp
       RawDatagram();
       RawDatagram(RawDatagramType rawDatagramType);
       RawDatagram(std::shared_ptr<DataBase> data);
+      RawDatagram(const char* value);
 
       template<typename ContentType>
       RawDatagram(ContentType contentValue)
@@ -95,6 +96,7 @@ namespace lp
 
       // Values
       RawDatagram& operator=(std::string value);
+      RawDatagram& operator=(const char* value);
       RawDatagram& operator=(int value);
       RawDatagram& operator=(double value);
       RawDatagram& operator=(bool value);
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 1ce44d4..4b08ac6 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -32,6 +32,11 @@ namespace lp
     {
     }
 
+    RawDatagram::RawDatagram(const char* value)
+      : RawDatagram(std::string(value))
+    {
+    }
+
     RawDatagram::~RawDatagram()
     {
       mDictionary.clear();
@@ -237,6 +242,11 @@ namespace lp
       return *this;
     }
 
+    RawDatagram& RawDatagram::operator=(const char* value)
+    {
+      return *this = std::string(value);
+    }
+
     RawDatagram& RawDatagram::operator=(const std::shared_ptr<DataBase>& data)
     {
       if(mType != RawDatagramType::Value)
-- 
2.43.0


From af8ab65cd1598814c956d03922f63fda387b6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 14/41] fix: empty lists and dictionaries keep their type on
 the wire and in JSON

They were deserialized as empty datagrams.
---
 src/lamppost/messages/RawDatagram.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 4b08ac6..a0ff5ee 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -378,6 +378,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::List);
+
           unsigned int length = structure->list_content()->size();
 
           for(unsigned int i = 0; i < length; ++i)
@@ -388,6 +390,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
+
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
           for(unsigned int i = 0; i < length; ++i)
@@ -450,6 +454,8 @@ namespace lp
 
         case json_type_array:
         {
+          *root = RawDatagram(RawDatagramType::List);
+
           json_object* jarray = jobj, *jvalue;
 
           for(size_t i = 0; i < json_object_array_length(jarray); i++)
@@ -464,6 +470,8 @@ namespace lp
 
         case json_type_object:
         {
+          *root = RawDatagram(RawDatagramType::Dictionary);
+
           // Note(fairlight1337): The following line is excluded from tidy checks as the utilized macro expands to
           // (according to tidy) unclean code which cannot be changed at this time.
           json_object_object_foreach(jobj, key, val) // NOLINT
-- 
2.43.0


From 183547855aac1e6c93cb75bfd214021a2c392fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 15/41] fix: release the JSON tokener and object after parsing

---
 src/lamppost/messages/RawDatagram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index a0ff5ee..1016c1d 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -426,6 +426,9 @@ namespace lp
         ParseJsonObject(jobj, rawDatagram);
       }
 
+      json_object_put(jobj);
+      json_tokener_free(tok);
+
       return rawDatagram;
     }
 
-- 
2.43.0


From 0555f1124863e6d5f0113fa2dc548cd7d3d2b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 16/41] fix: JSON strings that contain a NUL character are not
 cut off

---
 src/lamppost/messages/RawDatagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 1016c1d..5b4db58 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -452,7 +452,7 @@ namespace lp
 
         case json_type_string:
         {
-          *root = std::string(json_object_get_string(jobj));
+          *root = std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));
         } break;
 
         case json_type_array:
-- 
2.43.0


From 7c9850298cc53db539f5044256e8b06b827bd40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 17/41] fix: JSON texts that consist of a number or literal are
 parsed

The tokener waited for more input after 5, true or null.
---
 src/lamppost/messages/RawDatagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 5b4db58..39cc56b 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -418,7 +418,8 @@ namespace lp
 
       tok = json_tokener_new_ex(1000);
 
-      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length());
+      // The terminating NUL tells the tokener that a number ends here.
+      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
       error = tok->err;
 
       if(error == json_tokener_success)
-- 
2.43.0


From a2aad1cedc8ed97cdf01de9586089110b987bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 18/41] fix: malformed messages are refused when deserializing

Bytes that are no valid message were read out of bounds.
---
 include/lamppost/messages/Message.h   |  1 +
 src/lamppost/messages/Message.cpp     | 18 ++++++++++++++++++
 src/lamppost/messages/RawDatagram.cpp |  6 +++---
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/lamppost/messages/Message.h b/include/lamppost/messages/Message.h
index c1d89a9..37a0ff6 100644
--- a/include/lamppost/messages/Message.h
+++ b/include/lamppost/messages/Message.h
@@ -9,6 +9,7 @@
 #include <flatbuffers/util.h>
 
 #include <lamppost/data/RawBytes.h>
+#include <lamppost/exceptions/OperationFailedException.h>
 #include <lamppost/messages/Datagram.h>
 #include <lamppost/schemas/FBMessage_generated.h>
 
diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..88747bd 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -43,8 +43,26 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      // The bytes come from other processes; nothing in them can be relied on before it was verified.
+      const unsigned int maximumNestingDepth = 4096;
+      flatbuffers::Verifier verifier(
+        static_cast<const uint8_t*>(bytesToDeserialize->GetContent()),
+        bytesToDeserialize->GetSize(),
+        maximumNestingDepth);
+
+      if(bytesToDeserialize->GetSize() == 0 || !schemas::VerifyFBMessageBuffer(verifier))
+      {
+        throw exceptions::OperationFailedException("Failed to deserialize message: malformed content.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
 
+      if(deserializedMessage->sender() == nullptr || deserializedMessage->topic() == nullptr || deserializedMessage->datagram() == nullptr)
+      {
+        throw exceptions::OperationFailedException("Failed to deserialize message: incomplete content.");
+      }
+
+
       return messages::Message(
         deserializedMessage->sender()->str(),
         deserializedMessage->topic()->str(),
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 39cc56b..5a75f2e 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -359,7 +359,7 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
-              rawDatagram->SetValue<std::string>(structure->string_content()->str());
+              rawDatagram->SetValue<std::string>(flatbuffers::GetString(structure->string_content()));
               break;
 
             case schemas::ValueType::ValueType_Double:
@@ -380,7 +380,7 @@ namespace lp
         {
           rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::List);
 
-          unsigned int length = structure->list_content()->size();
+          unsigned int length = flatbuffers::VectorLength(structure->list_content());
 
           for(unsigned int i = 0; i < length; ++i)
           {
@@ -392,7 +392,7 @@ namespace lp
         {
           rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
 
-          unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          unsigned int length = std::min(flatbuffers::VectorLength(structure->dictionary_keys()), flatbuffers::VectorLength(structure->dictionary_contents()));
 
           for(unsigned int i = 0; i < length; ++i)
           {
-- 
2.43.0


From 38a6417de2d62b00720893846122ede51cc14c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 19/41] fix: copies of RawBytes own their content

A copy shared the buffer with its original, and both freed it.
---
 include/lamppost/data/RawBytes.h |  4 ++++
 src/lamppost/data/RawBytes.cpp   | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/lamppost/data/RawBytes.h b/include/lamppost/data/RawBytes.h
index 9e6f7cb..5b390c9 100644
--- a/include/lamppost/data/RawBytes.h
+++ b/include/lamppost/data/RawBytes.h
@@ -3,6 +3,7 @@
 
 
 #include <cstring>
+#include <utility>
 
 #include <lamppost/exceptions/ArgumentNullException.h>
 
@@ -20,8 +21,11 @@ namespace lp
     public:
       RawBytes();
       RawBytes(void* content, std::size_t size);
+      RawBytes(const RawBytes& rawBytes);
       ~RawBytes();
 
+      RawBytes& operator=(const RawBytes& rawBytes);
+
       const void* GetContent();
       std::size_t GetSize();
 
diff --git a/src/lamppost/data/RawBytes.cpp b/src/lamppost/data/RawBytes.cpp
index f63fb9e..dd50093 100644
--- a/src/lamppost/data/RawBytes.cpp
+++ b/src/lamppost/data/RawBytes.cpp
@@ -23,6 +23,25 @@ namespace lp
       std::memcpy(mContent, content, size);
     }
 
+    RawBytes::RawBytes(const RawBytes& rawBytes)
+      : RawBytes()
+    {
+      if(rawBytes.mContent != nullptr)
+      {
+        Append(rawBytes.mContent, rawBytes.mSize);
+      }
+    }
+
+    RawBytes& RawBytes::operator=(const RawBytes& rawBytes)
+    {
+      RawBytes copy(rawBytes);
+
+      std::swap(mContent, copy.mContent);
+      std::swap(mSize, copy.mSize);
+
+      return *this;
+    }
+
     RawBytes::~RawBytes()
     {
       if(mContent != nullptr)
-- 
2.43.0


From 796c4a9d3718900149c9dd486cc6b6b3f8fe9761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 20/41] fix: comparing plugin manager configurations with
 different numbers of paths

Paths were read beyond the end of the shorter list, or ignored.
---
 include/lamppost/plugin/PluginManagerConfiguration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lamppost/plugin/PluginManagerConfiguration.h b/include/lamppost/plugin/PluginManagerConfiguration.h
index f884a12..5e89f96 100644
--- a/include/lamppost/plugin/PluginManagerConfiguration.h
+++ b/include/lamppost/plugin/PluginManagerConfiguration.h
@@ -30,7 +30,7 @@ namespace lp
     {
       return
         mBus == rhs.mBus &&
-        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin());
+        mTemplateSearchPaths == rhs.mTemplateSearchPaths;
     }
 
     bool operator!=(const lp::PluginManagerConfiguration& rhs) const
-- 
2.43.0


From 940635a9b85905a38fcdbb2b9813916f41b4da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 21/41] fix: configurations with different configuration files
 are different

---
 include/lamppost/LampPostConfiguration.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lamppost/LampPostConfiguration.h b/include/lamppost/LampPostConfiguration.h
index 969413e..7dc402b 100644
--- a/include/lamppost/LampPostConfiguration.h
+++ b/include/lamppost/LampPostConfiguration.h
@@ -25,7 +25,9 @@ namespace lp
 
     bool operator==(const LampPostConfiguration& other) const
     {
-      return mPluginManagerConfiguration == other.mPluginManagerConfiguration;
+      return
+        mPluginManagerConfiguration == other.mPluginManagerConfiguration &&
+        mConfigurationFiles == other.mConfigurationFiles;
     }
 
     bool operator!=(const LampPostConfiguration& other) const
-- 
2.43.0


From acd5855a464dd507812c8b573dce5c025d881914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 22/41] fix: directories are listed according to the directory
 filter

---
 src/lamppost/Filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..2e01d95 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -106,7 +106,7 @@ namespace lp
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
         if(filterIncludesDirectories && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
-- 
2.43.0


From a82dc12043efd4b3f3840e44e4d67e8723b4035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 23/41] fix: plugin instances get a name that is not used on
 the parent bus

---
 src/lamppost/plugin/PluginTemplate.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..f138943 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -25,13 +25,28 @@ namespace lp
   {
     int index = 0;
 
-    while(IndexedInstanceExists(index))
+    configuration.mBus = nullptr;
+
+    while(configuration.mBus == nullptr)
     {
-      index++;
-    }
+      while(IndexedInstanceExists(index))
+      {
+        index++;
+      }
 
-    configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
-    configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
+      configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
+
+      try
+      {
+        configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
+      }
+      catch(exceptions::DuplicateKeyException&)
+      {
+        // Something else on the parent bus has this name already, e.g. an
+        // instance of a template whose identifier ends with a number.
+        index++;
+      }
+    }
 
     mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
 
-- 
2.43.0


From 5c29aa3737fa03e8b2b3b381c69b69a51dc0f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:24 +0000
Subject: [PATCH 24/41] fix: a plugin that could not be created does not crash
 its template

---
 src/lamppost/plugin/PluginTemplate.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index f138943..6d6dd1b 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -48,9 +48,14 @@ namespace lp
       }
     }
 
-    mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
+    std::shared_ptr<PluginInstance> instance = mConfiguration.mInstantiateFunction(configuration);
 
-    return mInstances[configuration.mIdentifier];
+    if(instance != nullptr)
+    {
+      mInstances[configuration.mIdentifier] = instance;
+    }
+
+    return instance;
   }
 
   void PluginTemplate::Stop()
-- 
2.43.0


From 0e8c68496eb671e7cd2aab5f22b34340263fdcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 25/41] fix: replacing a plugin template closes the library of
 the previous one

---
 src/lamppost/plugin/PluginManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..f400728 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -125,6 +125,13 @@ namespace lp
               pluginTemplateDescription.mLibraryHandle = handle;
               pluginTemplateDescription.mTemplate = pluginTemplate;
 
+              if(mTemplates.find(info->mIdentifier) != mTemplates.end())
+              {
+                // The template is replaced; release the instances and the library handle of the previous one.
+                mTemplates[info->mIdentifier].mTemplate->Unload();
+                ClosePluginLibrary(mTemplates[info->mIdentifier].mLibraryHandle);
+              }
+
               mTemplates[info->mIdentifier] = pluginTemplateDescription;
 
               loadedSuccessfully = true;
-- 
2.43.0


From ff108570d920ddeca33cc0e8321e6f0246fb0e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:57 +0000
Subject: [PATCH 26/41] fix: plugin libraries without plugin information are
 skipped

---
 src/lamppost/plugin/PluginManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index f400728..fc1802a 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(info != nullptr && !info->mIdentifier.empty())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
-- 
2.43.0


From 6106ca80c71c43560436565cfbe7d1712e956bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:53 +0000
Subject: [PATCH 27/41] fix: starting and stopping a plugin repeatedly or from
 several threads

---
 include/lamppost/plugin/PluginInstance.h |  2 ++
 src/lamppost/plugin/PluginInstance.cpp   | 27 ++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/lamppost/plugin/PluginInstance.h b/include/lamppost/plugin/PluginInstance.h
index d02fda5..6a872a4 100644
--- a/include/lamppost/plugin/PluginInstance.h
+++ b/include/lamppost/plugin/PluginInstance.h
@@ -5,6 +5,7 @@
 #include <atomic>
 #include <chrono>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <thread>
 #include <utility>
@@ -51,6 +52,7 @@ namespace lp
   private:
     PluginConfiguration mConfiguration;
     std::thread mWorkerThread;
+    std::mutex mWorkerThreadMutex;
 
   protected:
     std::atomic<bool> mShouldRun;
diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index fc59556..05a27d6 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -34,6 +34,19 @@ namespace lp
 
   void PluginInstance::Start()
   {
+    std::lock_guard<std::mutex> lock(mWorkerThreadMutex);
+
+    if(mWorkerThread.joinable())
+    {
+      if(mShouldRun)
+      {
+        // Already started
+        return;
+      }
+
+      mWorkerThread.join();
+    }
+
     mShouldRun = true;
 
     std::thread workerThread(&PluginInstance::Run, this);
@@ -42,14 +55,14 @@ namespace lp
 
   void PluginInstance::Stop()
   {
-    if(mShouldRun)
-    {
-      mShouldRun = false;
+    std::lock_guard<std::mutex> lock(mWorkerThreadMutex);
 
-      if(mWorkerThread.joinable())
-      {
-        mWorkerThread.join();
-      }
+    // The worker may have ended by itself; it must be joined nevertheless.
+    mShouldRun = false;
+
+    if(mWorkerThread.joinable())
+    {
+      mWorkerThread.join();
     }
   }
 
-- 
2.43.0


From 46c64e71b61837822dcf42edf0efeeb280268152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 28/41] fix: an application that was shut down reports that it
 is stopped

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..3b6fc01 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -140,7 +140,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
-- 
2.43.0


From 7492847f54734356d41ac5ebac2bf0d202b46154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 29/41] fix: stopping an application that is shut down already
 has no effect

---
 src/lamppost/LampPost.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 3b6fc01..4cff58a 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -41,8 +41,7 @@ namespace lp
     mRootBus->Detach();
     mPluginManager.UnloadTemplates();
 
-    mLog.Info("Disabling root bus", 1);
-    mRootBus = nullptr;
+    // The root bus remains until this object is destroyed: Stop() may be called at any time.
   }
 
   void LampPost::InstantiatePlugin(std::string identifier, PluginConfiguration pluginConfiguration)
-- 
2.43.0


From be6535fdf68bc68054abb42235b2c4ac973dfaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 30/41] fix: stopping the application from a signal handler
 neither logs nor allocates

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 4cff58a..8fdce31 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -144,7 +144,7 @@ namespace lp
 
   void LampPost::Stop()
   {
-    mLog.Info("Received stop signal.");
+    // This is called from signal handlers, which may neither log (the interrupted code may be doing that) nor allocate.
     mRootBus->Stop();
   }
 
-- 
2.43.0


From e6d76960e7b415eabf0740a93d0c55f56e25f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 31/41] fix: a signal that arrives while the program starts up
 does not crash it

---
 src/main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 69b645e..e80be26 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -20,9 +20,6 @@ void HandleShutdownSignal()
 // Main
 int main(int argc, char** argv)
 {
-  std::cout << "Hooking up system calls." << std::endl;
-  HookSystemSignals();
-
   std::cout << "Starting LampPost." << std::endl;
   lp::LampPostConfiguration configuration;
 
@@ -35,6 +32,10 @@ int main(int argc, char** argv)
 
   lamppost = std::make_shared<lp::LampPost>(configuration);
 
+  // The signal handler uses the instance created above.
+  std::cout << "Hooking up system calls." << std::endl;
+  HookSystemSignals();
+
   try
   {
     lamppost->Start();
-- 
2.43.0


From c32147d75ced5624a669b23a51f80f32432292e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 32/41] fix: unusable plugin entries in configuration files do
 not prevent the application from starting

---
 src/lamppost/LampPost.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 8fdce31..4a1a6bc 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -71,7 +71,7 @@ namespace lp
 
     messages::Datagram config = messages::Datagram::DeserializeFromJson(sts.str());
 
-    if(config.KeyExists("plugins"))
+    if(config.KeyExists("plugins") && config["plugins"].GetType() == messages::RawDatagramType::List)
     {
       int pluginsCount = config["plugins"].GetCount();
 
@@ -84,22 +84,22 @@ namespace lp
       {
         if(config["plugins"][i].KeyExists("type"))
         {
-          std::string pluginType = config["plugins"][i]["type"];
-
           PluginConfiguration pluginConfiguration;
           pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
 
           try
           {
+            std::string pluginType = config["plugins"][i]["type"];
+
             InstantiatePlugin(pluginType, pluginConfiguration);
           }
-          catch(exceptions::OperationFailedException& operationFailedException)
+          catch(exceptions::Exception& exception)
           {
             std::stringstream configSts;
             configSts << pluginConfiguration.mCustomConfiguration;
 
             mLog.Error("Error while processing configuration file:");
-            mLog.Error(std::string(operationFailedException.what()), 1);
+            mLog.Error(std::string(exception.what()), 1);
             mLog.Error("Plugin configuration: " + configSts.str(), 1);
           }
         }
-- 
2.43.0


From f1a408b20ed173850fc29b5ce8d7a22e11a4401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 33/41] fix: busses with action providers or consumers are
 released completely

---
 include/lamppost/bus/Bus.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 18779ff..6ed79c1 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -137,12 +137,15 @@ namespace lp
           topic,
           std::forward<Args>(args)...);
 
+        // The instance owns the subscriber, so the subscriber's callback must not own the instance.
+        std::weak_ptr<ActionProvider> weakInstance = instance;
         requestSubscriber->SetDatagramCallback(
-          [instance](messages::Datagram datagram)
+          [weakInstance](messages::Datagram datagram)
           {
+            std::shared_ptr<ActionProvider> instance = weakInstance.lock();
             std::string invocationId = datagram.Get<std::string>("invocationId");
 
-            if(!invocationId.empty())
+            if(instance != nullptr && !invocationId.empty())
             {
               instance->ProcessRequest(invocationId, datagram);
             }
@@ -165,12 +168,15 @@ namespace lp
           topic,
           std::forward<Args>(args)...);
 
+        // The instance owns the subscriber, so the subscriber's callback must not own the instance.
+        std::weak_ptr<ActionConsumer> weakInstance = instance;
         responseSubscriber->SetDatagramCallback(
-          [instance](messages::Datagram datagram)
+          [weakInstance](messages::Datagram datagram)
           {
+            std::shared_ptr<ActionConsumer> instance = weakInstance.lock();
             std::string invocationId = datagram.Get<std::string>("invocationId");
 
-            if(!invocationId.empty())
+            if(instance != nullptr && !invocationId.empty())
             {
               messages::Datagram response = datagram["response"];
 
-- 
2.43.0


From 7b240ea4ca80ececa18a04930435f4834ff1ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 34/41] fix: synchronize ActionProvider::Reset with processing
 requests

---
 include/lamppost/bus/ActionProvider.h |  3 +++
 src/lamppost/bus/ActionProvider.cpp   | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/lamppost/bus/ActionProvider.h b/include/lamppost/bus/ActionProvider.h
index dbc01b8..57482a2 100644
--- a/include/lamppost/bus/ActionProvider.h
+++ b/include/lamppost/bus/ActionProvider.h
@@ -4,6 +4,8 @@
 
 #include <functional>
 #include <iostream>
+#include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -23,6 +25,7 @@ namespace lp
       std::shared_ptr<Subscriber> mRequestSubscriber;
       std::shared_ptr<Publisher> mResponsePublisher;
 
+      std::recursive_mutex mCallbackMutex;
       std::function<void(std::shared_ptr<ActionProvider>, std::string, lp::messages::Datagram)> mCallback;
 
     public:
diff --git a/src/lamppost/bus/ActionProvider.cpp b/src/lamppost/bus/ActionProvider.cpp
index 507f26f..c4fbd46 100644
--- a/src/lamppost/bus/ActionProvider.cpp
+++ b/src/lamppost/bus/ActionProvider.cpp
@@ -19,6 +19,7 @@ namespace lp
 
     void ActionProvider::Reset()
     {
+      std::lock_guard<std::recursive_mutex> lock(mCallbackMutex);
       mCallback = nullptr;
     }
 
@@ -33,7 +34,15 @@ namespace lp
 
     void ActionProvider::ProcessRequest(std::string invocationId, messages::Datagram request)
     {
-      mCallback(this->shared_from_this(), std::move(invocationId), request);
+      // Held during the call: once Reset() has returned, the callback does not run anymore. The copy allows the
+      // callback to reset its own provider.
+      std::lock_guard<std::recursive_mutex> lock(mCallbackMutex);
+      std::function<void(std::shared_ptr<ActionProvider>, std::string, messages::Datagram)> callback = mCallback;
+
+      if(callback != nullptr)
+      {
+        callback(this->shared_from_this(), std::move(invocationId), request);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From db8abf5093d7cff2bbc9ed01d7cbbd4a9e0f5c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 35/41] fix: SysInfo accepts datagrams that are not strings

---
 src/plugins/sysinfo/SysInfo.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 403cd77..bea1e98 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -21,8 +21,11 @@ namespace lp
         "/sysinfo",
         [this](messages::Datagram datagram)
         {
-          std::string message = datagram.Get<std::string>();
-          mLog.Info("Got it: " + message);
+          // Anybody may publish on this topic, with any content.
+          std::stringstream sts;
+          sts << std::string("Got it: ");
+          sts << datagram;
+          mLog.Info(sts.str());
         });
 
       mSysInfoActionProvider = GetActionProvider(
-- 
2.43.0


From 59db5f6e76cad9397885e6ce723a0cc7da4eefdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 36/41] fix: SysInfo does not answer requests after it was
 deinitialized

---
 src/plugins/sysinfo/SysInfo.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index bea1e98..2dc4c14 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -63,6 +63,13 @@ namespace lp
 
     void SysInfo::Deinitialize()
     {
+      // The callback refers to this instance, which may be gone before the bus.
+      if(mSysInfoActionProvider != nullptr)
+      {
+        mSysInfoActionProvider->Reset();
+        mSysInfoActionProvider = nullptr;
+      }
+
       DeleteSubscriber(mSysInfoSubscriber);
       mSysInfoSubscriber = nullptr;
 
-- 
2.43.0


From cb197b8dc769dac6a985fd831875b02b2c24ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:34 +0000
Subject: [PATCH 37/41] fix: malformed messages received by a link are dropped

---
 src/plugins/link/Link.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..a522045 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -233,8 +233,16 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+            successfullyReceivedMessage = true;
+          }
+          catch(exceptions::OperationFailedException& exception)
+          {
+            // Whatever is at the other end must not be able to bring down this process.
+            mLog.Warning("Dropped a message received through ZMQ: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From 70ff015d8f3f305d5db16ba3e96d26b97466e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:16 +0000
Subject: [PATCH 38/41] fix: identifiers carried only 32 bits of entropy and
 were likely to collide

---
 include/lamppost/utilities/Uuid.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/utilities/Uuid.h b/include/lamppost/utilities/Uuid.h
index a84b584..5c375f2 100644
--- a/include/lamppost/utilities/Uuid.h
+++ b/include/lamppost/utilities/Uuid.h
@@ -28,8 +28,10 @@ namespace lp
       {
         Uuid uuid;
 
-        std::mt19937 rng;
-        rng.seed(std::random_device()());
+        // A single random word is not enough: tens of thousands of identifiers would already be likely to collide.
+        std::random_device entropy;
+        std::seed_seq seed{entropy(), entropy(), entropy(), entropy()};
+        std::mt19937 rng(seed);
         std::uniform_int_distribution<unsigned int> dist(1, -1);
 
         char buffer[128];
-- 
2.43.0


From 402659f88f3c308785b0cf8b3cd8181f64729e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 39/41] fix: paths of 1024 characters and more were lost or cut
 off

---
 include/lamppost/Filesystem.h |  1 +
 src/lamppost/Filesystem.cpp   | 29 +++++++++++++++++++++--------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/lamppost/Filesystem.h b/include/lamppost/Filesystem.h
index 4e31cc9..62bbf56 100644
--- a/include/lamppost/Filesystem.h
+++ b/include/lamppost/Filesystem.h
@@ -7,6 +7,7 @@
 #include <list>
 #include <string>
 
+#include <errno.h>
 #include <string.h>
 
 
diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 2e01d95..fb476f5 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -122,10 +122,11 @@ namespace lp
   std::string Filesystem::GetPathOfRunningExecutable()
   {
     std::string path;
+
+#if defined(_WIN32) || defined(_WIN64)
     char buffer[1024];
     int bufferLength = sizeof(buffer);
 
-#if defined(_WIN32) || defined(_WIN64)
     DWORD bytes = GetModuleFileName(nullptr, buffer, (DWORD)bufferLength);
 
     if(bytes > 0)
@@ -134,13 +135,17 @@ namespace lp
     }
 #elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
     std::string procExePath = "/proc/" + std::to_string(getpid()) + "/exe";
-    int bytes = std::min(static_cast<int>(readlink(procExePath.c_str(), static_cast<char*>(buffer), bufferLength)), bufferLength - 1);
+    std::string buffer(1024, '\0');
+    ssize_t bytes = readlink(procExePath.c_str(), &buffer[0], buffer.size());
 
-    if(bytes >= 0) {
-      buffer[bytes] = '\0';
+    while(bytes >= 0 && static_cast<size_t>(bytes) == buffer.size()) {
+      buffer.resize(buffer.size() * 2);
+      bytes = readlink(procExePath.c_str(), &buffer[0], buffer.size());
     }
 
-    path = static_cast<char*>(buffer);
+    if(bytes >= 0) {
+      path = buffer.substr(0, static_cast<size_t>(bytes));
+    }
 #endif
 
     return path;
@@ -150,10 +155,10 @@ namespace lp
   {
     std::string path;
 
+#if defined(_WIN32) || defined(_WIN64)
     char buffer[1024];
     int bufferLength = sizeof(buffer);
 
-#if defined(_WIN32) || defined(_WIN64)
     DWORD result = GetCurrentDirectory((DWORD)bufferLength, buffer);
 
     if(result > 0)
@@ -161,8 +166,16 @@ namespace lp
       path = static_cast<char*>(buffer);
     }
 #elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
-    if(getcwd(static_cast<char*>(buffer), bufferLength) != nullptr) {
-      path = static_cast<char*>(buffer);
+    std::string buffer(1024, '\0');
+    char* directory = getcwd(&buffer[0], buffer.size());
+
+    while(directory == nullptr && errno == ERANGE) {
+      buffer.resize(buffer.size() * 2);
+      directory = getcwd(&buffer[0], buffer.size());
+    }
+
+    if(directory != nullptr) {
+      path = directory;
     }
 #endif
 
-- 
2.43.0


From a914d305de0bea125740ea3a8b03cf772d0486f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:19 +0000
Subject: [PATCH 40/41] fix: accept messages with more than a million entries

---
 src/lamppost/messages/Message.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 88747bd..d8f26f6 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -44,11 +44,14 @@ namespace lp {
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
       // The bytes come from other processes; nothing in them can be relied on before it was verified.
+      // No more tables than the bytes have room for, wherever they are referred to from.
       const unsigned int maximumNestingDepth = 4096;
+      const unsigned int maximumTables = bytesToDeserialize->GetSize() / sizeof(flatbuffers::soffset_t) + 1;
       flatbuffers::Verifier verifier(
         static_cast<const uint8_t*>(bytesToDeserialize->GetContent()),
         bytesToDeserialize->GetSize(),
-        maximumNestingDepth);
+        maximumNestingDepth,
+        maximumTables);
 
       if(bytesToDeserialize->GetSize() == 0 || !schemas::VerifyFBMessageBuffer(verifier))
       {
-- 
2.43.0


From f6a39c039d46e0116df27587dbc4074a84e54486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:19 +0000
Subject: [PATCH 41/41] fix: refuse bytes that refer to the same content over
 and over

---
 src/lamppost/messages/Message.cpp | 49 +++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index d8f26f6..141b9c4 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -3,6 +3,50 @@
 
 namespace lp {
   namespace messages {
+    namespace
+    {
+      bool Consume(size_t size, size_t& bytesLeft)
+      {
+        bool fits = (size <= bytesLeft);
+
+        if(fits)
+        {
+          bytesLeft -= size;
+        }
+
+        return fits;
+      }
+
+      // A serialized message refers to each part of its content once. Bytes that refer to the same part over and over
+      // could stand for any amount of memory: their content, counted as often as it is referred to, exceeds their size.
+      bool ContentFits(const schemas::FBDatagram* structure, size_t& bytesLeft)
+      {
+        bool fits = Consume(sizeof(flatbuffers::soffset_t), bytesLeft);
+
+        if(fits && structure->string_content() != nullptr)
+        {
+          fits = Consume(structure->string_content()->size(), bytesLeft);
+        }
+
+        for(flatbuffers::uoffset_t i = 0; fits && i < flatbuffers::VectorLength(structure->list_content()); ++i)
+        {
+          fits = ContentFits(structure->list_content()->Get(i), bytesLeft);
+        }
+
+        for(flatbuffers::uoffset_t i = 0; fits && i < flatbuffers::VectorLength(structure->dictionary_keys()); ++i)
+        {
+          fits = Consume(sizeof(flatbuffers::uoffset_t) + structure->dictionary_keys()->Get(i)->size(), bytesLeft);
+        }
+
+        for(flatbuffers::uoffset_t i = 0; fits && i < flatbuffers::VectorLength(structure->dictionary_contents()); ++i)
+        {
+          fits = ContentFits(structure->dictionary_contents()->Get(i), bytesLeft);
+        }
+
+        return fits;
+      }
+    } // namespace
+
     Message::Message(std::string sender, std::string topic, Datagram datagram)
       : mSender(std::move(sender)),
         mTopic(std::move(topic)),
@@ -65,6 +109,11 @@ namespace lp {
         throw exceptions::OperationFailedException("Failed to deserialize message: incomplete content.");
       }
 
+      size_t bytesLeft = bytesToDeserialize->GetSize();
+      if(!ContentFits(deserializedMessage->datagram(), bytesLeft))
+      {
+        throw exceptions::OperationFailedException("Failed to deserialize message: inconsistent content.");
+      }
 
       return messages::Message(
         deserializedMessage->sender()->str(),
-- 
2.43.0


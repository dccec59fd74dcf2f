From 44bf8d829921a71b77bfda8f99527c7626a19ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 01/35] fix: carry out every effective entry of a switch
 request exactly once

A controller named twice to be started was started twice, and best-effort
entries that are to be ignored (starting a running controller, stopping one
that is not running) stayed in the internal request lists: the running
controller was started again, and with start_asap a controller named both to
stop and to start was stopped and started in every cycle.
---
 controller_manager/src/controller_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d78571d..458b081 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -478,7 +478,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be stopped in list of controllers",
                 controller.c_str());
-      stop_request_.push_back(ct);
+      if (std::find(stop_request_.begin(), stop_request_.end(), ct) == stop_request_.end())
+        stop_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Stop request vector has size %i", (int)stop_request_.size());
@@ -503,7 +504,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be started in list of controllers",
                 controller.c_str());
-      start_request_.push_back(ct);
+      if (std::find(start_request_.begin(), start_request_.end(), ct) == start_request_.end())
+        start_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Start request vector has size %i", (int)start_request_.size());
@@ -547,6 +549,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_stop_list = false;
+        stop_request_.erase(std::find(stop_request_.begin(), stop_request_.end(), controller.c.get()));
       }
     }
 
@@ -558,6 +561,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_start_list = false;
+        start_request_.erase(std::find(start_request_.begin(), start_request_.end(), controller.c.get()));
       }
     }
 
-- 
2.43.0


From 97211e08141d4aaf5f095bdb88ca27f21cd0ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 02/35] fix: do not abort or start a controller again that was
 already aborted

While other controllers of a start_asap switch were still waiting, a controller
that had been aborted was aborted again in every cycle, or even started.
---
 controller_manager/src/controller_manager.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 458b081..918caa3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -216,11 +216,15 @@ void ControllerManager::startControllersAsap(const ros::Time& time)
     }
   }
 
+  // controllers that were started or aborted are decided, do not touch them again
+  start_request_.erase(std::remove_if(start_request_.begin(), start_request_.end(),
+                                      [](controller_interface::ControllerBase *request) {
+                                        return request->isRunning() || request->isAborted();
+                                      }),
+                       start_request_.end());
+
   // all needed controllers started or aborted, switch done
-  if (std::all_of(start_request_.begin(), start_request_.end(),
-                  [](controller_interface::ControllerBase *request) {
-                    return request->isRunning() || request->isAborted();
-                  }))
+  if (start_request_.empty())
   {
     switch_params_.do_switch = false;
   }
-- 
2.43.0


From 98cccc33b2f9068d99bf7cf066dd565bc1d32a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 03/35] fix: lock before resetting the parameters of a switch

A second call of switchController() reset the parameters of a switch that
another thread was still waiting for, so that the first switch was dropped and
nevertheless reported as successful.
---
 controller_manager/src/controller_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 918caa3..d34997f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -441,6 +441,9 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          const std::vector<std::string>& stop_controllers,
                                          int strictness, bool start_asap, double timeout)
 {
+  // lock controllers
+  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
+
   switch_params_ = SwitchParams();
 
   if (!stop_request_.empty() || !start_request_.empty())
@@ -459,9 +462,6 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   for (const auto& controller : stop_controllers)
     ROS_DEBUG(" - stopping controller '%s'", controller.c_str());
 
-  // lock controllers
-  std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
-
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
   for (const auto& controller : stop_controllers)
-- 
2.43.0


From d960ba6445bdb41e4bd5ba65a59a8f8ef01daf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 04/35] fix: withdraw a switch request that was not carried out
 in time

A switch that was reported as failed stayed pending, so that the control loop
told the hardware to switch afterwards, and it could be working on the request
lists while they were cleared. The request is now handed over between the
service and the control loop atomically.
---
 .../controller_manager/controller_manager.h   |  6 +++++
 controller_manager/src/controller_manager.cpp | 26 ++++++++++---------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 471f47a..0ebd73d 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -33,6 +33,7 @@
 
 
 #include "controller_manager/controller_spec.h"
+#include <atomic>
 #include <cstdio>
 #include <map>
 #include <mutex>
@@ -202,6 +203,11 @@ private:
 
   SwitchParams switch_params_;
 
+  /// Who may access the switch request: the non-realtime side (NONE), whoever claims it first (REQUESTED), or the
+  /// realtime loop (EXECUTING)
+  enum class SwitchProgress { NONE, REQUESTED, EXECUTING };
+  std::atomic<SwitchProgress> switch_progress_ = {SwitchProgress::NONE};
+
   /*\}*/
 
   /** \name Controllers List
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d34997f..e096e92 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -83,9 +83,11 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
     controller.c->updateRequest(time, period);
 
   // there are controllers to start/stop
-  if (switch_params_.do_switch)
+  SwitchProgress requested = SwitchProgress::REQUESTED;
+  if (switch_progress_.compare_exchange_strong(requested, SwitchProgress::EXECUTING))
   {
     manageSwitch(time);
+    switch_progress_ = switch_params_.do_switch ? SwitchProgress::REQUESTED : SwitchProgress::NONE;
   }
 }
 
@@ -616,25 +618,25 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   switch_params_.init_time = ros::Time::now();
   switch_params_.timeout = timeout;
   switch_params_.do_switch = true;
+  switch_progress_ = SwitchProgress::REQUESTED;
 
   // wait until switch is finished
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && switch_params_.do_switch)
+  while (switch_progress_ != SwitchProgress::NONE)
   {
-    if (!ros::ok())
-    {
-      return false;
-    }
     std::chrono::duration<double> diff = std::chrono::system_clock::now() - start_time;
-    if (diff.count() < timeout+1.0 || timeout == 0){
-        std::this_thread::sleep_for(std::chrono::microseconds(100));
-    } else {
-        ROS_DEBUG("Timed out while switching controllers. Exiting...");
-        timed_out = true;
-        break;
+    if (!ros::ok() || (diff.count() >= timeout+1.0 && timeout != 0)){
+        // withdraw the request, unless the realtime loop is executing it right now
+        SwitchProgress requested = SwitchProgress::REQUESTED;
+        if (switch_progress_.compare_exchange_strong(requested, SwitchProgress::NONE)){
+            ROS_DEBUG("Timed out while switching controllers. Exiting...");
+            timed_out = true;
+            break;
+        }
     }
+    std::this_thread::sleep_for(std::chrono::microseconds(100));
   }
   start_request_.clear();
   stop_request_.clear();
-- 
2.43.0


From 3942999fb29dca6963a8f93a39f7089275f925c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 05/35] fix: make the hand-over of the controllers list to the
 control loop safe

The indices were plain integers shared between threads, and a list could be
recycled between the moment the control loop read its index and the moment it
published that it uses it.
---
 .../include/controller_manager/controller_manager.h       | 4 ++--
 controller_manager/src/controller_manager.cpp             | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 0ebd73d..5ecd56b 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -219,9 +219,9 @@ private:
   /// Double-buffered controllers list
   std::vector<ControllerSpec> controllers_lists_[2];
   /// The index of the current controllers list
-  int current_controllers_list_ = {0};
+  std::atomic<int> current_controllers_list_ = {0};
   /// The index of the controllers list being used in the real-time thread.
-  int used_by_realtime_ = {-1};
+  std::atomic<int> used_by_realtime_ = {-1};
   /*\}*/
 
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e096e92..4c9ad97 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -65,8 +65,12 @@ ControllerManager::ControllerManager(hardware_interface::RobotHW *robot_hw, cons
 // Must be realtime safe.
 void ControllerManager::update(const ros::Time& time, const ros::Duration& period, bool reset_controllers)
 {
-  used_by_realtime_ = current_controllers_list_;
-  
+  // publish which list is used, and make sure that it had not been replaced before that
+  do
+  {
+    used_by_realtime_ = current_controllers_list_.load();
+  } while (used_by_realtime_ != current_controllers_list_);
+
   // Restart all running controllers if motors are re-enabled
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
-- 
2.43.0


From 97ea8522c3604967f5675df6fb74a23d8af1e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 06/35] fix: do not recycle a controllers list in use when ROS
 shuts down

The early return in the waiting loops was never reached, so a shutdown ended
the wait and destroyed the controllers under the running control loop.
---
 controller_manager/src/controller_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4c9ad97..e95f490 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -245,7 +245,7 @@ bool ControllerManager::loadController(const std::string& name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -359,7 +359,7 @@ bool ControllerManager::loadController(const std::string& name)
   // Destroys the old controllers list when the realtime thread is finished with it.
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -383,7 +383,7 @@ bool ControllerManager::unloadController(const std::string &name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -426,7 +426,7 @@ bool ControllerManager::unloadController(const std::string &name)
   ROS_DEBUG("Realtime switches over to new controller list");
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
-- 
2.43.0


From d87f6cdbb94f09e5577a870820984f55cf3ca4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 07/35] fix: make the state of a controller readable from other
 threads

The state is written by the control loop and read by the services.
---
 .../include/controller_interface/controller_base.h             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller_interface/include/controller_interface/controller_base.h b/controller_interface/include/controller_interface/controller_base.h
index 59f4f79..463b244 100644
--- a/controller_interface/include/controller_interface/controller_base.h
+++ b/controller_interface/include/controller_interface/controller_base.h
@@ -32,6 +32,7 @@
 #pragma once
 
 
+#include <atomic>
 #include <ros/node_handle.h>
 #include <hardware_interface/robot_hw.h>
 #include <memory>
@@ -251,7 +252,7 @@ public:
   };
 
   /// The current execution state of the controller
-  ControllerState state_ = ControllerState::CONSTRUCTED;
+  std::atomic<ControllerState> state_ = {ControllerState::CONSTRUCTED};
 
 };
 
-- 
2.43.0


From 49b37790569ec3a0a6628e165b9c03f937f48b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 08/35] fix: do not let a controller appear stopped while it is
 reset

A service call at that moment could unload it under the control loop, refuse to
stop it, or start a controller that needs the same resources.
---
 controller_manager/src/controller_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e95f490..adb2841 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -75,8 +75,9 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
       if (controller.c->isRunning()){
-        controller.c->stopRequest(time);
-        controller.c->startRequest(time);
+        // it keeps running for the rest of the world
+        controller.c->stopping(time);
+        controller.c->starting(time);
       }
     }
   }
-- 
2.43.0


From dfd0296e7da55d9a5e92daa2f3941ac607a78158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 09/35] fix: lock the controllers while reloading libraries

loadController() and switchController() can be called directly, without passing
through the services. A controller loaded in the meantime ended the process by
an assertion or survived the library it came from.
---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index adb2841..e19b4c4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -663,6 +663,9 @@ bool ControllerManager::reloadControllerLibrariesSrv(
   std::lock_guard<std::mutex> guard(services_lock_);
   ROS_DEBUG("reload libraries service locked");
 
+  // lock controllers, so that none is loaded or started meanwhile
+  std::lock_guard<std::recursive_mutex> controller_guard(controllers_lock_);
+
   // only reload libraries if no controllers are running
   std::vector<std::string> controllers;
   getControllerNames(controllers);
-- 
2.43.0


From 3fd46569c893c531ef501b0527854b4b4a77bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 10/35] fix: do not return a combined interface that is out of
 date

---
 .../internal/interface_manager.h              | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index f057966..5466cf2 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -214,11 +214,10 @@ public:
     // combined interface, or return one already constructed
     T* iface_combo;
     InterfaceMap::iterator it_combo = interfaces_combo_.find(type_name);
-    if(it_combo != interfaces_combo_.end() &&
-        num_ifaces_registered_[type_name] == iface_list.size()) {
-      // there exists a combined interface with the same number of interfaces combined
-      // (since you cannot unregister interfaces, this will be guaranteed to be the
-      //  same interfaces from previous calls)
+    const std::vector<void*> ifaces(iface_list.begin(), iface_list.end());
+    if(it_combo != interfaces_combo_.end() && ifaces_combined_[type_name] == ifaces &&
+       containsResources(static_cast<T*>(it_combo->second), iface_list)) {
+      // there exists a combined interface of the same interfaces, which have got no new resources since
       iface_combo = static_cast<T*>(it_combo->second);
     } else {
       // no existing combined interface
@@ -228,7 +227,7 @@ public:
         internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
         // save the combined interface for if this is called again
         interfaces_combo_[type_name] = iface_combo;
-        num_ifaces_registered_[type_name] = iface_list.size();
+        ifaces_combined_[type_name] = ifaces;
       } else {
         // Multiple interfaces of the same type which are not ResourceManager cannot be combined, so return
         // nullptr
@@ -299,15 +298,32 @@ public:
   }
 
 protected:
+  /// Tells if the combined interface has all resources of the interfaces it was made of
+  template<class T>
+  static bool containsResources(T* iface_combo, const std::vector<T*>& ifaces)
+  {
+    std::vector<std::string> combined;
+    internal::CheckIsResourceManager<T>::callGetResources(combined, iface_combo);
+    for (T* iface : ifaces) {
+      std::vector<std::string> resources;
+      internal::CheckIsResourceManager<T>::callGetResources(resources, iface);
+      for (const auto& resource : resources) {
+        if (std::find(combined.begin(), combined.end(), resource) == combined.end())
+          return false;
+      }
+    }
+    return true;
+  }
+
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
-  typedef std::map<std::string, size_t> SizeMap;
+  typedef std::map<std::string, std::vector<void*> > CombinedMap;
   typedef std::map<std::string, std::vector<std::string> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
   InterfaceManagerVector interface_managers_;
-  SizeMap num_ifaces_registered_;
+  CombinedMap ifaces_combined_;
   std::vector<ResourceManagerBase*> interface_destruction_list_;
   /// This will allow us to check the resources based on the demangled type name of the interface
   ResourceMap resources_;
-- 
2.43.0


From 5bed30360e37714847f0cd2720f6587453ba2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 11/35] fix: list resources registered after their interface
 was

---
 .../internal/interface_manager.h                  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index 5466cf2..745a1ba 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -31,6 +31,7 @@
 #pragma once
 
 
+#include <functional>
 #include <map>
 #include <string>
 #include <vector>
@@ -143,7 +144,13 @@ public:
       ROS_WARN_STREAM("Replacing previously registered interface '" << iface_name << "'.");
     }
     interfaces_[iface_name] = iface;
-    internal::CheckIsResourceManager<T>::callGetResources(resources_[iface_name], iface);
+    // resources may still be registered to the interface later on
+    resources_[iface_name] = [iface]()
+    {
+      std::vector<std::string> resources;
+      internal::CheckIsResourceManager<T>::callGetResources(resources, iface);
+      return resources;
+    };
   }
 
   /**
@@ -285,7 +292,7 @@ public:
     ResourceMap::const_iterator it = resources_.find(iface_type);
     if(it != resources_.end())
     {
-      out = it->second;
+      out = it->second();
     }
 
     for (const auto& interface_manager : interface_managers_)
@@ -318,14 +325,14 @@ protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
   typedef std::map<std::string, std::vector<void*> > CombinedMap;
-  typedef std::map<std::string, std::vector<std::string> > ResourceMap;
+  typedef std::map<std::string, std::function<std::vector<std::string>()> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
   InterfaceManagerVector interface_managers_;
   CombinedMap ifaces_combined_;
   std::vector<ResourceManagerBase*> interface_destruction_list_;
-  /// This will allow us to check the resources based on the demangled type name of the interface
+  /// This will allow us to list the resources based on the demangled type name of the interface
   ResourceMap resources_;
 };
 
-- 
2.43.0


From 54c609ff0095ffabfc91de0c1bbc360b4aa3fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 12/35] fix: report the switch state of the combined robots

---
 .../combined_robot_hw/combined_robot_hw.h     | 17 ++++++++-
 combined_robot_hw/src/combined_robot_hw.cpp   | 36 ++++++++++++++++++-
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index d1e1d34..d8956ba 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -81,6 +81,18 @@ public:
   void doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                 const std::list<hardware_interface::ControllerInfo>& stop_list) override;
 
+  /**
+   * Return (in realtime) the state of the last doSwitch(): it failed if it failed for any of the RobotHW objects, and is
+   * done once it is done for all of them.
+   */
+  SwitchState switchResult() const override;
+
+  /**
+   * Return (in realtime) the state of the last doSwitch() for a given controller, considering only the RobotHW objects
+   * whose resources it uses.
+   */
+  SwitchState switchResult(const hardware_interface::ControllerInfo& controller) const override;
+
   /**
    * Reads data from the robot HW
    *
@@ -110,7 +122,10 @@ protected:
    */
   void filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                             std::list<hardware_interface::ControllerInfo>& filtered_list,
-                            hardware_interface::RobotHWSharedPtr robot_hw);
+                            hardware_interface::RobotHWSharedPtr robot_hw) const;
+
+  /** \brief Combines the switch states of two RobotHW objects */
+  static SwitchState combineSwitchStates(SwitchState a, SwitchState b);
 };
 
 }
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 24b24f4..1b56b33 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -89,6 +89,40 @@ namespace combined_robot_hw
     }
   }
 
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult() const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      result = combineSwitchStates(result, robot_hw->switchResult());
+    }
+    return result;
+  }
+
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult(const hardware_interface::ControllerInfo& controller) const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      std::list<hardware_interface::ControllerInfo> filtered_list;
+      filterControllerList({controller}, filtered_list, robot_hw);
+      for (const auto& filtered_controller : filtered_list)
+      {
+        result = combineSwitchStates(result, robot_hw->switchResult(filtered_controller));
+      }
+    }
+    return result;
+  }
+
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::combineSwitchStates(SwitchState a, SwitchState b)
+  {
+    if (a == SwitchState::ERROR || b == SwitchState::ERROR)
+    {
+      return SwitchState::ERROR;
+    }
+    return a == SwitchState::ONGOING ? a : b;
+  }
+
   bool CombinedRobotHW::loadRobotHW(const std::string& name)
   {
     ROS_DEBUG("Will load robot HW '%s'", name.c_str());
@@ -197,7 +231,7 @@ namespace combined_robot_hw
 
   void CombinedRobotHW::filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                                              std::list<hardware_interface::ControllerInfo>& filtered_list,
-                                             hardware_interface::RobotHWSharedPtr robot_hw)
+                                             hardware_interface::RobotHWSharedPtr robot_hw) const
   {
     filtered_list.clear();
     for (const auto& controller : list)
-- 
2.43.0


From ec37068e5e7bccbd25bc176718e824cdf1672094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 13/35] fix: take over soft limits from parameters all together
 or not at all

---
 .../joint_limits_interface/joint_limits_rosparam.h        | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
index fae269a..687a9f6 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
@@ -216,12 +216,10 @@ inline bool getSoftJointLimits(const std::string& joint_name, const ros::NodeHan
   bool has_soft_limits;
   if(limits_nh.getParam("has_soft_limits", has_soft_limits))
   {
-    if(has_soft_limits && limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit"))
+    SoftJointLimits new_limits;
+    if(has_soft_limits && limits_nh.getParam("k_position", new_limits.k_position) && limits_nh.getParam("k_velocity", new_limits.k_velocity) && limits_nh.getParam("soft_lower_limit", new_limits.min_position) && limits_nh.getParam("soft_upper_limit", new_limits.max_position))
     {
-      limits_nh.getParam("k_position", soft_limits.k_position);
-      limits_nh.getParam("k_velocity", soft_limits.k_velocity);
-      limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
-      limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
+      soft_limits = new_limits;
       return true;
     }
   }
-- 
2.43.0


From 67cf9164db159070e99e79521f5e7ee19071fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 14/35] fix: keep the soft velocity bounds when the measured
 velocity is far outside

---
 .../include/joint_limits_interface/joint_limits_interface.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index c4f0c90..b45705b 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -509,8 +509,10 @@ public:
     {
       const double vel = jh_.getVelocity();
       const double delta_t = period.toSec();
-      min_vel = std::max(vel - limits_.max_acceleration * delta_t, min_vel);
-      max_vel = std::min(vel + limits_.max_acceleration * delta_t, max_vel);
+      const double min_acc_vel = saturate(vel - limits_.max_acceleration * delta_t, min_vel, max_vel);
+      const double max_acc_vel = saturate(vel + limits_.max_acceleration * delta_t, min_vel, max_vel);
+      min_vel = min_acc_vel;
+      max_vel = max_acc_vel;
     }
 
     jh_.setCommand(saturate(jh_.getCommand(), min_vel, max_vel));
-- 
2.43.0


From 9607ff2184d10d00a7b7ed63d65270567710b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 15/35] fix: map absolute positions of a differential without
 position data

---
 .../include/transmission_interface/differential_transmission.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/differential_transmission.h b/transmission_interface/include/transmission_interface/differential_transmission.h
index e2c1c24..939d61a 100644
--- a/transmission_interface/include/transmission_interface/differential_transmission.h
+++ b/transmission_interface/include/transmission_interface/differential_transmission.h
@@ -309,7 +309,7 @@ inline void DifferentialTransmission::actuatorToJointAbsolutePosition(const Actu
                                                                             JointData&    jnt_data)
 {
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
-  assert(act_data.position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
+  assert(act_data.absolute_position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
 
   const std::vector<double>& ar = act_reduction_;
   const std::vector<double>& jr = jnt_reduction_;
-- 
2.43.0


From 598da01d09f086cc87a5cb91bbc94d5acfeb4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 16/35] fix: check the size of the actuator torque sensor data

---
 .../include/transmission_interface/transmission_interface.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 0b3b87a..9697cf2 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -106,7 +106,7 @@ protected:
     {
       throw TransmissionInterfaceException("Actuator absolute position data size does not match transmission.");
     }
-    if (!actuator_data.absolute_position.empty() && actuator_data.absolute_position.size() != transmission_->numActuators())
+    if (!actuator_data.torque_sensor.empty() && actuator_data.torque_sensor.size() != transmission_->numActuators())
     {
       throw TransmissionInterfaceException("Actuator torque sensor data size does not match transmission.");
     }
-- 
2.43.0


From fe0ddc32f9569b5b74be55b979a9347f014623e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 17/35] fix: do not map absolute positions or torque sensors
 the joints do not have

---
 .../include/transmission_interface/transmission_interface.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 9697cf2..dfe4c5e 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -210,12 +210,14 @@ public:
     transmission_->actuatorToJointVelocity(actuator_data_, joint_data_);
     transmission_->actuatorToJointEffort(actuator_data_, joint_data_);
 
-    if(!actuator_data_.absolute_position.empty() && transmission_->hasActuatorToJointAbsolutePosition())
+    if(!actuator_data_.absolute_position.empty() && !joint_data_.absolute_position.empty() &&
+       transmission_->hasActuatorToJointAbsolutePosition())
     {
        transmission_->actuatorToJointAbsolutePosition(actuator_data_, joint_data_);
     }
 
-    if(!actuator_data_.torque_sensor.empty() && transmission_->hasActuatorToJointTorqueSensor())
+    if(!actuator_data_.torque_sensor.empty() && !joint_data_.torque_sensor.empty() &&
+       transmission_->hasActuatorToJointTorqueSensor())
     {
        transmission_->actuatorToJointTorqueSensor(actuator_data_, joint_data_);
     }
-- 
2.43.0


From 46da52ede09de6d4511ec960412d49356a4795c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 18/35] fix: let several sources include the four-bar linkage
 transmission

---
 .../transmission_interface/four_bar_linkage_transmission.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
index 1cdb6d5..8e16f9b 100644
--- a/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
+++ b/transmission_interface/include/transmission_interface/four_bar_linkage_transmission.h
@@ -283,7 +283,7 @@ inline void FourBarLinkageTransmission::actuatorToJointPosition(const ActuatorDa
                           + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
+inline void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorData& act_data,
                                                                        JointData&    jnt_data)
 {
 
@@ -298,7 +298,7 @@ void FourBarLinkageTransmission::actuatorToJointAbsolutePosition(const ActuatorD
                                     jr[1] + jnt_offset_[1];
 }
 
-void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
+inline void FourBarLinkageTransmission::actuatorToJointTorqueSensor(const ActuatorData& act_data,
                                                                    JointData&    jnt_data)
 {
 
-- 
2.43.0


From 9788c21793b5fefc82974b8ff6ca4ef306f373b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 19/35] fix: refuse a robot description without a root element

---
 transmission_interface/src/transmission_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 54835a3..81ee477 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -51,6 +51,11 @@ bool TransmissionParser::parse(const std::string& urdf, std::vector<Transmission
 
   // Find joints in transmission tags
   TiXmlElement *root = doc.RootElement();
+  if (!root)
+  {
+    ROS_ERROR("Can't parse transmissions. The robot description has no root element.");
+    return false;
+  }
 
   // Constructs the transmissions by parsing custom xml.
   TiXmlElement *trans_it = nullptr;
-- 
2.43.0


From dabdb1995bc2276974a59063608c6ec73b0914fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 20/35] fix: connect joints and actuators of a transmission by
 their roles

---
 .../src/transmission_interface_loader.cpp     | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/transmission_interface/src/transmission_interface_loader.cpp b/transmission_interface/src/transmission_interface_loader.cpp
index 0b86528..c42c985 100644
--- a/transmission_interface/src/transmission_interface_loader.cpp
+++ b/transmission_interface/src/transmission_interface_loader.cpp
@@ -28,6 +28,7 @@
 // C++ standard
 #include <algorithm>
 #include <cassert>
+#include <sstream>
 #include <stdexcept>
 
 // ros_control
@@ -37,6 +38,31 @@
 namespace transmission_interface
 {
 
+namespace
+{
+
+std::string getRole(const std::string& xml_element)
+{
+  TiXmlElement element("");
+  std::stringstream element_stream;
+  element_stream << xml_element;
+  element_stream >> element;
+  const TiXmlElement* role_el = element.FirstChildElement("role");
+  return role_el && role_el->GetText() ? role_el->GetText() : std::string();
+}
+
+// Transmissions map joints and actuators by index, which is that of their role and not of their place in the description
+template <class Info>
+void sortByRole(std::vector<Info>& infos, const std::string& role)
+{
+  if (infos.size() == 2 && getRole(infos[0].xml_element_) == role + "2" && getRole(infos[1].xml_element_) == role + "1")
+  {
+    std::swap(infos[0], infos[1]);
+  }
+}
+
+} // namespace
+
 bool RequisiteProvider::loadTransmissionMaps(const TransmissionInfo& transmission_info,
                                              TransmissionLoaderData& loader_data,
                                              TransmissionSharedPtr   transmission)
@@ -131,8 +157,12 @@ bool TransmissionInterfaceLoader::load(const std::vector<TransmissionInfo>& tran
   return true;
 }
 
-bool TransmissionInterfaceLoader::load(const TransmissionInfo& transmission_info)
+bool TransmissionInterfaceLoader::load(const TransmissionInfo& unsorted_transmission_info)
 {
+  TransmissionInfo transmission_info = unsorted_transmission_info;
+  sortByRole(transmission_info.joints_, "joint");
+  sortByRole(transmission_info.actuators_, "actuator");
+
   // Create transmission instance
   TransmissionSharedPtr transmission;
   try
-- 
2.43.0


From 8b3db518773461903192319403978b3d2e896bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 21/35] fix: get the joint states of a transmission from the
 robot's own interface

---
 transmission_interface/src/effort_joint_interface_provider.cpp  | 2 +-
 .../src/position_joint_interface_provider.cpp                   | 2 +-
 .../src/velocity_joint_interface_provider.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/effort_joint_interface_provider.cpp b/transmission_interface/src/effort_joint_interface_provider.cpp
index b9ab5b9..9cf7f60 100644
--- a/transmission_interface/src/effort_joint_interface_provider.cpp
+++ b/transmission_interface/src/effort_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool EffortJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.effort_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/position_joint_interface_provider.cpp b/transmission_interface/src/position_joint_interface_provider.cpp
index d032662..1592bec 100644
--- a/transmission_interface/src/position_joint_interface_provider.cpp
+++ b/transmission_interface/src/position_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.position_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/velocity_joint_interface_provider.cpp b/transmission_interface/src/velocity_joint_interface_provider.cpp
index a3cca76..fc4df29 100644
--- a/transmission_interface/src/velocity_joint_interface_provider.cpp
+++ b/transmission_interface/src/velocity_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.velocity_cmd);
     interface.registerHandle(handle);
   }
-- 
2.43.0


From 1c4d35e939067cfb1b6b2c923e24f75c75cb1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 22/35] fix: do not connect transmissions to joints the robot
 provides itself

---
 .../src/joint_state_interface_provider.cpp           | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/transmission_interface/src/joint_state_interface_provider.cpp b/transmission_interface/src/joint_state_interface_provider.cpp
index f236c8f..ebb1a7f 100644
--- a/transmission_interface/src/joint_state_interface_provider.cpp
+++ b/transmission_interface/src/joint_state_interface_provider.cpp
@@ -54,7 +54,17 @@ bool JointStateInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     const std::string& name = joint_info.name_;
 
     // Do nothing if joint already exists on the hardware interface
-    if (hasResource(name, interface)) {continue;}
+    if (hasResource(name, interface))
+    {
+      // A joint whose state does not come from a transmission can't be connected to one
+      if (!raw_joint_data_map.count(name))
+      {
+        ROS_ERROR_STREAM_NAMED("parser", "Joint '" << name << "' of transmission '" << transmission_info.name_ <<
+                               "' is already provided by the robot.");
+        return false;
+      }
+      continue;
+    }
 
     // Update hardware interface
     using hardware_interface::JointStateHandle;
-- 
2.43.0


From 3f9537d0e9354c665305e913834e94718e6214f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 23/35] fix: filter_by_resources raises on an empty list of
 resources

The initial flag value was only set inside the loop over the resources.
---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index c41a5ff..b57d6bd 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -366,8 +366,8 @@ def filter_by_resources(ctrl_list,
         for resource_set in ctrl.claimed_resources:
             if (hardware_interface is None or
                 hardware_interface == resource_set.hardware_interface):
+                add_ctrl = not match_any  # Initial flag value
                 for res in resources:
-                    add_ctrl = not match_any  # Initial flag value
                     if res in resource_set.resources:
                         if match_any:  # One hit: enough to accept controller
                             add_ctrl = True
-- 
2.43.0


From fac03fbf1c3fa57a3a13c252f7ed28339eb3a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 24/35] fix: discovery of controller managers confused by
 services with similar names

A service like /a/list_controllers_x made the manager in /a appear twice (or
stay after it was gone), and a namespace with /list_controllers in its path
hid the managers in it.
---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index b57d6bd..350f7c3 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -147,8 +147,8 @@ def _sloppy_get_controller_managers(namespace):
     ns_list = []
     for srv_name in srv_list:
         match_str = '/' + _LIST_CONTROLLERS_STR
-        if match_str in srv_name:
-            ns = srv_name.split(match_str)[0]
+        if srv_name.endswith(match_str):
+            ns = srv_name[:-len(match_str)]
             if ns == '':
                 # controller manager services live in root namespace
                 # unlikely, but still possible
-- 
2.43.0


From 59164eac4ddadc1928be24412c1f6afbda14dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:02 +0000
Subject: [PATCH 25/35] fix: discovery of controller managers fails if one
 registered service is dead

A manager that was killed without unregistering its services made
get_controller_managers raise, instead of leaving that manager out.
---
 .../src/controller_manager_msgs/utils.py                    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index 350f7c3..fbb0ce5 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -170,7 +170,11 @@ def _srv_exists(srv_name, srv_type):
     """
     if not srv_name or not srv_type:
         return False
-    return srv_type == rosservice.get_service_type(srv_name)
+    try:
+        return srv_type == rosservice.get_service_type(srv_name)
+    except rosservice.ROSServiceIOException:
+        # registered, but its provider cannot be reached
+        return False
 
 
 ###############################################################################
-- 
2.43.0


From 2d8518c7ef957616dc4ed71c712b041cb2071055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 26/35] fix: spawner leaves its controllers running if one of
 them does not run at shutdown

The controllers were stopped with a strict switch, which the manager refuses
as a whole if any of them has been stopped or unloaded meanwhile; those that
did run could then not be unloaded either.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index af1dfaf..2ea2e41 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -62,7 +62,7 @@ def shutdown():
         switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)
 
         rospy.loginfo("Stopping all controllers...");
-        switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)
+        switch_controller([], loaded, SwitchControllerRequest.BEST_EFFORT, False, 0.0)
         rospy.loginfo("Unloading all loaded controllers...");
         for name in reversed(loaded):
             rospy.logout("Trying to unload %s" % name)
-- 
2.43.0


From 219b30762bcf6d7d74ab7aede26308b2c1238ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 27/35] fix: spawner cannot read YAML files with current
 versions of PyYAML

yaml.load needs a loader since version 6.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 2ea2e41..7c78c48 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -186,7 +186,7 @@ def main():
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-            name_yaml = yaml.load(open(name))
+            name_yaml = yaml.safe_load(open(name))
             for controller in name_yaml:
                 controllers.append(controller)
         else:
-- 
2.43.0


From fa95607dfb0d3a6de93781b0ac24a7b2701372fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 28/35] fix: spawner with --wait-for and without timeout fails

It compared the time waited with None.
---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 7c78c48..20fcce1 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -166,7 +166,7 @@ def main():
             time.sleep(0.01)
             if rospy.is_shutdown():
                 return
-            if not warned_about_not_hearing_anything:
+            if timeout is not None and not warned_about_not_hearing_anything:
                 if time.time() - started_waiting > timeout:
                     warned_about_not_hearing_anything = True
                     rospy.logwarn("Controller Spawner hasn't heard anything from its \"wait for\" topic (%s)" % \
-- 
2.43.0


From 56a5f6e4d2c919b22db65a5db8d069bba1f6f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 29/35] fix: spawner never ends if shut down while waiting for
 the clock

With simulated time and no clock, the exception that reports the shutdown was
taken for a timeout, and waiting started over again, for ever.
---
 controller_manager/scripts/spawner | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 20fcce1..6a90232 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -135,6 +135,8 @@ def main():
             # early on
             rospy.loginfo("Controller Spawner: Waiting for service "+unload_controller_service)
             rospy.wait_for_service(unload_controller_service, timeout=timeout)
+        except rospy.exceptions.ROSInterruptException:
+            return
         except rospy.exceptions.ROSException:
             # If we use sim time, wait for the clock to be published
             if rospy.get_param('/use_sim_time', False) and rospy.get_rostime() == rospy.Time(0):
-- 
2.43.0


From a98475889a4c6cf3c3b43c133959f33478daf10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 30/35] fix: spawner leaves controllers loaded if shut down
 while loading or starting

After the shutdown hook had taken down the controllers loaded until then, or
while it did, the main thread went on to load and start the others.
---
 controller_manager/scripts/spawner | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 6a90232..607aa2d 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -41,19 +41,30 @@ import yaml
 from controller_manager_msgs.srv import *
 from std_msgs.msg import *
 import argparse
+import threading
 
 loaded = []
 
+# Set when shutting down. The lock keeps a shutdown requested by another thread
+# from overlooking a controller that is just being loaded or started.
+shutting_down = False
+lock = threading.RLock()
+
 # Declare these here so they can be shared between functions
 load_controller_service = ""
 switch_controller_service = ""
 unload_controller_service = ""
 
 def shutdown():
-    global loaded,unload_controller_service,load_controller_service,switch_controller_service
+    global shutting_down
 
     rospy.loginfo("Shutting down spawner. Stopping and unloading controllers...")
 
+    with lock:
+        shutting_down = True
+        take_down()
+
+def take_down():
     try:
         # unloader
         unload_controller = rospy.ServiceProxy(unload_controller_service, UnloadController)
@@ -197,10 +208,13 @@ def main():
     # load controllers
     for name in controllers:
         rospy.loginfo("Loading controller: "+name)
-        resp = load_controller(name)
-        if resp.ok != 0:
-            loaded.append(name)
-        else:
+        with lock:
+            if shutting_down:
+                return
+            resp = load_controller(name)
+            if resp.ok != 0:
+                loaded.append(name)
+        if resp.ok == 0:
             time.sleep(1) # give error message a chance to get out
             rospy.logerr("Failed to load %s" % name)
 
@@ -211,7 +225,10 @@ def main():
 
     # start controllers is requested
     if autostart:
-        resp = switch_controller(loaded, [], 2, False, 0.0)
+        with lock:
+            if shutting_down:
+                return
+            resp = switch_controller(loaded, [], 2, False, 0.0)
         if resp.ok != 0:
             rospy.loginfo("Started controllers: %s" % ', '.join(loaded))
         else:
-- 
2.43.0


From a4ce5520c932347a414ea6c72fe24f8e7002fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 31/35] fix: unspawner starts controllers at exit that it
 failed to stop

If the manager refused to stop them and somebody else did so later, they were
started nevertheless.
---
 controller_manager/scripts/unspawner | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/controller_manager/scripts/unspawner b/controller_manager/scripts/unspawner
index 8463d95..861e043 100755
--- a/controller_manager/scripts/unspawner
+++ b/controller_manager/scripts/unspawner
@@ -53,9 +53,10 @@ def main():
 
         if to_stop:
             rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
-            switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
-                              stop_controllers = list(to_stop))
-            inhibited.update(to_stop)
+            resp = switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
+                                     stop_controllers = list(to_stop))
+            if resp.ok:
+                inhibited.update(to_stop)
 
     stop_controllers()
     timer = rospy.Timer(rospy.Duration(3), stop_controllers)
-- 
2.43.0


From f70517f73fe0300d456d748c763de28c401b6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 32/35] fix: unspawner may stop controllers again after it
 restarted them at exit

A call of the timer that was under way when the node was shut down could stop
them after the shutdown hook had started them.
---
 controller_manager/scripts/unspawner | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/controller_manager/scripts/unspawner b/controller_manager/scripts/unspawner
index 861e043..d85eea2 100755
--- a/controller_manager/scripts/unspawner
+++ b/controller_manager/scripts/unspawner
@@ -33,6 +33,7 @@
 
 from __future__ import print_function
 import sys
+import threading
 import rospy
 from controller_manager_msgs.srv import *
 
@@ -42,6 +43,7 @@ def main():
     switch_controller = rospy.ServiceProxy('controller_manager/switch_controller', SwitchController)
     list_controllers = rospy.ServiceProxy('controller_manager/list_controllers', ListControllers)
     inhibited = set()
+    lock = threading.Lock()
 
     switch_controller.wait_for_service()
     list_controllers.wait_for_service()
@@ -49,23 +51,27 @@ def main():
     to_inhibit = set(rospy.myargv())
 
     def stop_controllers(*argc):
-        to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')
+        with lock:
+            to_stop = to_inhibit & set(cs.name for cs in list_controllers().controller if cs.state == 'running')
 
-        if to_stop:
-            rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
-            resp = switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
-                                     stop_controllers = list(to_stop))
-            if resp.ok:
-                inhibited.update(to_stop)
+            if to_stop:
+                rospy.logout("Inhibiting controllers: %s" % ', '.join(to_stop))
+                resp = switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
+                                         stop_controllers = list(to_stop))
+                if resp.ok:
+                    inhibited.update(to_stop)
 
     stop_controllers()
     timer = rospy.Timer(rospy.Duration(3), stop_controllers)
 
     def restart_controllers():
         timer.shutdown()
-        # Re-starts inhibited controllers
-        switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
-                          start_controllers = list(inhibited))
+        with lock:
+            # A call of the timer that is still under way must not stop them again
+            to_inhibit.clear()
+            # Re-starts inhibited controllers
+            switch_controller(strictness = SwitchControllerRequest.BEST_EFFORT,
+                              start_controllers = list(inhibited))
 
     rospy.on_shutdown(restart_controllers)
     rospy.spin()
-- 
2.43.0


From a0593aaeeb6db10210ddf6a251d0fef6df2961c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 33/35] fix: rqt_controller_manager cannot show waiting and
 aborted controllers

---
 .../src/rqt_controller_manager/controller_manager.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 97448f7..ab30e1f 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -103,7 +103,9 @@ class ControllerManager(Plugin):
         self._icons = {'running': QIcon(path + '/resource/led_green.png'),
                        'stopped': QIcon(path + '/resource/led_red.png'),
                        'uninitialized': QIcon(path + '/resource/led_off.png'),
-                       'initialized': QIcon(path + '/resource/led_red.png')}
+                       'initialized': QIcon(path + '/resource/led_red.png'),
+                       'waiting': QIcon(path + '/resource/led_red.png'),
+                       'aborted': QIcon(path + '/resource/led_red.png')}
 
         # Controllers display
         table_view = self._widget.table_view
-- 
2.43.0


From 60a98d226e6697624fe911456476b3dfbadd5248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 34/35] fix: rqt_controller_manager cannot act on a controller
 manager that was restarted

---
 .../src/rqt_controller_manager/controller_manager.py     | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index ab30e1f..dcd97d8 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -185,16 +185,13 @@ class ControllerManager(Plugin):
             # it anyway
             load_srv_name = _append_ns(cm_ns, 'load_controller')
             self._load_srv = rospy.ServiceProxy(load_srv_name,
-                                                LoadController,
-                                                persistent=True)
+                                                LoadController)
             unload_srv_name = _append_ns(cm_ns, 'unload_controller')
             self._unload_srv = rospy.ServiceProxy(unload_srv_name,
-                                                  UnloadController,
-                                                  persistent=True)
+                                                  UnloadController)
             switch_srv_name = _append_ns(cm_ns, 'switch_controller')
             self._switch_srv = rospy.ServiceProxy(switch_srv_name,
-                                                  SwitchController,
-                                                  persistent=True)
+                                                  SwitchController)
         else:
             self._load_srv = None
             self._unload_srv = None
-- 
2.43.0


From 901cb436c6647fac61287dc99c058112d831ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 35/35] fix: spawner: notice a shutdown that began before its
 hook was registered

---
 controller_manager/scripts/spawner | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 607aa2d..6eceb2e 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -192,6 +192,10 @@ def main():
     # hook for unloading controllers on shutdown
     rospy.on_shutdown(shutdown)
 
+    # a shutdown that began before that does not call the hook
+    if rospy.is_shutdown():
+        return
+
     # find yaml files to load
     controllers = []
     for name in args.controllers:
-- 
2.43.0


From d7dfc44d5439245587e229c26ca925146e7cbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 01/85] fix: register controller statistics only for
 controllers that stay loaded

A refused load (duplicate name, failing init, self fallback) left pointers to
destroyed statistics in the registry sampled by the control loop.
---
 controller_manager/src/controller_manager.cpp | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 32d3e5d..cc224d0 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1304,20 +1304,6 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_c
     std::make_shared<rclcpp::Time>(0, 0, this->get_trigger_clock()->get_clock_type());
   controller_spec.execution_time_statistics = std::make_shared<MovingAverageStatistics>();
   controller_spec.periodicity_statistics = std::make_shared<MovingAverageStatistics>();
-  const std::string controller_exec_time_prefix = controller_name + ".stats/execution_time";
-  const std::string controller_periodicity_prefix = controller_name + ".stats/periodicity";
-  register_controller_manager_statistics(
-    controller_exec_time_prefix,
-    &controller_spec.execution_time_statistics->get_statistics_const_ptr());
-  REGISTER_ENTITY(
-    hardware_interface::CM_STATISTICS_KEY, controller_exec_time_prefix + "/current_value",
-    &controller_spec.execution_time_statistics->get_current_measurement_const_ptr());
-  register_controller_manager_statistics(
-    controller_periodicity_prefix,
-    &controller_spec.periodicity_statistics->get_statistics_const_ptr());
-  REGISTER_ENTITY(
-    hardware_interface::CM_STATISTICS_KEY, controller_periodicity_prefix + "/current_value",
-    &controller_spec.periodicity_statistics->get_current_measurement_const_ptr());
 
   // We have to fetch the parameters_file at the time of loading the controller, because this way we
   // can load them at the creation of the LifeCycleNode and this helps in using the features such as
@@ -1381,7 +1367,27 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_c
     controller_spec.info.node_options_args = node_options_args;
   }
 
-  return add_controller_impl(controller_spec);
+  const auto loaded_controller = add_controller_impl(controller_spec);
+  if (loaded_controller)
+  {
+    // Only the statistics of controllers that stay loaded may be registered, because the registry
+    // keeps pointers to them
+    const std::string controller_exec_time_prefix = controller_name + ".stats/execution_time";
+    const std::string controller_periodicity_prefix = controller_name + ".stats/periodicity";
+    register_controller_manager_statistics(
+      controller_exec_time_prefix,
+      &controller_spec.execution_time_statistics->get_statistics_const_ptr());
+    REGISTER_ENTITY(
+      hardware_interface::CM_STATISTICS_KEY, controller_exec_time_prefix + "/current_value",
+      &controller_spec.execution_time_statistics->get_current_measurement_const_ptr());
+    register_controller_manager_statistics(
+      controller_periodicity_prefix,
+      &controller_spec.periodicity_statistics->get_statistics_const_ptr());
+    REGISTER_ENTITY(
+      hardware_interface::CM_STATISTICS_KEY, controller_periodicity_prefix + "/current_value",
+      &controller_spec.periodicity_statistics->get_current_measurement_const_ptr());
+  }
+  return loaded_controller;
 }
 
 controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_controller(
-- 
2.43.0


From 5d77c5487192d3aeb0f46da81c2a34c452391382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 02/85] fix: switching does not fail for controllers that have
 not exported interfaces

Checking or switching a controller whose chained controller is not configured
looked up its exported interfaces with at() and the resulting exception ended
the controller manager.
---
 hardware_interface/src/resource_manager.cpp | 40 ++++++++++++++++-----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6da74e5..bf8bfe5 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1707,8 +1707,14 @@ std::vector<std::string> ResourceManager::get_controller_exported_state_interfac
 void ResourceManager::make_controller_exported_state_interfaces_available(
   const std::string & controller_name)
 {
-  auto interface_names =
-    resource_storage_->controllers_exported_state_interfaces_map_.at(controller_name);
+  // a controller that is not configured has not exported any interfaces
+  const auto exported_it =
+    resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name);
+  if (exported_it == resource_storage_->controllers_exported_state_interfaces_map_.end())
+  {
+    return;
+  }
+  auto interface_names = exported_it->second;
   std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   ros2_control::add_items(resource_storage_->available_state_interfaces_, interface_names);
 }
@@ -1717,8 +1723,14 @@ void ResourceManager::make_controller_exported_state_interfaces_available(
 void ResourceManager::make_controller_exported_state_interfaces_unavailable(
   const std::string & controller_name)
 {
-  auto interface_names =
-    resource_storage_->controllers_exported_state_interfaces_map_.at(controller_name);
+  // a controller that is not configured has not exported any interfaces
+  const auto exported_it =
+    resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name);
+  if (exported_it == resource_storage_->controllers_exported_state_interfaces_map_.end())
+  {
+    return;
+  }
+  auto interface_names = exported_it->second;
 
   std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interface_names)
@@ -1774,8 +1786,14 @@ std::vector<std::string> ResourceManager::get_controller_reference_interface_nam
 void ResourceManager::make_controller_reference_interfaces_available(
   const std::string & controller_name)
 {
-  auto interface_names =
-    resource_storage_->controllers_reference_interfaces_map_.at(controller_name);
+  // a controller that is not configured has not exported any interfaces
+  const auto exported_it =
+    resource_storage_->controllers_reference_interfaces_map_.find(controller_name);
+  if (exported_it == resource_storage_->controllers_reference_interfaces_map_.end())
+  {
+    return;
+  }
+  auto interface_names = exported_it->second;
   std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   ros2_control::add_items(resource_storage_->available_command_interfaces_, interface_names);
 }
@@ -1784,8 +1802,14 @@ void ResourceManager::make_controller_reference_interfaces_available(
 void ResourceManager::make_controller_reference_interfaces_unavailable(
   const std::string & controller_name)
 {
-  auto interface_names =
-    resource_storage_->controllers_reference_interfaces_map_.at(controller_name);
+  // a controller that is not configured has not exported any interfaces
+  const auto exported_it =
+    resource_storage_->controllers_reference_interfaces_map_.find(controller_name);
+  if (exported_it == resource_storage_->controllers_reference_interfaces_map_.end())
+  {
+    return;
+  }
+  auto interface_names = exported_it->second;
 
   std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interface_names)
-- 
2.43.0


From 49f8a8600f1353c7be9afa637ac7103df1b959b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 03/85] fix: requests that are refused or reduced leave no
 trace

Interfaces of chainable controllers made available while checking a request
stayed available if the request was refused. In best effort requests leaving
out a controller stepped an iterator in front of the list and did not repeat
the checks of the controllers depending on it.
---
 controller_manager/src/controller_manager.cpp | 44 +++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index cc224d0..a801917 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2044,6 +2044,38 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
 
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
 
+  // The interfaces exported by the controllers to activate are made available while the request is
+  // checked. Make them unavailable again for the controllers that do not get activated.
+  const auto hide_interfaces_of_inactive_controllers = [&]()
+  {
+    for (const auto & controller : rt_controllers_wrapper_.get_updated_list(guard))
+    {
+      if (
+        ros2_control::has_item(activate_controllers, controller.info.name) &&
+        controller.c->is_chainable() && !is_controller_active(controller.c))
+      {
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(
+          controller.info.name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller.info.name);
+      }
+    }
+  };
+  const std::shared_ptr<void> hide_interfaces_on_return(
+    nullptr, [&](void *) { hide_interfaces_of_inactive_controllers(); });
+
+  // Other controllers of a best effort request can depend on a controller that was left out of it,
+  // therefore the rest of the request is handled as a new one
+  const auto switch_remaining_controllers = [&]()
+  {
+    const auto remaining_activate = switch_params_.activate_request;
+    const auto remaining_deactivate = switch_params_.deactivate_request;
+    clear_requests();
+    hide_interfaces_of_inactive_controllers();
+    message.clear();
+    return switch_controller_cb(
+      remaining_activate, remaining_deactivate, strictness, activate_asap, timeout, message);
+  };
+
   // if a preceding controller is deactivated, all first-level controllers should be switched 'from'
   // chained mode
   propagate_deactivation_of_chained_mode(controllers);
@@ -2116,11 +2148,9 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         // TODO(destogl): automatic manipulation of the chain:
         // || strictness ==
         //  controller_manager_msgs::srv::SwitchController::Request::MANIPULATE_CONTROLLERS_CHAIN);
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be activated from the activation request
         switch_params_.activate_request.erase(ctrl_it);
-        message.clear();
-        --ctrl_it;
+        return switch_remaining_controllers();
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
@@ -2166,11 +2196,9 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         (*ctrl_it).c_str());
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT)
       {
-        // remove controller that can not be activated from the activation request and step-back
-        // iterator to correctly step to the next element in the list in the loop
+        // remove controller that can not be deactivated from the deactivation request
         switch_params_.deactivate_request.erase(ctrl_it);
-        message.clear();
-        --ctrl_it;
+        return switch_remaining_controllers();
       }
       if (strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT)
       {
-- 
2.43.0


From 4dbb855f29edc3e512b903fe0cc34c8e036bde65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 04/85] fix: keep chained mode and exported interfaces
 consistent while switching

A controller left chained mode although another active controller still claims
its references, the interfaces of a controller whose activation failed stayed
available, and an inactive controller in the deactivation list hid the chains
of the ones after it.
---
 controller_manager/src/controller_manager.cpp | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a801917..c740183 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2754,6 +2754,11 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      if (controller->is_chainable())
+      {
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
       continue;
     }
 
@@ -2782,6 +2787,11 @@ void ControllerManager::activate_controllers(
     if (!assignment_successful)
     {
       is_successful = false;
+      if (controller->is_chainable())
+      {
+        resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
+        resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
+      }
       continue;
     }
     controller->assign_interfaces(std::move(command_loans), std::move(state_loans));
@@ -3890,20 +3900,33 @@ void ControllerManager::propagate_deactivation_of_chained_mode(
           "The controller will be removed from the list later."
           "Skipping adding following controllers to 'from' chained mode request.",
           controller.info.name.c_str());
-        break;
+        continue;
       }
 
-      const auto ctrl_cmd_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
-      const auto ctrl_state_itf_names = get_state_interfaces_names(controller.c, resource_manager_);
-      auto ctrl_itf_names = ctrl_cmd_itf_names;
-      ctrl_itf_names.insert(
-        ctrl_itf_names.end(), ctrl_state_itf_names.begin(), ctrl_state_itf_names.end());
+      // only the controllers claiming the reference interfaces keep a controller in chained mode
+      const auto ctrl_itf_names = get_command_interfaces_names(controller.c, resource_manager_);
       for (const auto & ctrl_itf_name : ctrl_itf_names)
       {
         // controller that 'cmd_tf_name' belongs to
         ControllersListIterator following_ctrl_it;
         if (is_interface_a_chained_interface(ctrl_itf_name, controllers, following_ctrl_it))
         {
+          const auto & preceding_ctrls =
+            controller_chained_reference_interfaces_cache_[following_ctrl_it->info.name];
+          const bool stays_chained = std::any_of(
+            controllers.begin(), controllers.end(),
+            [&](const ControllerSpec & other)
+            {
+              return is_controller_active(other.c) &&
+                     ros2_control::has_item(preceding_ctrls, other.info.name) &&
+                     (!ros2_control::has_item(
+                        switch_params_.deactivate_request, other.info.name) ||
+                      ros2_control::has_item(switch_params_.activate_request, other.info.name));
+            });
+          if (stays_chained)
+          {
+            continue;
+          }
           // currently iterated "controller" is preceding controller --> add following controller
           // with matching interface name to "from" chained mode list (if not already in it)
           if (
-- 
2.43.0


From 8e24551321061af713d00614902863cc64df9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 05/85] fix: statistics do not refer to interfaces of
 components that are gone

Clearing or destroying the resource storage left the variables of its
interfaces registered at the statistics. Listing controllers that have
not exported interfaces threw an exception.
---
 hardware_interface/src/resource_manager.cpp | 26 +++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index bf8bfe5..e08be68 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -176,6 +176,8 @@ public:
     handle_exception_ = rm_param.handle_exceptions;
   }
 
+  ~ResourceStorage() { unregister_introspection(); }
+
   template <class HardwareT, class HardwareInterfaceT>
   [[nodiscard]] bool load_hardware(
     const HardwareInfo & hardware_info, pluginlib::ClassLoader<HardwareInterfaceT> & loader,
@@ -1328,8 +1330,22 @@ public:
     init_systems(systems_);
   }
 
+  /// The statistics must not refer to interfaces that do not exist anymore
+  void unregister_introspection()
+  {
+    for (const auto & [name, interface] : state_interface_map_)
+    {
+      interface->unregisterIntrospection();
+    }
+    for (const auto & [name, interface] : command_interface_map_)
+    {
+      interface->unregisterIntrospection();
+    }
+  }
+
   void clear()
   {
+    unregister_introspection();
     actuators_.clear();
     sensors_.clear();
     systems_.clear();
@@ -1700,7 +1716,10 @@ void ResourceManager::import_controller_exported_state_interfaces(
 std::vector<std::string> ResourceManager::get_controller_exported_state_interface_names(
   const std::string & controller_name)
 {
-  return resource_storage_->controllers_exported_state_interfaces_map_.at(controller_name);
+  const auto it = resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name);
+  return it != resource_storage_->controllers_exported_state_interfaces_map_.end()
+           ? it->second
+           : std::vector<std::string>{};
 }
 
 // CM API: Called in "update"-thread
@@ -1779,7 +1798,10 @@ void ResourceManager::import_controller_reference_interfaces(
 std::vector<std::string> ResourceManager::get_controller_reference_interface_names(
   const std::string & controller_name)
 {
-  return resource_storage_->controllers_reference_interfaces_map_.at(controller_name);
+  const auto it = resource_storage_->controllers_reference_interfaces_map_.find(controller_name);
+  return it != resource_storage_->controllers_reference_interfaces_map_.end()
+           ? it->second
+           : std::vector<std::string>{};
 }
 
 // CM API: Called in "update"-thread
-- 
2.43.0


From 189d2eb73068e5da0515a6319587862dcc4c07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 06/85] fix: the error handling of a finalized hardware
 component does not run again

---
 hardware_interface/src/hardware_component.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index ac579ff..1efdad8 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -223,7 +223,8 @@ const rclcpp_lifecycle::State & HardwareComponent::error()
   impl_->enable_introspection(false);
   if (
     impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
-    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED &&
+    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     impl_->pause_async_operations();
     switch (impl_->on_error(impl_->get_lifecycle_state()))
-- 
2.43.0


From 9d6facad0c9c2706dae725dfaf9c1aa2d882b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 07/85] fix: an exception while reading or writing a grouped
 component stops its group

---
 hardware_interface/src/resource_manager.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index e08be68..e7e8211 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2502,9 +2502,6 @@ HardwareReadWriteStatus ResourceManager::read(
           hardware_component_info.read_statistics->periodicity.update_statistics(
             read_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2522,6 +2519,8 @@ HardwareReadWriteStatus ResourceManager::read(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      const auto component_group = component.get_group_name();
+      ret_val = resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
@@ -2604,9 +2603,6 @@ HardwareReadWriteStatus ResourceManager::write(
           hardware_component_info.write_statistics->periodicity.update_statistics(
             write_statistics_collector.periodicity);
         }
-        const auto component_group = component.get_group_name();
-        ret_val =
-          resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       }
       catch (const std::exception & e)
       {
@@ -2624,6 +2620,8 @@ HardwareReadWriteStatus ResourceManager::write(
         handle_exceptions ? void() : throw;
         ret_val = return_type::ERROR;
       }
+      const auto component_group = component.get_group_name();
+      ret_val = resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From e651650e693d1e9078e8eb6e90585e852ad57460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 08/85] fix: a component that deactivates itself does not hide
 the write error of another one

---
 hardware_interface/src/resource_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index e7e8211..2abe26a 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2634,7 +2634,11 @@ HardwareReadWriteStatus ResourceManager::write(
         rclcpp_lifecycle::State inactive_state(
           lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE, lifecycle_state_names::INACTIVE);
         set_component_state(component_name, inactive_state);
-        read_write_status.result = ret_val;
+        // do not hide the error of another component
+        if (read_write_status.result != return_type::ERROR)
+        {
+          read_write_status.result = ret_val;
+        }
         if (return_failed_hardware_names_on_return_deactivate_write_cycle_)
         {
           read_write_status.failed_hardware_names.push_back(component_name);
-- 
2.43.0


From 003f7d12cfde0a6f32e4d6c07700310e08903141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 09/85] fix: shutting down while the control loop sleeps does
 not terminate the process

---
 controller_manager/src/ros2_control_node.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/ros2_control_node.cpp b/controller_manager/src/ros2_control_node.cpp
index 5514d95..8b28977 100644
--- a/controller_manager/src/ros2_control_node.cpp
+++ b/controller_manager/src/ros2_control_node.cpp
@@ -92,7 +92,7 @@ int main(int argc, char ** argv)
     cm->get_logger(), timing_config.expect_blocking_read_write,
     "Synchronizing control loop with hardware.");
 
-  std::thread cm_thread(
+  const auto control_loop =
     [cm, thread_priority, timing_config]()
     {
       rclcpp::Parameter cpu_affinity_param;
@@ -172,6 +172,22 @@ int main(int argc, char ** argv)
           sleep_for_periodic_cycle(cm, timing_config, state);
         }
       }
+    };
+  std::thread cm_thread(
+    [&control_loop]()
+    {
+      try
+      {
+        control_loop();
+      }
+      catch (const std::exception &)
+      {
+        // the clocks cannot be waited for after the context was shut down
+        if (rclcpp::ok())
+        {
+          throw;
+        }
+      }
     });
 
   executor->add_node(cm);
-- 
2.43.0


From 77e0f55c605aa551440797e09163955a24de4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 10/85] fix: the control loop does not use controllers and
 components that are being shut down

---
 .../controller_manager/controller_manager.hpp   |  2 ++
 controller_manager/src/controller_manager.cpp   | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 2174ea0..12814b2 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -667,6 +667,8 @@ private:
   bool use_sim_time_;
   rclcpp::Clock::SharedPtr trigger_clock_ = nullptr;
   std::unique_ptr<rclcpp::PreShutdownCallbackHandle> preshutdown_cb_handle_{nullptr};
+  /// Held by the control loop while it works, and while everything is being shut down
+  std::mutex control_loop_mutex_;
   RTControllerListWrapper rt_controllers_wrapper_;
   std::unordered_map<std::string, ControllerChainSpec> controller_chain_spec_;
   std::vector<std::string> ordered_controllers_names_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index c740183..27c5659 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -696,6 +696,8 @@ void ControllerManager::init_controller_manager()
           executor_->remove_node(this->get_node_base_interface());
         }
         executor_->cancel();
+        // the control loop must not use what is being shut down
+        std::lock_guard<std::mutex> control_loop_guard(control_loop_mutex_);
         if (!this->shutdown_controllers())
         {
           RCLCPP_ERROR(get_logger(), "Failed shutting down the controllers.");
@@ -3326,6 +3328,11 @@ std::vector<std::string> ControllerManager::get_controller_names()
 
 void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration & period)
 {
+  std::unique_lock<std::mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
+  if (!control_loop_guard.owns_lock())
+  {
+    return;
+  }
   periodicity_stats_.add_measurement(1.0 / period.seconds());
   const auto start_time = std::chrono::steady_clock::now();
   auto [result, failed_hardware_names] = resource_manager_->read(time, period);
@@ -3434,6 +3441,11 @@ controller_interface::return_type ControllerManager::update(
     rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
   auto ret = controller_interface::return_type::OK;
+  std::unique_lock<std::mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
+  if (!control_loop_guard.owns_lock())
+  {
+    return ret;
+  }
   ++update_loop_counter_;
   update_loop_counter_ %= update_rate_;
 
@@ -3649,6 +3661,11 @@ controller_interface::return_type ControllerManager::update(
 
 void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration & period)
 {
+  std::unique_lock<std::mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
+  if (!control_loop_guard.owns_lock())
+  {
+    return;
+  }
   const auto start_time = std::chrono::steady_clock::now();
   auto [result, failed_hardware_names] = resource_manager_->write(time, period);
 
-- 
2.43.0


From eab2413ab8f116995fa4038619ca2223764c21d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 11/85] fix: publishing the activity does not block the control
 loop

The control loop waited for services that hold the list of controllers,
and for ever for one that waited for the control loop. The activity also
changes when components fail.
---
 .../controller_manager/controller_manager.hpp  |  2 ++
 controller_manager/src/controller_manager.cpp  | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 12814b2..410aa78 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -669,6 +669,8 @@ private:
   std::unique_ptr<rclcpp::PreShutdownCallbackHandle> preshutdown_cb_handle_{nullptr};
   /// Held by the control loop while it works, and while everything is being shut down
   std::mutex control_loop_mutex_;
+  /// The activity changed, but could not be published yet
+  std::atomic_bool activity_pending_{false};
   RTControllerListWrapper rt_controllers_wrapper_;
   std::unordered_map<std::string, ControllerChainSpec> controller_chain_spec_;
   std::vector<std::string> ordered_controllers_names_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 27c5659..440f4bc 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3361,6 +3361,7 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    activity_pending_ = true;
     // TODO(destogl): do auto-start of broadcasters
   }
   execution_time_.read_time =
@@ -3695,12 +3696,13 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    activity_pending_ = true;
     // TODO(destogl): do auto-start of broadcasters
   }
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
     rt_buffer_.deactivate_controllers_list.clear();
-    auto loaded_controllers = get_loaded_controllers();
+    const auto & loaded_controllers = rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
     for (const auto & hardware_name : failed_hardware_names)
     {
@@ -3741,6 +3743,11 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    activity_pending_ = true;
+  }
+  if (activity_pending_)
+  {
+    publish_activity();
   }
   execution_time_.write_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - start_time)
@@ -4362,6 +4369,15 @@ ControllerManager::check_fallback_controllers_state_pre_activation(
 void ControllerManager::publish_activity()
 {
   controller_manager_msgs::msg::ControllerManagerActivity status_msg;
+  // never make the control loop wait for a service that holds the controllers (and may itself wait
+  // for the control loop): the activity is published at the end of the next cycle then
+  std::unique_lock<RTControllerListWrapper::controllers_lock_type> try_guard(
+    rt_controllers_wrapper_.controllers_lock_, std::try_to_lock);
+  activity_pending_ = !try_guard.owns_lock();
+  if (!try_guard.owns_lock())
+  {
+    return;
+  }
   status_msg.header.stamp = get_clock()->now();
   {
     // lock controllers
-- 
2.43.0


From 8fb6a1ae5721476acec76332e7bfc5e48f1c3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 12/85] fix: asynchronous controllers are not updated while
 they are deactivated, and again if they stay active

The update loop deactivates failing controllers right after it triggered
their next asynchronous update. A rejected switch stopped the updates of
the asynchronous controllers it was going to deactivate for good.
---
 .../controller_interface_base.hpp             |  6 ++++++
 .../src/controller_interface_base.cpp         |  5 +++++
 controller_manager/src/controller_manager.cpp | 20 +++++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 7b3dc04..3b333ab 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -376,6 +376,12 @@ public:
    */
   void prepare_for_deactivation();
 
+  /**
+   * @brief Revokes prepare_for_deactivation() for a controller that stays active, e.g., because the
+   * requested switch was rejected.
+   */
+  void abort_deactivation();
+
   std::string get_name() const;
 
   /**
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43ee52e..c38abc1 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -429,6 +429,11 @@ void ControllerInterfaceBase::prepare_for_deactivation()
   this->wait_for_trigger_update_to_finish();
 }
 
+void ControllerInterfaceBase::abort_deactivation()
+{
+  impl_->skip_async_triggers_.store(false, std::memory_order_release);
+}
+
 void ControllerInterfaceBase::stop_async_handler_thread()
 {
   if (is_async() && impl_->async_handler_ && impl_->async_handler_->is_running())
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 440f4bc..6588b7c 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -633,6 +633,7 @@ bool ControllerManager::shutdown_controllers()
     {
       RCLCPP_INFO(
         get_logger(), "Deactivating controller '%s'", controller.c->get_node()->get_name());
+      controller.c->prepare_for_deactivation();
       controller.c->get_node()->deactivate();
       controller.c->release_interfaces();
     }
@@ -2381,6 +2382,23 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     RCLCPP_DEBUG(get_logger(), " - %s", interface.c_str());
   }
 
+  // controllers that stay active, e.g., because the switch is rejected, have to be updated further
+  const std::vector<std::string> prepared_for_deactivation = switch_params_.deactivate_request;
+  const std::shared_ptr<void> abort_deactivation_on_return(
+    nullptr,
+    [&](void *)
+    {
+      for (const auto & controller : get_loaded_controllers())
+      {
+        if (
+          ros2_control::has_item(prepared_for_deactivation, controller.info.name) &&
+          is_controller_active(*controller.c))
+        {
+          controller.c->abort_deactivation();
+        }
+      }
+    });
+
   // wait for deactivating async controllers to finish their current cycle
   for (const auto & controller : switch_params_.deactivate_request)
   {
@@ -2590,6 +2608,8 @@ void ControllerManager::deactivate_controllers(
     {
       try
       {
+        // an asynchronous update must not run while the controller is deactivated
+        controller->prepare_for_deactivation();
         const auto new_state = controller->get_node()->deactivate();
         controller->release_interfaces();
 
-- 
2.43.0


From db7129010e8dd08419f6ef3c4333dda8d886818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 13/85] fix: finalized controllers can be unloaded, and
 exported interfaces exist as long as their controller is configured

Unloading refused finalized controllers, and left the exported interfaces
of controllers that an error unconfigured. A failed cleanup removed the
interfaces of a controller that stays configured.
---
 controller_manager/src/controller_manager.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6588b7c..68e3b04 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1459,10 +1459,15 @@ controller_interface::return_type ControllerManager::unload_controller(
   }
 
   // call cleanup transition, if it is inactive
-  if (cleanup_controller(controller_name) != controller_interface::return_type::OK)
+  if (
+    is_controller_inactive(*controller.c) &&
+    cleanup_controller(controller_name) != controller_interface::return_type::OK)
   {
+    to.clear();
     return controller_interface::return_type::ERROR;
   }
+  // For cases, when the controller is not inactive anymore because of an error
+  cleanup_controller_exported_interfaces(controller);
 
   RCLCPP_DEBUG(get_logger(), "Shutdown controller");
   controller_chain_spec_cleanup(controller_chain_spec_, controller_name);
@@ -1495,8 +1500,12 @@ controller_interface::return_type ControllerManager::cleanup_controller(
 {
   try
   {
-    cleanup_controller_exported_interfaces(controller);
     const auto new_state = controller.c->get_node()->cleanup();
+    // a controller that stays configured keeps its interfaces
+    if (!is_controller_inactive(controller.c))
+    {
+      cleanup_controller_exported_interfaces(controller);
+    }
     if (new_state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
     {
       RCLCPP_ERROR(
-- 
2.43.0


From cb6ddbe2c7b2e2595381e8a6c32a20278fdce69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 14/85] fix: publish the activity when a controller was cleaned
 up or could not be configured

---
 controller_manager/src/controller_manager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 68e3b04..3d6de33 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1498,6 +1498,9 @@ controller_interface::return_type ControllerManager::unload_controller(
 controller_interface::return_type ControllerManager::cleanup_controller(
   const controller_manager::ControllerSpec & controller)
 {
+  // the state of the controller changes, whatever the result is
+  const std::shared_ptr<void> publish_activity_on_return(
+    nullptr, [this](void *) { publish_activity(); });
   try
   {
     const auto new_state = controller.c->get_node()->cleanup();
@@ -1652,6 +1655,10 @@ controller_interface::return_type ControllerManager::configure_controller(
       return controller_interface::return_type::ERROR;
     }
   }
+  // the state of the controller changes, whatever the result is
+  const std::shared_ptr<void> publish_activity_on_return(
+    nullptr, [this](void *) { publish_activity(); });
+
   // For cases, when the controller ends up in the unconfigured state from any other state
   cleanup_controller_exported_interfaces(*found_it);
 
-- 
2.43.0


From 2fa4bbda9496776659fbfc23ee23c33cbe515763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 15/85] fix: controllers of a chain do not stay active without
 each other

A controller that is restarted by a switch request takes part in the check
for conflicting interfaces, it cannot keep using a controller that the
request deactivates, and controllers that were only restarted to change their
chained mode run again if a strict switch fails. Active controllers whose
following controller is not active anymore are deactivated.
---
 .../controller_manager/controller_manager.hpp |  21 +++
 controller_manager/src/controller_manager.cpp | 164 ++++++++++++++++--
 2 files changed, 174 insertions(+), 11 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 410aa78..df6a3c0 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -411,6 +411,25 @@ private:
     const std::vector<std::string> & deactivate_controllers_list,
     const std::string & rt_cycle_name);
 
+  /// Deactivate and activate the given controllers again, without changing other controllers.
+  /**
+   * \param[in] rt_controller_list list of controllers in the real-time list.
+   * \param[in] controllers_to_restart list of controllers, active or inactive.
+   */
+  void restart_controllers(
+    const std::vector<ControllerSpec> & rt_controller_list,
+    const std::vector<std::string> & controllers_to_restart);
+
+  /// Deactivate the controllers that use interfaces of controllers that are not active anymore, and
+  /// take the controllers out of the chained mode that are not used by any active controller.
+  /**
+   * \param[in] rt_controller_list list of controllers in the real-time list.
+   * \param[in] restart_unchained if true, the controllers leaving the chained mode are activated
+   * again, otherwise they stay inactive.
+   */
+  void handle_broken_controller_chains(
+    const std::vector<ControllerSpec> & rt_controller_list, bool restart_unchained);
+
   /**
    * If a controller is deactivated all following controllers (if any exist) should be switched
    * 'from' the chained mode.
@@ -764,6 +783,8 @@ private:
     std::vector<std::string> deactivate_request;
     std::vector<std::string> to_chained_mode_request;
     std::vector<std::string> from_chained_mode_request;
+    // active controllers that are only restarted to change their chained mode
+    std::vector<std::string> restart_request;
     std::vector<std::string> activate_command_interface_request;
     std::vector<std::string> deactivate_command_interface_request;
   };
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 3d6de33..6a29daf 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1868,6 +1868,7 @@ void ControllerManager::clear_requests()
   switch_params_.activate_request.clear();
   switch_params_.to_chained_mode_request.clear();
   switch_params_.from_chained_mode_request.clear();
+  switch_params_.restart_request.clear();
   switch_params_.activate_command_interface_request.clear();
   switch_params_.deactivate_command_interface_request.clear();
 }
@@ -2268,6 +2269,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
       {
         switch_params_.deactivate_request.push_back(controller.info.name);
         switch_params_.activate_request.push_back(controller.info.name);
+        switch_params_.restart_request.push_back(controller.info.name);
       }
     }
 
@@ -2294,6 +2296,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
         switch_params_.activate_command_interface_request.clear();
         switch_params_.to_chained_mode_request.clear();
         switch_params_.from_chained_mode_request.clear();
+        switch_params_.restart_request.clear();
         return controller_interface::return_type::ERROR;
       }
       RCLCPP_WARN(get_logger(), "%s", msg.c_str());
@@ -2715,6 +2718,7 @@ void ControllerManager::activate_controllers(
   const std::vector<std::string> & controllers_to_activate, int strictness)
 {
   std::vector<std::string> failed_controllers_command_interfaces;
+  std::vector<std::string> requested_command_interfaces;
   bool is_successful = true;
   // Make all chainable interfaces available before activating controllers
   for (const auto & controller_name : controllers_to_activate)
@@ -2757,6 +2761,7 @@ void ControllerManager::activate_controllers(
     bool assignment_successful = true;
     const auto command_interface_names =
       get_command_interfaces_names(controller, resource_manager_);
+    ros2_control::add_items(requested_command_interfaces, command_interface_names);
     std::vector<hardware_interface::LoanedCommandInterface> command_loans;
     command_loans.reserve(command_interface_names.size());
     for (const auto & command_interface : command_interface_names)
@@ -2894,10 +2899,8 @@ void ControllerManager::activate_controllers(
     // deactivate all controllers that were activated in this switch
     deactivate_controllers(rt_controller_list, controllers_to_activate);
     if (
-      !resource_manager_->prepare_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request) ||
-      !resource_manager_->perform_command_mode_switch(
-        {}, switch_params_.activate_command_interface_request))
+      !resource_manager_->prepare_command_mode_switch({}, requested_command_interfaces) ||
+      !resource_manager_->perform_command_mode_switch({}, requested_command_interfaces))
     {
       RCLCPP_ERROR(
         get_logger(),
@@ -3397,6 +3400,7 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    handle_broken_controller_chains(rt_controller_list, false);
     activity_pending_ = true;
     // TODO(destogl): do auto-start of broadcasters
   }
@@ -3453,6 +3457,22 @@ void ControllerManager::manage_switch()
   const auto act_start_time = std::chrono::steady_clock::now();
   activate_controllers(
     rt_controller_list, switch_params_.activate_request, switch_params_.strictness);
+  if (
+    switch_params_.strictness == controller_manager_msgs::srv::SwitchController::Request::STRICT &&
+    !switch_params_.restart_request.empty() &&
+    std::any_of(
+      rt_controller_list.begin(), rt_controller_list.end(),
+      [this](const ControllerSpec & controller)
+      {
+        return ros2_control::has_item(switch_params_.activate_request, controller.info.name) &&
+               !is_controller_active(controller.c);
+      }))
+  {
+    // the activation failed, start the controllers again that were only restarted to change their
+    // chained mode
+    restart_controllers(rt_controller_list, switch_params_.restart_request);
+  }
+  handle_broken_controller_chains(rt_controller_list, true);
   execution_time_.activation_time =
     std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - act_start_time)
       .count();
@@ -3669,6 +3689,7 @@ controller_interface::return_type ControllerManager::update(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
     }
+    handle_broken_controller_chains(rt_controller_list, false);
     // To publish the activity of the failing controllers and the fallback controllers
     publish_activity();
   }
@@ -3732,6 +3753,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    handle_broken_controller_chains(rt_controller_list, false);
     activity_pending_ = true;
     // TODO(destogl): do auto-start of broadcasters
   }
@@ -3779,6 +3801,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     perform_hardware_command_mode_change(
       rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+    handle_broken_controller_chains(rt_controller_list, false);
     activity_pending_ = true;
   }
   if (activity_pending_)
@@ -3938,6 +3961,120 @@ void ControllerManager::perform_hardware_command_mode_change(
   }
 }
 
+void ControllerManager::restart_controllers(
+  const std::vector<ControllerSpec> & rt_controller_list,
+  const std::vector<std::string> & controllers_to_restart)
+{
+  std::vector<std::string> interfaces;
+  get_controller_list_command_interfaces(
+    controllers_to_restart, rt_controller_list, resource_manager_, interfaces);
+  deactivate_controllers(rt_controller_list, controllers_to_restart);
+  if (
+    !interfaces.empty() && (!resource_manager_->prepare_command_mode_switch(interfaces, {}) ||
+                            !resource_manager_->perform_command_mode_switch(interfaces, {})))
+  {
+    RCLCPP_ERROR(get_logger(), "Error while switching back the hardware interfaces!");
+    return;
+  }
+  activate_controllers(
+    rt_controller_list, controllers_to_restart,
+    controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT);
+}
+
+void ControllerManager::handle_broken_controller_chains(
+  const std::vector<ControllerSpec> & rt_controller_list, bool restart_unchained)
+{
+  const auto is_active = [&](const ControllerSpec & controller)
+  { return is_controller_active(controller.c); };
+
+  // handle every controller only once, it could refuse to be deactivated
+  std::vector<std::string> handled_broken_controllers;
+  std::vector<std::string> handled_unchained_controllers;
+  while (true)
+  {
+    std::vector<std::string> claimed_prefixes;
+    std::vector<std::string> broken_controllers;
+    for (const auto & controller : rt_controller_list)
+    {
+      if (!is_active(controller))
+      {
+        continue;
+      }
+      const auto uses_inactive_controller = [&](const std::vector<std::string> & interface_names)
+      {
+        return std::any_of(
+          interface_names.begin(), interface_names.end(),
+          [&](const std::string & name)
+          {
+            ControllersListIterator following_ctrl_it;
+            return is_interface_a_chained_interface(name, rt_controller_list, following_ctrl_it) &&
+                   following_ctrl_it->c->is_chainable() && !is_active(*following_ctrl_it);
+          });
+      };
+      const auto command_interfaces =
+        get_command_interfaces_names(controller.c, resource_manager_);
+      if (
+        !ros2_control::has_item(handled_broken_controllers, controller.info.name) &&
+        (uses_inactive_controller(command_interfaces) ||
+         uses_inactive_controller(get_state_interfaces_names(controller.c, resource_manager_))))
+      {
+        broken_controllers.push_back(controller.info.name);
+      }
+      for (const auto & name : command_interfaces)
+      {
+        ros2_control::add_item(claimed_prefixes, split_command_interface(name).first);
+      }
+    }
+    if (!broken_controllers.empty())
+    {
+      RCLCPP_ERROR(
+        get_logger(),
+        "Deactivating controllers using interfaces of controllers that are not active anymore!");
+      std::vector<std::string> interfaces;
+      get_controller_list_command_interfaces(
+        broken_controllers, rt_controller_list, resource_manager_, interfaces);
+      if (
+        !interfaces.empty() && (!resource_manager_->prepare_command_mode_switch({}, interfaces) ||
+                                !resource_manager_->perform_command_mode_switch({}, interfaces)))
+      {
+        RCLCPP_ERROR(get_logger(), "Error while switching the hardware interfaces!");
+      }
+      deactivate_controllers(rt_controller_list, broken_controllers);
+      ros2_control::add_items(handled_broken_controllers, broken_controllers);
+      continue;
+    }
+
+    const auto unchained_it = std::find_if(
+      rt_controller_list.begin(), rt_controller_list.end(),
+      [&](const ControllerSpec & controller)
+      {
+        return is_active(controller) && controller.c->is_chainable() &&
+               controller.c->is_in_chained_mode() &&
+               !ros2_control::has_item(claimed_prefixes, controller.info.name) &&
+               !ros2_control::has_item(handled_unchained_controllers, controller.info.name);
+      });
+    if (unchained_it == rt_controller_list.end())
+    {
+      return;
+    }
+    std::vector<std::string> interfaces;
+    get_controller_list_command_interfaces(
+      {unchained_it->info.name}, rt_controller_list, resource_manager_, interfaces);
+    if (
+      !interfaces.empty() && (!resource_manager_->prepare_command_mode_switch({}, interfaces) ||
+                              !resource_manager_->perform_command_mode_switch({}, interfaces)))
+    {
+      RCLCPP_ERROR(get_logger(), "Error while switching the hardware interfaces!");
+    }
+    deactivate_controllers(rt_controller_list, {unchained_it->info.name});
+    ros2_control::add_item(handled_unchained_controllers, unchained_it->info.name);
+    if (restart_unchained)
+    {
+      restart_controllers(rt_controller_list, {unchained_it->info.name});
+    }
+  }
+}
+
 void ControllerManager::propagate_deactivation_of_chained_mode(
   const std::vector<ControllerSpec> & controllers)
 {
@@ -4197,7 +4334,9 @@ controller_interface::return_type ControllerManager::check_preceding_controllers
     if (found_it != controllers.end())
     {
       if (
-        is_controller_inactive(found_it->c) &&
+        (is_controller_inactive(found_it->c) ||
+         !ros2_control::has_item(
+           switch_params_.activate_request, controller_it->info.name)) &&
         std::find(
           switch_params_.activate_request.begin(), switch_params_.activate_request.end(),
           preceding_controller) != switch_params_.activate_request.end())
@@ -4205,7 +4344,7 @@ controller_interface::return_type ControllerManager::check_preceding_controllers
         message = fmt::format(
           FMT_COMPILE(
             "Unable to deactivate controller with name '{}' because preceding controller with "
-            "name '{}' is inactive and will be activated."),
+            "name '{}' will be activated."),
           controller_it->info.name, preceding_controller);
         RCLCPP_WARN(get_logger(), "%s", message.c_str());
         return controller_interface::return_type::ERROR;
@@ -4475,11 +4614,6 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
   }
   for (const auto & controller_name : activation_list)
   {
-    if (ros2_control::has_item(deactivation_list, controller_name))
-    {
-      // skip controllers that are being deactivated and activated in the same request
-      continue;
-    }
     auto controller_it = std::find_if(
       controllers.begin(), controllers.end(),
       std::bind(controller_name_compare, std::placeholders::_1, controller_name));
@@ -4491,6 +4625,14 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
       return controller_interface::return_type::ERROR;
     }
+    if (
+      ros2_control::has_item(deactivation_list, controller_name) &&
+      controller_it->c->command_interface_configuration().type !=
+        controller_interface::interface_configuration_type::INDIVIDUAL)
+    {
+      // skip controllers that are being deactivated and activated in the same request
+      continue;
+    }
     const auto controller_cmd_interfaces =
       get_command_interfaces_names(controller_it->c, resource_manager_);
     const auto controller_state_interfaces =
-- 
2.43.0


From cc6dc4421d4d48bc8b44d70211079e7e15c236ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 16/85] fix: enforcing command limits does not race with
 interfaces that come and go

---
 hardware_interface/src/resource_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 2abe26a..f0f09f0 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2428,6 +2428,8 @@ bool ResourceManager::enforce_command_limits(const rclcpp::Duration & period)
   {
     return false;
   }
+  // the interfaces of controllers can be added and removed, and interfaces be claimed, at any time
+  std::scoped_lock interfaces_guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
 
   bool enforce_result = false;
   // Joint Limiters operations
-- 
2.43.0


From 7fbf865b4ed2053f3a3f89592e572aaa01925973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 17/85] fix: list the interfaces claimed by controllers that
 the control loop switched

---
 controller_manager/src/controller_manager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6a29daf..d22b774 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2953,7 +2953,16 @@ void ControllerManager::list_controllers_srv_cb(
     controller_state.type = controllers[i].info.type;
     controller_state.is_async = controllers[i].c->is_async();
     controller_state.update_rate = static_cast<uint16_t>(controllers[i].c->get_update_rate());
-    controller_state.claimed_interfaces = controllers[i].info.claimed_interfaces;
+    // controllers can also be activated and deactivated by the control loop
+    if (is_controller_active(controllers[i].c))
+    {
+      const bool individual_interfaces =
+        controllers[i].c->command_interface_configuration().type ==
+        controller_interface::interface_configuration_type::INDIVIDUAL;
+      controller_state.claimed_interfaces =
+        individual_interfaces ? get_command_interfaces_names(controllers[i].c, resource_manager_)
+                              : controllers[i].info.claimed_interfaces;
+    }
     controller_state.state = controllers[i].c->get_lifecycle_state().label();
     controller_state.is_chainable = controllers[i].c->is_chainable();
     controller_state.is_chained = controllers[i].c->is_in_chained_mode();
-- 
2.43.0


From c0d11b525aeaeb76d240d1de8174016845e72bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 18/85] fix: the control loop does not use a resource manager
 that is being replaced

---
 controller_manager/src/controller_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d22b774..9dad5a7 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -795,6 +795,7 @@ void ControllerManager::robot_description_callback(const std_msgs::msg::String &
     // The RM failed to init AFTER we received the description - a critical error.
     // don't finalize controller manager, instead keep waiting for robot description - fallback
     // state
+    std::lock_guard<std::mutex> control_loop_guard(control_loop_mutex_);
     resource_manager_ =
       std::make_unique<hardware_interface::ResourceManager>(trigger_clock_, get_logger());
     return;
-- 
2.43.0


From 26f6ec16a214a626c30cbea64a8d4db93ef682c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 19/85] fix: restarted controllers enter the chained mode again
 if they are still used

---
 controller_manager/src/controller_manager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 9dad5a7..af7da33 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2263,6 +2263,16 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     const bool is_active = is_controller_active(*controller.c);
     const bool is_inactive = is_controller_inactive(*controller.c);
 
+    // a controller leaves the chained mode when it is deactivated, restarted controllers enter it
+    // again if they are still used
+    if (
+      in_deactivate_list && !in_to_chained_mode_list && !in_from_chained_mode_list &&
+      controller.c->is_chainable() && controller.c->is_in_chained_mode() &&
+      ros2_control::has_item(switch_params_.activate_request, controller.info.name))
+    {
+      switch_params_.to_chained_mode_request.push_back(controller.info.name);
+    }
+
     // restart controllers that need to switch their 'chained mode' - add to (de)activate lists
     if (in_to_chained_mode_list || in_from_chained_mode_list)
     {
-- 
2.43.0


From 14e4aa4c7352fa6a400d44eed032e7ae0af375a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 20/85] fix: unloading a controller while shutting down does
 not terminate the process

---
 controller_manager/src/controller_manager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index af7da33..a6bce7c 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1480,7 +1480,12 @@ controller_interface::return_type ControllerManager::unload_controller(
   }
   unregister_controller_manager_statistics(controller_name + ".stats/execution_time");
   unregister_controller_manager_statistics(controller_name + ".stats/periodicity");
-  executor_->remove_node(controller.c->get_node()->get_node_base_interface());
+  // the node is not in the executor anymore if the controllers were shut down in the meantime
+  const auto node_base = controller.c->get_node()->get_node_base_interface();
+  if (node_base->get_associated_with_executor_atomic().load())
+  {
+    executor_->remove_node(node_base);
+  }
   to.erase(found_it);
 
   // Destroys the old controllers list when the realtime thread is finished with it.
-- 
2.43.0


From a169d31d2f7e1e224a902686472a35b4ec570315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 21/85] fix: the control loop does not use the read and write
 status while components are loaded

---
 hardware_interface/src/resource_manager.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index f0f09f0..5b64509 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2447,15 +2447,15 @@ bool ResourceManager::enforce_command_limits(const rclcpp::Duration & period)
 HardwareReadWriteStatus ResourceManager::read(
   const rclcpp::Time & /*time*/, const rclcpp::Duration & period)
 {
-  read_write_status.result = return_type::OK;
-  read_write_status.failed_hardware_names.clear();
-
   // This is needed while we load and initialize the components
   std::unique_lock<std::recursive_mutex> resource_guard(resources_lock_, std::try_to_lock);
   if (!resource_guard.owns_lock())
   {
-    return read_write_status;
+    return HardwareReadWriteStatus{return_type::OK, {}};
   }
+
+  read_write_status.result = return_type::OK;
+  read_write_status.failed_hardware_names.clear();
   auto read_components = [&](auto & components, bool handle_exceptions)
   {
     for (auto & component : components)
@@ -2547,15 +2547,15 @@ HardwareReadWriteStatus ResourceManager::read(
 HardwareReadWriteStatus ResourceManager::write(
   const rclcpp::Time & /*time*/, const rclcpp::Duration & period)
 {
-  read_write_status.result = return_type::OK;
-  read_write_status.failed_hardware_names.clear();
-
   // This is needed while we load and initialize the components
   std::unique_lock<std::recursive_mutex> resource_guard(resources_lock_, std::try_to_lock);
   if (!resource_guard.owns_lock())
   {
-    return read_write_status;
+    return HardwareReadWriteStatus{return_type::OK, {}};
   }
+
+  read_write_status.result = return_type::OK;
+  read_write_status.failed_hardware_names.clear();
   auto write_components = [&](auto & components, bool handle_exceptions)
   {
     for (auto & component : components)
-- 
2.43.0


From 132b65c1067617b31f7eb15863bf75fb7a9578ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 22/85] fix: a controller is not configured while it is being
 switched by the control loop

---
 controller_manager/src/controller_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a6bce7c..52286a3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1643,8 +1643,8 @@ controller_interface::return_type ControllerManager::configure_controller(
 
   const auto & state = controller->get_lifecycle_state();
   if (
-    state.id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE ||
-    state.id() == lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
+    state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED &&
+    state.id() != lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE)
   {
     RCLCPP_ERROR(
       get_logger(), "Controller '%s' can not be configured from '%s' state.",
-- 
2.43.0


From 22e50f0cb90f6a7e14d7eeb246258d5f1ac8ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:53 +0000
Subject: [PATCH 23/85] fix: hardware failures in the control loop do not race
 with interfaces and controllers that come and go

---
 hardware_interface/src/resource_manager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 5b64509..9c96a88 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -334,6 +334,8 @@ public:
       // happened and only then trigger this part of the code?
       // On the other side this part of the code should never be executed in real-time critical
       // thread, so it could be also OK as it is...
+      // the control loop uses the available lists too
+      std::lock_guard<std::recursive_mutex> guard(*resource_interfaces_lock_);
       for (const auto & interface : hardware_info_map_[hardware.get_name()].state_interfaces)
       {
         // add all state interfaces to available list
@@ -394,6 +396,8 @@ public:
 
   void remove_all_hardware_interfaces_from_available_list(const std::string & hardware_name)
   {
+    // the control loop calls this when a component fails
+    std::lock_guard<std::recursive_mutex> guard(*resource_interfaces_lock_);
     // remove all command interfaces from available list
     for (const auto & interface : hardware_info_map_[hardware_name].command_interfaces)
     {
@@ -1427,6 +1431,9 @@ public:
   std::vector<std::string> available_state_interfaces_;
   std::vector<std::string> available_command_interfaces_;
 
+  /// Mutex of the resource manager that guards the interfaces
+  std::recursive_mutex * resource_interfaces_lock_ = nullptr;
+
   /// List of all claimed command interfaces
   std::unordered_map<std::string, bool> claimed_command_interface_map_;
 
@@ -1506,6 +1513,7 @@ ResourceManager::ResourceManager(
     "recommended to use the settings to true in order to avoid controllers to use inactive "
     "hardware components and to avoid any unexpected behavior. This feature might be removed in "
     "future releases and will be defaulted to true.");
+  resource_storage_->resource_interfaces_lock_ = &resource_interfaces_lock_;
   allow_controller_activation_with_inactive_hardware_ =
     params.allow_controller_activation_with_inactive_hardware;
   return_failed_hardware_names_on_return_deactivate_write_cycle_ =
@@ -1869,6 +1877,7 @@ void ResourceManager::remove_controller_reference_interfaces(const std::string &
 void ResourceManager::cache_controller_to_hardware(
   const std::string & controller_name, const std::vector<std::string> & interfaces)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interfaces)
   {
     bool found = false;
@@ -1909,6 +1918,7 @@ void ResourceManager::cache_controller_to_hardware(
 std::vector<std::string> ResourceManager::get_cached_controllers_to_hardware(
   const std::string & hardware_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   return resource_storage_->hardware_used_by_controllers_[hardware_name];
 }
 
-- 
2.43.0


From bf48435e5ae52d0046ce5c7f2a171d75bc535a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 24/85] fix: a controller is not unloaded while it is being
 switched by the control loop

---
 controller_manager/src/controller_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 52286a3..15e5fb5 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1450,7 +1450,10 @@ controller_interface::return_type ControllerManager::unload_controller(
 
   auto & controller = *found_it;
 
-  if (is_controller_active(*controller.c))
+  if (
+    is_controller_active(*controller.c) ||
+    // being switched by the control loop
+    controller.c->get_lifecycle_state().id() > lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
   {
     to.clear();
     RCLCPP_ERROR(
-- 
2.43.0


From 6d6ded5e9b9f7a2ba3bf7485c44e0519d93bce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 25/85] fix: the interfaces of a component are not available
 after a failed transition unconfigured or finalized it

---
 hardware_interface/src/resource_manager.cpp | 23 +++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 9c96a88..b8f9789 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -448,6 +448,21 @@ public:
     }
   }
 
+  bool has_available_interfaces(const std::string & hardware_name)
+  {
+    std::lock_guard<std::recursive_mutex> guard(*resource_interfaces_lock_);
+    const auto is_available =
+      [](const std::vector<std::string> & interfaces, const std::vector<std::string> & available)
+    {
+      return std::any_of(
+        interfaces.begin(), interfaces.end(), [&available](const std::string & interface)
+        { return ros2_control::has_item(available, interface); });
+    };
+    const auto & info = hardware_info_map_[hardware_name];
+    return is_available(info.command_interfaces, available_command_interfaces_) ||
+           is_available(info.state_interfaces, available_state_interfaces_);
+  }
+
   template <class HardwareT>
   bool cleanup_hardware(HardwareT & hardware)
   {
@@ -679,6 +694,14 @@ public:
         }
         break;
     }
+    // a failed transition can leave the component in a state without usable interfaces too
+    if (
+      hardware.get_lifecycle_id() != State::PRIMARY_STATE_INACTIVE &&
+      hardware.get_lifecycle_id() != State::PRIMARY_STATE_ACTIVE &&
+      has_available_interfaces(hardware.get_name()))
+    {
+      remove_all_hardware_interfaces_from_available_list(hardware.get_name());
+    }
     if (on_component_state_switch_callback_)
     {
       on_component_state_switch_callback_();
-- 
2.43.0


From b5f71c0f133dc871883f4907049b8cac0c1b3edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 26/85] fix: a restart of controllers fails if the hardware
 rejects the mode switch

---
 .../include/controller_manager/controller_manager.hpp |  2 ++
 controller_manager/src/controller_manager.cpp         | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index df6a3c0..f5a64e9 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -759,6 +759,8 @@ private:
 
     std::atomic_bool do_switch{false};
     std::atomic_bool ready_to_switch{false};
+    // set if the hardware refused to perform the command mode switch
+    std::atomic_bool mode_switch_rejected{false};
 
     // Switch options
     int strictness;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 15e5fb5..f4a44cb 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2477,6 +2477,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     switch_params_.timeout = timeout.to_chrono<std::chrono::nanoseconds>();
   }
   switch_params_.ready_to_switch.store(false, std::memory_order_release);
+  switch_params_.mode_switch_rejected = false;
   switch_params_.do_switch = true;
   // wait until switch is finished
   if (switch_params_.activate_asap)
@@ -2525,6 +2526,15 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
   auto switch_result = evaluate_switch_result(
     resource_manager_, switch_params_.activate_request, switch_params_.deactivate_request,
     strictness, get_logger(), to, message);
+  if (
+    switch_params_.mode_switch_rejected &&
+    switch_result == controller_interface::return_type::OK)
+  {
+    // nothing was switched, although all controllers might be in the requested state already
+    message = "Failed switching controllers, the hardware rejected the command mode switch.";
+    RCLCPP_ERROR(get_logger(), "%s", message.c_str());
+    switch_result = controller_interface::return_type::ERROR;
+  }
 
   // switch lists
   rt_controllers_wrapper_.switch_updated_list(guard);
@@ -3453,6 +3463,7 @@ void ControllerManager::manage_switch()
   {
     RCLCPP_ERROR(get_logger(), "Error while performing mode switch.");
     // If the hardware switching fails, there is no point in continuing to switch controllers
+    switch_params_.mode_switch_rejected = true;
     switch_params_.do_switch = false;
     switch_params_.cv.notify_all();
     return;
-- 
2.43.0


From 0684bb969325ee173a0cf809d8f236c22321ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 27/85] fix: restarted controllers are checked for conflicts
 with the other controllers to activate

---
 controller_manager/src/controller_manager.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index f4a44cb..b9aaca2 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4664,14 +4664,6 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
       RCLCPP_ERROR(get_logger(), "%s", message.c_str());
       return controller_interface::return_type::ERROR;
     }
-    if (
-      ros2_control::has_item(deactivation_list, controller_name) &&
-      controller_it->c->command_interface_configuration().type !=
-        controller_interface::interface_configuration_type::INDIVIDUAL)
-    {
-      // skip controllers that are being deactivated and activated in the same request
-      continue;
-    }
     const auto controller_cmd_interfaces =
       get_command_interfaces_names(controller_it->c, resource_manager_);
     const auto controller_state_interfaces =
-- 
2.43.0


From 05c664e905d06d164a4c82b130d3bbdb1b504e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 28/85] fix: controllers that are not in chained mode are not
 asked to leave it

---
 controller_manager/src/controller_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b9aaca2..4d792b0 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4159,7 +4159,7 @@ void ControllerManager::propagate_deactivation_of_chained_mode(
                         switch_params_.deactivate_request, other.info.name) ||
                       ros2_control::has_item(switch_params_.activate_request, other.info.name));
             });
-          if (stays_chained)
+          if (stays_chained || !following_ctrl_it->c->is_in_chained_mode())
           {
             continue;
           }
-- 
2.43.0


From b59c5f7bc14afc7935a8a3e3950a8bf5e9334dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 29/85] fix: the list of controllers cannot be replaced while
 the control loop starts to use it

---
 .../include/controller_manager/controller_manager.hpp  |  4 ++--
 controller_manager/src/controller_manager.cpp          | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index f5a64e9..5f2a260 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -676,9 +676,9 @@ private:
 
     std::vector<ControllerSpec> controllers_lists_[2];
     /// The index of the controller list with the most updated information
-    int updated_controllers_index_ = 0;
+    std::atomic_int updated_controllers_index_ = 0;
     /// The index of the controllers list being used in the real-time thread.
-    int used_by_realtime_controllers_index_ = -1;
+    std::atomic_int used_by_realtime_controllers_index_ = -1;
     /// The callback to be called when the list is switched
     std::function<void()> on_switch_callback_ = nullptr;
   };
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4d792b0..6ebc334 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3886,8 +3886,14 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
 std::vector<ControllerSpec> &
 ControllerManager::RTControllerListWrapper::update_and_get_used_by_rt_list()
 {
-  used_by_realtime_controllers_index_ = updated_controllers_index_;
-  return controllers_lists_[used_by_realtime_controllers_index_];
+  // the list can be replaced before it is known that it is used
+  int index;
+  do
+  {
+    index = updated_controllers_index_;
+    used_by_realtime_controllers_index_ = index;
+  } while (index != updated_controllers_index_);
+  return controllers_lists_[index];
 }
 
 std::vector<ControllerSpec> & ControllerManager::RTControllerListWrapper::get_unused_list(
-- 
2.43.0


From 8dd8e35f9cfcb34ce3e557607efc91b6a65ff653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 30/85] fix: an asynchronous controller that could not be
 cleaned up can be activated again

---
 controller_interface/src/controller_interface_base.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index c38abc1..1116fb6 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -122,7 +122,13 @@ return_type ControllerInterfaceBase::init(
       enable_introspection(false);
       this->stop_async_handler_thread();
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
-      return on_cleanup(previous_state);
+      const auto result = on_cleanup(previous_state);
+      if (result == CallbackReturn::FAILURE && is_async() && impl_->async_handler_)
+      {
+        // the controller stays configured
+        impl_->async_handler_->start_thread();
+      }
+      return result;
     });
 
   impl_->node_->register_on_activate(
-- 
2.43.0


From df812fb84e76dffe9ba1dc09ff51b1ce3117c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 31/85] fix: the interfaces of active controllers are those
 that were assigned to them

---
 .../controller_interface_base.hpp             |  6 ++++
 .../src/controller_interface_base.cpp         | 31 +++++++++++++++++++
 controller_manager/src/controller_manager.cpp | 20 +++++++++---
 3 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 3b333ab..8d71d5d 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -169,6 +169,12 @@ public:
    */
   virtual void release_interfaces();
 
+  /// Get the names of the command interfaces that are assigned to the controller.
+  std::vector<std::string> get_assigned_command_interfaces_names() const;
+
+  /// Get the names of the state interfaces that are assigned to the controller.
+  std::vector<std::string> get_assigned_state_interfaces_names() const;
+
   [[deprecated(
     "Use the init(const controller_interface::ControllerInterfaceParams & params) method instead. "
     "This method will be removed in the future ROS 2 releases.")]]
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 1116fb6..43dc3c3 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -15,6 +15,7 @@
 #include "controller_interface/controller_interface_base.hpp"
 
 #include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -32,6 +33,10 @@ struct ControllerInterfaceBase::ControllerInterfaceBaseImpl
   std::atomic_bool skip_async_triggers_ = false;
   ControllerUpdateStats trigger_stats_;
   mutable std::atomic<uint8_t> lifecycle_id_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN;
+  // the interfaces can be assigned and released by the control loop at any time
+  mutable std::mutex assigned_interfaces_mutex_;
+  std::vector<std::string> assigned_command_interfaces_names_;
+  std::vector<std::string> assigned_state_interfaces_names_;
 };
 
 ControllerInterfaceBase::ControllerInterfaceBase()
@@ -296,12 +301,38 @@ void ControllerInterfaceBase::assign_interfaces(
 {
   command_interfaces_ = std::forward<decltype(command_interfaces)>(command_interfaces);
   state_interfaces_ = std::forward<decltype(state_interfaces)>(state_interfaces);
+  std::lock_guard<std::mutex> guard(impl_->assigned_interfaces_mutex_);
+  impl_->assigned_command_interfaces_names_.clear();
+  for (const auto & interface : command_interfaces_)
+  {
+    impl_->assigned_command_interfaces_names_.push_back(interface.get_name());
+  }
+  impl_->assigned_state_interfaces_names_.clear();
+  for (const auto & interface : state_interfaces_)
+  {
+    impl_->assigned_state_interfaces_names_.push_back(interface.get_name());
+  }
 }
 
 void ControllerInterfaceBase::release_interfaces()
 {
   command_interfaces_.clear();
   state_interfaces_.clear();
+  std::lock_guard<std::mutex> guard(impl_->assigned_interfaces_mutex_);
+  impl_->assigned_command_interfaces_names_.clear();
+  impl_->assigned_state_interfaces_names_.clear();
+}
+
+std::vector<std::string> ControllerInterfaceBase::get_assigned_command_interfaces_names() const
+{
+  std::lock_guard<std::mutex> guard(impl_->assigned_interfaces_mutex_);
+  return impl_->assigned_command_interfaces_names_;
+}
+
+std::vector<std::string> ControllerInterfaceBase::get_assigned_state_interfaces_names() const
+{
+  std::lock_guard<std::mutex> guard(impl_->assigned_interfaces_mutex_);
+  return impl_->assigned_state_interfaces_names_;
 }
 
 const rclcpp_lifecycle::State & ControllerInterfaceBase::get_lifecycle_state() const
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6ebc334..a5ff164 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -184,6 +184,13 @@ std::vector<std::string> get_command_interfaces_names(
 {
   auto command_interface_config = controller->command_interface_configuration();
   std::vector<std::string> command_interface_names = {};
+  if (
+    command_interface_config.type != controller_interface::interface_configuration_type::INDIVIDUAL &&
+    is_controller_active(controller))
+  {
+    // other interfaces could have become available since it was activated
+    return controller->get_assigned_command_interfaces_names();
+  }
   if (command_interface_config.type == controller_interface::interface_configuration_type::ALL)
   {
     return resource_manager->available_command_interfaces();
@@ -238,6 +245,13 @@ std::vector<std::string> get_state_interfaces_names(
 {
   auto state_interface_config = controller->state_interface_configuration();
   std::vector<std::string> state_interface_names = {};
+  if (
+    state_interface_config.type != controller_interface::interface_configuration_type::INDIVIDUAL &&
+    is_controller_active(controller))
+  {
+    // other interfaces could have become available since it was activated
+    return controller->get_assigned_state_interfaces_names();
+  }
   if (state_interface_config.type == controller_interface::interface_configuration_type::ALL)
   {
     return resource_manager->available_state_interfaces();
@@ -2985,12 +2999,8 @@ void ControllerManager::list_controllers_srv_cb(
     // controllers can also be activated and deactivated by the control loop
     if (is_controller_active(controllers[i].c))
     {
-      const bool individual_interfaces =
-        controllers[i].c->command_interface_configuration().type ==
-        controller_interface::interface_configuration_type::INDIVIDUAL;
       controller_state.claimed_interfaces =
-        individual_interfaces ? get_command_interfaces_names(controllers[i].c, resource_manager_)
-                              : controllers[i].info.claimed_interfaces;
+        get_command_interfaces_names(controllers[i].c, resource_manager_);
     }
     controller_state.state = controllers[i].c->get_lifecycle_state().label();
     controller_state.is_chainable = controllers[i].c->is_chainable();
-- 
2.43.0


From 726938b5f51e17f5cad2e6ff287e89a05b9df267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 32/85] fix: controllers that could not be activated do not
 stay in chained mode

---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a5ff164..3aa38ad 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2842,6 +2842,7 @@ void ControllerManager::activate_controllers(
       is_successful = false;
       if (controller->is_chainable())
       {
+        controller->set_chained_mode(false);
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
       }
@@ -2875,6 +2876,7 @@ void ControllerManager::activate_controllers(
       is_successful = false;
       if (controller->is_chainable())
       {
+        controller->set_chained_mode(false);
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
       }
@@ -2917,6 +2919,7 @@ void ControllerManager::activate_controllers(
       ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);
       if (controller->is_chainable())
       {
+        controller->set_chained_mode(false);
         // make all the exported interfaces of the controller unavailable
         resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);
         resource_manager_->make_controller_reference_interfaces_unavailable(controller_name);
-- 
2.43.0


From bfa4377402495c77522c0f0cdf62c51066702271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 33/85] fix: preparing a mode switch does not change the
 interfaces of a switch being performed

---
 hardware_interface/src/resource_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index b8f9789..6e16f4b 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2237,12 +2237,13 @@ bool ResourceManager::prepare_command_mode_switch(
     return ret;
   };
 
+  // the buffers of the storage are used by the control loop, that may perform a switch meanwhile
+  std::vector<std::string> start_interfaces_buffer;
+  std::vector<std::string> stop_interfaces_buffer;
   const bool actuators_result = call_prepare_mode_switch(
-    resource_storage_->actuators_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->actuators_, start_interfaces_buffer, stop_interfaces_buffer);
   const bool systems_result = call_prepare_mode_switch(
-    resource_storage_->systems_, resource_storage_->start_interfaces_buffer_,
-    resource_storage_->stop_interfaces_buffer_);
+    resource_storage_->systems_, start_interfaces_buffer, stop_interfaces_buffer);
 
   return actuators_result && systems_result;
 }
-- 
2.43.0


From cc174da29efa804258c08cc590522cf6ba2e504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 34/85] fix: fallback controllers that are active already are
 not restarted

---
 controller_manager/src/controller_manager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 3aa38ad..e83c59a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3704,6 +3704,16 @@ controller_interface::return_type ControllerManager::update(
       {
         for (const auto & fallback_controller : ctrl_it->info.fallback_controllers_names)
         {
+          const auto fallback_it = std::find_if(
+            rt_controller_list.begin(), rt_controller_list.end(),
+            std::bind(controller_name_compare, std::placeholders::_1, fallback_controller));
+          if (
+            fallback_it != rt_controller_list.end() && is_controller_active(fallback_it->c) &&
+            !ros2_control::has_item(rt_buffer_.deactivate_controllers_list, fallback_controller))
+          {
+            // it is active already, possibly with other controllers using it
+            continue;
+          }
           ros2_control::add_item(rt_buffer_.fallback_controllers_list, fallback_controller);
           get_active_controllers_using_command_interfaces_of_controller(
             fallback_controller, rt_controller_list,
-- 
2.43.0


From 798cc1b1a4a21f9b7781195e901fd54d99098284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:18 +0000
Subject: [PATCH 35/85] fix: chains are not handled by the control loop during
 a switch outside of it

---
 .../controller_manager/controller_manager.hpp     |  2 ++
 controller_manager/src/controller_manager.cpp     | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 5f2a260..5fd9c37 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -690,6 +690,8 @@ private:
   std::mutex control_loop_mutex_;
   /// The activity changed, but could not be published yet
   std::atomic_bool activity_pending_{false};
+  // only used by the control loop
+  bool chain_check_pending_{false};
   RTControllerListWrapper rt_controllers_wrapper_;
   std::unordered_map<std::string, ControllerChainSpec> controller_chain_spec_;
   std::vector<std::string> ordered_controllers_names_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e83c59a..fdfdfbf 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3755,6 +3755,11 @@ controller_interface::return_type ControllerManager::update(
     // To publish the activity of the failing controllers and the fallback controllers
     publish_activity();
   }
+  if (chain_check_pending_)
+  {
+    handle_broken_controller_chains(rt_controller_list, false);
+    activity_pending_ = true;
+  }
   resource_manager_->enforce_command_limits(period);
 
   // there are controllers to (de)activate
@@ -4052,6 +4057,16 @@ void ControllerManager::restart_controllers(
 void ControllerManager::handle_broken_controller_chains(
   const std::vector<ControllerSpec> & rt_controller_list, bool restart_unchained)
 {
+  std::unique_lock<std::mutex> switch_guard(switch_params_.mutex, std::defer_lock);
+  if (!restart_unchained)
+  {
+    // a switch might be performed outside of the control loop, it checks the chains at its end
+    chain_check_pending_ = !switch_guard.try_lock();
+    if (chain_check_pending_)
+    {
+      return;
+    }
+  }
   const auto is_active = [&](const ControllerSpec & controller)
   { return is_controller_active(controller.c); };
 
-- 
2.43.0


From 66abde9004dc8713e6545646df20c9c94271ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 36/85] fix: controllers are updated after all of their
 preceding controllers

---
 controller_manager/src/controller_manager.cpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index fdfdfbf..e89208b 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1839,6 +1839,27 @@ controller_interface::return_type ControllerManager::configure_controller(
     }
   }
 
+  // controllers inserted later might have been placed before the controllers preceding them
+  std::vector<std::string> remaining_names;
+  remaining_names.swap(ordered_controllers_names_);
+  while (!remaining_names.empty())
+  {
+    auto next_it = std::find_if(
+      remaining_names.begin(), remaining_names.end(),
+      [&](const std::string & ctrl_name)
+      {
+        const auto & preceding = controller_chain_spec_[ctrl_name].preceding_controllers;
+        return std::none_of(
+          preceding.begin(), preceding.end(),
+          [&](const std::string & name)
+          { return name != ctrl_name && ros2_control::has_item(remaining_names, name); });
+      });
+    // in a loop of controllers there is no controller without preceding controllers
+    next_it = next_it == remaining_names.end() ? remaining_names.begin() : next_it;
+    ordered_controllers_names_.push_back(*next_it);
+    remaining_names.erase(next_it);
+  }
+
   std::vector<ControllerSpec> new_list;
   for (const auto & ctrl : ordered_controllers_names_)
   {
-- 
2.43.0


From 6b6742edcd0ed3cc7e334465ce739dd3c1fd48d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 37/85] fix: fallback controllers used by other fallback
 controllers are in chained mode

---
 controller_manager/src/controller_manager.cpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e89208b..b6f4637 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3768,6 +3768,31 @@ controller_interface::return_type ControllerManager::update(
     deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
     if (!rt_buffer_.fallback_controllers_list.empty())
     {
+      for (const auto & fallback_controller : rt_buffer_.fallback_controllers_list)
+      {
+        // the fallback controllers can form a chain
+        const auto fallback_it = std::find_if(
+          rt_controller_list.begin(), rt_controller_list.end(),
+          std::bind(controller_name_compare, std::placeholders::_1, fallback_controller));
+        if (fallback_it == rt_controller_list.end())
+        {
+          continue;
+        }
+        for (const auto & itf_name :
+             get_command_interfaces_names(fallback_it->c, resource_manager_))
+        {
+          ControllersListIterator following_ctrl_it;
+          if (
+            is_interface_a_chained_interface(itf_name, rt_controller_list, following_ctrl_it) &&
+            !is_controller_active(following_ctrl_it->c) &&
+            !following_ctrl_it->c->is_in_chained_mode() &&
+            ros2_control::has_item(
+              rt_buffer_.fallback_controllers_list, following_ctrl_it->info.name))
+          {
+            switch_chained_mode({following_ctrl_it->info.name}, true);
+          }
+        }
+      }
       activate_controllers(
         rt_controller_list, rt_buffer_.fallback_controllers_list,
         controller_manager_msgs::srv::SwitchController::Request::STRICT);
-- 
2.43.0


From c150be8cc806dd7c7b03044b15bda182ca239fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:00 +0000
Subject: [PATCH 38/85] fix: limiting written commands does not race with state
 interfaces that come and go

---
 hardware_interface/src/resource_manager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6e16f4b..c7dced9 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -20,6 +20,7 @@
 #include <map>
 #include <memory>
 #include <stdexcept>
+#include <shared_mutex>
 #include <string>
 #include <tuple>
 #include <unordered_map>
@@ -980,7 +981,9 @@ public:
   std::string add_state_interface(StateInterface::ConstSharedPtr interface)
   {
     auto interface_name = interface->get_name();
+    std::unique_lock<std::shared_mutex> map_lock(state_interface_map_mutex_);
     const auto [it, success] = state_interface_map_.emplace(interface_name, interface);
+    map_lock.unlock();
     if (!success)
     {
       const std::string msg = fmt::format(
@@ -1039,6 +1042,7 @@ public:
     for (const auto & interface : interface_names)
     {
       state_interface_map_[interface]->unregisterIntrospection();
+      std::unique_lock<std::shared_mutex> map_lock(state_interface_map_mutex_);
       state_interface_map_.erase(interface);
     }
   }
@@ -1132,7 +1136,11 @@ public:
             is_limited = false;
             joint_limits::JointInterfacesCommandLimiterData data;
             data.set_joint_name(joint_name);
-            update_joint_limiters_data(data.joint_name, state_interface_map_, data.actual);
+            {
+              // called by every thread that writes the command
+              std::shared_lock<std::shared_mutex> map_lock(state_interface_map_mutex_);
+              update_joint_limiters_data(data.joint_name, state_interface_map_, data.actual);
+            }
             if (interface_name == hardware_interface::HW_IF_POSITION)
             {
               data.command.position = value;
@@ -1447,6 +1455,8 @@ public:
 
   /// Storage of all available state interfaces
   std::map<std::string, StateInterface::ConstSharedPtr> state_interface_map_;
+  /// Guards adding and removing of state interfaces against writing of commands with limits
+  std::shared_mutex state_interface_map_mutex_;
   /// Storage of all available command interfaces
   std::map<std::string, CommandInterface::SharedPtr> command_interface_map_;
 
-- 
2.43.0


From 08b13c28983fff939b690791b82ceb5165c54827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 39/85] fix: in a loop of controllers, the order of the
 reference interfaces is kept

---
 controller_manager/src/controller_manager.cpp | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b6f4637..4ae6e2e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1844,17 +1844,29 @@ controller_interface::return_type ControllerManager::configure_controller(
   remaining_names.swap(ordered_controllers_names_);
   while (!remaining_names.empty())
   {
-    auto next_it = std::find_if(
-      remaining_names.begin(), remaining_names.end(),
-      [&](const std::string & ctrl_name)
-      {
-        const auto & preceding = controller_chain_spec_[ctrl_name].preceding_controllers;
-        return std::none_of(
-          preceding.begin(), preceding.end(),
-          [&](const std::string & name)
-          { return name != ctrl_name && ros2_control::has_item(remaining_names, name); });
-      });
-    // in a loop of controllers there is no controller without preceding controllers
+    const auto find_next = [&](const auto & get_preceding_controllers)
+    {
+      return std::find_if(
+        remaining_names.begin(), remaining_names.end(),
+        [&](const std::string & ctrl_name)
+        {
+          const std::vector<std::string> & preceding = get_preceding_controllers(ctrl_name);
+          return std::none_of(
+            preceding.begin(), preceding.end(),
+            [&](const std::string & name)
+            { return name != ctrl_name && ros2_control::has_item(remaining_names, name); });
+        });
+    };
+    auto next_it = find_next(
+      [&](const std::string & ctrl_name) -> const std::vector<std::string> &
+      { return controller_chain_spec_[ctrl_name].preceding_controllers; });
+    if (next_it == remaining_names.end())
+    {
+      // within a loop, the reference interfaces are more important than the state interfaces
+      next_it = find_next(
+        [&](const std::string & ctrl_name) -> const std::vector<std::string> &
+        { return controller_chained_reference_interfaces_cache_[ctrl_name]; });
+    }
     next_it = next_it == remaining_names.end() ? remaining_names.begin() : next_it;
     ordered_controllers_names_.push_back(*next_it);
     remaining_names.erase(next_it);
-- 
2.43.0


From 777a7b6f5a904dc70ecc6e0ac75e28ed7c3e53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 40/85] fix: active controllers used by fallback controllers
 enter the chained mode

---
 controller_manager/src/controller_manager.cpp | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4ae6e2e..401c410 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3755,6 +3755,37 @@ controller_interface::return_type ControllerManager::update(
       }
     }
 
+    const size_t number_of_fallback_controllers = rt_buffer_.fallback_controllers_list.size();
+    for (size_t i = 0; i < number_of_fallback_controllers; ++i)
+    {
+      // active controllers used by the fallback controllers have to enter the chained mode
+      const auto fallback_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(
+          controller_name_compare, std::placeholders::_1,
+          rt_buffer_.fallback_controllers_list[i]));
+      if (fallback_it == rt_controller_list.end())
+      {
+        continue;
+      }
+      for (const auto & itf_name : get_command_interfaces_names(fallback_it->c, resource_manager_))
+      {
+        ControllersListIterator following_ctrl_it;
+        if (
+          is_interface_a_chained_interface(itf_name, rt_controller_list, following_ctrl_it) &&
+          is_controller_active(following_ctrl_it->c) &&
+          !following_ctrl_it->c->is_in_chained_mode() &&
+          !ros2_control::has_item(
+            rt_buffer_.deactivate_controllers_list, following_ctrl_it->info.name))
+        {
+          ros2_control::add_item(
+            rt_buffer_.activate_controllers_using_interfaces_list, following_ctrl_it->info.name);
+          ros2_control::add_item(
+            rt_buffer_.fallback_controllers_list, following_ctrl_it->info.name);
+        }
+      }
+    }
+
     RCLCPP_ERROR(
       get_logger(), "Deactivating controllers : [ %s] as their update resulted in an error!",
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
-- 
2.43.0


From 0bf639f32527fb30ac4a873c23bac2687c790682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 41/85] fix: failures in the control loop wait for a switch
 performed outside of it

---
 .../controller_manager/controller_manager.hpp |  2 --
 controller_manager/src/controller_manager.cpp | 23 +++++++------------
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 5fd9c37..5f2a260 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -690,8 +690,6 @@ private:
   std::mutex control_loop_mutex_;
   /// The activity changed, but could not be published yet
   std::atomic_bool activity_pending_{false};
-  // only used by the control loop
-  bool chain_check_pending_{false};
   RTControllerListWrapper rt_controllers_wrapper_;
   std::unordered_map<std::string, ControllerChainSpec> controller_chain_spec_;
   std::vector<std::string> ordered_controllers_names_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 401c410..2502fdf 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3462,6 +3462,8 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
 
   if (result != hardware_interface::return_type::OK)
   {
+    // a switch might be performed outside of the control loop
+    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.deactivate_controllers_list.clear();
     // Determine controllers to stop
     for (const auto & hardware_name : failed_hardware_names)
@@ -3725,6 +3727,8 @@ controller_interface::return_type ControllerManager::update(
   }
   if (!rt_buffer_.deactivate_controllers_list.empty())
   {
+    // a switch might be performed outside of the control loop
+    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.fallback_controllers_list.clear();
     rt_buffer_.activate_controllers_using_interfaces_list.clear();
 
@@ -3844,11 +3848,6 @@ controller_interface::return_type ControllerManager::update(
     // To publish the activity of the failing controllers and the fallback controllers
     publish_activity();
   }
-  if (chain_check_pending_)
-  {
-    handle_broken_controller_chains(rt_controller_list, false);
-    activity_pending_ = true;
-  }
   resource_manager_->enforce_command_limits(period);
 
   // there are controllers to (de)activate
@@ -3885,6 +3884,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
 
   if (result == hardware_interface::return_type::ERROR)
   {
+    // a switch might be performed outside of the control loop
+    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.deactivate_controllers_list.clear();
     // Determine controllers to stop
     for (const auto & hardware_name : failed_hardware_names)
@@ -3915,6 +3916,8 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   }
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
+    // a switch might be performed outside of the control loop
+    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.deactivate_controllers_list.clear();
     const auto & loaded_controllers = rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
@@ -4146,16 +4149,6 @@ void ControllerManager::restart_controllers(
 void ControllerManager::handle_broken_controller_chains(
   const std::vector<ControllerSpec> & rt_controller_list, bool restart_unchained)
 {
-  std::unique_lock<std::mutex> switch_guard(switch_params_.mutex, std::defer_lock);
-  if (!restart_unchained)
-  {
-    // a switch might be performed outside of the control loop, it checks the chains at its end
-    chain_check_pending_ = !switch_guard.try_lock();
-    if (chain_check_pending_)
-    {
-      return;
-    }
-  }
   const auto is_active = [&](const ControllerSpec & controller)
   { return is_controller_active(controller.c); };
 
-- 
2.43.0


From 0e05d73ffdfb2411feb5f36815664746c862eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 42/85] fix: the control loop does not wait for a switch
 performed outside of it

---
 .../controller_manager/controller_manager.hpp |  2 ++
 controller_manager/src/controller_manager.cpp | 23 ++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 5f2a260..5fd9c37 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -690,6 +690,8 @@ private:
   std::mutex control_loop_mutex_;
   /// The activity changed, but could not be published yet
   std::atomic_bool activity_pending_{false};
+  // only used by the control loop
+  bool chain_check_pending_{false};
   RTControllerListWrapper rt_controllers_wrapper_;
   std::unordered_map<std::string, ControllerChainSpec> controller_chain_spec_;
   std::vector<std::string> ordered_controllers_names_;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 2502fdf..401c410 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3462,8 +3462,6 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
 
   if (result != hardware_interface::return_type::OK)
   {
-    // a switch might be performed outside of the control loop
-    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.deactivate_controllers_list.clear();
     // Determine controllers to stop
     for (const auto & hardware_name : failed_hardware_names)
@@ -3727,8 +3725,6 @@ controller_interface::return_type ControllerManager::update(
   }
   if (!rt_buffer_.deactivate_controllers_list.empty())
   {
-    // a switch might be performed outside of the control loop
-    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.fallback_controllers_list.clear();
     rt_buffer_.activate_controllers_using_interfaces_list.clear();
 
@@ -3848,6 +3844,11 @@ controller_interface::return_type ControllerManager::update(
     // To publish the activity of the failing controllers and the fallback controllers
     publish_activity();
   }
+  if (chain_check_pending_)
+  {
+    handle_broken_controller_chains(rt_controller_list, false);
+    activity_pending_ = true;
+  }
   resource_manager_->enforce_command_limits(period);
 
   // there are controllers to (de)activate
@@ -3884,8 +3885,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
 
   if (result == hardware_interface::return_type::ERROR)
   {
-    // a switch might be performed outside of the control loop
-    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.deactivate_controllers_list.clear();
     // Determine controllers to stop
     for (const auto & hardware_name : failed_hardware_names)
@@ -3916,8 +3915,6 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
   }
   else if (result == hardware_interface::return_type::DEACTIVATE)
   {
-    // a switch might be performed outside of the control loop
-    const std::lock_guard<std::mutex> switch_guard(switch_params_.mutex);
     rt_buffer_.deactivate_controllers_list.clear();
     const auto & loaded_controllers = rt_controllers_wrapper_.update_and_get_used_by_rt_list();
     // Only stop controllers with active command interfaces to the failed_hardware_names
@@ -4149,6 +4146,16 @@ void ControllerManager::restart_controllers(
 void ControllerManager::handle_broken_controller_chains(
   const std::vector<ControllerSpec> & rt_controller_list, bool restart_unchained)
 {
+  std::unique_lock<std::mutex> switch_guard(switch_params_.mutex, std::defer_lock);
+  if (!restart_unchained)
+  {
+    // a switch might be performed outside of the control loop, it checks the chains at its end
+    chain_check_pending_ = !switch_guard.try_lock();
+    if (chain_check_pending_)
+    {
+      return;
+    }
+  }
   const auto is_active = [&](const ControllerSpec & controller)
   { return is_controller_active(controller.c); };
 
-- 
2.43.0


From 732740b2609157cae3fc4630f882debc88cf907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 43/85] fix: failures are handled after a switch that is
 performed outside of the control loop

---
 .../controller_manager/controller_manager.hpp | 17 ++++++
 controller_manager/src/controller_manager.cpp | 61 +++++++++++++++----
 2 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 5fd9c37..6caf381 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -420,6 +420,16 @@ private:
     const std::vector<ControllerSpec> & rt_controller_list,
     const std::vector<std::string> & controllers_to_restart);
 
+  /// Deactivate the controllers in the real-time buffer, as the hardware they use failed.
+  /**
+   * It is postponed if a switch is performed outside of the control loop.
+   *
+   * \param[in] rt_controller_list list of controllers in the real-time list.
+   * \param[in] rt_cycle_name name of the real-time cycle.
+   */
+  void deactivate_controllers_of_failed_hardware(
+    const std::vector<ControllerSpec> & rt_controller_list, const std::string & rt_cycle_name);
+
   /// Deactivate the controllers that use interfaces of controllers that are not active anymore, and
   /// take the controllers out of the chained mode that are not used by any active controller.
   /**
@@ -688,6 +698,8 @@ private:
   std::unique_ptr<rclcpp::PreShutdownCallbackHandle> preshutdown_cb_handle_{nullptr};
   /// Held by the control loop while it works, and while everything is being shut down
   std::mutex control_loop_mutex_;
+  /// Held while controllers are switched outside of the control loop
+  std::mutex non_realtime_switch_mutex_;
   /// The activity changed, but could not be published yet
   std::atomic_bool activity_pending_{false};
   // only used by the control loop
@@ -802,6 +814,8 @@ private:
       deactivate_controllers_list.reserve(1000);
       activate_controllers_using_interfaces_list.reserve(1000);
       fallback_controllers_list.reserve(1000);
+      postponed_controllers_list.reserve(1000);
+      postponed_failed_controllers_list.reserve(1000);
       interfaces_to_start.reserve(1000);
       interfaces_to_stop.reserve(1000);
       concatenated_string.reserve(5000);
@@ -825,6 +839,9 @@ private:
     std::vector<std::string> deactivate_controllers_list;
     std::vector<std::string> activate_controllers_using_interfaces_list;
     std::vector<std::string> fallback_controllers_list;
+    // controllers to deactivate as soon as the switch outside of the control loop is finished
+    std::vector<std::string> postponed_controllers_list;
+    std::vector<std::string> postponed_failed_controllers_list;
     std::vector<std::string> interfaces_to_start;
     std::vector<std::string> interfaces_to_stop;
     std::string concatenated_string;
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 401c410..e8e88a4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2562,6 +2562,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     }
     RCLCPP_INFO(get_logger(), "Requested controller switch from non-realtime loop");
     // This should work as the realtime thread operation is read-only operation
+    const std::lock_guard<std::mutex> non_realtime_guard(non_realtime_switch_mutex_);
     manage_switch();
   }
 
@@ -3481,10 +3482,7 @@ void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration &
       rt_buffer_.get_concatenated_string(rt_buffer_.deactivate_controllers_list).c_str());
     std::vector<ControllerSpec> & rt_controller_list =
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
-    perform_hardware_command_mode_change(
-      rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "read");
-    deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
-    handle_broken_controller_chains(rt_controller_list, false);
+    deactivate_controllers_of_failed_hardware(rt_controller_list, "read");
     activity_pending_ = true;
     // TODO(destogl): do auto-start of broadcasters
   }
@@ -3611,6 +3609,24 @@ controller_interface::return_type ControllerManager::update(
   }
 
   rt_buffer_.deactivate_controllers_list.clear();
+  if (!rt_buffer_.postponed_controllers_list.empty())
+  {
+    rt_buffer_.deactivate_controllers_list.swap(rt_buffer_.postponed_controllers_list);
+    deactivate_controllers_of_failed_hardware(rt_controller_list, "update");
+    rt_buffer_.deactivate_controllers_list.clear();
+    activity_pending_ = true;
+  }
+  for (const auto & controller : rt_controller_list)
+  {
+    if (
+      is_controller_active(controller.c) &&
+      ros2_control::has_item(
+        rt_buffer_.postponed_failed_controllers_list, controller.info.name))
+    {
+      rt_buffer_.deactivate_controllers_list.push_back(controller.info.name);
+    }
+  }
+  rt_buffer_.postponed_failed_controllers_list.clear();
   for (const auto & loaded_controller : rt_controller_list)
   {
     if (
@@ -3723,6 +3739,13 @@ controller_interface::return_type ControllerManager::update(
       }
     }
   }
+  std::unique_lock<std::mutex> failure_guard(non_realtime_switch_mutex_, std::try_to_lock);
+  if (!failure_guard.owns_lock())
+  {
+    // a switch is performed outside of the control loop
+    rt_buffer_.postponed_failed_controllers_list.swap(rt_buffer_.deactivate_controllers_list);
+    rt_buffer_.deactivate_controllers_list.clear();
+  }
   if (!rt_buffer_.deactivate_controllers_list.empty())
   {
     rt_buffer_.fallback_controllers_list.clear();
@@ -3849,6 +3872,10 @@ controller_interface::return_type ControllerManager::update(
     handle_broken_controller_chains(rt_controller_list, false);
     activity_pending_ = true;
   }
+  if (failure_guard.owns_lock())
+  {
+    failure_guard.unlock();
+  }
   resource_manager_->enforce_command_limits(period);
 
   // there are controllers to (de)activate
@@ -3906,10 +3933,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     std::vector<ControllerSpec> & rt_controller_list =
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
-    perform_hardware_command_mode_change(
-      rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
-    deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
-    handle_broken_controller_chains(rt_controller_list, false);
+    deactivate_controllers_of_failed_hardware(rt_controller_list, "write");
     activity_pending_ = true;
     // TODO(destogl): do auto-start of broadcasters
   }
@@ -3954,10 +3978,7 @@ void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration
     std::vector<ControllerSpec> & rt_controller_list =
       rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
-    perform_hardware_command_mode_change(
-      rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, "write");
-    deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
-    handle_broken_controller_chains(rt_controller_list, false);
+    deactivate_controllers_of_failed_hardware(rt_controller_list, "write");
     activity_pending_ = true;
   }
   if (activity_pending_)
@@ -4143,6 +4164,22 @@ void ControllerManager::restart_controllers(
     controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT);
 }
 
+void ControllerManager::deactivate_controllers_of_failed_hardware(
+  const std::vector<ControllerSpec> & rt_controller_list, const std::string & rt_cycle_name)
+{
+  std::unique_lock<std::mutex> guard(non_realtime_switch_mutex_, std::try_to_lock);
+  if (!guard.owns_lock())
+  {
+    ros2_control::add_items(
+      rt_buffer_.postponed_controllers_list, rt_buffer_.deactivate_controllers_list);
+    return;
+  }
+  perform_hardware_command_mode_change(
+    rt_controller_list, {}, rt_buffer_.deactivate_controllers_list, rt_cycle_name);
+  deactivate_controllers(rt_controller_list, rt_buffer_.deactivate_controllers_list);
+  handle_broken_controller_chains(rt_controller_list, false);
+}
+
 void ControllerManager::handle_broken_controller_chains(
   const std::vector<ControllerSpec> & rt_controller_list, bool restart_unchained)
 {
-- 
2.43.0


From 9983b5acc85e81d45809874bbc0dfac64128250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 44/85] fix: don't limit commands with unknown (NaN) joint
 states

A NaN position or velocity reached the limiters, every comparison with it failed and the
command passed unlimited.
---
 hardware_interface/src/resource_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index c7dced9..6fd64bb 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -910,6 +910,11 @@ public:
           auto itf_handle = interface_map.at(interface_name);
           std::shared_lock<std::shared_mutex> lock(itf_handle->get_mutex());
           value = itf_handle->get_optional(lock).value();
+          // a state that is not known (yet) cannot be used for limiting
+          if (!is_command_itf && std::isnan(value.value()))
+          {
+            value = std::nullopt;
+          }
         }
       }
     };
-- 
2.43.0


From ce0da2201075fb01b7cc64af4387e21205985427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 45/85] fix: a joint that cannot be limited must not end the
 control loop

The limiter throws for joints far outside of their position limits. In the control loop
this ended the process instead of leaving the joint's command untouched.
---
 hardware_interface/src/resource_manager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 6fd64bb..c11fcbf 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -2486,7 +2486,18 @@ bool ResourceManager::enforce_command_limits(const rclcpp::Duration & period)
   {
     for (const auto & [joint_name, limiter] : limiters)
     {
-      enforce_result |= resource_storage_->enforce_command_limits(joint_name, period);
+      try
+      {
+        enforce_result |= resource_storage_->enforce_command_limits(joint_name, period);
+      }
+      catch (const std::exception & e)
+      {
+        // e.g. a joint that is out of its position bounds, its commands were limited when they
+        // were set. The control loop of all the other joints has to go on.
+        RCLCPP_ERROR_THROTTLE(
+          get_logger(), *get_clock(), 1000, "Unable to enforce the command limits of joint '%s': %s",
+          joint_name.c_str(), e.what());
+      }
     }
   }
   return enforce_result;
-- 
2.43.0


From b299212f71ec7eb40b8ab2946ae0e6ddf0bc197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 46/85] fix: computed velocity limits never exceed the maximum
 velocity

The limits that lead back into the position range or to the previous command could be
larger than max_velocity.
---
 joint_limits/src/joint_limits_helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/joint_limits/src/joint_limits_helpers.cpp b/joint_limits/src/joint_limits_helpers.cpp
index 5f41cfa..5b5d7e9 100644
--- a/joint_limits/src/joint_limits_helpers.cpp
+++ b/joint_limits/src/joint_limits_helpers.cpp
@@ -193,6 +193,12 @@ VelocityLimits compute_velocity_limits(
     vel_limits.upper_limit = std::min(prev_command_vel.value() + delta_vel, vel_limits.upper_limit);
   }
   internal::check_and_swap_limits(vel_limits.lower_limit, vel_limits.upper_limit);
+  // Neither the way back into the position limits nor the previous command (or the measured
+  // velocity) may lead to commands beyond the maximum velocity
+  vel_limits.lower_limit =
+    std::clamp(vel_limits.lower_limit, -limits.max_velocity, limits.max_velocity);
+  vel_limits.upper_limit =
+    std::clamp(vel_limits.upper_limit, -limits.max_velocity, limits.max_velocity);
   return vel_limits;
 }
 
-- 
2.43.0


From 495e53b0c95701988112ab0201a9eacba7bb5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 47/85] fix: soft velocity limits stay ordered and inside of
 the hard limits

std::clamp was called with a lower bound above the upper one and the result exceeded the
hard limits when soft limits and reachable velocities did not overlap.
---
 joint_limits/src/joint_soft_limiter.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/joint_limits/src/joint_soft_limiter.cpp b/joint_limits/src/joint_soft_limiter.cpp
index 5fa3d92..58659e6 100644
--- a/joint_limits/src/joint_soft_limiter.cpp
+++ b/joint_limits/src/joint_soft_limiter.cpp
@@ -214,14 +214,19 @@ bool JointSoftLimiter::on_enforce(
       hard_limits.has_velocity_limits && hard_limits.has_acceleration_limits &&
       actual.has_velocity())
     {
-      soft_min_vel =
-        std::max(actual.velocity.value() - hard_limits.max_acceleration * dt_seconds, soft_min_vel);
-      soft_max_vel =
-        std::min(actual.velocity.value() + hard_limits.max_acceleration * dt_seconds, soft_max_vel);
+      const double min_reachable_vel =
+        actual.velocity.value() - hard_limits.max_acceleration * dt_seconds;
+      const double max_reachable_vel =
+        actual.velocity.value() + hard_limits.max_acceleration * dt_seconds;
+      soft_min_vel = std::clamp(soft_min_vel, min_reachable_vel, max_reachable_vel);
+      soft_max_vel = std::clamp(soft_max_vel, min_reachable_vel, max_reachable_vel);
     }
 
-    soft_min_vel = std::max(soft_min_vel, velocity_limits.lower_limit);
-    soft_max_vel = std::min(soft_max_vel, velocity_limits.upper_limit);
+    // The hard limits win if the ranges don't overlap
+    soft_min_vel =
+      std::clamp(soft_min_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
+    soft_max_vel =
+      std::clamp(soft_max_vel, velocity_limits.lower_limit, velocity_limits.upper_limit);
 
     limits_enforced =
       is_limited(desired.velocity.value(), soft_min_vel, soft_max_vel) || limits_enforced;
-- 
2.43.0


From bc6af3db91037ccfe07fc1c1bbc4d9094799da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 48/85] fix: keep the hardware settings after a robot
 description was refused

The resource manager was recreated with default settings, so that e.g.
allow_controller_activation_with_inactive_hardware was lost when a corrected description
arrived.
---
 controller_manager/src/controller_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index e8e88a4..de296f4 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -810,8 +810,8 @@ void ControllerManager::robot_description_callback(const std_msgs::msg::String &
     // don't finalize controller manager, instead keep waiting for robot description - fallback
     // state
     std::lock_guard<std::mutex> control_loop_guard(control_loop_mutex_);
-    resource_manager_ =
-      std::make_unique<hardware_interface::ResourceManager>(trigger_clock_, get_logger());
+    resource_manager_.reset();
+    init_resource_manager("");  // an empty one with all parameters
     return;
   }
   set_initial_hardware_components_state();
-- 
2.43.0


From a51b307e9c59e8cc31168965a8b96684124425c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 49/85] fix: hardware failures stop fallback controllers, not
 former users of the hardware

Controllers that were only activated as fallback controllers were never assigned to the
hardware they use. Controllers stayed assigned to hardware they used before they were
configured differently.
---
 controller_manager/src/controller_manager.cpp | 7 +++++++
 hardware_interface/src/resource_manager.cpp   | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index de296f4..376cb95 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3844,6 +3844,13 @@ controller_interface::return_type ControllerManager::update(
         {
           continue;
         }
+        // fallback controllers are stopped with their hardware like all other controllers
+        std::vector<std::string> used_interfaces =
+          get_command_interfaces_names(fallback_it->c, resource_manager_);
+        ros2_control::add_items(
+          used_interfaces, get_state_interfaces_names(fallback_it->c, resource_manager_));
+        resource_manager_->cache_controller_to_hardware(
+          fallback_it->info.name, used_interfaces);
         for (const auto & itf_name :
              get_command_interfaces_names(fallback_it->c, resource_manager_))
         {
diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index c11fcbf..4ca71f2 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1916,6 +1916,12 @@ void ResourceManager::cache_controller_to_hardware(
   const std::string & controller_name, const std::vector<std::string> & interfaces)
 {
   std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
+  // the controller could have used other interfaces before
+  for (auto & [hw_name, controllers] : resource_storage_->hardware_used_by_controllers_)
+  {
+    controllers.erase(
+      std::remove(controllers.begin(), controllers.end(), controller_name), controllers.end());
+  }
   for (const auto & interface : interfaces)
   {
     bool found = false;
-- 
2.43.0


From 0de02708a98e9bae4e9354ff1283a8ace9c061c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 50/85] fix: failures of asynchronous hardware are neither lost
 nor reported again after a restart

A failed asynchronous write could be overwritten by the next cycle of the thread before the
control loop saw it, the thread continued to write after failures, and results (and
exceptions) from before made a component fail again right after it was configured.
---
 hardware_interface/src/hardware_component.cpp |  2 ++
 .../src/hardware_component_interface.cpp      | 25 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/hardware_interface/src/hardware_component.cpp b/hardware_interface/src/hardware_component.cpp
index 1efdad8..332c628 100644
--- a/hardware_interface/src/hardware_component.cpp
+++ b/hardware_interface/src/hardware_component.cpp
@@ -85,6 +85,8 @@ const rclcpp_lifecycle::State & HardwareComponent::configure()
   if (impl_->get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
   {
     impl_->pause_async_operations();
+    // results from before do not count anymore
+    impl_->prepare_for_activation();
     switch (impl_->on_configure(impl_->get_lifecycle_state()))
     {
       case CallbackReturn::SUCCESS:
diff --git a/hardware_interface/src/hardware_component_interface.cpp b/hardware_interface/src/hardware_component_interface.cpp
index 26a845d..25f48d6 100644
--- a/hardware_interface/src/hardware_component_interface.cpp
+++ b/hardware_interface/src/hardware_component_interface.cpp
@@ -90,6 +90,15 @@ CallbackReturn HardwareComponentInterface::init(
     async_handler_->init(
       [this, is_sensor_type](const rclcpp::Time & time, const rclcpp::Duration & period)
       {
+        // failures have to be handled by the control loop first
+        const auto last_read = impl_->read_return_info_.load(std::memory_order_acquire);
+        const auto last_write = impl_->write_return_info_.load(std::memory_order_acquire);
+        const bool is_active = impl_->lifecycle_id_cache_.load(std::memory_order_acquire) ==
+                               lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE;
+        if (last_read != return_type::OK || (is_active && last_write != return_type::OK))
+        {
+          return last_read != return_type::OK ? last_read : last_write;
+        }
         const auto read_start_time = std::chrono::steady_clock::now();
         const auto ret_read = read(time, period);
         const auto read_end_time = std::chrono::steady_clock::now();
@@ -425,6 +434,12 @@ HardwareComponentCycleStatus HardwareComponentInterface::trigger_read(
     {
       status.execution_time = read_exec_time;
     }
+    if (status.result != return_type::OK)
+    {
+      // the failure has to be handled first
+      status.successful = false;
+      return status;
+    }
     const auto result = async_handler_->trigger_async_callback(time, period);
     status.successful = result.first;
     if (!status.successful)
@@ -463,6 +478,11 @@ HardwareComponentCycleStatus HardwareComponentInterface::trigger_write(
       status.execution_time = write_exec_time;
     }
     status.result = impl_->write_return_info_.load(std::memory_order_acquire);
+    if (status.result == return_type::DEACTIVATE)
+    {
+      // the component is only asked once to be deactivated
+      impl_->write_return_info_.store(return_type::OK, std::memory_order_release);
+    }
   }
   else
   {
@@ -569,6 +589,11 @@ void HardwareComponentInterface::stop_async_handler()
 
 void HardwareComponentInterface::prepare_for_activation()
 {
+  if (async_handler_)
+  {
+    // exceptions from before were handled already
+    async_handler_->reset_variables();
+  }
   impl_->read_return_info_.store(return_type::OK, std::memory_order_release);
   impl_->read_execution_time_.store(std::chrono::nanoseconds::zero(), std::memory_order_release);
   impl_->write_return_info_.store(return_type::OK, std::memory_order_release);
-- 
2.43.0


From a86f9ae1b9f8674ebb5c705a3105ea955c77a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 51/85] fix: interfaces of controllers that are not active are
 not stopped after failures

Former users of failed hardware and inactive members of a failed chain are in the list of the
controllers to stop, their hardware interfaces could be used by other active controllers.
---
 controller_manager/src/controller_manager.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 376cb95..6113ffc 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4130,9 +4130,20 @@ void ControllerManager::perform_hardware_command_mode_change(
 {
   rt_buffer_.interfaces_to_start.clear();
   rt_buffer_.interfaces_to_stop.clear();
+  // the interfaces of controllers that are not active could be used by other controllers
+  std::vector<std::string> active_controllers_list;
+  std::copy_if(
+    deactivate_controllers_list.begin(), deactivate_controllers_list.end(),
+    std::back_inserter(active_controllers_list),
+    [&](const std::string & name)
+    {
+      return std::any_of(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        [&](const ControllerSpec & controller)
+        { return controller.info.name == name && is_controller_active(controller.c); });
+    });
   get_controller_list_command_interfaces(
-    deactivate_controllers_list, rt_controller_list, resource_manager_,
-    rt_buffer_.interfaces_to_stop);
+    active_controllers_list, rt_controller_list, resource_manager_, rt_buffer_.interfaces_to_stop);
   get_controller_list_command_interfaces(
     activate_controllers_list, rt_controller_list, resource_manager_,
     rt_buffer_.interfaces_to_start);
-- 
2.43.0


From 7f3e81dc5d5d41f4224b0922f35c749e63cdadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 52/85] fix: prepare the hardware for all interfaces that a
 restarted controller will use

The interfaces of controllers that are not configured with individual interfaces could have
changed since the controller was activated.
---
 controller_manager/src/controller_manager.cpp | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 6113ffc..a983650 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -180,13 +180,14 @@ void controller_chain_spec_cleanup(
  */
 std::vector<std::string> get_command_interfaces_names(
   controller_interface::ControllerInterfaceBaseSharedPtr controller,
-  const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager)
+  const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager,
+  bool for_activation = false)
 {
   auto command_interface_config = controller->command_interface_configuration();
   std::vector<std::string> command_interface_names = {};
   if (
     command_interface_config.type != controller_interface::interface_configuration_type::INDIVIDUAL &&
-    is_controller_active(controller))
+    !for_activation && is_controller_active(controller))
   {
     // other interfaces could have become available since it was activated
     return controller->get_assigned_command_interfaces_names();
@@ -241,13 +242,14 @@ std::vector<std::string> get_command_interfaces_names(
  */
 std::vector<std::string> get_state_interfaces_names(
   controller_interface::ControllerInterfaceBaseSharedPtr controller,
-  const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager)
+  const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager,
+  bool for_activation = false)
 {
   auto state_interface_config = controller->state_interface_configuration();
   std::vector<std::string> state_interface_names = {};
   if (
     state_interface_config.type != controller_interface::interface_configuration_type::INDIVIDUAL &&
-    is_controller_active(controller))
+    !for_activation && is_controller_active(controller))
   {
     // other interfaces could have become available since it was activated
     return controller->get_assigned_state_interfaces_names();
@@ -333,14 +335,14 @@ void get_active_controllers_using_command_interfaces_of_controller(
 void extract_command_interfaces_for_controller(
   const controller_manager::ControllerSpec & ctrl,
   const std::unique_ptr<hardware_interface::ResourceManager> & resource_manager,
-  std::vector<std::string> & request_interface_list)
+  std::vector<std::string> & request_interface_list, bool for_activation = false)
 {
   if (!is_controller_active(ctrl.c) && !is_controller_inactive(ctrl.c))
   {
     return;
   }
   const std::vector<std::string> command_interface_names =
-    get_command_interfaces_names(ctrl.c, resource_manager);
+    get_command_interfaces_names(ctrl.c, resource_manager, for_activation);
   request_interface_list.insert(
     request_interface_list.end(), command_interface_names.begin(), command_interface_names.end());
 }
@@ -2412,7 +2414,7 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     if (in_activate_list)
     {
       extract_command_interfaces_for_controller(
-        controller, resource_manager_, switch_params_.activate_command_interface_request);
+        controller, resource_manager_, switch_params_.activate_command_interface_request, true);
     }
     if (in_deactivate_list)
     {
@@ -2428,10 +2430,10 @@ controller_interface::return_type ControllerManager::switch_controller_cb(
     if (in_activate_list)
     {
       std::vector<std::string> interface_names =
-        get_command_interfaces_names(controller.c, resource_manager_);
+        get_command_interfaces_names(controller.c, resource_manager_, true);
 
       std::vector<std::string> state_interfaces =
-        get_state_interfaces_names(controller.c, resource_manager_);
+        get_state_interfaces_names(controller.c, resource_manager_, true);
       interface_names.insert(
         interface_names.end(), state_interfaces.begin(), state_interfaces.end());
 
-- 
2.43.0


From 9f0442a9fc24ba34053f253208381d96a7ffed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 53/85] fix: failures of asynchronous controllers are not lost

---
 .../src/controller_interface_base.cpp          | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 43dc3c3..06b466a 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -31,6 +31,7 @@ struct ControllerInterfaceBase::ControllerInterfaceBaseImpl
   bool is_async_ = false;
   controller_interface::ControllerInterfaceParams ctrl_itf_params_;
   std::atomic_bool skip_async_triggers_ = false;
+  std::atomic_bool async_update_failed_ = false;
   ControllerUpdateStats trigger_stats_;
   mutable std::atomic<uint8_t> lifecycle_id_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN;
   // the interfaces can be assigned and released by the control loop at any time
@@ -145,6 +146,7 @@ return_type ControllerInterfaceBase::init(
       {
         // This is needed if it is disabled due to a thrown exception in the async callback thread
         impl_->async_handler_->reset_variables();
+        impl_->async_update_failed_.store(false, std::memory_order_release);
       }
       impl_->lifecycle_id_.store(this->get_lifecycle_state().id(), std::memory_order_release);
       return on_activate(previous_state);
@@ -281,8 +283,15 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       async_params.thread_priority);
     impl_->async_handler_ = std::make_unique<realtime_tools::AsyncFunctionHandler<return_type>>();
     impl_->async_handler_->init(
-      std::bind(
-        &ControllerInterfaceBase::update, this, std::placeholders::_1, std::placeholders::_2),
+      [this](const rclcpp::Time & time, const rclcpp::Duration & period)
+      {
+        const auto result = update(time, period);
+        if (result != return_type::OK)
+        {
+          impl_->async_update_failed_.store(true, std::memory_order_release);
+        }
+        return result;
+      },
       async_params);
     impl_->async_handler_->start_thread();
   }
@@ -387,7 +396,10 @@ ControllerUpdateStatus ControllerInterfaceBase::trigger_update(
         impl_->trigger_stats_.failed_triggers, impl_->trigger_stats_.total_triggers);
     }
     status.successful = result.first;
-    status.result = result.second;
+    // the result of a failed update might already be replaced by the one of a later update
+    status.result = impl_->async_update_failed_.exchange(false, std::memory_order_acq_rel)
+                      ? return_type::ERROR
+                      : result.second;
     const auto execution_time = impl_->async_handler_->get_last_execution_time();
     if (execution_time.count() > 0)
     {
-- 
2.43.0


From 1cef4586a61173b9163b360dc2a01c2e21265caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 54/85] fix: only the fallbacks of active controllers are
 activated after failures

---
 controller_manager/src/controller_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index a983650..4590f74 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3758,7 +3758,7 @@ controller_interface::return_type ControllerManager::update(
       auto ctrl_it = std::find_if(
         rt_controller_list.begin(), rt_controller_list.end(),
         std::bind(controller_name_compare, std::placeholders::_1, failed_ctrl));
-      if (ctrl_it != rt_controller_list.end())
+      if (ctrl_it != rt_controller_list.end() && is_controller_active(ctrl_it->c))
       {
         for (const auto & fallback_controller : ctrl_it->info.fallback_controllers_names)
         {
-- 
2.43.0


From a969ba85816d51356fa9045d47f637d4f3e5a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:26 +0000
Subject: [PATCH 55/85] fix: controllers using chained interfaces in best
 effort are part of the chain

---
 controller_manager/src/controller_manager.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4590f74..d9a6169 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -5402,8 +5402,23 @@ void ControllerManager::build_controllers_topology_info(
         controller.info.name.c_str());
       continue;
     }
-    const auto cmd_itfs = get_command_interfaces_names(controller.c, resource_manager_);
-    const auto state_itfs = get_state_interfaces_names(controller.c, resource_manager_);
+    auto cmd_itfs = get_command_interfaces_names(controller.c, resource_manager_);
+    auto state_itfs = get_state_interfaces_names(controller.c, resource_manager_);
+    // the interfaces of controllers become available later, with their activation
+    const auto cmd_config = controller.c->command_interface_configuration();
+    if (
+      cmd_config.type ==
+      controller_interface::interface_configuration_type::INDIVIDUAL_BEST_EFFORT)
+    {
+      ros2_control::add_items(cmd_itfs, cmd_config.names);
+    }
+    const auto state_config = controller.c->state_interface_configuration();
+    if (
+      state_config.type ==
+      controller_interface::interface_configuration_type::INDIVIDUAL_BEST_EFFORT)
+    {
+      ros2_control::add_items(state_itfs, state_config.names);
+    }
 
     for (const auto & cmd_itf : cmd_itfs)
     {
-- 
2.43.0


From 7d0ba5acd822bd6ffc3498c8f18f1540de574983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 56/85] fix: failures of a hardware group reach all of its
 components, deactivations none of them

---
 hardware_interface/src/resource_manager.cpp | 40 +++++++++++++--------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 4ca71f2..a902bc6 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -215,7 +215,7 @@ public:
         }
 
         hardware_info_map_.insert(std::make_pair(component_info.name, component_info));
-        hw_group_state_.insert(std::make_pair(component_info.group, return_type::OK));
+        hw_group_state_.insert(std::make_pair(component_info.name, return_type::OK));
         hardware_used_by_controllers_.insert(
           std::make_pair(component_info.name, std::vector<std::string>()));
         is_loaded = true;
@@ -390,7 +390,7 @@ public:
     }
     if (!hardware.get_group_name().empty())
     {
-      hw_group_state_[hardware.get_group_name()] = return_type::OK;
+      hw_group_state_[hardware.get_name()] = return_type::OK;
     }
     return result;
   }
@@ -495,7 +495,7 @@ public:
     }
     if (!hardware.get_group_name().empty())
     {
-      hw_group_state_[hardware.get_group_name()] = return_type::OK;
+      hw_group_state_[hardware.get_name()] = return_type::OK;
     }
     return result;
   }
@@ -534,7 +534,7 @@ public:
       // use remove_command_interfaces(hardware);
       if (!hardware.get_group_name().empty())
       {
-        hw_group_state_[hardware.get_group_name()] = return_type::OK;
+        hw_group_state_[hardware.get_name()] = return_type::OK;
       }
     }
     return result;
@@ -1401,24 +1401,33 @@ public:
   }
 
   /**
-   * Returns the return type of the hardware component group state, if the return type is other
-   * than OK, then updates the return type of the group to the respective one
+   * Returns the return type of the hardware component or the error of another component of its
+   * group that it was not informed about yet. If the component failed, then the error is propagated
+   * to all the other components of the group
    */
   return_type update_hardware_component_group_state(
-    const std::string & group_name, const return_type & value)
+    const std::string & component_name, const std::string & group_name, const return_type & value)
   {
     // This is for the components that has no configured group
     if (group_name.empty())
     {
       return value;
     }
-    // If it is anything other than OK, change the return type of the hardware group state
-    // to the respective return type
-    if (value != return_type::OK)
+    // The components of the group are informed one by one, until then the error has to be kept
+    if (value == return_type::ERROR)
     {
-      hw_group_state_.at(group_name) = value;
+      for (const auto & [name, info] : hardware_info_map_)
+      {
+        if (info.group == group_name)
+        {
+          hw_group_state_.at(name) = value;
+        }
+      }
     }
-    return hw_group_state_.at(group_name);
+    auto & group_state = hw_group_state_.at(component_name);
+    const return_type result = group_state != return_type::OK ? group_state : value;
+    group_state = return_type::OK;
+    return result;
   }
 
   /// Gets the logger for the resource storage
@@ -2588,10 +2597,12 @@ HardwareReadWriteStatus ResourceManager::read(
         ret_val = return_type::ERROR;
       }
       const auto component_group = component.get_group_name();
-      ret_val = resource_storage_->update_hardware_component_group_state(component_group, ret_val);
       RCLCPP_WARN_EXPRESSION(
         get_logger(), ret_val == hardware_interface::return_type::DEACTIVATE,
         "DEACTIVATE returned from read cycle is treated the same as ERROR.");
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component_name, component_group,
+        ret_val == return_type::OK ? return_type::OK : return_type::ERROR);
       if (ret_val != return_type::OK)
       {
         component.error();
@@ -2689,7 +2700,8 @@ HardwareReadWriteStatus ResourceManager::write(
         ret_val = return_type::ERROR;
       }
       const auto component_group = component.get_group_name();
-      ret_val = resource_storage_->update_hardware_component_group_state(component_group, ret_val);
+      ret_val = resource_storage_->update_hardware_component_group_state(
+        component_name, component_group, ret_val);
       if (ret_val == return_type::ERROR)
       {
         component.error();
-- 
2.43.0


From 2d5a577d5cd7550b9c810be6a1675dad02a88a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 57/85] fix: a changed update rate of a controller is limited
 by the rate of the controller manager only

---
 controller_interface/src/controller_interface_base.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 06b466a..10d7ad8 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -217,7 +217,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
       RCLCPP_ERROR(get_node()->get_logger(), "Update rate cannot be a negative value!");
       return get_lifecycle_state();
     }
-    if (params.update_rate != 0u && update_rate > params.update_rate)
+    if (
+      params.controller_manager_update_rate != 0u &&
+      update_rate > params.controller_manager_update_rate)
     {
       RCLCPP_WARN(
         get_node()->get_logger(), "%s",
@@ -225,8 +227,9 @@ const rclcpp_lifecycle::State & ControllerInterfaceBase::configure()
           "The update rate of the controller : '{} Hz' cannot be higher than the update rate of "
           "the controller manager : '{} Hz'. Setting it to the update rate of the controller "
           "manager.",
-          update_rate, params.update_rate)
+          update_rate, params.controller_manager_update_rate)
           .c_str());
+      params.update_rate = params.controller_manager_update_rate;
     }
     else
     {
-- 
2.43.0


From 34d0da325063ac2fa3bab42dcab3814b3847f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 58/85] fix: components are shut down after errors of their
 deactivation, and without deadlock while they are loaded

---
 hardware_interface/src/resource_manager.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index a902bc6..1c6c2e5 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1582,13 +1582,24 @@ ResourceManager::ResourceManager(
 
 bool ResourceManager::shutdown_components()
 {
+  // in the order in which they are locked everywhere else
+  std::lock_guard<std::recursive_mutex> resources_guard(resources_lock_);
+  std::lock_guard<std::recursive_mutex> limiters_guard(joint_limiters_lock_);
   std::unique_lock<std::recursive_mutex> guard(resource_interfaces_lock_);
   bool shutdown_status = true;
   for (auto const & hw_info : resource_storage_->hardware_info_map_)
   {
     rclcpp_lifecycle::State finalized_state(
       lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED, lifecycle_state_names::FINALIZED);
-    if (set_component_state(hw_info.first, finalized_state) != return_type::OK)
+    return_type result = set_component_state(hw_info.first, finalized_state);
+    if (
+      result != return_type::OK &&
+      hw_info.second.state.id() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED)
+    {
+      // the error of its deactivation was handled
+      result = set_component_state(hw_info.first, finalized_state);
+    }
+    if (result != return_type::OK)
     {
       shutdown_status = false;
     }
-- 
2.43.0


From 60b213f5b6e7a5d68882267ab5fddc4b67c91479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 59/85] fix: shutting down waits for the request being served
 and nothing is started afterwards

---
 .../controller_manager/controller_manager.hpp |  6 +-
 controller_manager/src/controller_manager.cpp | 63 ++++++++++++++-----
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.hpp b/controller_manager/include/controller_manager/controller_manager.hpp
index 6caf381..68e4114 100644
--- a/controller_manager/include/controller_manager/controller_manager.hpp
+++ b/controller_manager/include/controller_manager/controller_manager.hpp
@@ -697,7 +697,7 @@ private:
   rclcpp::Clock::SharedPtr trigger_clock_ = nullptr;
   std::unique_ptr<rclcpp::PreShutdownCallbackHandle> preshutdown_cb_handle_{nullptr};
   /// Held by the control loop while it works, and while everything is being shut down
-  std::mutex control_loop_mutex_;
+  std::recursive_mutex control_loop_mutex_;
   /// Held while controllers are switched outside of the control loop
   std::mutex non_realtime_switch_mutex_;
   /// The activity changed, but could not be published yet
@@ -709,7 +709,9 @@ private:
   std::vector<std::string> ordered_controllers_names_;
   /// mutex copied from ROS1 Control, protects service callbacks
   /// not needed if we're guaranteed that the callbacks don't come from multiple threads
-  std::mutex services_lock_;
+  std::recursive_mutex services_lock_;
+  /// Set (with services_lock_ held) when everything was shut down: nothing can be started any more
+  std::atomic_bool shut_down_ = false;
   rclcpp::Publisher<controller_manager_msgs::msg::ControllerManagerActivity>::SharedPtr
     controller_manager_activity_publisher_;
   rclcpp::Service<controller_manager_msgs::srv::ListControllers>::SharedPtr
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d9a6169..57c74c9 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -713,8 +713,11 @@ void ControllerManager::init_controller_manager()
           executor_->remove_node(this->get_node_base_interface());
         }
         executor_->cancel();
+        // requests that are being served are finished first (a switch needs the control loop)
+        std::lock_guard<std::recursive_mutex> services_guard(services_lock_);
+        shut_down_ = true;
         // the control loop must not use what is being shut down
-        std::lock_guard<std::mutex> control_loop_guard(control_loop_mutex_);
+        std::lock_guard<std::recursive_mutex> control_loop_guard(control_loop_mutex_);
         if (!this->shutdown_controllers())
         {
           RCLCPP_ERROR(get_logger(), "Failed shutting down the controllers.");
@@ -795,6 +798,12 @@ void ControllerManager::robot_description_callback(const std_msgs::msg::String &
   RCLCPP_INFO(get_logger(), "Received robot description from topic.");
   RCLCPP_DEBUG(
     get_logger(), "'Content of robot description file: %s", robot_description.data.c_str());
+  std::lock_guard<std::recursive_mutex> services_guard(services_lock_);
+  if (shut_down_)
+  {
+    RCLCPP_WARN(get_logger(), "The controller manager was shut down. Ignoring robot description.");
+    return;
+  }
   robot_description_ = robot_description.data;
   if (is_resource_manager_initialized())
   {
@@ -811,7 +820,7 @@ void ControllerManager::robot_description_callback(const std_msgs::msg::String &
     // The RM failed to init AFTER we received the description - a critical error.
     // don't finalize controller manager, instead keep waiting for robot description - fallback
     // state
-    std::lock_guard<std::mutex> control_loop_guard(control_loop_mutex_);
+    std::lock_guard<std::recursive_mutex> control_loop_guard(control_loop_mutex_);
     resource_manager_.reset();
     init_resource_manager("");  // an empty one with all parameters
     return;
@@ -901,6 +910,11 @@ void ControllerManager::init_resource_manager(const std::string & robot_descript
 
 void ControllerManager::set_initial_hardware_components_state()
 {
+  std::lock_guard<std::recursive_mutex> services_guard(services_lock_);
+  if (shut_down_)
+  {
+    return;
+  }
   // Get all components and if they are not defined in parameters activate them automatically
   auto components_to_activate = resource_manager_->get_components_status();
 
@@ -1265,6 +1279,15 @@ controller_interface::ControllerInterfaceBaseSharedPtr ControllerManager::load_c
 {
   RCLCPP_INFO(get_logger(), "Loading controller '%s'", controller_name.c_str());
 
+  if (shut_down_)
+  {
+    RCLCPP_ERROR(
+      get_logger(),
+      "Could not load controller with name '%s' because the controller manager was shut down",
+      controller_name.c_str());
+    return nullptr;
+  }
+
   if (
     !loader_->isClassAvailable(controller_type) &&
     !chainable_loader_->isClassAvailable(controller_type))
@@ -1444,6 +1467,14 @@ controller_interface::return_type ControllerManager::unload_controller(
   RCLCPP_INFO(get_logger(), "Unloading controller: '%s'", controller_name.c_str());
   std::lock_guard<RTControllerListWrapper::controllers_lock_type> guard(
     rt_controllers_wrapper_.controllers_lock_);
+  if (shut_down_)
+  {
+    RCLCPP_ERROR(
+      get_logger(),
+      "Could not unload controller with name '%s' because the controller manager was shut down",
+      controller_name.c_str());
+    return controller_interface::return_type::ERROR;
+  }
   std::vector<ControllerSpec> & to = rt_controllers_wrapper_.get_unused_list(guard);
   const std::vector<ControllerSpec> & from = rt_controllers_wrapper_.get_updated_list(guard);
 
@@ -3010,7 +3041,7 @@ void ControllerManager::list_controllers_srv_cb(
 {
   // lock services
   RCLCPP_DEBUG(get_logger(), "list controller service called");
-  std::lock_guard<std::mutex> services_guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> services_guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "list controller service locked");
 
   // lock controllers
@@ -3122,7 +3153,7 @@ void ControllerManager::list_controller_types_srv_cb(
 {
   // lock services
   RCLCPP_DEBUG(get_logger(), "list types service called");
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "list types service locked");
 
   auto cur_types = loader_->getDeclaredClasses();
@@ -3149,7 +3180,7 @@ void ControllerManager::load_controller_service_cb(
 {
   // lock services
   RCLCPP_DEBUG(get_logger(), "loading service called for controller '%s' ", request->name.c_str());
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "loading service locked");
 
   response->ok = load_controller(request->name).get() != nullptr;
@@ -3165,7 +3196,7 @@ void ControllerManager::configure_controller_service_cb(
   // lock services
   RCLCPP_DEBUG(
     get_logger(), "configuring service called for controller '%s' ", request->name.c_str());
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "configuring service locked");
 
   response->ok = configure_controller(request->name) == controller_interface::return_type::OK;
@@ -3180,7 +3211,7 @@ void ControllerManager::reload_controller_libraries_service_cb(
 {
   // lock services
   RCLCPP_DEBUG(get_logger(), "reload libraries service called");
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "reload libraries service locked");
 
   // only reload libraries if no controllers are active
@@ -3265,7 +3296,7 @@ void ControllerManager::switch_controller_service_cb(
 {
   // lock services
   RCLCPP_DEBUG(get_logger(), "switching service called");
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "switching service locked");
 
   response->ok = switch_controller_cb(
@@ -3283,7 +3314,7 @@ void ControllerManager::unload_controller_service_cb(
   // lock services
   RCLCPP_DEBUG(
     get_logger(), "unloading service called for controller '%s' ", request->name.c_str());
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "unloading service locked");
 
   response->ok = unload_controller(request->name) == controller_interface::return_type::OK;
@@ -3298,7 +3329,7 @@ void ControllerManager::cleanup_controller_service_cb(
 {
   // lock services
   RCLCPP_DEBUG(get_logger(), "cleanup service called for controller '%s' ", request->name.c_str());
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "cleanup service locked");
 
   response->ok = cleanup_controller(request->name) == controller_interface::return_type::OK;
@@ -3312,7 +3343,7 @@ void ControllerManager::list_hardware_components_srv_cb(
   std::shared_ptr<controller_manager_msgs::srv::ListHardwareComponents::Response> response)
 {
   RCLCPP_DEBUG(get_logger(), "list hardware components service called");
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "list hardware components service locked");
 
   auto hw_components_info = resource_manager_->get_components_status();
@@ -3377,7 +3408,7 @@ void ControllerManager::list_hardware_interfaces_srv_cb(
   std::shared_ptr<controller_manager_msgs::srv::ListHardwareInterfaces::Response> response)
 {
   RCLCPP_DEBUG(get_logger(), "list hardware interfaces service called");
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "list hardware interfaces service locked");
 
   auto state_interface_names = resource_manager_->state_interface_keys();
@@ -3409,7 +3440,7 @@ void ControllerManager::set_hardware_component_state_srv_cb(
   std::shared_ptr<controller_manager_msgs::srv::SetHardwareComponentState::Response> response)
 {
   RCLCPP_DEBUG(get_logger(), "set hardware component state service called");
-  std::lock_guard<std::mutex> guard(services_lock_);
+  std::lock_guard<std::recursive_mutex> guard(services_lock_);
   RCLCPP_DEBUG(get_logger(), "set hardware component state service locked");
 
   RCLCPP_DEBUG(get_logger(), "set hardware component state '%s'", request->name.c_str());
@@ -3454,7 +3485,7 @@ std::vector<std::string> ControllerManager::get_controller_names()
 
 void ControllerManager::read(const rclcpp::Time & time, const rclcpp::Duration & period)
 {
-  std::unique_lock<std::mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
+  std::unique_lock<std::recursive_mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
   if (!control_loop_guard.owns_lock())
   {
     return;
@@ -3583,7 +3614,7 @@ controller_interface::return_type ControllerManager::update(
     rt_controllers_wrapper_.update_and_get_used_by_rt_list();
 
   auto ret = controller_interface::return_type::OK;
-  std::unique_lock<std::mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
+  std::unique_lock<std::recursive_mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
   if (!control_loop_guard.owns_lock())
   {
     return ret;
@@ -3911,7 +3942,7 @@ controller_interface::return_type ControllerManager::update(
 
 void ControllerManager::write(const rclcpp::Time & time, const rclcpp::Duration & period)
 {
-  std::unique_lock<std::mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
+  std::unique_lock<std::recursive_mutex> control_loop_guard(control_loop_mutex_, std::try_to_lock);
   if (!control_loop_guard.owns_lock())
   {
     return;
-- 
2.43.0


From 86665f67eb6b34bdea6e8674ed3448ea4334181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:14 +0000
Subject: [PATCH 60/85] fix: a failing controller is deactivated although its
 configuration was incomplete

---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 57c74c9..8efffb1 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3763,6 +3763,9 @@ controller_interface::return_type ControllerManager::update(
             get_logger(), controller_chain.size() > 1,
             "Controller '%s' is part of a chain of %lu controllers that will be deactivated.",
             loaded_controller.info.name.c_str(), controller_chain.size());
+          // a controller whose configuration failed is not assigned to a chain
+          ros2_control::add_item(
+            rt_buffer_.deactivate_controllers_list, loaded_controller.info.name);
           for (const auto & chained_controller : controller_chain)
           {
             ros2_control::add_item(rt_buffer_.deactivate_controllers_list, chained_controller);
-- 
2.43.0


From bece71cc2d2fa91c77d2ccbea65c3b7747334083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 61/85] fix: a fallback controller is not activated while its
 configuration is being changed

---
 .../controller_manager/controller_spec.hpp    |  5 ++++
 controller_manager/src/controller_manager.cpp | 30 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/controller_manager/include/controller_manager/controller_spec.hpp b/controller_manager/include/controller_manager/controller_spec.hpp
index cc3db44..fb50741 100644
--- a/controller_manager/include/controller_manager/controller_spec.hpp
+++ b/controller_manager/include/controller_manager/controller_spec.hpp
@@ -20,6 +20,7 @@
 #define CONTROLLER_MANAGER__CONTROLLER_SPEC_HPP_
 
 #include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 #include "controller_interface/controller_interface_base.hpp"
@@ -43,6 +44,7 @@ struct ControllerSpec
     last_update_cycle_time = std::make_shared<rclcpp::Time>(0, 0, RCL_CLOCK_UNINITIALIZED);
     execution_time_statistics = std::make_shared<MovingAverageStatistics>();
     periodicity_statistics = std::make_shared<MovingAverageStatistics>();
+    transition_mutex = std::make_shared<std::recursive_mutex>();
   }
 
   hardware_interface::ControllerInfo info;
@@ -51,6 +53,9 @@ struct ControllerSpec
   std::vector<std::string> controllers_chain_group = {};
   std::shared_ptr<MovingAverageStatistics> execution_time_statistics;
   std::shared_ptr<MovingAverageStatistics> periodicity_statistics;
+  // Held while the controller is configured, cleaned up or unloaded, and while the control loop
+  // stops it or activates it as a fallback controller
+  std::shared_ptr<std::recursive_mutex> transition_mutex;
 };
 
 struct ControllerChainSpec
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 8efffb1..0bbbd26 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1496,6 +1496,8 @@ controller_interface::return_type ControllerManager::unload_controller(
   }
 
   auto & controller = *found_it;
+  const auto transition_mutex = controller.transition_mutex;
+  std::lock_guard<std::recursive_mutex> transition_guard(*transition_mutex);
 
   if (
     is_controller_active(*controller.c) ||
@@ -1602,6 +1604,7 @@ controller_interface::return_type ControllerManager::cleanup_controller(
     return controller_interface::return_type::ERROR;
   }
   auto controller = found_it->c;
+  std::lock_guard<std::recursive_mutex> transition_guard(*found_it->transition_mutex);
 
   if (is_controller_unconfigured(*controller))
   {
@@ -1690,6 +1693,7 @@ controller_interface::return_type ControllerManager::configure_controller(
     return controller_interface::return_type::ERROR;
   }
   auto controller = found_it->c;
+  std::lock_guard<std::recursive_mutex> transition_guard(*found_it->transition_mutex);
 
   const auto & state = controller->get_lifecycle_state();
   if (
@@ -2735,6 +2739,7 @@ void ControllerManager::deactivate_controllers(
     auto controller = found_it->c;
     if (is_controller_active(*controller))
     {
+      std::lock_guard<std::recursive_mutex> transition_guard(*found_it->transition_mutex);
       try
       {
         // an asynchronous update must not run while the controller is deactivated
@@ -3814,6 +3819,31 @@ controller_interface::return_type ControllerManager::update(
       }
     }
 
+    // a controller whose configuration is changed at the moment can not be activated
+    std::vector<std::unique_lock<std::recursive_mutex>> fallback_guards;
+    for (const std::string & fallback_controller : rt_buffer_.fallback_controllers_list)
+    {
+      const auto fallback_it = std::find_if(
+        rt_controller_list.begin(), rt_controller_list.end(),
+        std::bind(controller_name_compare, std::placeholders::_1, fallback_controller));
+      if (fallback_it == rt_controller_list.end())
+      {
+        continue;
+      }
+      fallback_guards.emplace_back(*fallback_it->transition_mutex, std::try_to_lock);
+      if (!fallback_guards.back().owns_lock())
+      {
+        RCLCPP_ERROR(
+          get_logger(),
+          "The fallback controllers can not be activated, as the configuration of controller '%s' "
+          "is being changed.",
+          fallback_controller.c_str());
+        rt_buffer_.fallback_controllers_list.clear();
+        rt_buffer_.activate_controllers_using_interfaces_list.clear();
+        break;
+      }
+    }
+
     const size_t number_of_fallback_controllers = rt_buffer_.fallback_controllers_list.size();
     for (size_t i = 0; i < number_of_fallback_controllers; ++i)
     {
-- 
2.43.0


From 1c06df1ab5fe917808954e397cd3930ff90208d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 62/85] fix: a controller using only state interfaces does not
 keep another one in chained mode

---
 controller_manager/src/controller_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 0bbbd26..3aa4c4d 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4576,7 +4576,8 @@ controller_interface::return_type ControllerManager::check_following_controllers
         }
       }
     }
-    else
+    // a controller using only state interfaces does not keep the following controller in chained mode
+    else if (ros2_control::has_item(controller_cmd_interfaces, ctrl_itf_name))
     {
       // Check if following controller is in 'from' chained mode list and remove it, if so
       auto found_it = std::find(
-- 
2.43.0


From 6635ffe0c773d751c08a5e8d99cb7678182ceaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:42 +0000
Subject: [PATCH 63/85] fix: a controller that stays configured after an
 incomplete configuration is considered in the chains

---
 controller_manager/src/controller_manager.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 3aa4c4d..b6e7ef3 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1772,6 +1772,15 @@ controller_interface::return_type ControllerManager::configure_controller(
       cm_update_rate);
   }
 
+  const auto abort_configuration = [&]()
+  {
+    if (cleanup_controller(*found_it) != controller_interface::return_type::OK)
+    {
+      // it stays configured and can be activated, with the interfaces of other controllers
+      build_controllers_topology_info(controllers);
+    }
+  };
+
   // CHAINABLE CONTROLLERS: get reference interfaces from chainable controllers
   if (controller->is_chainable())
   {
@@ -1793,7 +1802,7 @@ controller_interface::return_type ControllerManager::configure_controller(
           "Did you override the on_export_state_interfaces_list() or "
           "on_export_reference_interfaces_list() methods correctly?",
           controller_name.c_str());
-        cleanup_controller(*found_it);
+        abort_configuration();
         return controller_interface::return_type::ERROR;
       }
     }
@@ -1803,7 +1812,7 @@ controller_interface::return_type ControllerManager::configure_controller(
         get_logger(), "Export of the state or reference interfaces failed with following error: %s",
         e.what());
       params_->handle_exceptions ? void() : throw;
-      cleanup_controller(*found_it);
+      abort_configuration();
       return controller_interface::return_type::ERROR;
     }
     resource_manager_->import_controller_reference_interfaces(controller_name, ref_interfaces);
@@ -1830,7 +1839,7 @@ controller_interface::return_type ControllerManager::configure_controller(
       "The command interfaces of the controller '%s' are not unique. Please make sure that the "
       "command interfaces are unique : '%s'.",
       controller_name.c_str(), cmd_itfs_str.c_str());
-    cleanup_controller(*found_it);
+    abort_configuration();
     return controller_interface::return_type::ERROR;
   }
 
@@ -1844,7 +1853,7 @@ controller_interface::return_type ControllerManager::configure_controller(
       "The state interfaces of the controller '%s' are not unique. Please make sure that the state "
       "interfaces are unique : '%s'.",
       controller_name.c_str(), state_itfs_str.c_str());
-    cleanup_controller(*found_it);
+    abort_configuration();
     return controller_interface::return_type::ERROR;
   }
 
-- 
2.43.0


From 9848b88245cc674d9e3acb38d32c9dc0f37b1c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:20 +0000
Subject: [PATCH 64/85] fix: a moved handle that stores its value itself refers
 to its own value

---
 .../include/hardware_interface/handle.hpp           | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/handle.hpp b/hardware_interface/include/hardware_interface/handle.hpp
index aef84b1..fe29fe1 100644
--- a/hardware_interface/include/hardware_interface/handle.hpp
+++ b/hardware_interface/include/hardware_interface/handle.hpp
@@ -278,7 +278,10 @@ public:
 
   Handle & operator=(Handle && other)
   {
-    swap(*this, other);
+    if (this != &other)
+    {
+      swap(*this, other);
+    }
     return *this;
   }
 
@@ -616,6 +619,14 @@ private:
     std::swap(first.value_, second.value_);
     std::swap(first.data_type_, second.data_type_);
     std::swap(first.value_ptr_, second.value_ptr_);
+    // a handle that stores its value itself must not point into the other one
+    for (Handle * handle : {&first, &second})
+    {
+      if (!std::holds_alternative<std::monostate>(handle->value_))
+      {
+        handle->value_ptr_ = std::get_if<double>(&handle->value_);
+      }
+    }
   }
 
 protected:
-- 
2.43.0


From 835109471c984936d012c5c112bec1a0a18e47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:20 +0000
Subject: [PATCH 65/85] fix: writing a loaned interface with zero tries ends

---
 .../include/hardware_interface/loaned_command_interface.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
index 3decdb6..5ecc5e4 100644
--- a/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
+++ b/hardware_interface/include/hardware_interface/loaned_command_interface.hpp
@@ -106,7 +106,7 @@ public:
     {
       ++set_value_statistics_.failed_counter;
       ++nr_tries;
-      if (nr_tries == max_tries)
+      if (nr_tries >= max_tries)
       {
         ++set_value_statistics_.timeout_counter;
         return false;
-- 
2.43.0


From e84806d6509c607534a476aeba19a052140347cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:12 +0000
Subject: [PATCH 66/85] fix: references of a controller activated in the same
 switch are only claimed in chained mode

---
 controller_manager/src/controller_manager.cpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index b6e7ef3..0a74277 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -2883,8 +2883,24 @@ void ControllerManager::activate_controllers(
       rclcpp::Time(0, 0, this->get_trigger_clock()->get_clock_type());
 
     bool assignment_successful = true;
-    const auto command_interface_names =
-      get_command_interfaces_names(controller, resource_manager_);
+    auto command_interface_names = get_command_interfaces_names(controller, resource_manager_);
+    if (
+      controller->command_interface_configuration().type !=
+      controller_interface::interface_configuration_type::INDIVIDUAL)
+    {
+      // references that became available within this switch, but whose controller is not chained
+      command_interface_names.erase(
+        std::remove_if(
+          command_interface_names.begin(), command_interface_names.end(),
+          [&](const std::string & interface_name)
+          {
+            ControllersListIterator owner_it;
+            return is_interface_a_chained_interface(
+                     interface_name, rt_controller_list, owner_it) &&
+                   !owner_it->c->is_in_chained_mode();
+          }),
+        command_interface_names.end());
+    }
     ros2_control::add_items(requested_command_interfaces, command_interface_names);
     std::vector<hardware_interface::LoanedCommandInterface> command_loans;
     command_loans.reserve(command_interface_names.size());
-- 
2.43.0


From 0afcefbfbfe17a03711a4af61c4fc56c44cf6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:00 +0000
Subject: [PATCH 67/85] fix: mock system distinguishes joints whose names
 contain each other

---
 hardware_interface/src/mock_components/generic_system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 034c9bd..911b7bc 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -203,7 +203,7 @@ return_type GenericSystem::prepare_command_mode_switch(
     // check if interface is joint
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [key](const auto & joint) { return key.rfind(joint.name + "/", 0) == 0; });
 
     if (joint_it_found != info.joints.end())
     {
@@ -276,7 +276,7 @@ return_type GenericSystem::perform_command_mode_switch(
     const auto & info = get_hardware_info();
     auto joint_it_found = std::find_if(
       info.joints.begin(), info.joints.end(),
-      [key](const auto & joint) { return (key.find(joint.name) != std::string::npos); });
+      [key](const auto & joint) { return key.rfind(joint.name + "/", 0) == 0; });
 
     if (joint_it_found != info.joints.end())
     {
-- 
2.43.0


From d1595ea58387363ed1f99a6e95931b16a3d2c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:00 +0000
Subject: [PATCH 68/85] fix: mock system reads with a mimicked joint that lacks
 a state interface

---
 .../src/mock_components/generic_system.cpp           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 911b7bc..2db03be 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -535,7 +535,9 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
   {
     const auto & mimic_joint_name = joints.at(mimic_joint.joint_index).name;
     const auto & mimicked_joint_name = joints.at(mimic_joint.mimicked_joint_index).name;
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_POSITION,
@@ -543,14 +545,18 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
           mimic_joint.multiplier *
             get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_POSITION));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_VELOCITY,
         mimic_joint.multiplier *
           get_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_VELOCITY));
     }
-    if (has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
+    if (
+      has_state(mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION) &&
+      has_state(mimicked_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION))
     {
       set_state(
         mimic_joint_name + "/" + hardware_interface::HW_IF_ACCELERATION,
-- 
2.43.0


From 48e704302075bdfbe1b8fc47944466424b4547a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:01 +0000
Subject: [PATCH 69/85] fix: mock system reads with an offset interface of a
 joint without position command

---
 hardware_interface/src/mock_components/generic_system.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 2db03be..d2a8c6e 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -516,7 +516,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
         return return_type::ERROR;
       }
     }
-    if (custom_interface_with_following_offset_ == joint_state.get()->get_interface_name())
+    if (
+      custom_interface_with_following_offset_ == joint_state.get()->get_interface_name() &&
+      has_command(
+        joint_state.get()->get_prefix_name() + "/" + hardware_interface::HW_IF_POSITION))
     {
       const auto cmd =
         get_command(
-- 
2.43.0


From 86aeea7f7d40fc7b2c20787863575ffe0f50effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 70/85] fix: mock system does not drift by the following offset
 while integrating without velocity

---
 .../src/mock_components/generic_system.cpp           | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index d2a8c6e..3472261 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -413,12 +413,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
             std::isnan(joint_state_values_[ACCELERATION_INTERFACE_INDEX])
               ? 0.0
               : joint_state_values_[ACCELERATION_INTERFACE_INDEX] * period.seconds();
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case VELOCITY_INTERFACE_INDEX:
@@ -435,12 +433,10 @@ return_type GenericSystem::read(const rclcpp::Time & /*time*/, const rclcpp::Dur
               (joint_state_values_[VELOCITY_INTERFACE_INDEX] - old_velocity) / period.seconds();
           }
           // currently we do backward Euler integration
-          joint_state_values_[POSITION_INTERFACE_INDEX] +=  // apply offset to positions only
+          joint_state_values_[POSITION_INTERFACE_INDEX] +=
             std::isfinite(joint_state_values_[VELOCITY_INTERFACE_INDEX])
               ? joint_state_values_[VELOCITY_INTERFACE_INDEX] * period.seconds()
-              : 0.0 + (custom_interface_with_following_offset_.empty()
-                         ? position_state_following_offset_
-                         : 0.0);
+              : 0.0;
           break;
         }
         case POSITION_INTERFACE_INDEX:
-- 
2.43.0


From 1b031a6ff7741cc888c4a470912f277e10ce29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:31 +0000
Subject: [PATCH 71/85] fix: mock system starts in position mode after every
 configuration

---
 hardware_interface/src/mock_components/generic_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 3472261..221d50a 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -324,7 +324,7 @@ hardware_interface::CallbackReturn GenericSystem::on_configure(
   }
   // Set position control mode per default
   // This will be populated by perform_command_mode_switch
-  joint_control_mode_.resize(get_hardware_info().joints.size(), POSITION_INTERFACE_INDEX);
+  joint_control_mode_.assign(get_hardware_info().joints.size(), POSITION_INTERFACE_INDEX);
   return hardware_interface::CallbackReturn::SUCCESS;
 }
 
-- 
2.43.0


From 7f6b4f18df11014cb2d117224b23b7e796eb5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:31 +0000
Subject: [PATCH 72/85] fix: mock system applies the following offset only once
 to positions that are kept

---
 hardware_interface/include/mock_components/generic_system.hpp | 1 +
 hardware_interface/src/mock_components/generic_system.cpp     | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hardware_interface/include/mock_components/generic_system.hpp b/hardware_interface/include/mock_components/generic_system.hpp
index 25c3219..c36180a 100644
--- a/hardware_interface/include/mock_components/generic_system.hpp
+++ b/hardware_interface/include/mock_components/generic_system.hpp
@@ -84,6 +84,7 @@ private:
   bool use_mock_sensor_command_interfaces_;
 
   double position_state_following_offset_;
+  bool following_offset_applied_ = false;
   std::string custom_interface_with_following_offset_;
 
   bool calculate_dynamics_;
diff --git a/hardware_interface/src/mock_components/generic_system.cpp b/hardware_interface/src/mock_components/generic_system.cpp
index 221d50a..ed0e6a5 100644
--- a/hardware_interface/src/mock_components/generic_system.cpp
+++ b/hardware_interface/src/mock_components/generic_system.cpp
@@ -313,8 +313,9 @@ hardware_interface::CallbackReturn GenericSystem::on_configure(
       {
         set_state(name, 0.0);
       }
-      // set offset anyways
+      // set offset anyways (once: the state is kept when the component is configured again)
       if (
+        !following_offset_applied_ &&
         joint_state.second.get_interface_name() == hardware_interface::HW_IF_POSITION &&
         custom_interface_with_following_offset_.empty())
       {
@@ -322,6 +323,7 @@ hardware_interface::CallbackReturn GenericSystem::on_configure(
       }
     }
   }
+  following_offset_applied_ = true;
   // Set position control mode per default
   // This will be populated by perform_command_mode_switch
   joint_control_mode_.assign(get_hardware_info().joints.size(), POSITION_INTERFACE_INDEX);
-- 
2.43.0


From 639b631994034ce9163d3b6b81f10c2080411bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 73/85] fix: spawner interrupted before its node exists ends
 without unloading

---
 controller_manager/controller_manager/spawner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 28c11c6..60d94e2 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -588,7 +588,7 @@ def main(args=None):
             signal.signal(signal.SIGTERM, signal.SIG_IGN)
         except (KeyboardInterrupt, Exception):
             pass
-        if unload_on_kill:
+        if unload_on_kill and node:
             logger.info("KeyboardInterrupt successfully captured!")
 
             # Determine which controllers to deactivate
-- 
2.43.0


From a3380f76a7210583bc547459f59b4887c7238ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 74/85] fix: spawner fails when the parameter file of a
 controller cannot be set

---
 .../controller_manager/controller_manager_services.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 4e64ffa..6031daf 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -486,13 +486,14 @@ def set_controller_parameters_from_param_files(
         node, controller_name, spawner_namespace, parameter_files
     )
     if controller_parameter_files:
-        set_controller_parameters(
+        if not set_controller_parameters(
             node,
             controller_manager_name,
             controller_name,
             "params_file",
             controller_parameter_files,
-        )
+        ):
+            return False
 
         controller_type = get_parameter_from_param_files(
             node, controller_name, spawner_namespace, controller_parameter_files, "type"
-- 
2.43.0


From 0de05232c440407322b840a08e2de35917044f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 75/85] fix: spawner does not wait forever for a vanished
 controller manager when it is terminated

---
 .../controller_manager/controller_manager_services.py      | 4 +++-
 controller_manager/controller_manager/spawner.py           | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index 6031daf..de241e3 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -293,6 +293,7 @@ def switch_controllers(
     activate_asap,
     timeout,
     call_timeout=10.0,
+    service_timeout=0.0,
 ):
     request = SwitchController.Request()
     request.activate_controllers = activate_controllers
@@ -305,7 +306,8 @@ def switch_controllers(
         f"{controller_manager_name}/switch_controller",
         SwitchController,
         request,
-        call_timeout=call_timeout,
+        service_timeout,
+        call_timeout,
     )
 
 
diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 60d94e2..c630869 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -529,6 +529,7 @@ def main(args=None):
                             switch_asap,
                             switch_timeout,
                             service_call_timeout,
+                            controller_manager_timeout,
                         )
                         if not ret.ok:
                             logger.error(
@@ -554,6 +555,7 @@ def main(args=None):
                 switch_asap,
                 switch_timeout,
                 service_call_timeout,
+                controller_manager_timeout,
             )
             if not ret.ok:
                 logger.error(
@@ -591,6 +593,10 @@ def main(args=None):
         if unload_on_kill and node:
             logger.info("KeyboardInterrupt successfully captured!")
 
+            # There is nobody left to interrupt waiting forever for a vanished controller manager
+            if not controller_manager_timeout:
+                controller_manager_timeout = service_call_timeout
+
             # Determine which controllers to deactivate
             controllers_to_deactivate = [c["name"] for c in controllers if not c["inactive"]]
 
@@ -605,6 +611,7 @@ def main(args=None):
                     switch_asap,
                     switch_timeout,
                     service_call_timeout,
+                    controller_manager_timeout,
                 )
                 if not ret.ok:
                     logger.error(bcolors.FAIL + "Failed to deactivate controller" + bcolors.ENDC)
-- 
2.43.0


From 4e01aee301ed48ca892378e3b301ca2b5f70b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 76/85] fix: spawner interrupted while spawning unloads what it
 has loaded so far

---
 .../controller_manager/spawner.py             | 58 +++++++++++++------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index c630869..206fd75 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -600,27 +600,51 @@ def main(args=None):
             # Determine which controllers to deactivate
             controllers_to_deactivate = [c["name"] for c in controllers if not c["inactive"]]
 
+            # The interrupt may have arrived before all of them were loaded and activated, and
+            # somebody else may have stopped or unloaded them
             if controllers_to_deactivate:
+                states = {
+                    c.name: c.state
+                    for c in list_controllers(
+                        node,
+                        controller_manager_name,
+                        controller_manager_timeout,
+                        service_call_timeout,
+                    ).controller
+                }
+                controllers_to_unload = [n for n in controllers_to_deactivate if n in states]
+                controllers_to_deactivate = [
+                    n for n in controllers_to_unload if states[n] == "active"
+                ]
+            else:
+                controllers_to_unload = []
+
+            if controllers_to_unload:
                 logger.info("Deactivating and unloading controllers...")
-                ret = switch_controllers(
-                    node,
-                    controller_manager_name,
-                    controllers_to_deactivate,
-                    [],
-                    strictness,
-                    switch_asap,
-                    switch_timeout,
-                    service_call_timeout,
-                    controller_manager_timeout,
-                )
-                if not ret.ok:
-                    logger.error(bcolors.FAIL + "Failed to deactivate controller" + bcolors.ENDC)
-                    return 1
+                if controllers_to_deactivate:
+                    ret = switch_controllers(
+                        node,
+                        controller_manager_name,
+                        controllers_to_deactivate,
+                        [],
+                        strictness,
+                        switch_asap,
+                        switch_timeout,
+                        service_call_timeout,
+                        controller_manager_timeout,
+                    )
+                    if not ret.ok:
+                        logger.error(
+                            bcolors.FAIL + "Failed to deactivate controller" + bcolors.ENDC
+                        )
+                        return 1
 
-                logger.info(f"Successfully deactivated controllers : {controllers_to_deactivate}")
+                    logger.info(
+                        f"Successfully deactivated controllers : {controllers_to_deactivate}"
+                    )
 
                 unload_status = True
-                for controller_name in controllers_to_deactivate:
+                for controller_name in controllers_to_unload:
                     ret = unload_controller(
                         node,
                         controller_manager_name,
@@ -637,7 +661,7 @@ def main(args=None):
                         )
 
                 if unload_status:
-                    logger.info(f"Successfully unloaded controllers : {controllers_to_deactivate}")
+                    logger.info(f"Successfully unloaded controllers : {controllers_to_unload}")
                 else:
                     return 1
             else:
-- 
2.43.0


From 2c767d5491f57b025f373eb32b7022ff7b24b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:03 +0000
Subject: [PATCH 77/85] fix: spawner applies its timeouts to setting the
 parameters of a controller

---
 .../controller_manager_services.py            | 30 +++++++++++++++++--
 .../controller_manager/spawner.py             |  4 +++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/controller_manager/controller_manager/controller_manager_services.py b/controller_manager/controller_manager/controller_manager_services.py
index de241e3..e39cb4c 100644
--- a/controller_manager/controller_manager/controller_manager_services.py
+++ b/controller_manager/controller_manager/controller_manager_services.py
@@ -434,7 +434,13 @@ def get_parameter_from_param_files(
 
 
 def set_controller_parameters(
-    node, controller_manager_name, controller_name, parameter_name, parameter_value
+    node,
+    controller_manager_name,
+    controller_name,
+    parameter_name,
+    parameter_value,
+    service_timeout=0.0,
+    call_timeout=10.0,
 ):
     parameter = Parameter()
     parameter.name = controller_name + "." + parameter_name
@@ -449,6 +455,8 @@ def set_controller_parameters(
         f"{controller_manager_name}/set_parameters",
         SetParameters,
         request,
+        service_timeout,
+        call_timeout,
     )
     assert len(response.results) == 1
     result = response.results[0]
@@ -481,7 +489,13 @@ def set_controller_parameters(
 
 
 def set_controller_parameters_from_param_files(
-    node, controller_manager_name: str, controller_name: str, parameter_files: list, namespace=None
+    node,
+    controller_manager_name: str,
+    controller_name: str,
+    parameter_files: list,
+    namespace=None,
+    service_timeout=0.0,
+    call_timeout=10.0,
 ):
     spawner_namespace = namespace if namespace else node.get_namespace()
     controller_parameter_files = get_params_files_with_controller_parameters(
@@ -494,6 +508,8 @@ def set_controller_parameters_from_param_files(
             controller_name,
             "params_file",
             controller_parameter_files,
+            service_timeout,
+            call_timeout,
         ):
             return False
 
@@ -501,7 +517,13 @@ def set_controller_parameters_from_param_files(
             node, controller_name, spawner_namespace, controller_parameter_files, "type"
         )
         if controller_type and not set_controller_parameters(
-            node, controller_manager_name, controller_name, "type", controller_type
+            node,
+            controller_manager_name,
+            controller_name,
+            "type",
+            controller_type,
+            service_timeout,
+            call_timeout,
         ):
             return False
 
@@ -519,6 +541,8 @@ def set_controller_parameters_from_param_files(
                 controller_name,
                 "fallback_controllers",
                 fallback_controllers,
+                service_timeout,
+                call_timeout,
             ):
                 return False
     return True
diff --git a/controller_manager/controller_manager/spawner.py b/controller_manager/controller_manager/spawner.py
index 206fd75..a6bae5c 100644
--- a/controller_manager/controller_manager/spawner.py
+++ b/controller_manager/controller_manager/spawner.py
@@ -472,6 +472,8 @@ def main(args=None):
                             for args in controller["controller_ros_args"]
                             for arg in args.split()
                         ],
+                        controller_manager_timeout,
+                        service_call_timeout,
                     ):
                         return 1
                 if controller["param_files"]:
@@ -481,6 +483,8 @@ def main(args=None):
                         controller_name,
                         controller["param_files"],
                         spawner_namespace,
+                        controller_manager_timeout,
+                        service_call_timeout,
                     ):
                         return 1
 
-- 
2.43.0


From abd35f9b9125ed1c921322e9218d8ea2fcd6b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:11 +0000
Subject: [PATCH 78/85] fix: the transition mutex of a controller belongs to
 the controller

---
 .../controller_interface/controller_interface_base.hpp |  7 +++++++
 controller_interface/src/controller_interface_base.cpp |  7 +++++++
 .../include/controller_manager/controller_spec.hpp     |  5 -----
 controller_manager/src/controller_manager.cpp          | 10 +++++-----
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/controller_interface/include/controller_interface/controller_interface_base.hpp b/controller_interface/include/controller_interface/controller_interface_base.hpp
index 8d71d5d..7c2e235 100644
--- a/controller_interface/include/controller_interface/controller_interface_base.hpp
+++ b/controller_interface/include/controller_interface/controller_interface_base.hpp
@@ -16,6 +16,7 @@
 #define CONTROLLER_INTERFACE__CONTROLLER_INTERFACE_BASE_HPP_
 
 #include <memory>
+#include <mutex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -397,6 +398,12 @@ public:
    */
   void enable_introspection(bool enable);
 
+  /**
+   * @brief Mutex held by the controller manager while the controller is configured, cleaned up or
+   * unloaded, and while the control loop stops it or activates it as a fallback controller.
+   */
+  std::shared_ptr<std::recursive_mutex> get_transition_mutex() const;
+
 protected:
   /**
    * @brief Loaned command interfaces.
diff --git a/controller_interface/src/controller_interface_base.cpp b/controller_interface/src/controller_interface_base.cpp
index 10d7ad8..d875d63 100644
--- a/controller_interface/src/controller_interface_base.cpp
+++ b/controller_interface/src/controller_interface_base.cpp
@@ -38,6 +38,8 @@ struct ControllerInterfaceBase::ControllerInterfaceBaseImpl
   mutable std::mutex assigned_interfaces_mutex_;
   std::vector<std::string> assigned_command_interfaces_names_;
   std::vector<std::string> assigned_state_interfaces_names_;
+  const std::shared_ptr<std::recursive_mutex> transition_mutex_ =
+    std::make_shared<std::recursive_mutex>();
 };
 
 ControllerInterfaceBase::ControllerInterfaceBase()
@@ -508,4 +510,9 @@ void ControllerInterfaceBase::enable_introspection(bool enable)
   }
 }
 
+std::shared_ptr<std::recursive_mutex> ControllerInterfaceBase::get_transition_mutex() const
+{
+  return impl_->transition_mutex_;
+}
+
 }  // namespace controller_interface
diff --git a/controller_manager/include/controller_manager/controller_spec.hpp b/controller_manager/include/controller_manager/controller_spec.hpp
index fb50741..cc3db44 100644
--- a/controller_manager/include/controller_manager/controller_spec.hpp
+++ b/controller_manager/include/controller_manager/controller_spec.hpp
@@ -20,7 +20,6 @@
 #define CONTROLLER_MANAGER__CONTROLLER_SPEC_HPP_
 
 #include <memory>
-#include <mutex>
 #include <string>
 #include <vector>
 #include "controller_interface/controller_interface_base.hpp"
@@ -44,7 +43,6 @@ struct ControllerSpec
     last_update_cycle_time = std::make_shared<rclcpp::Time>(0, 0, RCL_CLOCK_UNINITIALIZED);
     execution_time_statistics = std::make_shared<MovingAverageStatistics>();
     periodicity_statistics = std::make_shared<MovingAverageStatistics>();
-    transition_mutex = std::make_shared<std::recursive_mutex>();
   }
 
   hardware_interface::ControllerInfo info;
@@ -53,9 +51,6 @@ struct ControllerSpec
   std::vector<std::string> controllers_chain_group = {};
   std::shared_ptr<MovingAverageStatistics> execution_time_statistics;
   std::shared_ptr<MovingAverageStatistics> periodicity_statistics;
-  // Held while the controller is configured, cleaned up or unloaded, and while the control loop
-  // stops it or activates it as a fallback controller
-  std::shared_ptr<std::recursive_mutex> transition_mutex;
 };
 
 struct ControllerChainSpec
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 0a74277..74f7302 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1496,7 +1496,7 @@ controller_interface::return_type ControllerManager::unload_controller(
   }
 
   auto & controller = *found_it;
-  const auto transition_mutex = controller.transition_mutex;
+  const auto transition_mutex = controller.c->get_transition_mutex();
   std::lock_guard<std::recursive_mutex> transition_guard(*transition_mutex);
 
   if (
@@ -1604,7 +1604,7 @@ controller_interface::return_type ControllerManager::cleanup_controller(
     return controller_interface::return_type::ERROR;
   }
   auto controller = found_it->c;
-  std::lock_guard<std::recursive_mutex> transition_guard(*found_it->transition_mutex);
+  std::lock_guard<std::recursive_mutex> transition_guard(*found_it->c->get_transition_mutex());
 
   if (is_controller_unconfigured(*controller))
   {
@@ -1693,7 +1693,7 @@ controller_interface::return_type ControllerManager::configure_controller(
     return controller_interface::return_type::ERROR;
   }
   auto controller = found_it->c;
-  std::lock_guard<std::recursive_mutex> transition_guard(*found_it->transition_mutex);
+  std::lock_guard<std::recursive_mutex> transition_guard(*found_it->c->get_transition_mutex());
 
   const auto & state = controller->get_lifecycle_state();
   if (
@@ -2748,7 +2748,7 @@ void ControllerManager::deactivate_controllers(
     auto controller = found_it->c;
     if (is_controller_active(*controller))
     {
-      std::lock_guard<std::recursive_mutex> transition_guard(*found_it->transition_mutex);
+      std::lock_guard<std::recursive_mutex> transition_guard(*found_it->c->get_transition_mutex());
       try
       {
         // an asynchronous update must not run while the controller is deactivated
@@ -3855,7 +3855,7 @@ controller_interface::return_type ControllerManager::update(
       {
         continue;
       }
-      fallback_guards.emplace_back(*fallback_it->transition_mutex, std::try_to_lock);
+      fallback_guards.emplace_back(*fallback_it->c->get_transition_mutex(), std::try_to_lock);
       if (!fallback_guards.back().owns_lock())
       {
         RCLCPP_ERROR(
-- 
2.43.0


From 702c7a55c79b60d3d442b4d0ee3b8706a0a87c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:12 +0000
Subject: [PATCH 79/85] fix: list only the references of the chained controller
 in its chain connection

---
 controller_manager/src/controller_manager.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 74f7302..950d14f 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -3079,8 +3079,8 @@ void ControllerManager::list_controllers_srv_cb(
     rt_controllers_wrapper_.controllers_lock_);
   const std::vector<ControllerSpec> & controllers = rt_controllers_wrapper_.get_updated_list(guard);
   // create helper containers to create chained controller connections
-  std::unordered_map<std::string, std::vector<std::string>> controller_chain_interface_map;
-  std::unordered_map<std::string, std::set<std::string>> controller_chain_map;
+  std::unordered_map<std::string, std::map<std::string, std::vector<std::string>>>
+    controller_chain_map;
   std::vector<size_t> chained_controller_indices;
   for (size_t i = 0; i < controllers.size(); ++i)
   {
@@ -3122,8 +3122,7 @@ void ControllerManager::list_controllers_srv_cb(
         auto interface_type = prefix_interface_type_pair.second;
         if (controller_chain_map.find(prefix) != controller_chain_map.end())
         {
-          controller_chain_map[controller_state.name].insert(prefix);
-          controller_chain_interface_map[controller_state.name].push_back(interface_type);
+          controller_chain_map[controller_state.name][prefix].push_back(interface_type);
         }
       }
       // check reference interfaces only if controller is inactive or active
@@ -3153,8 +3152,7 @@ void ControllerManager::list_controllers_srv_cb(
     response->controller.push_back(controller_state);
     // keep track of controllers that are part of a chain
     if (
-      !controller_chain_interface_map[controller_state.name].empty() ||
-      controllers[i].c->is_chainable())
+      !controller_chain_map[controller_state.name].empty() || controllers[i].c->is_chainable())
     {
       chained_controller_indices.push_back(i);
     }
@@ -3164,12 +3162,11 @@ void ControllerManager::list_controllers_srv_cb(
   for (const auto & index : chained_controller_indices)
   {
     auto & controller_state = response->controller[index];
-    auto chained_set = controller_chain_map[controller_state.name];
-    for (const auto & chained_name : chained_set)
+    for (const auto & [chained_name, interfaces] : controller_chain_map[controller_state.name])
     {
       controller_manager_msgs::msg::ChainConnection connection;
       connection.name = chained_name;
-      connection.reference_interfaces = controller_chain_interface_map[controller_state.name];
+      connection.reference_interfaces = interfaces;
       controller_state.chain_connections.push_back(connection);
     }
   }
-- 
2.43.0


From 849fb3f56c2740d16b22da7453cda40f56d7c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:49 +0000
Subject: [PATCH 80/85] fix: guard the lists of the interfaces exported by
 controllers

---
 hardware_interface/src/resource_manager.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/src/resource_manager.cpp b/hardware_interface/src/resource_manager.cpp
index 1c6c2e5..fec32bd 100644
--- a/hardware_interface/src/resource_manager.cpp
+++ b/hardware_interface/src/resource_manager.cpp
@@ -1782,6 +1782,7 @@ void ResourceManager::import_controller_exported_state_interfaces(
 std::vector<std::string> ResourceManager::get_controller_exported_state_interface_names(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   const auto it = resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name);
   return it != resource_storage_->controllers_exported_state_interfaces_map_.end()
            ? it->second
@@ -1792,6 +1793,7 @@ std::vector<std::string> ResourceManager::get_controller_exported_state_interfac
 void ResourceManager::make_controller_exported_state_interfaces_available(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   // a controller that is not configured has not exported any interfaces
   const auto exported_it =
     resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name);
@@ -1800,7 +1802,6 @@ void ResourceManager::make_controller_exported_state_interfaces_available(
     return;
   }
   auto interface_names = exported_it->second;
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   ros2_control::add_items(resource_storage_->available_state_interfaces_, interface_names);
 }
 
@@ -1808,6 +1809,7 @@ void ResourceManager::make_controller_exported_state_interfaces_available(
 void ResourceManager::make_controller_exported_state_interfaces_unavailable(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   // a controller that is not configured has not exported any interfaces
   const auto exported_it =
     resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name);
@@ -1817,7 +1819,6 @@ void ResourceManager::make_controller_exported_state_interfaces_unavailable(
   }
   auto interface_names = exported_it->second;
 
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interface_names)
   {
     auto found_it = std::find(
@@ -1836,6 +1837,7 @@ void ResourceManager::make_controller_exported_state_interfaces_unavailable(
 void ResourceManager::remove_controller_exported_state_interfaces(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   if (
     resource_storage_->controllers_exported_state_interfaces_map_.find(controller_name) ==
     resource_storage_->controllers_exported_state_interfaces_map_.end())
@@ -1845,8 +1847,6 @@ void ResourceManager::remove_controller_exported_state_interfaces(
   auto interface_names =
     resource_storage_->controllers_exported_state_interfaces_map_.at(controller_name);
   resource_storage_->controllers_exported_state_interfaces_map_.erase(controller_name);
-
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   resource_storage_->remove_state_interfaces(interface_names);
 }
 
@@ -1864,6 +1864,7 @@ void ResourceManager::import_controller_reference_interfaces(
 std::vector<std::string> ResourceManager::get_controller_reference_interface_names(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   const auto it = resource_storage_->controllers_reference_interfaces_map_.find(controller_name);
   return it != resource_storage_->controllers_reference_interfaces_map_.end()
            ? it->second
@@ -1874,6 +1875,7 @@ std::vector<std::string> ResourceManager::get_controller_reference_interface_nam
 void ResourceManager::make_controller_reference_interfaces_available(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   // a controller that is not configured has not exported any interfaces
   const auto exported_it =
     resource_storage_->controllers_reference_interfaces_map_.find(controller_name);
@@ -1882,7 +1884,6 @@ void ResourceManager::make_controller_reference_interfaces_available(
     return;
   }
   auto interface_names = exported_it->second;
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   ros2_control::add_items(resource_storage_->available_command_interfaces_, interface_names);
 }
 
@@ -1890,6 +1891,7 @@ void ResourceManager::make_controller_reference_interfaces_available(
 void ResourceManager::make_controller_reference_interfaces_unavailable(
   const std::string & controller_name)
 {
+  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   // a controller that is not configured has not exported any interfaces
   const auto exported_it =
     resource_storage_->controllers_reference_interfaces_map_.find(controller_name);
@@ -1899,7 +1901,6 @@ void ResourceManager::make_controller_reference_interfaces_unavailable(
   }
   auto interface_names = exported_it->second;
 
-  std::lock_guard<std::recursive_mutex> guard(resource_interfaces_lock_);
   for (const auto & interface : interface_names)
   {
     auto found_it = std::find(
@@ -1917,6 +1918,7 @@ void ResourceManager::make_controller_reference_interfaces_unavailable(
 // CM API: Called in "callback/slow"-thread
 void ResourceManager::remove_controller_reference_interfaces(const std::string & controller_name)
 {
+  std::scoped_lock guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
   if (
     resource_storage_->controllers_reference_interfaces_map_.find(controller_name) ==
     resource_storage_->controllers_reference_interfaces_map_.end())
@@ -1926,8 +1928,6 @@ void ResourceManager::remove_controller_reference_interfaces(const std::string &
   auto interface_names =
     resource_storage_->controllers_reference_interfaces_map_.at(controller_name);
   resource_storage_->controllers_reference_interfaces_map_.erase(controller_name);
-
-  std::scoped_lock guard(resource_interfaces_lock_, claimed_command_interfaces_lock_);
   resource_storage_->remove_command_interfaces(interface_names);
 }
 
-- 
2.43.0


From a5d232d91146695f10724ce954e5cdf1b66dc19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:57 +0000
Subject: [PATCH 81/85] fix: hardware spawner reports components that did not
 reach the requested state

---
 .../controller_manager/hardware_spawner.py    | 41 +++++++++++++++----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/controller_manager/controller_manager/hardware_spawner.py b/controller_manager/controller_manager/hardware_spawner.py
index 07df80a..7b02625 100644
--- a/controller_manager/controller_manager/hardware_spawner.py
+++ b/controller_manager/controller_manager/hardware_spawner.py
@@ -61,13 +61,16 @@ def is_hardware_component_loaded(
 
 
 def handle_set_component_state_service_call(
-    node, controller_manager_name, component, target_state, action
+    node, controller_manager_name, component, target_state, action, service_timeout=0.0
 ):
-    response = set_hardware_component_state(node, controller_manager_name, component, target_state)
+    response = set_hardware_component_state(
+        node, controller_manager_name, component, target_state, service_timeout
+    )
     if response.ok and response.state == target_state:
         node.get_logger().info(
             f"{bcolors.OKGREEN}{action} component '{component}'. Hardware now in state: {response.state}.{bcolors.ENDC}"
         )
+        return True
     elif response.ok and not response.state == target_state:
         node.get_logger().warning(
             f"{bcolors.WARNING}Could not {action} component '{component}'. Service call returned ok=True, but state: {response.state} is not equal to target state '{target_state}'.{bcolors.ENDC}"
@@ -76,27 +79,38 @@ def handle_set_component_state_service_call(
         node.get_logger().warning(
             f"{bcolors.WARNING}Could not {action} component '{component}'. Service call failed. Wrong component name?{bcolors.ENDC}"
         )
+    return False
 
 
-def activate_component(node, controller_manager_name, component_to_activate):
+def activate_component(
+    node, controller_manager_name, component_to_activate, service_timeout=0.0
+):
     active_state = State()
     active_state.id = State.PRIMARY_STATE_ACTIVE
     active_state.label = "active"
-    handle_set_component_state_service_call(
-        node, controller_manager_name, component_to_activate, active_state, "activated"
+    return handle_set_component_state_service_call(
+        node,
+        controller_manager_name,
+        component_to_activate,
+        active_state,
+        "activated",
+        service_timeout,
     )
 
 
-def configure_component(node, controller_manager_name, component_to_configure):
+def configure_component(
+    node, controller_manager_name, component_to_configure, service_timeout=0.0
+):
     inactive_state = State()
     inactive_state.id = State.PRIMARY_STATE_INACTIVE
     inactive_state.label = "inactive"
-    handle_set_component_state_service_call(
+    return handle_set_component_state_service_call(
         node,
         controller_manager_name,
         component_to_configure,
         inactive_state,
         "configured",
+        service_timeout,
     )
 
 
@@ -154,6 +168,7 @@ def main(args=None):
         else:
             controller_manager_name = f"/{controller_manager_name}"
 
+    ret = 0
     try:
         for hardware_component in hardware_components:
             if not is_hardware_component_loaded(
@@ -165,10 +180,17 @@ def main(args=None):
                 node.get_logger().warning(
                     f"{bcolors.WARNING}Hardware Component is not loaded - state can not be changed.{bcolors.ENDC}"
                 )
+                ret = 1
             elif activate:
-                activate_component(node, controller_manager_name, hardware_component)
+                if not activate_component(
+                    node, controller_manager_name, hardware_component, controller_manager_timeout
+                ):
+                    ret = 1
             elif configure:
-                configure_component(node, controller_manager_name, hardware_component)
+                if not configure_component(
+                    node, controller_manager_name, hardware_component, controller_manager_timeout
+                ):
+                    ret = 1
             else:
                 node.get_logger().error(
                     f'{bcolors.FAIL}You need to either specify if the hardware component should be activated with the "--activate" flag or configured with the "--configure" flag{bcolors.ENDC}'
@@ -182,6 +204,7 @@ def main(args=None):
         return 1
     finally:
         rclpy.shutdown()
+    return ret
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 6bb874b66f41165102b24348efd74f6489258f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:57 +0000
Subject: [PATCH 82/85] fix: switch_controllers verb accepts a switch timeout

---
 ros2controlcli/ros2controlcli/verb/switch_controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros2controlcli/ros2controlcli/verb/switch_controllers.py b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
index 0e90925..98c80df 100644
--- a/ros2controlcli/ros2controlcli/verb/switch_controllers.py
+++ b/ros2controlcli/ros2controlcli/verb/switch_controllers.py
@@ -57,6 +57,7 @@ class SwitchControllersVerb(VerbExtension):
             "--switch-timeout",
             default=5.0,
             required=False,
+            type=float,
             help="Timeout for switching controllers",
         )
         arg.completer = LoadedControllerNameCompleter(["inactive"])
-- 
2.43.0


From 63d6e8fc2678d0baceaa79bfe1cdf02731dec054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:03 +0000
Subject: [PATCH 83/85] fix: update the chains of the remaining controllers
 when a controller is unloaded

The chain groups were calculated only when a controller was configured, so controllers that had been connected only through an unloaded controller were still deactivated together.
---
 controller_manager/src/controller_manager.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 950d14f..31f7464 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1540,6 +1540,18 @@ controller_interface::return_type ControllerManager::unload_controller(
   }
   to.erase(found_it);
 
+  // the controllers connected only through the unloaded one are not in the same chain anymore
+  std::unordered_map<std::string, std::vector<std::string>> controller_full_chain_info_cache;
+  build_controller_full_chain_map_cache(controller_chain_spec_, controller_full_chain_info_cache);
+  for (auto & remaining_controller : to)
+  {
+    const auto chain_it = controller_full_chain_info_cache.find(remaining_controller.info.name);
+    if (chain_it != controller_full_chain_info_cache.end())
+    {
+      remaining_controller.controllers_chain_group = chain_it->second;
+    }
+  }
+
   // Destroys the old controllers list when the realtime thread is finished with it.
   RCLCPP_DEBUG(get_logger(), "Realtime switches over to new controller list");
   rt_controllers_wrapper_.switch_updated_list(guard);
-- 
2.43.0


From 492037d624fb08c3f443a24a58632278b23a60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:28 +0000
Subject: [PATCH 84/85] fix: read the statistics of hardware components
 consistently

The reference that was returned was read without holding the lock while the control loop updated the statistics, so the diagnostics published averages outside of the range of the measurements.
---
 controller_manager/src/controller_manager.cpp      |  9 +++++----
 .../hardware_interface/types/statistics_types.hpp  | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 31f7464..ceaaf0e 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -1161,12 +1161,13 @@ void ControllerManager::set_initial_hardware_components_state()
       component_name + ".stats/read_cycle/periodicity";
     register_controller_manager_statistics(
       read_cycle_exec_time_prefix,
-      &component_info.read_statistics->execution_time.get_statistics());
+      &component_info.read_statistics->execution_time.get_statistics_const_ptr());
     REGISTER_ENTITY(
       hardware_interface::CM_STATISTICS_KEY, read_cycle_exec_time_prefix + "/current_value",
       &component_info.read_statistics->execution_time.get_current_data());
     register_controller_manager_statistics(
-      read_cycle_periodicity_prefix, &component_info.read_statistics->periodicity.get_statistics());
+      read_cycle_periodicity_prefix,
+      &component_info.read_statistics->periodicity.get_statistics_const_ptr());
     REGISTER_ENTITY(
       hardware_interface::CM_STATISTICS_KEY, read_cycle_periodicity_prefix + "/current_value",
       &component_info.read_statistics->periodicity.get_current_data());
@@ -1178,13 +1179,13 @@ void ControllerManager::set_initial_hardware_components_state()
         component_name + ".stats/write_cycle/periodicity";
       register_controller_manager_statistics(
         write_cycle_exec_time_prefix,
-        &component_info.write_statistics->execution_time.get_statistics());
+        &component_info.write_statistics->execution_time.get_statistics_const_ptr());
       REGISTER_ENTITY(
         hardware_interface::CM_STATISTICS_KEY, write_cycle_exec_time_prefix + "/current_value",
         &component_info.write_statistics->execution_time.get_current_data());
       register_controller_manager_statistics(
         write_cycle_periodicity_prefix,
-        &component_info.write_statistics->periodicity.get_statistics());
+        &component_info.write_statistics->periodicity.get_statistics_const_ptr());
       REGISTER_ENTITY(
         hardware_interface::CM_STATISTICS_KEY, write_cycle_periodicity_prefix + "/current_value",
         &component_info.write_statistics->periodicity.get_current_data());
diff --git a/hardware_interface/include/hardware_interface/types/statistics_types.hpp b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
index 78601ff..7d483c8 100644
--- a/hardware_interface/include/hardware_interface/types/statistics_types.hpp
+++ b/hardware_interface/include/hardware_interface/types/statistics_types.hpp
@@ -267,10 +267,20 @@ public:
   }
 
   /**
-   * @brief Get the statistics data.
+   * @brief Get a consistent copy of the statistics data.
    * @return statistics data.
    */
-  const StatisticData & get_statistics() const
+  StatisticData get_statistics() const
+  {
+    std::unique_lock<DEFAULT_MUTEX> lock(mutex_);
+    return statistics_data_;
+  }
+
+  /**
+   * @brief Get a reference to the statistics data, that might be updated while it is read.
+   * @return reference to the statistics data.
+   */
+  const StatisticData & get_statistics_const_ptr() const
   {
     std::unique_lock<DEFAULT_MUTEX> lock(mutex_);
     return statistics_data_;
-- 
2.43.0


From ec7e983cc218f5be768d85b719d0c7c9343202d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:13 +0000
Subject: [PATCH 85/85] fix: check the interfaces a restarted controller is
 going to claim

A restarted controller with wildcard interfaces claims everything available, but only the interfaces it held before were checked, so the switch failed half way when another controller had claimed one of them.
---
 controller_manager/src/controller_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index ceaaf0e..6a3b953 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -4955,9 +4955,9 @@ controller_interface::return_type ControllerManager::check_for_interfaces_availa
       return controller_interface::return_type::ERROR;
     }
     const auto controller_cmd_interfaces =
-      get_command_interfaces_names(controller_it->c, resource_manager_);
+      get_command_interfaces_names(controller_it->c, resource_manager_, true);
     const auto controller_state_interfaces =
-      get_state_interfaces_names(controller_it->c, resource_manager_);
+      get_state_interfaces_names(controller_it->c, resource_manager_, true);
 
     // check if the interfaces are available in the first place
     for (const auto & cmd_itf : controller_cmd_interfaces)
-- 
2.43.0


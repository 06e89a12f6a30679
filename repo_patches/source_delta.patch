From de560f25a50655ddc598a2009b6e076d014a6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 01/76] fix: join the worker threads when construction of
 thread_pool fails

If a thread could not be created, the threads created so far were
destroyed while joinable, which terminated the process.
---
 src/cosim/utility/thread_pool.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cosim/utility/thread_pool.hpp b/src/cosim/utility/thread_pool.hpp
index 6765b03..5ea0140 100644
--- a/src/cosim/utility/thread_pool.hpp
+++ b/src/cosim/utility/thread_pool.hpp
@@ -60,6 +60,18 @@ private:
         }
     }
 
+    void stop_and_join()
+    {
+        std::unique_lock<std::mutex> lck(m_);
+        done_ = true;
+        lck.unlock();
+        cv_worker_.notify_all();
+
+        for (auto& thread : threads_) {
+            thread.join();
+        }
+    }
+
 public:
     explicit thread_pool(unsigned int thread_count)
         : done_(false)
@@ -70,7 +82,7 @@ public:
                 threads_.emplace_back(&thread_pool::worker_thread, this);
             }
         } catch (...) {
-            done_ = true;
+            stop_and_join();
             throw;
         }
     }
@@ -103,14 +115,7 @@ public:
 
     ~thread_pool() noexcept
     {
-        std::unique_lock<std::mutex> lck(m_);
-        done_ = true;
-        lck.unlock();
-        cv_worker_.notify_all();
-
-        for (auto& thread : threads_) {
-            thread.join();
-        }
+        stop_and_join();
     }
 };
 
-- 
2.43.0


From fd666476371c78aba4ef7f12ab7a36bff2af9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 02/76] fix: keep functions in step when connections or step
 sizes change

Disconnecting an input fed by a function had no effect, and a function
kept its old decimation factor after a disconnection, the removal of a
simulator or a change of a simulator's step size.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d59ae4e..6df66ad 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -124,6 +124,18 @@ public:
                 return;
             }
         }
+        for (auto& f : functions_) {
+            auto& conns = f.second.outgoingSimConnections;
+            const auto it = std::find_if(
+                conns.begin(),
+                conns.end(),
+                [input](const auto& c) { return c.target == input; });
+            if (it != conns.end()) {
+                conns.erase(it);
+                update_function_decimation_factor(f.second);
+                return;
+            }
+        }
     }
 
     void disconnect_variable(function_io_id input)
@@ -235,6 +247,9 @@ public:
     {
         COSIM_INPUT_CHECK(factor > 0);
         simulators_.at(i).decimationFactor = factor;
+        for (auto& f : functions_) {
+            update_function_decimation_factor(f.second);
+        }
     }
 
 
@@ -290,6 +305,7 @@ private:
                 connections.end(),
                 [i](const auto& c) { return c.target.simulator == i; });
             connections.erase(newEnd, connections.end());
+            update_function_decimation_factor(f.second);
         }
     }
 
-- 
2.43.0


From be9187fe249168771e4fd47632c0261e9dd169b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 03/76] fix: no underflow of the worker count if the number of
 CPUs is unknown

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 6df66ad..5a4c553 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -443,7 +443,8 @@ private:
     std::unordered_map<simulator_index, simulator_info> simulators_;
     std::unordered_map<function_index, function_info> functions_;
     int64_t stepCounter_ = 0;
-    unsigned int max_threads_ = std::thread::hardware_concurrency() - 1;
+    // `hardware_concurrency()` returns 0 if the number is not known.
+    unsigned int max_threads_ = std::max(std::thread::hardware_concurrency(), 1u) - 1;
     utility::thread_pool pool_;
 };
 
-- 
2.43.0


From ac8be8b38e7f026d1248e009433495c29f3e6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 04/76] fix: report slave failures in all phases as one
 exception

An exception thrown by a slave on a worker thread during initialisation,
and one not derived from std::exception in any phase, terminated the
process. Errors in the initialisation phase did not name the slave.
---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 108 ++++++++++++-------
 1 file changed, 70 insertions(+), 38 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index 5a4c553..a66c95e 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -12,8 +12,10 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <mutex>
 #include <numeric>
 #include <sstream>
+#include <string_view>
 #include <unordered_map>
 #include <vector>
 
@@ -163,40 +165,29 @@ public:
 
     void initialize()
     {
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->setup(startTime_, stopTime_, std::nullopt);
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([&](simulator_info& info) {
+            info.sim->setup(startTime_, stopTime_, std::nullopt);
+        });
 
         // Run N iterations of the simulators' and functions' step/calculation
         // procedures, where N is the number of simulators in the system,
         // to propagate initial values.
         for (std::size_t i = 0; i < simulators_.size() + functions_.size(); ++i) {
-            for (auto& s : simulators_) {
-                pool_.submit([&] {
-                    s.second.sim->do_iteration();
-                });
-            }
-            pool_.wait_for_tasks_to_finish();
+            for_each_simulator([](simulator_info& info) {
+                info.sim->do_iteration();
+            });
             calculate_and_transfer();
         }
 
-        for (auto& s : simulators_) {
-            pool_.submit([&] {
-                s.second.sim->start_simulation();
-            });
-        }
-        pool_.wait_for_tasks_to_finish();
+        for_each_simulator([](simulator_info& info) {
+            info.sim->start_simulation();
+        });
         calculate_and_transfer();
     }
 
     std::pair<duration, std::unordered_set<simulator_index>> do_step(time_point currentT)
     {
-        std::mutex m;
-        bool failed = false;
-        std::stringstream errMessages;
+        task_errors errors;
         std::unordered_set<simulator_index> finished;
 
         // Initiate simulator time steps.
@@ -204,24 +195,13 @@ public:
             auto& info = s.second;
             if (stepCounter_ % info.decimationFactor == 0) {
                 pool_.submit([&] {
-                    try {
+                    errors.guard(*info.sim, [&] {
                         info.stepResult = info.sim->do_step(currentT, baseStepSize_ * info.decimationFactor);
 
                         if (info.stepResult != step_result::complete) {
-                            std::lock_guard<std::mutex> lck(m);
-                            errMessages
-                                << info.sim->name() << ": "
-                                << "Step not complete" << '\n';
-                            failed = true;
+                            errors.add(*info.sim, "Step not complete");
                         }
-
-                    } catch (std::exception& ex) {
-                        std::lock_guard<std::mutex> lck(m);
-                        errMessages
-                            << info.sim->name() << ": "
-                            << ex.what() << '\n';
-                        failed = true;
-                    }
+                    });
                 });
             }
         }
@@ -235,9 +215,7 @@ public:
         // Wait for all time steps to finish, then calculate functions and
         // transfer variables.
         pool_.wait_for_tasks_to_finish();
-        if (failed) {
-            throw error(make_error_code(errc::simulation_error), errMessages.str());
-        }
+        errors.throw_if_any();
         calculate_and_transfer();
 
         return {baseStepSize_, std::move(finished)};
@@ -281,6 +259,44 @@ private:
         std::vector<connection_sf> outgoingFunConnections;
     };
 
+    // Collects errors from simulator calls which are executed in parallel.
+    class task_errors
+    {
+    public:
+        void add(const simulator& sim, std::string_view message)
+        {
+            std::lock_guard<std::mutex> lck(mutex_);
+            messages_ << sim.name() << ": " << message << '\n';
+            failed_ = true;
+        }
+
+        // Runs a task on behalf of `sim`, adding an error if it throws.
+        template<typename F>
+        void guard(const simulator& sim, F&& task)
+        {
+            try {
+                task();
+            } catch (const std::exception& ex) {
+                add(sim, ex.what());
+            } catch (...) {
+                add(sim, "Unknown error");
+            }
+        }
+
+        // To be called when all tasks have finished.
+        void throw_if_any() const
+        {
+            if (failed_) {
+                throw error(make_error_code(errc::simulation_error), messages_.str());
+            }
+        }
+
+    private:
+        std::mutex mutex_;
+        bool failed_ = false;
+        std::stringstream messages_;
+    };
+
     struct function_info
     {
         function* fun;
@@ -288,6 +304,22 @@ private:
         std::vector<connection_fs> outgoingSimConnections;
     };
 
+    // Performs an action for all simulators in parallel, and waits for them
+    // all to finish.
+    template<typename F>
+    void for_each_simulator(const F& action)
+    {
+        task_errors errors;
+        for (auto& s : simulators_) {
+            auto& info = s.second;
+            pool_.submit([&] {
+                errors.guard(*info.sim, [&] { action(info); });
+            });
+        }
+        pool_.wait_for_tasks_to_finish();
+        errors.throw_if_any();
+    }
+
     void disconnect_simulator_variables(simulator_index i)
     {
         for (auto& s : simulators_) {
-- 
2.43.0


From 192f529f806c8427c2a024bfb0ae0b49ad852848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 05/76] fix: allow the model description to be inspected after
 a slave has failed

---
 src/cosim/slave_simulator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index f985ec2..cac5ded 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -631,7 +631,6 @@ std::string slave_simulator::name() const
 
 cosim::model_description slave_simulator::model_description() const
 {
-    COSIM_PRECONDITION(state_ != slave_state::error);
     return pimpl_->model_description();
 }
 
-- 
2.43.0


From 18f19b6c3f6d37aa6e3cf8d82049f43b76c0cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 06/76] fix: do not lose stop requests, and report the running
 state correctly

A stop request made right after simulate_until_async() could be lost,
is_running() was false after a run had been requested or while it was
being stopped and true for ever after a run that failed, and a run that
was stopped during its last step was reported as not completed.
---
 src/cosim/execution.cpp | 61 +++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 6f6b6bf..86687f2 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -28,7 +28,8 @@ public:
         : lastStep_(0)
         , currentTime_(startTime)
         , initialized_(false)
-        , stopped_(true)
+        , running_(false)
+        , stopRequested_(false)
         , algorithm_(std::move(algo))
         , timer_()
     {
@@ -116,7 +117,7 @@ public:
 
     bool is_running() const noexcept
     {
-        return !stopped_;
+        return running_;
     }
 
     duration step()
@@ -145,28 +146,26 @@ public:
 
     bool simulate_until(std::optional<time_point> endTime)
     {
-        stopped_ = false;
-        timer_.start(currentTime_);
-        duration stepSize;
-        do {
-            stepSize = step();
-            timer_.sleep(currentTime_);
-        } while (!stopped_ && !timed_out(endTime, currentTime_, stepSize));
-        bool isStopped = stopped_;
-        stopped_ = true;
-        return !isStopped;
+        begin_run();
+        return run(endTime);
     }
 
     std::future<bool> simulate_until_async(std::optional<time_point> endTime)
     {
-        return std::async(std::launch::async, [this, endTime]{
-            return simulate_until(endTime);
-        });
+        begin_run();
+        try {
+            return std::async(std::launch::async, [this, endTime] {
+                return run(endTime);
+            });
+        } catch (...) {
+            running_ = false;
+            throw;
+        }
     }
 
     void stop_simulation()
     {
-        stopped_ = true;
+        stopRequested_ = true;
     }
 
     std::shared_ptr<real_time_config> get_real_time_config() const
@@ -259,6 +258,33 @@ public:
     }
 
 private:
+    // To be called when a run is requested, i.e., before the function that
+    // requests it returns, so that no subsequent stop request is lost.
+    void begin_run()
+    {
+        stopRequested_ = false;
+        running_ = true;
+    }
+
+    // Returns whether `endTime` was reached.
+    bool run(std::optional<time_point> endTime)
+    {
+        try {
+            timer_.start(currentTime_);
+            bool reachedEnd = false;
+            do {
+                const auto stepSize = step();
+                timer_.sleep(currentTime_);
+                reachedEnd = timed_out(endTime, currentTime_, stepSize);
+            } while (!stopRequested_ && !reachedEnd);
+            running_ = false;
+            return reachedEnd;
+        } catch (...) {
+            running_ = false;
+            throw;
+        }
+    }
+
     template<typename OutputID, typename InputID>
     void connect_variables_impl(
         std::unordered_map<InputID, OutputID>& connections,
@@ -315,7 +341,8 @@ private:
     step_number lastStep_;
     time_point currentTime_;
     bool initialized_;
-    std::atomic<bool> stopped_;
+    std::atomic<bool> running_;
+    std::atomic<bool> stopRequested_;
 
     std::shared_ptr<algorithm> algorithm_;
     std::vector<std::shared_ptr<simulator>> simulators_;
-- 
2.43.0


From 160ed73c8a2fcf6e97a9cadaa62ae883706652d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 07/76] fix: pace and measure from the settings in force at the
 start, and read them once per step

---
 src/cosim/timer.cpp | 77 ++++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/src/cosim/timer.cpp b/src/cosim/timer.cpp
index 1a191ba..5165a1b 100644
--- a/src/cosim/timer.cpp
+++ b/src/cosim/timer.cpp
@@ -18,36 +18,26 @@ class real_time_timer::impl
 public:
     impl()
         : config_(std::make_shared<real_time_config>())
-        , configHashValue_(std::hash<real_time_config>()(*config_))
         , metrics_(std::make_shared<real_time_metrics>())
     { }
 
     void start(time_point currentTime)
     {
-        simulationStartTime_ = currentTime;
-        rtSimulationStartTime_ = currentTime;
-        startTime_ = Time::now();
-        rtStartTime_ = startTime_;
-        rtCounter_ = 0L;
+        start(currentTime, read_settings());
     }
 
     void sleep(time_point currentTime)
     {
-        const auto newHash = std::hash<real_time_config>()(*config_);
-        if (newHash != configHashValue_) {
-            start(currentTime);
-            const auto sampling_period = config_->sampling_period_to_monitor.load();
-            if (sampling_period.count() > 0) {
-                sampling_period_to_monitor_ = sampling_period;
-            } else {
-                sampling_period_to_monitor_ = std::nullopt;
-            }
-            configHashValue_ = newHash;
+        // The settings may be changed at any time by other threads, so each
+        // of them is read only once here.
+        const auto newSettings = read_settings();
+        if (newSettings != settings_) {
+            start(currentTime, newSettings);
+            return;
         }
-        double rtfTarget = config_->real_time_factor_target.load();
-        if (config_->real_time_simulation && rtfTarget > 0.0) {
+        if (settings_.realTimeSimulation && settings_.realTimeFactorTarget > 0.0) {
             const auto elapsed = Time::now() - startTime_;
-            const auto expectedSimulationTime = (currentTime - simulationStartTime_) / rtfTarget;
+            const auto expectedSimulationTime = (currentTime - simulationStartTime_) / settings_.realTimeFactorTarget;
             const auto simulationSleepTime = expectedSimulationTime - elapsed;
 
             if (simulationSleepTime > MIN_SLEEP) {
@@ -69,15 +59,51 @@ public:
 
 
 private:
+    // A copy of the settings in `real_time_config`.
+    struct settings
+    {
+        bool realTimeSimulation = false;
+        double realTimeFactorTarget = 1.0;
+        int stepsToMonitor = 0;
+        std::chrono::milliseconds samplingPeriodToMonitor{-1};
+
+        bool operator!=(const settings& other) const noexcept
+        {
+            return realTimeSimulation != other.realTimeSimulation ||
+                realTimeFactorTarget != other.realTimeFactorTarget ||
+                stepsToMonitor != other.stepsToMonitor ||
+                samplingPeriodToMonitor != other.samplingPeriodToMonitor;
+        }
+    };
+
+    settings read_settings() const
+    {
+        settings s;
+        s.realTimeSimulation = config_->real_time_simulation.load();
+        s.realTimeFactorTarget = config_->real_time_factor_target.load();
+        s.stepsToMonitor = config_->steps_to_monitor.load();
+        s.samplingPeriodToMonitor = config_->sampling_period_to_monitor.load();
+        return s;
+    }
+
+    void start(time_point currentTime, const settings& newSettings)
+    {
+        settings_ = newSettings;
+        simulationStartTime_ = currentTime;
+        rtSimulationStartTime_ = currentTime;
+        startTime_ = Time::now();
+        rtStartTime_ = startTime_;
+        rtCounter_ = 0L;
+    }
+
     long rtCounter_ = 0L;
     Time::time_point startTime_;
     Time::time_point rtStartTime_;
     time_point simulationStartTime_;
     time_point rtSimulationStartTime_;
     std::shared_ptr<real_time_config> config_;
-    size_t configHashValue_;
+    settings settings_;
     std::shared_ptr<real_time_metrics> metrics_;
-    std::optional<std::chrono::milliseconds> sampling_period_to_monitor_ = std::nullopt;
 
     template<typename Rep, typename Period>
     void update_rolling_average_real_time_factor(
@@ -100,18 +126,17 @@ private:
         const auto relativeRealTime =  std::chrono::duration_cast<cosim::duration>(currentTime - startTime_);
         metrics_->total_average_real_time_factor = relativeSimTime.count() / (1.0 * relativeRealTime.count());
 
-        if (sampling_period_to_monitor_.has_value()) {
+        rtCounter_++;
+        if (settings_.samplingPeriodToMonitor.count() > 0) {
             const auto elapsedRealTime = currentTime - rtStartTime_;
 
-            if (elapsedRealTime > sampling_period_to_monitor_.value()) {
-                const auto elapsedSimTime = currentSimulationTime - rtSimulationStartTime_;
+            if (elapsedRealTime > settings_.samplingPeriodToMonitor) {
                 update_rolling_average_real_time_factor(currentTime, currentSimulationTime, elapsedRealTime);
             }
-        } else if (rtCounter_ >= config_->steps_to_monitor.load()) {
+        } else if (rtCounter_ >= settings_.stepsToMonitor) {
             const auto elapsedRealTime = currentTime - rtStartTime_;
             update_rolling_average_real_time_factor(currentTime, currentSimulationTime, elapsedRealTime);
         }
-        rtCounter_++;
     }
 };
 
-- 
2.43.0


From 3b11b92729fcd270ef8f3dd6d4d445fcc1fb8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 08/76] fix: no wrong step number 0 in time series observed
 from a running simulation

---
 src/cosim/observer/time_series_observer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cosim/observer/time_series_observer.cpp b/src/cosim/observer/time_series_observer.cpp
index 09d40b8..abc945b 100644
--- a/src/cosim/observer/time_series_observer.cpp
+++ b/src/cosim/observer/time_series_observer.cpp
@@ -78,9 +78,14 @@ public:
 
     ~single_slave_observer() noexcept = default;
 
-    void observe(step_number timeStep, time_point currentTime)
+    void observe(step_number timeStep, time_point currentTime, bool first = false)
     {
         std::lock_guard<std::mutex> lock(lock_);
+        if (first) {
+            // Step number 0, recorded by the constructor, is wrong if the
+            // observer was added to a simulation that was already running.
+            timeSamples_.clear();
+        }
         for (auto& [idx, samples] : realSamples_) {
             samples[timeStep] = observable_->get_real(idx);
             adjustIfFull(samples, bufSize_);
@@ -242,7 +247,7 @@ void time_series_observer::simulation_initialized(
     time_point startTime)
 {
     for (const auto& entry : slaveObservers_) {
-        entry.second->observe(firstStep, startTime);
+        entry.second->observe(firstStep, startTime, true);
     }
 }
 
-- 
2.43.0


From 0dfbfd3704a4850c3c69e8b7d796d4046d02ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 09/76] fix: retrieve the values of variables exposed after a
 slave's latest step

---
 src/cosim/slave_simulator.cpp | 46 ++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index cac5ded..6e7088f 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -120,6 +120,10 @@ struct get_variable_cache
     std::vector<std::function<T(T, duration)>> modifiers;
     std::unordered_map<value_reference, std::size_t> indexMapping;
 
+    // The number of variables whose values have been retrieved from the slave.
+    // (The ones at the end may have been exposed after the last retrieval.)
+    std::size_t fetchedCount = 0;
+
     void expose(value_reference r)
     {
         if (indexMapping.count(r)) return;
@@ -340,23 +344,27 @@ public:
         }
     }
 
-    double get_real(value_reference ref) const
+    double get_real(value_reference ref)
     {
+        fetch_exposed(realGetCache_, &slave::get_real_variables);
         return realGetCache_.get(ref);
     }
 
-    int get_integer(value_reference ref) const
+    int get_integer(value_reference ref)
     {
+        fetch_exposed(integerGetCache_, &slave::get_integer_variables);
         return integerGetCache_.get(ref);
     }
 
-    bool get_boolean(value_reference ref) const
+    bool get_boolean(value_reference ref)
     {
+        fetch_exposed(booleanGetCache_, &slave::get_boolean_variables);
         return booleanGetCache_.get(ref);
     }
 
-    std::string_view get_string(value_reference ref) const
+    std::string_view get_string(value_reference ref)
     {
+        fetch_exposed(stringGetCache_, &slave::get_string_variables);
         return stringGetCache_.get(ref);
     }
 
@@ -490,6 +498,7 @@ public:
         std::optional<time_point> stopTime,
         std::optional<double> relativeTolerance)
     {
+        canFetch_ = false;
         slave_->setup(startTime, stopTime, relativeTolerance);
         get_variables(duration::zero());
     }
@@ -525,6 +534,7 @@ private:
         const auto [integerRefs, integerValues] = integerSetCache_.modify_and_get(deltaT);
         const auto [booleanRefs, booleanValues] = booleanSetCache_.modify_and_get(deltaT);
         const auto [stringRefs, stringValues] = stringSetCache_.modify_and_get(deltaT);
+        canFetch_ = false;
         slave_->set_variables(
             gsl::make_span(realRefs),
             gsl::make_span(realValues),
@@ -556,6 +566,30 @@ private:
         integerGetCache_.run_modifiers(deltaT);
         booleanGetCache_.run_modifiers(deltaT);
         stringGetCache_.run_modifiers(deltaT);
+        realGetCache_.fetchedCount = realGetCache_.references.size();
+        integerGetCache_.fetchedCount = integerGetCache_.references.size();
+        booleanGetCache_.fetchedCount = booleanGetCache_.references.size();
+        stringGetCache_.fetchedCount = stringGetCache_.references.size();
+        canFetch_ = true;
+    }
+
+    // Retrieves the values of variables that have been exposed after the last
+    // time step, so that they can be used before the next one.
+    template<typename T>
+    void fetch_exposed(
+        get_variable_cache<T>& cache,
+        void (slave::*getVariables)(gsl::span<const value_reference>, gsl::span<T>) const)
+    {
+        const auto first = cache.fetchedCount;
+        const auto count = cache.references.size() - first;
+        if (!canFetch_ || count == 0) return;
+        canFetch_ = false;
+        (slave_.get()->*getVariables)(
+            gsl::make_span(cache.references.data() + first, count),
+            gsl::make_span(cache.originalValues.data() + first, count));
+        std::copy_n(cache.originalValues.begin() + first, count, cache.modifiedValues.begin() + first);
+        cache.fetchedCount = first + count;
+        canFetch_ = true;
     }
 
     variable_description find_variable_description(value_reference ref, variable_type type)
@@ -588,6 +622,10 @@ private:
     std::string name_;
     cosim::model_description modelDescription_;
 
+    // Whether variable values may be retrieved from the slave between its steps
+    // (that is, it has been set up and no call to it has failed).
+    bool canFetch_ = false;
+
     get_variable_cache<double> realGetCache_;
     get_variable_cache<int> integerGetCache_;
     get_variable_cache<bool> booleanGetCache_;
-- 
2.43.0


From 682d14ca23665f560dbbc03ad22ca98aabb62259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 10/76] fix: let starting and stopping a file observer take
 effect one at a time

---
 include/cosim/observer/file_observer.hpp | 2 ++
 src/cosim/observer/file_observer.cpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/cosim/observer/file_observer.hpp b/include/cosim/observer/file_observer.hpp
index 686cac2..2c784a2 100644
--- a/include/cosim/observer/file_observer.hpp
+++ b/include/cosim/observer/file_observer.hpp
@@ -15,6 +15,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <unordered_map>
 
 
@@ -203,6 +204,7 @@ private:
     std::optional<file_observer_config> config_;
     cosim::filesystem::path logDir_;
     std::atomic<bool> recording_ = true;
+    std::mutex startStopMutex_;
 };
 
 
diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index eacfbcb..55d3bd1 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -459,6 +459,7 @@ bool file_observer::is_recording()
 
 void file_observer::start_recording()
 {
+    std::lock_guard<std::mutex> lock(startStopMutex_);
     if (recording_) {
         throw std::runtime_error("File observer is already recording");
     } else {
@@ -471,6 +472,7 @@ void file_observer::start_recording()
 
 void file_observer::stop_recording()
 {
+    std::lock_guard<std::mutex> lock(startStopMutex_);
     if (!recording_) {
         throw std::runtime_error("File observer has already stopped recording");
     } else {
-- 
2.43.0


From 18407962017c33f34af95d06aa1e679c20276d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 11/76] fix: report failure to create a log metadata file

---
 src/cosim/observer/file_observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index 55d3bd1..3c79d36 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -277,7 +277,7 @@ private:
         const auto filePath = logDir_ / filename;
         metadata_fw.open(filePath, std::ios_base::out | std::ios_base::app);
 
-        if (fsw_.fail()) {
+        if (metadata_fw.fail()) {
             std::stringstream error;
             error << "Failed to open log metadata file stream: " << filePath.c_str();
             throw std::runtime_error(error.str());
-- 
2.43.0


From 36bfa66faef273ee9a51dc47c3818c475613a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 12/76] fix: let overrides be requested while simulators are
 being added

---
 src/cosim/manipulator/override_manipulator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/manipulator/override_manipulator.cpp b/src/cosim/manipulator/override_manipulator.cpp
index f3a42e6..bdad046 100644
--- a/src/cosim/manipulator/override_manipulator.cpp
+++ b/src/cosim/manipulator/override_manipulator.cpp
@@ -56,11 +56,13 @@ void override_manipulator::simulator_added(
     manipulable* sim,
     time_point /*currentTime*/)
 {
+    std::lock_guard<std::mutex> lock(lock_);
     simulators_[index] = sim;
 }
 
 void override_manipulator::simulator_removed(simulator_index index, time_point)
 {
+    std::lock_guard<std::mutex> lock(lock_);
     simulators_.erase(index);
 }
 
@@ -124,11 +126,11 @@ void override_manipulator::add_action(
         scenario::boolean_modifier,
         scenario::string_modifier>& m)
 {
+    std::lock_guard<std::mutex> lock(lock_);
     auto sim = simulators_.at(index);
     auto causality = find_variable_causality(sim->model_description().variables, type, variable);
     bool input = is_input(causality);
 
-    std::lock_guard<std::mutex> lock(lock_);
     actions_.emplace_back(scenario::variable_action{index, variable, m, input});
 }
 
-- 
2.43.0


From 371f8803843c7ca46dae62e25bff1e30a9dc44ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 13/76] fix: apply the events of a scenario in order

---
 src/cosim/manipulator/scenario_manager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 467dbb1..04a7b30 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -11,6 +11,7 @@
 #include "cosim/scenario_parser.hpp"
 #include "cosim/utility/utility.hpp"
 
+#include <map>
 
 namespace cosim
 {
@@ -110,8 +111,8 @@ public:
 private:
     struct scenario_state
     {
-        std::unordered_map<int, scenario::event> remainingEvents;
-        std::unordered_map<int, scenario::event> executedEvents;
+        std::map<int, scenario::event> remainingEvents;
+        std::map<int, scenario::event> executedEvents;
         time_point startTime;
         std::optional<time_point> endTime;
         bool running = false;
@@ -211,7 +212,7 @@ private:
             a.modifier);
     }
 
-    void cleanup(const std::unordered_map<int, scenario::event>& executedEvents)
+    void cleanup(const std::map<int, scenario::event>& executedEvents)
     {
         for (const auto& entry : executedEvents) {
             auto e = entry.second;
-- 
2.43.0


From 3d0630ca64d6d72e542d91c3f673f14a0f9c50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 14/76] fix: clean up after a scenario that is replaced by
 another

---
 src/cosim/manipulator/scenario_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 04a7b30..1373b09 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -31,6 +31,7 @@ public:
 
     void load_scenario(const scenario::scenario& s, time_point currentTime)
     {
+        if (state.running) cleanup(state.executedEvents);
         state = scenario_state{};
         state.startTime = currentTime;
         state.endTime = s.end;
-- 
2.43.0


From f4d8f9d2d6fd02165483aca752a1ab088907b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 15/76] fix: remember executed events if a later one fails, so
 that they are cleaned up

---
 src/cosim/manipulator/scenario_manager.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cosim/manipulator/scenario_manager.cpp b/src/cosim/manipulator/scenario_manager.cpp
index 1373b09..b9e75c3 100644
--- a/src/cosim/manipulator/scenario_manager.cpp
+++ b/src/cosim/manipulator/scenario_manager.cpp
@@ -72,16 +72,14 @@ public:
             return;
         }
 
-        auto executedEvents = std::map<int, scenario::event>();
-        for (const auto& [index, event] : state.remainingEvents) {
-            if (maybe_run_event(relativeTime, event)) {
-                executedEvents[index] = event;
+        for (auto it = state.remainingEvents.begin(); it != state.remainingEvents.end();) {
+            if (maybe_run_event(relativeTime, it->second)) {
+                state.executedEvents.insert(*it);
+                it = state.remainingEvents.erase(it);
+            } else {
+                ++it;
             }
         }
-        for (const auto& [index, event] : executedEvents) {
-            state.remainingEvents.erase(index);
-            state.executedEvents[index] = event;
-        }
     }
 
     void simulator_added(simulator_index index, manipulable* sim)
-- 
2.43.0


From 2d32701383acbe099d4a21193910eb069b10ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 16/76] fix: refuse scenarios with unknown variables

---
 src/cosim/scenario_parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 6306429..1f26063 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -215,8 +215,11 @@ scenario::scenario parse_scenario(
             find_simulator(simulators, specified_or_default(event, "model", defaultOpts.model));
         auto varName =
             specified_or_default(event, "variable", defaultOpts.variable);
-        const auto var =
-            *find_variable(simulator->model_description(), varName);
+        const auto description = find_variable(simulator->model_description(), varName);
+        if (!description) {
+            throw std::invalid_argument("Can't find variable with name: " + varName);
+        }
+        const auto& var = *description;
 
         auto mode = specified_or_default(event, "action", defaultOpts.action);
         bool isInput = is_input(var.causality);
-- 
2.43.0


From 61bc7a6f10cb3bd328d1eae6b3c7bfcf53c8ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 17/76] fix: refuse scenario files which cannot be read

---
 src/cosim/scenario_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/scenario_parser.cpp b/src/cosim/scenario_parser.cpp
index 1f26063..c213a41 100644
--- a/src/cosim/scenario_parser.cpp
+++ b/src/cosim/scenario_parser.cpp
@@ -9,6 +9,7 @@
 #include <fstream>
 #include <functional>
 #include <iostream>
+#include <iterator>
 #include <optional>
 #include <sstream>
 #include <stdexcept>
@@ -201,7 +202,9 @@ scenario::scenario parse_scenario(
         oss << "Cannot load scenario. Failed to open file " << scenarioFile;
         throw std::system_error(errno, std::system_category(), oss.str());
     }
-    YAML::Node j = YAML::Load(i);
+    // Read the whole file first, because YAML::Load() takes errors for the end of the file.
+    const std::string contents(std::istreambuf_iterator<char>(i), {});
+    YAML::Node j = YAML::Load(contents);
 
     std::vector<scenario::event> events;
     defaults defaultOpts = parse_defaults(j);
-- 
2.43.0


From 3b2c88589cab7f2dfe0973cbece73080747e8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 18/76] fix: do not lose file locks when another file_lock for
 the same file is destroyed

---
 src/cosim/utility/concurrency.cpp | 33 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c55d14a..c8f4055 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -5,6 +5,7 @@
  */
 #include "cosim/utility/concurrency.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <system_error>
 #include <vector>
@@ -233,27 +234,33 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     struct file_mutex_cache_entry
     {
         cosim::filesystem::path path;
-        std::weak_ptr<file_mutex> fileMutex;
+        std::shared_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
     static std::mutex cacheMutex;
     std::shared_ptr<file_mutex> fileMutex;
 
+    std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
+
+    // Clean up any elements which are not in use anymore.  This is done here,
+    // and not by the last user, because all the locks that the process holds
+    // on a file may be lost when a handle to it is closed.  So that must not
+    // happen while a new mutex is being created for the same file.
+    fileMutexCache.erase(
+        std::remove_if(
+            fileMutexCache.begin(),
+            fileMutexCache.end(),
+            [](const auto& entry) { return entry.fileMutex.use_count() == 1; }),
+        fileMutexCache.end());
+
     // If the file already exists, we need to check whether it is already
     // associated with a mutex.  We do so by performing a linear search for
-    // an element corresponding to the given path in `fileMutexes`
-    // (cleaning up any expired elements along the way).
-    std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
+    // an element corresponding to the given path in `fileMutexes`.
     if (cosim::filesystem::exists(path)) {
-        for (auto it = fileMutexCache.begin(); it != fileMutexCache.end();) {
-            if (auto fm = it->fileMutex.lock()) {
-                if (cosim::filesystem::equivalent(path, it->path)) {
-                    assert(!fileMutex);
-                    fileMutex = std::move(fm);
-                }
-                ++it;
-            } else {
-                it = fileMutexCache.erase(it);
+        for (const auto& entry : fileMutexCache) {
+            if (cosim::filesystem::equivalent(path, entry.path)) {
+                assert(!fileMutex);
+                fileMutex = entry.fileMutex;
             }
         }
     }
-- 
2.43.0


From 4a1f9f56412c6bce87f973dda94dec7528aaaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 19/76] fix: allow removal of lock files which are in use by
 other file_lock objects

---
 src/cosim/utility/concurrency.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index c8f4055..243e887 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -258,7 +258,9 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // an element corresponding to the given path in `fileMutexes`.
     if (cosim::filesystem::exists(path)) {
         for (const auto& entry : fileMutexCache) {
-            if (cosim::filesystem::equivalent(path, entry.path)) {
+            // (There is an error if the other file has been removed meanwhile.)
+            std::error_code ignoredError;
+            if (cosim::filesystem::equivalent(path, entry.path, ignoredError)) {
                 assert(!fileMutex);
                 fileMutex = entry.fileMutex;
             }
-- 
2.43.0


From acf37863f3c047273bd761f5f987fad8b8cf4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 20/76] fix: make file_lock::try_lock_shared() never wait

---
 src/cosim/utility/concurrency.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 243e887..0b31667 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -193,12 +193,17 @@ void file_lock::boost_wrapper::unlock()
 
 void file_lock::boost_wrapper::lock_shared()
 {
-    std::lock_guard<std::mutex> countLock(shareCountMutex_);
-    assert(shareCount_ >= 0);
-    if (shareCount_ == 0) {
-        fileLock_.lock_sharable();
+    // We can't hold the mutex while waiting for the file, because that would
+    // make try_lock_shared() wait too.  And since another thread may release
+    // the process' lock between the end of the wait and the locking of the
+    // mutex, the former just means that it's time for a new attempt.
+    try {
+        while (!try_lock_shared()) fileLock_.lock_sharable();
+    } catch (...) {
+        std::lock_guard<std::mutex> countLock(shareCountMutex_);
+        if (shareCount_ == 0) fileLock_.unlock_sharable();
+        throw;
     }
-    ++shareCount_;
 }
 
 
-- 
2.43.0


From 2a5d76044d2b53276345dda772d4d62618509c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 21/76] fix: do not fail to lock a file because of false
 deadlock reports or signals

---
 src/cosim/utility/concurrency.cpp | 35 ++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 0b31667..3958bd0 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -7,13 +7,15 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cerrno>
+#include <chrono>
 #include <system_error>
+#include <thread>
 #include <vector>
 
 #ifdef _WIN32
 #    include <windows.h>
 #else
-#    include <cerrno>
 #    include <fcntl.h>
 #endif
 
@@ -163,11 +165,38 @@ file_lock::boost_wrapper::boost_wrapper(const cosim::filesystem::path& path)
  *  first.  (See file_lock::lock().)
  */
 
+namespace
+{
+// Calls a function that waits for a file lock, repeatedly if necessary.
+template<typename F>
+void wait_for_file_lock(F lock)
+{
+#ifdef _WIN32
+    lock();
+#else
+    for (;;) {
+        try {
+            return lock();
+        } catch (const boost::interprocess::interprocess_exception& e) {
+            // The operating system may see a deadlock where there is none,
+            // because it deals with processes rather than threads.
+            if (e.get_native_error() == EDEADLK) {
+                std::this_thread::sleep_for(std::chrono::milliseconds(10));
+            } else if (e.get_native_error() != EINTR) {
+                throw;
+            }
+        }
+    }
+#endif
+}
+} // namespace
+
+
 void file_lock::boost_wrapper::lock()
 {
     std::lock_guard<std::mutex> countLock(shareCountMutex_);
     assert(shareCount_ == 0);
-    fileLock_.lock();
+    wait_for_file_lock([&] { fileLock_.lock(); });
     shareCount_ = -1;
 }
 
@@ -198,7 +227,7 @@ void file_lock::boost_wrapper::lock_shared()
     // the process' lock between the end of the wait and the locking of the
     // mutex, the former just means that it's time for a new attempt.
     try {
-        while (!try_lock_shared()) fileLock_.lock_sharable();
+        while (!try_lock_shared()) wait_for_file_lock([&] { fileLock_.lock_sharable(); });
     } catch (...) {
         std::lock_guard<std::mutex> countLock(shareCountMutex_);
         if (shareCount_ == 0) fileLock_.unlock_sharable();
-- 
2.43.0


From a3a7f2963b42161e5b9b74ddbcf1c09e5c155c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 22/76] fix: release a lock in the right order when another
 file_lock is assigned

---
 src/cosim/utility/concurrency.cpp | 12 ++++++++++++
 src/cosim/utility/concurrency.hpp |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 3958bd0..cf22397 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -43,6 +43,18 @@ file_lock::file_lock(
 }
 
 
+file_lock& file_lock::operator=(file_lock&& other)
+{
+    auto source = std::move(other);
+    // Release any lock we hold, in the right order, before the mutex goes away.
+    { const auto released = std::move(*this); }
+    fileMutex_ = std::move(source.fileMutex_);
+    mutexLock_ = std::move(source.mutexLock_);
+    fileLock_ = std::move(source.fileLock_);
+    return *this;
+}
+
+
 void file_lock::lock()
 {
     // NOTE: The reason we can't use std::lock() here is that we must make
diff --git a/src/cosim/utility/concurrency.hpp b/src/cosim/utility/concurrency.hpp
index ba0d7a5..6b48960 100644
--- a/src/cosim/utility/concurrency.hpp
+++ b/src/cosim/utility/concurrency.hpp
@@ -91,6 +91,9 @@ public:
         const cosim::filesystem::path& path,
         file_lock_initial_state initialState = file_lock_initial_state::not_locked);
 
+    file_lock(file_lock&&) = default;
+    file_lock& operator=(file_lock&&);
+
     /**
      *  Acquires a lock on the file, blocking if necessary.
      *
-- 
2.43.0


From e3dd597f4a69ec10c9c7fae043d97b5929152356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 23/76] fix: do not block the whole file cache while waiting
 for one directory

---
 src/cosim/file_cache.cpp | 72 ++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 36f5247..92b20fb 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -10,8 +10,10 @@
 #include "cosim/utility/concurrency.hpp"
 #include "cosim/utility/filesystem.hpp"
 
+#include <chrono>
 #include <stdexcept>
 #include <string>
+#include <thread>
 #include <unordered_map>
 
 
@@ -193,35 +195,46 @@ public:
 
     std::unique_ptr<directory_rw> get_directory_rw(std::string_view key)
     {
-        auto rootLock = utility::file_lock(
-            root_lock_file_path(),
-            utility::file_lock_initial_state::locked);
-
-        const auto path = subdir_path(key);
-        auto lock = utility::file_lock(
-            subdir_lock_file_path(key),
-            utility::file_lock_initial_state::locked);
-
-        cosim::filesystem::create_directories(path);
-        return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+        for (;;) {
+            {
+                auto rootLock = utility::file_lock(
+                    root_lock_file_path(),
+                    utility::file_lock_initial_state::locked);
+
+                const auto path = subdir_path(key);
+                auto lock = utility::file_lock(
+                    subdir_lock_file_path(key),
+                    utility::file_lock_initial_state::not_locked);
+                if (lock.try_lock()) {
+                    cosim::filesystem::create_directories(path);
+                    return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+                }
+            }
+            wait_for_others();
+        }
     }
 
     std::unique_ptr<directory_ro> get_directory_ro(std::string_view key)
     {
-        auto rootLock = utility::file_lock(
-            root_lock_file_path(),
-            utility::file_lock_initial_state::locked_shared);
-
-        const auto path = subdir_path(key);
-        auto lock = utility::file_lock(
-            subdir_lock_file_path(key),
-            utility::file_lock_initial_state::locked_shared);
-
-        if (cosim::filesystem::exists(path)) {
-            return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
-        } else {
-            throw std::logic_error(
-                "Invalid cache subdirectory key: " + std::string(key));
+        for (;;) {
+            {
+                auto rootLock = utility::file_lock(
+                    root_lock_file_path(),
+                    utility::file_lock_initial_state::locked_shared);
+
+                const auto path = subdir_path(key);
+                auto lock = utility::file_lock(
+                    subdir_lock_file_path(key),
+                    utility::file_lock_initial_state::not_locked);
+                if (lock.try_lock_shared()) {
+                    if (!cosim::filesystem::exists(path)) {
+                        throw std::logic_error(
+                            "Invalid cache subdirectory key: " + std::string(key));
+                    }
+                    return std::make_unique<persistent_file_cache_directory>(path, std::move(lock));
+                }
+            }
+            wait_for_others();
         }
     }
 
@@ -269,6 +282,15 @@ public:
     }
 
 private:
+    // Called, while holding no locks, when a subdirectory is in use by others.
+    //
+    // The root lock must not be held for as long as it takes them to release
+    // the subdirectory, because they may need it for other things first.
+    static void wait_for_others()
+    {
+        std::this_thread::sleep_for(std::chrono::milliseconds(20));
+    }
+
     cosim::filesystem::path root_lock_file_path() const
     {
         return root_ / "lock";
-- 
2.43.0


From 48c72fbd5bddb053a4c9a4769b6882711e680f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 24/76] fix: never serve a file cache directory that was
 partially removed

---
 src/cosim/file_cache.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 92b20fb..e402d21 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -13,6 +13,7 @@
 #include <chrono>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <thread>
 #include <unordered_map>
 
@@ -247,7 +248,12 @@ public:
         for (auto it = cosim::filesystem::directory_iterator(root_);
              it != cosim::filesystem::directory_iterator();
              ++it) {
-            if (cosim::filesystem::is_directory(*it) &&
+            if (it->path().extension() == ".deleted") {
+
+                // Remove what an earlier, interrupted cleanup has left behind.
+                std::error_code ignoredError;
+                cosim::filesystem::remove_all(*it, ignoredError);
+            } else if (cosim::filesystem::is_directory(*it) &&
                 it->path().extension() == ".data") {
 
                 // Remove non-locked subdirectories and their lock files
@@ -258,9 +264,18 @@ public:
                     utility::file_lock_initial_state::not_locked);
                 if (!subdirLock.try_lock()) continue;
 
+                // The subdirectory is renamed first, so that it can't be
+                // mistaken for a complete one if its removal is interrupted
+                // or fails.
+                auto deletedPath = it->path();
+                deletedPath.replace_extension(".deleted");
                 std::error_code ignoredError;
-                cosim::filesystem::remove_all(*it, ignoredError);
-                cosim::filesystem::remove(subdirLockFilePath);
+                cosim::filesystem::remove_all(deletedPath, ignoredError);
+                std::error_code renameError;
+                cosim::filesystem::rename(*it, deletedPath, renameError);
+                if (renameError) continue;
+                cosim::filesystem::remove_all(deletedPath, ignoredError);
+                cosim::filesystem::remove(subdirLockFilePath, ignoredError);
             } else if (cosim::filesystem::is_regular_file(*it) &&
                 it->path().extension() == ".lock") {
 
-- 
2.43.0


From 4ba1dd9eee3dbd6fc2e80525fa0d5ecbe0b48b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 25/76] fix: do not mistake a removed lock file for a new one
 with the same name

---
 src/cosim/utility/concurrency.cpp | 56 ++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index cf22397..0e374e2 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -17,6 +17,7 @@
 #    include <windows.h>
 #else
 #    include <fcntl.h>
+#    include <sys/stat.h>
 #endif
 
 
@@ -274,12 +275,59 @@ file_lock::file_mutex::file_mutex(const cosim::filesystem::path& path)
 { }
 
 
+namespace
+{
+// Identifies a file which is kept open.  A path can't be used for that, since
+// the file may be removed and another one be created in its place.
+class file_identity
+{
+public:
+    explicit file_identity(const cosim::filesystem::path& path)
+#ifdef _WIN32
+        // Here, an open file keeps others from having the same path.
+        : path_(cosim::filesystem::canonical(path))
+    { }
+#else
+    {
+        if (stat(path.c_str(), &status_) == -1) {
+            throw std::system_error(
+                errno,
+                std::system_category(),
+                "Failed to inspect lock file '" + path.string() + "'");
+        }
+    }
+#endif
+
+    bool is_same(const cosim::filesystem::path& path) const
+    {
+#ifdef _WIN32
+        // (There is an error if the other file has been removed meanwhile.)
+        std::error_code ignoredError;
+        return cosim::filesystem::equivalent(path, path_, ignoredError);
+#else
+        struct stat status;
+        return stat(path.c_str(), &status) == 0 &&
+            status.st_dev == status_.st_dev &&
+            status.st_ino == status_.st_ino;
+#endif
+    }
+
+private:
+#ifdef _WIN32
+    cosim::filesystem::path path_;
+#else
+    struct stat status_;
+#endif
+};
+} // namespace
+
+
 std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     const cosim::filesystem::path& path)
 {
     struct file_mutex_cache_entry
     {
-        cosim::filesystem::path path;
+        file_identity file;
         std::shared_ptr<file_mutex> fileMutex;
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
@@ -304,9 +352,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // an element corresponding to the given path in `fileMutexes`.
     if (cosim::filesystem::exists(path)) {
         for (const auto& entry : fileMutexCache) {
-            // (There is an error if the other file has been removed meanwhile.)
-            std::error_code ignoredError;
-            if (cosim::filesystem::equivalent(path, entry.path, ignoredError)) {
+            if (entry.file.is_same(path)) {
                 assert(!fileMutex);
                 fileMutex = entry.fileMutex;
             }
@@ -316,7 +362,7 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     // If no element corresponding to the given path was found, create one.
     if (!fileMutex) {
         fileMutex = std::make_shared<file_mutex>(path);
-        fileMutexCache.push_back({cosim::filesystem::canonical(path), fileMutex});
+        fileMutexCache.push_back({file_identity(path), fileMutex});
     }
 
     return fileMutex;
-- 
2.43.0


From 975bdc20a2b5dc10254c90a727b788f333d23a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 26/76] fix: keep track of all read-only handles to a temporary
 cache directory

---
 src/cosim/file_cache.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index e402d21..67c8e60 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -104,8 +104,11 @@ public:
         }
         const auto path = root_->path() / percent_encode(key);
 
-        auto ownership = std::make_shared<dummy>();
-        owns.ro = ownership;
+        auto ownership = owns.ro.lock();
+        if (!ownership) {
+            ownership = std::make_shared<dummy>();
+            owns.ro = ownership;
+        }
         return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
     }
 
-- 
2.43.0


From aff3e395e222e4c51255eb89d2e3278de47cc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 27/76] fix: do not take a temporary cache directory that could
 not be created for valid

---
 src/cosim/file_cache.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 67c8e60..9addafe 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -82,13 +82,15 @@ public:
 
     std::unique_ptr<directory_rw> get_directory_rw(std::string_view key)
     {
+        // If this fails, the key must remain invalid for get_directory_ro().
+        const auto path = root_->path() / percent_encode(key);
+        cosim::filesystem::create_directories(path);
+
         auto& owns = get_ownership(std::string(key), true);
         if (owns.rw.use_count() + owns.ro.use_count() > 0) {
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
-        cosim::filesystem::create_directories(path);
 
         auto ownership = std::make_shared<dummy>();
         owns.rw = ownership;
-- 
2.43.0


From 7f1738fe41ab034f0b39177c7e5682391920b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 28/76] fix: keep the directories of keys like '..' inside the
 temporary cache

---
 src/cosim/file_cache.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 9addafe..08f177c 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -83,7 +83,7 @@ public:
     std::unique_ptr<directory_rw> get_directory_rw(std::string_view key)
     {
         // If this fails, the key must remain invalid for get_directory_ro().
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
         cosim::filesystem::create_directories(path);
 
         auto& owns = get_ownership(std::string(key), true);
@@ -104,7 +104,7 @@ public:
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
-        const auto path = root_->path() / percent_encode(key);
+        const auto path = subdir_path(key);
 
         auto ownership = owns.ro.lock();
         if (!ownership) {
@@ -121,6 +121,16 @@ private:
         std::weak_ptr<dummy> ro;
     };
 
+    cosim::filesystem::path subdir_path(std::string_view key) const
+    {
+        // The extension ensures that keys such as "." and ".." also refer to
+        // subdirectories.
+        auto p = root_->path();
+        p /= percent_encode(key);
+        p += ".data";
+        return p;
+    }
+
     subdirectory_ownership& get_ownership(const std::string& key, bool create)
     {
         auto it = ownerships_.find(key);
-- 
2.43.0


From a89a530d24aedc567262ef470e3cd1a7a4f6ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 29/76] fix: report failures to write the last part of an
 extracted file

---
 src/cosim/utility/zip.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 0e156ee..5950498 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -226,6 +226,7 @@ void extract_file_as(
             targetPath.string());
     }
     copy_to_stream(srcFile, tgtFile, buffer);
+    tgtFile.close(); // may write, and fail to write, the last data
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
-- 
2.43.0


From fc8730689ed25e10b5e11980cc86b37ff31e8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 30/76] fix: refuse archive entries outside the target
 directory

---
 src/cosim/utility/zip.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 5950498..310c4c4 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -257,6 +257,11 @@ void archive::extract_all(
                 throw error(
                     "Archive contains an entry with an absolute path: " + entryName);
             }
+            const auto normalPath = entryPath.lexically_normal();
+            if (!normalPath.empty() && *normalPath.begin() == "..") {
+                throw error(
+                    "Archive contains an entry outside the target directory: " + entryName);
+            }
             const auto targetPath = targetDir / entryPath;
             if (entryName.back() == '/') {
                 cosim::filesystem::create_directories(targetPath);
-- 
2.43.0


From bd0fcdccc7ab141bfe0db7c4df035b364b233cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:40 +0000
Subject: [PATCH 31/76] fix: do not take an archive entry with a damaged size
 for an empty file

---
 src/cosim/utility/zip.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 310c4c4..8b6001e 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -191,18 +191,21 @@ bool archive::is_dir_entry(entry_index index) const
 
 namespace
 {
-void copy_to_stream(
+std::uint64_t copy_to_stream(
     auto_zip_file& source,
     std::ostream& target,
     std::vector<char>& buffer)
 {
     assert(target.good());
     assert(!buffer.empty());
+    std::uint64_t total = 0;
     for (;;) {
         const auto n = source.read(buffer.data(), buffer.size());
         if (n == 0) break;
         target.write(buffer.data(), n);
+        total += n;
     }
+    return total;
 }
 
 void extract_file_as(
@@ -215,6 +218,10 @@ void extract_file_as(
     assert(!targetPath.empty());
     assert(!buffer.empty());
 
+    struct zip_stat srcInfo;
+    if (zip_stat_index(archive, index, 0, &srcInfo)) {
+        throw error(archive);
+    }
     auto_zip_file srcFile(archive, index, 0);
     std::ofstream tgtFile(
         targetPath.string(),
@@ -225,13 +232,17 @@ void extract_file_as(
             std::generic_category(),
             targetPath.string());
     }
-    copy_to_stream(srcFile, tgtFile, buffer);
+    const auto size = copy_to_stream(srcFile, tgtFile, buffer);
     tgtFile.close(); // may write, and fail to write, the last data
     if (tgtFile.fail()) {
         throw std::system_error(
             make_error_code(std::errc::io_error),
             targetPath.string());
     }
+    // libzip doesn't verify entries whose compressed size is given as zero.
+    if ((srcInfo.valid & ZIP_STAT_SIZE) && size != srcInfo.size) {
+        throw error("Wrong size of archive entry: " + targetPath.string());
+    }
 }
 } // namespace
 
-- 
2.43.0


From b97121bd64d225770f8848b558e37dd5083a7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 32/76] fix: never return a null pointer from the FMU importer

The last reference to an already imported FMU may be dropped by another
thread right after the importer has looked it up.
---
 src/cosim/fmi/importer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index 9e4fa90..5df184e 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -162,7 +162,10 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
 {
     prune_ptr_caches();
     auto pit = pathCache_.find(fmuPath);
-    if (pit != end(pathCache_)) return pit->second.lock();
+    if (pit != end(pathCache_)) {
+        // It may be released by another thread at any time.
+        if (auto fmuObj = pit->second.lock()) return fmuObj;
+    }
 
     // Unzip the model description into a temporary folder
     const auto tempMdDir = utility::temp_dir();
@@ -185,7 +188,9 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
 
     // If we have already loaded this FMU, return our existing instance.
     auto git = guidCache_.find(minModelDesc.guid);
-    if (git != end(guidCache_)) return git->second.lock();
+    if (git != end(guidCache_)) {
+        if (auto fmuObj = git->second.lock()) return fmuObj;
+    }
 
     // Get a cache directory to hold the entire FMU contents.
 
@@ -251,7 +256,9 @@ std::shared_ptr<fmu> importer::import_unpacked(
             "Unsupported FMI version for FMU at '" + unpackedFMUPath.string() + "'");
     }
     auto git = guidCache_.find(minModelDesc.guid);
-    if (git != end(guidCache_)) return git->second.lock();
+    if (git != end(guidCache_)) {
+        if (auto fmuObj = git->second.lock()) return fmuObj;
+    }
 
     auto unpackedFMUDir = std::make_unique<existing_directory_ro>(unpackedFMUPath);
     auto fmuObj = minModelDesc.fmiVersion == fmi_version::v1_0
-- 
2.43.0


From 88521ef3b4b8d8453db827d0fdb842a0ae6d432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 33/76] fix: do not use an FMU whose unpacking was interrupted

If the process died in the middle of it, an up-to-date model description
was mistaken for a completely unpacked FMU from then on. Likewise, an FMU
that was replaced by one older than the unpacked files was not unpacked.
---
 src/cosim/fmi/importer.cpp | 68 +++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index 5df184e..26deabf 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -20,7 +20,10 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <fstream>
+#include <ios>
 #include <new>
+#include <stdexcept>
 
 
 namespace cosim
@@ -147,12 +150,51 @@ minimal_model_description peek_model_description(
     return md;
 }
 
-bool is_outdated(
-    const cosim::filesystem::path& file,
-    const cosim::filesystem::path& comparator)
+using file_time = decltype(cosim::filesystem::last_write_time(cosim::filesystem::path()));
+
+// The name of a file in the unpack directory which says that *all* the files
+// of the FMU have been unpacked, and how old the FMU file was.
+constexpr const char* completion_marker = ".cosim-unpacked";
+
+void write_completion_marker(
+    const cosim::filesystem::path& fmuUnpackDir,
+    file_time fmuTime)
+{
+    std::ofstream file;
+    file.exceptions(std::ios::badbit | std::ios::failbit);
+    file.open((fmuUnpackDir / completion_marker).string(), std::ios::trunc);
+    file << fmuTime.time_since_epoch().count() << '\n';
+    file.close();
+}
+
+// Whether the directory contains a complete FMU at least as new as `fmuTime`.
+bool is_up_to_date(
+    const cosim::filesystem::path& fmuUnpackDir,
+    file_time fmuTime)
 {
-    return !cosim::filesystem::exists(file) ||
-        cosim::filesystem::last_write_time(comparator) > cosim::filesystem::last_write_time(file);
+    const auto markerPath = fmuUnpackDir / completion_marker;
+    if (!cosim::filesystem::exists(markerPath)) return false;
+
+    std::ifstream file(markerPath.string());
+    file_time::rep unpackedTime;
+    // The end-of-line character tells us that the number is complete.
+    const auto complete = file >> unpackedTime && file.get() == '\n';
+    if (!file.is_open() || file.bad()) {
+        throw std::runtime_error("Failed to read file: " + markerPath.string());
+    }
+    return complete && unpackedTime >= fmuTime.time_since_epoch().count();
+}
+
+void unpack(
+    const cosim::utility::zip::archive& zip,
+    const cosim::filesystem::path& fmuUnpackDir,
+    file_time fmuTime)
+{
+    // As long as the marker is missing, nobody can erroneously think that the
+    // unpacking was successful, even if we're interrupted.
+    cosim::filesystem::remove(fmuUnpackDir / completion_marker);
+    zip.extract_all(fmuUnpackDir);
+    write_completion_marker(fmuUnpackDir, fmuTime);
 }
 
 } // namespace
@@ -167,6 +209,9 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
         if (auto fmuObj = pit->second.lock()) return fmuObj;
     }
 
+    // This must be read before the file itself, in case it gets replaced.
+    const auto fmuTime = cosim::filesystem::last_write_time(fmuPath);
+
     // Unzip the model description into a temporary folder
     const auto tempMdDir = utility::temp_dir();
     const auto zip = cosim::utility::zip::archive(fmuPath);
@@ -201,17 +246,8 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
     auto fmuUnpackDir = fileCache_->get_directory_rw(guidStr);
 
     // Unzip the entire FMU if necessary.
-    const auto modelDescriptionPath = fmuUnpackDir->path() / "modelDescription.xml";
-    if (is_outdated(modelDescriptionPath, fmuPath)) {
-        try {
-            zip.extract_all(fmuUnpackDir->path());
-        } catch (...) {
-            // Remove model description again, so we don't erroneously think
-            // that the unpacking was successful the next time we try it.
-            std::error_code ignoredError;
-            cosim::filesystem::remove(modelDescriptionPath, ignoredError);
-            throw;
-        }
+    if (!is_up_to_date(fmuUnpackDir->path(), fmuTime)) {
+        unpack(zip, fmuUnpackDir->path(), fmuTime);
     }
 
     // Drop R/W privileges and acquire read-only access to FMU cache directory
-- 
2.43.0


From 9b6a8fa51dddbbaec8036550db0c59b1be31bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 34/76] fix: do not require exclusive access to an FMU that is
 already unpacked

The import of an FMU waited until nobody else used it, which may be never
(two importers in one thread), or failed (with a temporary file cache).
It also failed if a cleanup removed the directory before it was used.
---
 src/cosim/fmi/importer.cpp | 43 +++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/cosim/fmi/importer.cpp b/src/cosim/fmi/importer.cpp
index 26deabf..bab2001 100644
--- a/src/cosim/fmi/importer.cpp
+++ b/src/cosim/fmi/importer.cpp
@@ -197,6 +197,38 @@ void unpack(
     write_completion_marker(fmuUnpackDir, fmuTime);
 }
 
+// Returns the cache directory that holds the FMU contents, unpacking the FMU
+// if necessary.
+std::unique_ptr<file_cache::directory_ro> get_unpacked(
+    file_cache& cache,
+    const std::string& key,
+    const cosim::utility::zip::archive& zip,
+    file_time fmuTime)
+{
+    for (;;) {
+        // Don't ask for exclusive access if we don't need it, because others
+        // may use the directory for as long as they like.
+        std::unique_ptr<file_cache::directory_ro> unpackDirRO;
+        try {
+            unpackDirRO = cache.get_directory_ro(key);
+        } catch (const std::logic_error&) {
+            // It doesn't exist (any more).
+        }
+        if (unpackDirRO && is_up_to_date(unpackDirRO->path(), fmuTime)) {
+            return unpackDirRO;
+        }
+        unpackDirRO.reset();
+
+        auto unpackDirRW = cache.get_directory_rw(key);
+        if (!is_up_to_date(unpackDirRW->path(), fmuTime)) {
+            unpack(zip, unpackDirRW->path(), fmuTime);
+        }
+
+        // Drop R/W privileges and acquire read-only access. In between, the
+        // directory may be removed again.
+    }
+}
+
 } // namespace
 
 
@@ -243,16 +275,7 @@ std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& fmuPath)
     guidStr.erase(std::remove(guidStr.begin(), guidStr.end(), '{'), guidStr.end());
     guidStr.erase(std::remove(guidStr.begin(), guidStr.end(), '}'), guidStr.end());
 
-    auto fmuUnpackDir = fileCache_->get_directory_rw(guidStr);
-
-    // Unzip the entire FMU if necessary.
-    if (!is_up_to_date(fmuUnpackDir->path(), fmuTime)) {
-        unpack(zip, fmuUnpackDir->path(), fmuTime);
-    }
-
-    // Drop R/W privileges and acquire read-only access to FMU cache directory
-    fmuUnpackDir.reset();
-    auto fmuUnpackDirRO = fileCache_->get_directory_ro(guidStr);
+    auto fmuUnpackDirRO = get_unpacked(*fileCache_, guidStr, zip, fmuTime);
 
     // Create and return an `fmu` object.
     auto fmuObj = minModelDesc.fmiVersion == fmi_version::v1_0
-- 
2.43.0


From c497530b72e602c8e9d7afbd958f6af31c884919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 35/76] fix: free the handle of an FMU that is not for
 co-simulation

---
 src/cosim/fmi/v1/fmu.cpp | 1 +
 src/cosim/fmi/v2/fmu.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index f7fc72c..ac44db5 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -53,6 +53,7 @@ fmu::fmu(
     const auto fmuKind = fmi1_import_get_fmu_kind(handle_);
     if (fmuKind != fmi1_fmu_kind_enu_cs_standalone &&
         fmuKind != fmi1_fmu_kind_enu_cs_tool) {
+        fmi1_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index 7267c38..e48a326 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -52,6 +52,7 @@ fmu::fmu(
     }
     const auto fmuKind = fmi2_import_get_fmu_kind(handle_);
     if (!(fmuKind & fmi2_fmu_kind_cs)) {
+        fmi2_import_free(handle_);
         throw error(
             make_error_code(errc::unsupported_feature),
             "Not a co-simulation FMU");
-- 
2.43.0


From d9c172db0ebe1fd69fa6e4c5dd6d4db68897e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 36/76] fix: do not report log messages of earlier FMU
 instances

If an FMU instance failed without logging anything, the last message of an
earlier instance with the same name was reported as the reason.
---
 src/cosim/fmi/v1/fmu.cpp | 9 +++++++++
 src/cosim/fmi/v2/fmu.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index ac44db5..2bc420e 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -263,6 +263,12 @@ log_record last_log_record(const std::string& instanceName)
             std::string(it->second.message.c_str())};
     }
 }
+
+void forget_log_records(const std::string& instanceName)
+{
+    std::lock_guard<std::mutex> lock(g_logMutex);
+    g_logRecords.erase(instanceName);
+}
 } // namespace
 
 
@@ -279,6 +285,9 @@ slave_instance::slave_instance(
     , instanceName_(instanceName)
 {
     assert(!instanceName.empty());
+    // There may be some from an earlier instance with the same name.
+    forget_log_records(instanceName_);
+
     if (handle_ == nullptr) {
         throw error(
             make_error_code(errc::bad_file),
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index e48a326..ef6e20e 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -263,6 +263,12 @@ log_record last_log_record(const std::string& instanceName)
             std::string(it->second.message.c_str())};
     }
 }
+
+void forget_log_records(const std::string& instanceName)
+{
+    std::lock_guard<std::mutex> lock(g_logMutex);
+    g_logRecords.erase(instanceName);
+}
 } // namespace
 
 
@@ -279,6 +285,9 @@ slave_instance::slave_instance(
     , instanceName_(instanceName)
 {
     assert(!instanceName.empty());
+    // There may be some from an earlier instance with the same name.
+    forget_log_records(instanceName_);
+
     if (handle_ == nullptr) {
         throw error(
             make_error_code(errc::bad_file),
-- 
2.43.0


From e892367b7bb270dc0e0e0f29395ae01909fbb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 37/76] fix: do not call FMU functions that are not allowed
 after an error

According to the FMI standard, an instance must not be terminated after it
has returned an error, and not even be freed after a fatal error.
---
 include/cosim/fmi/v1/fmu.hpp |  6 +++
 include/cosim/fmi/v2/fmu.hpp |  6 +++
 src/cosim/fmi/v1/fmu.cpp     | 65 ++++++++++++++------------------
 src/cosim/fmi/v2/fmu.cpp     | 73 +++++++++++++++---------------------
 4 files changed, 72 insertions(+), 78 deletions(-)

diff --git a/include/cosim/fmi/v1/fmu.hpp b/include/cosim/fmi/v1/fmu.hpp
index ce3971a..626a0f5 100644
--- a/include/cosim/fmi/v1/fmu.hpp
+++ b/include/cosim/fmi/v1/fmu.hpp
@@ -10,6 +10,7 @@
 #ifndef COSIM_FMI_V1_FMU_HPP
 #define COSIM_FMI_V1_FMU_HPP
 
+#include <cosim/exception.hpp>
 #include <cosim/file_cache.hpp>
 #include <cosim/fmi/fmu.hpp>
 #include <cosim/fmi/importer.hpp>
@@ -178,10 +179,15 @@ public:
     fmi1_import_t* fmilib_handle() const;
 
 private:
+    // Takes note of a failed call and returns the corresponding exception.
+    error model_error(int status) const;
+
     std::shared_ptr<v1::fmu> fmu_;
     fmi1_import_t* handle_;
 
     bool simStarted_ = false;
+    mutable bool hasError_ = false;
+    mutable bool hasFatalError_ = false;
 
     std::string instanceName_;
     time_point startTime_;
diff --git a/include/cosim/fmi/v2/fmu.hpp b/include/cosim/fmi/v2/fmu.hpp
index c383c00..b9b06fe 100644
--- a/include/cosim/fmi/v2/fmu.hpp
+++ b/include/cosim/fmi/v2/fmu.hpp
@@ -10,6 +10,7 @@
 #ifndef COSIM_FMI_V2_FMU_HPP
 #define COSIM_FMI_V2_FMU_HPP
 
+#include <cosim/exception.hpp>
 #include <cosim/file_cache.hpp>
 #include <cosim/fmi/fmu.hpp>
 #include <cosim/fmi/importer.hpp>
@@ -178,11 +179,16 @@ public:
     fmi2_import_t* fmilib_handle() const;
 
 private:
+    // Takes note of a failed call and returns the corresponding exception.
+    error model_error(int status) const;
+
     std::shared_ptr<v2::fmu> fmu_;
     fmi2_import_t* handle_;
 
     bool setupComplete_ = false;
     bool simStarted_ = false;
+    mutable bool hasError_ = false;
+    mutable bool hasFatalError_ = false;
 
     std::string instanceName_;
 };
diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index 2bc420e..d0bb788 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -328,10 +328,15 @@ slave_instance::slave_instance(
 
 slave_instance::~slave_instance() noexcept
 {
-    if (simStarted_) {
-        fmi1_import_terminate_slave(handle_);
+    // After an error, the instance may only be freed, and after a fatal error,
+    // no function may be called for it.
+    if (simStarted_ && !hasError_) {
+        const auto rc = fmi1_import_terminate_slave(handle_);
+        if (rc == fmi1_status_fatal) hasFatalError_ = true;
+    }
+    if (!hasFatalError_) {
+        fmi1_import_free_slave_instance(handle_);
     }
-    fmi1_import_free_slave_instance(handle_);
     fmi1_import_destroy_dllfmu(handle_);
     fmi1_import_free(handle_);
 }
@@ -356,9 +361,7 @@ void slave_instance::start_simulation()
         stopTime_.has_value(),
         stopTime_ ? to_double_time_point(*stopTime_) : 0.0);
     if (rc != fmi1_status_ok && rc != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rc);
     }
     simStarted_ = true;
 }
@@ -370,9 +373,7 @@ void slave_instance::end_simulation()
     const auto rc = fmi1_import_terminate_slave(handle_);
     simStarted_ = false;
     if (rc != fmi1_status_ok && rc != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rc);
     }
 }
 
@@ -390,9 +391,7 @@ step_result slave_instance::do_step(time_point currentT, duration deltaT)
     } else if (rc == fmi1_status_discard) {
         return step_result::failed;
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rc);
     }
 }
 
@@ -406,9 +405,7 @@ void slave_instance::get_real_variables(
     const auto status = fmi1_import_get_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -422,9 +419,7 @@ void slave_instance::get_integer_variables(
     const auto status = fmi1_import_get_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -439,9 +434,7 @@ void slave_instance::get_boolean_variables(
     const auto status = fmi1_import_get_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] != fmi1_false);
@@ -459,9 +452,7 @@ void slave_instance::get_string_variables(
     const auto status = fmi1_import_get_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] == nullptr) ? std::string()
@@ -483,9 +474,7 @@ void slave_instance::set_real_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -503,9 +492,7 @@ void slave_instance::set_integer_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -528,9 +515,7 @@ void slave_instance::set_boolean_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -552,9 +537,7 @@ void slave_instance::set_string_variables(
     } else if (status == fmi1_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -571,6 +554,16 @@ fmi1_import_t* slave_instance::fmilib_handle() const
 }
 
 
+error slave_instance::model_error(int status) const
+{
+    if (status == fmi1_status_error || status == fmi1_status_fatal) hasError_ = true;
+    if (status == fmi1_status_fatal) hasFatalError_ = true;
+    return error(
+        make_error_code(errc::model_error),
+        last_log_record(instanceName_).message);
+}
+
+
 } // namespace v1
 } // namespace fmi
 } // namespace cosim
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index ef6e20e..717b1f8 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -327,10 +327,15 @@ slave_instance::slave_instance(
 
 slave_instance::~slave_instance() noexcept
 {
-    if (simStarted_) {
-        fmi2_import_terminate(handle_);
+    // After an error, the instance may only be freed, and after a fatal error,
+    // no function may be called for it.
+    if (simStarted_ && !hasError_) {
+        const auto rc = fmi2_import_terminate(handle_);
+        if (rc == fmi2_status_fatal) hasFatalError_ = true;
+    }
+    if (!hasFatalError_) {
+        fmi2_import_free_instance(handle_);
     }
-    fmi2_import_free_instance(handle_);
     fmi2_import_destroy_dllfmu(handle_);
     fmi2_import_free(handle_);
 }
@@ -350,16 +355,12 @@ void slave_instance::setup(
         stopTime ? fmi2_true : fmi2_false,
         stopTime ? to_double_time_point(*stopTime) : 0.0);
     if (rcs != fmi2_status_ok && rcs != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rcs);
     }
 
     const auto rce = fmi2_import_enter_initialization_mode(handle_);
     if (rce != fmi2_status_ok && rce != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rce);
     }
 
     setupComplete_ = true;
@@ -372,9 +373,7 @@ void slave_instance::start_simulation()
     assert(!simStarted_);
     const auto rc = fmi2_import_exit_initialization_mode(handle_);
     if (rc != fmi2_status_ok && rc != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rc);
     }
     simStarted_ = true;
 }
@@ -386,9 +385,7 @@ void slave_instance::end_simulation()
     const auto rc = fmi2_import_terminate(handle_);
     simStarted_ = false;
     if (rc != fmi2_status_ok && rc != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rc);
     }
 }
 
@@ -410,9 +407,7 @@ step_result slave_instance::do_step(time_point currentT, duration deltaT)
             make_error_code(errc::unsupported_feature),
             "Slave performs time step asynchronously");
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(rc);
     }
 }
 
@@ -426,9 +421,7 @@ void slave_instance::get_real_variables(
     const auto status = fmi2_import_get_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -442,9 +435,7 @@ void slave_instance::get_integer_variables(
     const auto status = fmi2_import_get_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -459,9 +450,7 @@ void slave_instance::get_boolean_variables(
     const auto status = fmi2_import_get_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] != fmi2_false);
@@ -479,9 +468,7 @@ void slave_instance::get_string_variables(
     const auto status = fmi2_import_get_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
     for (std::size_t i = 0; i < values.size(); ++i) {
         values[i] = (fmiValues[i] == nullptr) ? std::string()
@@ -503,9 +490,7 @@ void slave_instance::set_real_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -523,9 +508,7 @@ void slave_instance::set_integer_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -548,9 +531,7 @@ void slave_instance::set_boolean_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -572,9 +553,7 @@ void slave_instance::set_string_variables(
     } else if (status == fmi2_status_discard) {
         throw nonfatal_bad_value(last_log_record(instanceName_).message);
     } else {
-        throw error(
-            make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+        throw model_error(status);
     }
 }
 
@@ -591,6 +570,16 @@ fmi2_import_t* slave_instance::fmilib_handle() const
 }
 
 
+error slave_instance::model_error(int status) const
+{
+    if (status == fmi2_status_error || status == fmi2_status_fatal) hasError_ = true;
+    if (status == fmi2_status_fatal) hasFatalError_ = true;
+    return error(
+        make_error_code(errc::model_error),
+        last_log_record(instanceName_).message);
+}
+
+
 } // namespace v2
 } // namespace fmi
 } // namespace cosim
-- 
2.43.0


From c608938c2be6320cb91c268bf62e4b820d19678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 38/76] fix: make it safe to load OSP configurations in several
 threads

---
 src/cosim/osp_config_parser.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index b909f96..bbf033d 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -21,6 +21,7 @@
 
 #include <ios>
 #include <memory>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -108,6 +109,20 @@ private:
     bool invoke_{true};
 };
 
+// Initialises Xerces, and terminates it again when the returned object is
+// destroyed.  Xerces counts how many times it has been initialised, but it
+// does not protect itself against simultaneous calls from several threads.
+auto initialize_xerces()
+{
+    static std::mutex mutex;
+    const std::lock_guard<std::mutex> lock(mutex);
+    xercesc::XMLPlatformUtils::Initialize();
+    return final_action([]() {
+        const std::lock_guard<std::mutex> lock(mutex);
+        xercesc::XMLPlatformUtils::Terminate();
+    });
+}
+
 class osp_config_parser
 {
 
@@ -261,10 +276,7 @@ osp_config_parser::osp_config_parser(
     const cosim::filesystem::path& configPath)
 {
     // Root node
-    xercesc::XMLPlatformUtils::Initialize();
-    const auto xerces_cleanup = final_action([]() {
-        xercesc::XMLPlatformUtils::Terminate();
-    });
+    const auto xerces_cleanup = initialize_xerces();
 
     const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
     const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(
@@ -610,10 +622,7 @@ struct extended_model_description
 {
     explicit extended_model_description(const cosim::filesystem::path& ospModelDescription)
     {
-        xercesc::XMLPlatformUtils::Initialize();
-        const auto xerces_cleanup = final_action([]() {
-            xercesc::XMLPlatformUtils::Terminate();
-        });
+        const auto xerces_cleanup = initialize_xerces();
 
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
-- 
2.43.0


From bf895c44518d5b8c37e886fb40e0d88889d58c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 39/76] fix: connect function outputs to all their targets, and
 refuse connections to unknown function signals

---
 src/cosim/osp_config_parser.cpp | 115 +++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 45 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index bbf033d..f938986 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -19,6 +19,7 @@
 #include <xercesc/util/PlatformUtils.hpp>
 #include <xercesc/util/XMLString.hpp>
 
+#include <algorithm>
 #include <ios>
 #include <memory>
 #include <mutex>
@@ -672,21 +673,36 @@ struct extended_model_description
 namespace
 {
 
-osp_config_parser::SignalConnection find_signal_connection(
-    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
+// Finds all connections to a signal (or signal group) and removes them from
+// `signalConnections`.
+std::vector<osp_config_parser::SignalConnection> take_signal_connections(
+    std::vector<osp_config_parser::SignalConnection>& signalConnections,
     const std::string& functionName,
     const std::string& signalName)
 {
-    auto it = std::find_if(
+    const auto it = std::stable_partition(
         signalConnections.begin(),
         signalConnections.end(),
-        [&](const auto& conn) { return functionName == conn.signal.function && signalName == conn.signal.name; });
-    if (it == signalConnections.end()) {
+        [&](const auto& conn) { return functionName != conn.signal.function || signalName != conn.signal.name; });
+    std::vector<osp_config_parser::SignalConnection> result(it, signalConnections.end());
+    signalConnections.erase(it, signalConnections.end());
+    if (result.empty()) {
         std::ostringstream oss;
         oss << "Missing expected connection to " << functionName << ":" << signalName;
         throw std::out_of_range(oss.str());
     }
-    return *it;
+    return result;
+}
+
+void require_no_signal_connections(
+    const std::vector<osp_config_parser::SignalConnection>& signalConnections)
+{
+    if (!signalConnections.empty()) {
+        std::ostringstream oss;
+        oss << "Cannot find function signal " << signalConnections.front().signal.function
+            << ":" << signalConnections.front().signal.name;
+        throw std::out_of_range(oss.str());
+    }
 }
 
 } // namespace
@@ -824,7 +840,7 @@ void connect_variable_groups(
 
 void connect_linear_transformation_functions(
     const std::unordered_map<std::string, osp_config_parser::LinearTransformationFunction>& functions,
-    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
+    std::vector<osp_config_parser::SignalConnection>& signalConnections,
     system_structure& systemStructure)
 {
     for (const auto& [functionName, function] : functions) {
@@ -836,20 +852,22 @@ void connect_linear_transformation_functions(
             std::make_shared<linear_transformation_function_type>(),
             functionParams);
 
-        const auto inConn = find_signal_connection(signalConnections, functionName, function.in.name);
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(inConn.variable.simulator, inConn.variable.name),
-            full_variable_name(functionName, "in", ""));
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        for (const auto& inConn : take_signal_connections(signalConnections, functionName, function.in.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                full_variable_name(functionName, "in", ""));
+        }
+        for (const auto& outConn : take_signal_connections(signalConnections, functionName, function.out.name)) {
+            systemStructure.connect_variables(
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
+        }
     }
 }
 
 void connect_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::SumFunction>& functions,
-    const std::vector<osp_config_parser::SignalConnection>& signalConnections,
+    std::vector<osp_config_parser::SignalConnection>& signalConnections,
     system_structure& systemStructure)
 {
     for (const auto& [functionName, function] : functions) {
@@ -861,21 +879,23 @@ void connect_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; i++) {
-            const auto inConn = find_signal_connection(signalConnections, functionName, function.ins.at(i).name);
+            for (const auto& inConn : take_signal_connections(signalConnections, functionName, function.ins.at(i).name)) {
+                systemStructure.connect_variables(
+                    full_variable_name(inConn.variable.simulator, inConn.variable.name),
+                    full_variable_name(functionName, "in", i, "", 0));
+            }
+        }
+        for (const auto& outConn : take_signal_connections(signalConnections, functionName, function.out.name)) {
             systemStructure.connect_variables(
-                full_variable_name(inConn.variable.simulator, inConn.variable.name),
-                full_variable_name(functionName, "in", i, "", 0));
+                full_variable_name(functionName, "out", ""),
+                full_variable_name(outConn.variable.simulator, outConn.variable.name));
         }
-        const auto outConn = find_signal_connection(signalConnections, functionName, function.out.name);
-        systemStructure.connect_variables(
-            full_variable_name(functionName, "out", ""),
-            full_variable_name(outConn.variable.simulator, outConn.variable.name));
     }
 }
 
 void connect_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
-    const std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
+    std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
     system_structure& systemStructure,
     const std::unordered_map<std::string, extended_model_description>& emds)
 {
@@ -889,29 +909,29 @@ void connect_vector_sum_functions(
             functionParams);
 
         for (int i = 0; i < function.inputCount; ++i) {
-            const auto inGroupConn = find_signal_connection(
-                signalGroupConnections, functionName, function.inGroups.at(i).name);
-            const auto& inEmd = emds.at(inGroupConn.variable.simulator);
-            const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+            for (const auto& inGroupConn : take_signal_connections(signalGroupConnections, functionName, function.inGroups.at(i).name)) {
+                const auto& inEmd = emds.at(inGroupConn.variable.simulator);
+                const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
+
+                for (int j = 0; j < function.dimension; ++j) {
+                    const auto& inVariableName = inVariableGroup.variables.at(j);
+                    systemStructure.connect_variables(
+                        full_variable_name(inGroupConn.variable.simulator, inVariableName),
+                        full_variable_name(functionName, "in", i, "", j));
+                }
+            }
+        }
 
+        for (const auto& outGroupConn : take_signal_connections(signalGroupConnections, functionName, function.outGroup.name)) {
+            const auto& outEmd = emds.at(outGroupConn.variable.simulator);
+            const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
             for (int j = 0; j < function.dimension; ++j) {
-                const auto& inVariableName = inVariableGroup.variables.at(j);
+                const auto& outVariableName = outVariableGroup.variables.at(j);
                 systemStructure.connect_variables(
-                    full_variable_name(inGroupConn.variable.simulator, inVariableName),
-                    full_variable_name(functionName, "in", i, "", j));
+                    full_variable_name(functionName, "out", 0, "", j),
+                    full_variable_name(outGroupConn.variable.simulator, outVariableName));
             }
         }
-
-        const auto outGroupConn = find_signal_connection(
-            signalGroupConnections, functionName, function.outGroup.name);
-        const auto& outEmd = emds.at(outGroupConn.variable.simulator);
-        const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
-        for (int j = 0; j < function.dimension; ++j) {
-            const auto& outVariableName = outVariableGroup.variables.at(j);
-            systemStructure.connect_variables(
-                full_variable_name(functionName, "out", 0, "", j),
-                full_variable_name(outGroupConn.variable.simulator, outVariableName));
-        }
     }
 }
 
@@ -1002,9 +1022,14 @@ osp_config load_osp_config(
 
     connect_variables(parser.get_variable_connections(), config.system_structure);
     connect_variable_groups(parser.get_variable_group_connections(), config.system_structure, emds);
-    connect_linear_transformation_functions(parser.get_linear_transformation_functions(), parser.get_signal_connections(), config.system_structure);
-    connect_sum_functions(parser.get_sum_functions(), parser.get_signal_connections(), config.system_structure);
-    connect_vector_sum_functions(parser.get_vector_sum_functions(), parser.get_signal_group_connections(), config.system_structure, emds);
+
+    auto signalConnections = parser.get_signal_connections();
+    connect_linear_transformation_functions(parser.get_linear_transformation_functions(), signalConnections, config.system_structure);
+    connect_sum_functions(parser.get_sum_functions(), signalConnections, config.system_structure);
+    require_no_signal_connections(signalConnections);
+    auto signalGroupConnections = parser.get_signal_group_connections();
+    connect_vector_sum_functions(parser.get_vector_sum_functions(), signalGroupConnections, config.system_structure, emds);
+    require_no_signal_connections(signalGroupConnections);
 
     return config;
 }
-- 
2.43.0


From 7dff77f3370fa95a8138f8e18e52ca5742a97903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 40/76] fix: do not crash on, or accept parts of, malformed OSP
 model descriptions

---
 src/cosim/osp_config_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index f938986..cd2fc86 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -628,9 +628,12 @@ struct extended_model_description
         const auto domImpl = xercesc::DOMImplementationRegistry::getDOMImplementation(tc("LS").get());
         const auto parser = static_cast<xercesc::DOMImplementationLS*>(domImpl)->createLSParser(xercesc::DOMImplementationLS::MODE_SYNCHRONOUS, tc("http://www.w3.org/2001/XMLSchema").get());
 
+        error_handler errorHandler;
+        parser->getDomConfig()->setParameter(xercesc::XMLUni::fgDOMErrorHandler, &errorHandler);
+
         const auto doc = parser->parseURI(ospModelDescription.string().c_str());
 
-        if (doc == nullptr) {
+        if (doc == nullptr || errorHandler.failed()) {
             std::ostringstream oss;
             oss << "Validation of " << ospModelDescription.string() << " failed.";
             BOOST_LOG_SEV(log::logger(), log::error) << oss.str();
@@ -640,6 +643,7 @@ struct extended_model_description
         const auto rootElement = doc->getDocumentElement();
 
         const auto variableGroupsElement = static_cast<xercesc::DOMElement*>(rootElement->getElementsByTagName(tc("VariableGroups").get())->item(0));
+        if (variableGroupsElement == nullptr) return;
 
         for (auto variableGroupElement = variableGroupsElement->getFirstElementChild(); variableGroupElement != nullptr; variableGroupElement = variableGroupElement->getNextElementSibling()) {
             variable_group_description vgd = create_variable_group_description(variableGroupElement);
-- 
2.43.0


From 59f8970d97cd5ca83eb9da6723d430dd8fc7f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 41/76] fix: connect variable groups at every level of nesting,
 and refuse connections to unknown groups

---
 src/cosim/osp_config_parser.cpp | 156 +++++++++++++++++---------------
 1 file changed, 81 insertions(+), 75 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index cd2fc86..40e986a 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -734,7 +734,7 @@ void connect_variables(
     }
 }
 
-extended_model_description get_emd(
+const extended_model_description& get_emd(
     const std::unordered_map<std::string, extended_model_description>& emds,
     const std::string& element)
 {
@@ -747,98 +747,104 @@ extended_model_description get_emd(
     return emdIt->second;
 }
 
-std::vector<std::string> get_variable_group_variables(
-    const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const osp_config_parser::VariableEndpoint& endpoint)
+// Finds a variable group among the given ones and the ones nested inside them.
+const variable_group_description* find_variable_group(
+    const std::vector<variable_group_description>& descriptions,
+    const std::string& name)
 {
-    std::vector<std::string> groupVariables;
-    auto groupIt = descriptions.find(endpoint.name);
-    if (groupIt == descriptions.end()) {
-        for (const auto& description : descriptions) {
-            if (description.second.variable_group_descriptions.size() != 0) {
-                std::unordered_map<std::string, variable_group_description> nestedDescriptions;
-                for (const auto& variableGroupDescr : description.second.variable_group_descriptions) {
-                    nestedDescriptions.insert({variableGroupDescr.name, variableGroupDescr});
-                }
-                groupVariables = get_variable_group_variables(nestedDescriptions, endpoint);
-                if (groupVariables.size() > 0) {
-                    break;
-                }
-            }
-        }
-    } else {
-        groupVariables = groupIt->second.variables;
+    for (const auto& description : descriptions) {
+        if (description.name == name) return &description;
+    }
+    for (const auto& description : descriptions) {
+        const auto nested = find_variable_group(description.variable_group_descriptions, name);
+        if (nested != nullptr) return nested;
     }
-    return groupVariables;
+    return nullptr;
 }
 
-std::vector<cosim::variable_group_description> get_variable_groups(
+const variable_group_description& get_variable_group(
     const std::unordered_map<std::string, variable_group_description>& descriptions,
-    const std::string& connector)
+    const osp_config_parser::VariableEndpoint& endpoint)
 {
-    auto groupIt = descriptions.find(connector);
-    if (groupIt == descriptions.end()) {
-        return {};
+    const auto groupIt = descriptions.find(endpoint.name);
+    if (groupIt != descriptions.end()) return groupIt->second;
+    for (const auto& description : descriptions) {
+        const auto nested = find_variable_group(
+            description.second.variable_group_descriptions, endpoint.name);
+        if (nested != nullptr) return *nested;
     }
-    return groupIt->second.variable_group_descriptions;
+    std::ostringstream oss;
+    oss << "Cannot find variable group " << endpoint.simulator << ":" << endpoint.name;
+    throw std::out_of_range(oss.str());
 }
 
+void connect_variable_group(
+    const std::string& simulatorA,
+    const variable_group_description& groupA,
+    const std::string& simulatorB,
+    const variable_group_description& groupB,
+    system_structure& systemStructure)
+{
+    const auto& variableGroupsA = groupA.variable_group_descriptions;
+    const auto& variableGroupsB = groupB.variable_group_descriptions;
+
+    if (variableGroupsA.size() != variableGroupsB.size()) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between variable groups. Variable group "
+            << simulatorA << ":" << groupA.name
+            << " has different size [" << variableGroupsA.size() << "] than variable group "
+            << simulatorB << ":" << groupB.name
+            << " size [" << variableGroupsB.size() << "]";
+        throw std::runtime_error(oss.str());
+    }
+
+    for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
+        connect_variable_group(
+            simulatorA, variableGroupsA.at(i),
+            simulatorB, variableGroupsB.at(i),
+            systemStructure);
+    }
+
+    const auto& variablesA = groupA.variables;
+    const auto& variablesB = groupB.variables;
+
+    if (variablesA.size() != variablesB.size()) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between variable groups. Variable group "
+            << simulatorA << ":" << groupA.name
+            << " has different size [" << variablesA.size() << "] than variable group "
+            << simulatorB << ":" << groupB.name
+            << " size [" << variablesB.size() << "]";
+        throw std::runtime_error(oss.str());
+    }
+
+    std::vector<osp_config_parser::VariableConnection> variableConnections;
+
+    // clang-format off
+    for (std::size_t i = 0; i < variablesA.size(); ++i) {
+        variableConnections.push_back({
+            {simulatorA, variablesA.at(i)},
+            {simulatorB, variablesB.at(i)}});
+    }
+    // clang-format on
+
+    connect_variables(variableConnections, systemStructure);
+}
 
 void connect_variable_groups(
     const std::vector<osp_config_parser::VariableConnection>& variableGroupConnections,
     system_structure& systemStructure,
     const std::unordered_map<std::string, extended_model_description>& emds)
 {
-
     for (const auto& connection : variableGroupConnections) {
         const auto& emdA = get_emd(emds, connection.variableA.simulator);
         const auto& emdB = get_emd(emds, connection.variableB.simulator);
-        const auto& variablesA = get_variable_group_variables(emdA.variableGroups, connection.variableA);
-        const auto& variablesB = get_variable_group_variables(emdB.variableGroups, connection.variableB);
-        const auto& variableGroupsA = get_variable_groups(emdA.variableGroups, connection.variableA.name);
-        const auto& variableGroupsB = get_variable_groups(emdB.variableGroups, connection.variableB.name);
-
-        if (variableGroupsA.size() != variableGroupsB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variableGroupsA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variableGroupsB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> nestedVariableGroupConnections;
-        // clang-format off
-        for (std::size_t i = 0; i < variableGroupsA.size(); ++i) {
-            nestedVariableGroupConnections.push_back({
-                {connection.variableA.simulator, variableGroupsA.at(i).name},
-                {connection.variableB.simulator, variableGroupsB.at(i).name}});
-        }
-        // clang-format on
-        connect_variable_groups(nestedVariableGroupConnections, systemStructure, emds);
-
-        if (variablesA.size() != variablesB.size()) {
-            std::ostringstream oss;
-            oss << "Cannot create connection between variable groups. Variable group "
-                << connection.variableA.simulator << ":" << connection.variableA.name
-                << " has different size [" << variablesA.size() << "] than variable group "
-                << connection.variableB.simulator << ":" << connection.variableB.name
-                << " size [" << variablesB.size() << "]";
-            throw std::runtime_error(oss.str());
-        }
-
-        std::vector<osp_config_parser::VariableConnection> variableConnections;
-
-        // clang-format off
-        for (std::size_t i = 0; i < variablesA.size(); ++i) {
-            variableConnections.push_back({
-                {connection.variableA.simulator, variablesA.at(i)},
-                {connection.variableB.simulator, variablesB.at(i)}});
-        }
-        // clang-format on
-
-        connect_variables(variableConnections, systemStructure);
+        connect_variable_group(
+            connection.variableA.simulator,
+            get_variable_group(emdA.variableGroups, connection.variableA),
+            connection.variableB.simulator,
+            get_variable_group(emdB.variableGroups, connection.variableB),
+            systemStructure);
     }
 }
 
-- 
2.43.0


From 3e34a79f0fc3221bebd9e24623f4873bd3361a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 42/76] fix: accept connections from calculated parameters, as
 system_structure does

---
 src/cosim/execution.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 86687f2..04e2cf5 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -307,7 +307,11 @@ private:
         const auto it = std::find_if(
             variables.begin(),
             variables.end(),
-            [=](const auto& var) { return var.causality == causality && var.type == variable.type && var.reference == variable.reference; });
+            [=](const auto& var) {
+                const auto validCausality = var.causality == causality ||
+                    (causality == variable_causality::output && var.causality == variable_causality::calculated_parameter);
+                return validCausality && var.type == variable.type && var.reference == variable.reference;
+            });
         if (it == variables.end()) {
             std::ostringstream oss;
             oss << "Problem adding connection: Cannot find variable with reference " << variable.reference
-- 
2.43.0


From 4abf2117222c02a3c2c0b6b8818a0ca5d1f20743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 43/76] fix: do not terminate the process because of
 unsupported types in an SSP

---
 src/cosim/ssp/ssp_parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 9ddb60a..886c7c0 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -5,8 +5,6 @@
  */
 #include "cosim/ssp/ssp_parser.hpp"
 
-#include "cosim/error.hpp"
-
 #include <boost/property_tree/xml_parser.hpp>
 
 namespace cosim
@@ -39,9 +37,9 @@ variable_type parse_connector_type(const boost::property_tree::ptree& tree)
     } else if (tree.get_child_optional("ssc:String")) {
         return variable_type::string;
     } else if (tree.get_child_optional("ssc:Enumeration")) {
-        COSIM_PANIC_M("Don't know how to handle Enumeration type!");
+        throw std::runtime_error("Don't know how to handle Enumeration type!");
     } else if (tree.get_child_optional("ssc:Binary")) {
-        COSIM_PANIC_M("Don't know how to handle Binary type!");
+        throw std::runtime_error("Don't know how to handle Binary type!");
     } else {
         throw std::invalid_argument("A valid connector type was not found!");
     }
@@ -66,7 +64,7 @@ ssp_parser::ParameterSet parse_parameter_set(const boost::property_tree::ptree&
             const auto value = get_attribute<std::string>(*stringParameter, "value");
             parameterSet.parameters.push_back({name, variable_type::string, value});
         } else {
-            COSIM_PANIC();
+            throw std::runtime_error("Missing or unsupported type of parameter '" + name + "'");
         }
     }
     return parameterSet;
-- 
2.43.0


From 79129539590e9ad88254abb43f75a5dad1a8575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 44/76] fix: refuse SSPs with several components of the same
 name

---
 src/cosim/ssp/ssp_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 886c7c0..7482e1e 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -181,7 +181,11 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                 }
             }
         }
-        elements_[comp.name] = comp;
+        if (!elements_.emplace(comp.name, comp).second) {
+            std::ostringstream oss;
+            oss << "More than one component named: '" << comp.name << "'!";
+            throw std::runtime_error(oss.str());
+        }
     }
 
     if (const auto connections = system.get_child_optional("ssd:Connections")) {
-- 
2.43.0


From 352d2d645ee9f980a4fdf226b1fbf25da57cb4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 45/76] fix: do not terminate the process because of
 enumeration variables

---
 src/cosim/manipulator/override_manipulator.cpp | 4 ++--
 src/cosim/observer/file_observer.cpp           | 3 ++-
 src/cosim/observer/slave_value_provider.cpp    | 1 +
 src/cosim/slave_simulator.cpp                  | 4 ++--
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cosim/manipulator/override_manipulator.cpp b/src/cosim/manipulator/override_manipulator.cpp
index bdad046..9a92417 100644
--- a/src/cosim/manipulator/override_manipulator.cpp
+++ b/src/cosim/manipulator/override_manipulator.cpp
@@ -3,11 +3,11 @@
  *  License, v. 2.0. If a copy of the MPL was not distributed with this
  *  file, You can obtain one at https://mozilla.org/MPL/2.0/.
  */
-#include "cosim/error.hpp"
 #include "cosim/manipulator.hpp"
 #include "cosim/utility/utility.hpp"
 
 #include <sstream>
+#include <stdexcept>
 
 namespace cosim
 {
@@ -189,7 +189,7 @@ void override_manipulator::reset_variable(
             add_action(index, variable, variable_type::string, scenario::string_modifier{nullptr});
             break;
         default:
-            COSIM_PANIC();
+            throw std::invalid_argument("Can't reset variable: variable type not supported");
     }
 }
 
diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index 3c79d36..b09664b 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -150,6 +150,7 @@ private:
 
     void initialize_variable(const variable_description& vd)
     {
+        if (vd.type == variable_type::enumeration) return; // not supported yet
         observable_->expose_for_getting(vd.type, vd.reference);
 
         switch (vd.type) {
@@ -539,7 +540,7 @@ file_observer::simulator_logging_config file_observer::parse_config(const std::s
                             BOOST_LOG_SEV(log::logger(), log::info) << "Logging variable: " << modelName << ":" << name;
                             break;
                         default:
-                            COSIM_PANIC_M("Variable type not supported.");
+                            throw std::runtime_error("Can't log variable with name " + name + ": variable type not supported");
                     }
                 }
             }
diff --git a/src/cosim/observer/slave_value_provider.cpp b/src/cosim/observer/slave_value_provider.cpp
index 14e60d1..278143f 100644
--- a/src/cosim/observer/slave_value_provider.cpp
+++ b/src/cosim/observer/slave_value_provider.cpp
@@ -36,6 +36,7 @@ slave_value_provider::slave_value_provider(observable* observable)
     : observable_(observable)
 {
     for (const auto& vd : observable->model_description().variables) {
+        if (vd.type == variable_type::enumeration) continue; // not supported yet
         observable->expose_for_getting(vd.type, vd.reference);
         switch (vd.type) {
             case cosim::variable_type::real:
diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 6e7088f..bf427ba 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -340,7 +340,7 @@ public:
                 stringGetCache_.expose(ref);
                 break;
             case variable_type::enumeration:
-                COSIM_PANIC();
+                throw std::invalid_argument("Can't handle variables of type 'enumeration' yet");
         }
     }
 
@@ -385,7 +385,7 @@ public:
                 stringSetCache_.expose(ref, get_start_value<std::string>(vd));
                 break;
             case variable_type::enumeration:
-                COSIM_PANIC();
+                throw std::invalid_argument("Can't handle variables of type 'enumeration' yet");
         }
     }
 
-- 
2.43.0


From 51c5f9969e31e9cd82b567ef2d1bd115c58c7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:00 +0000
Subject: [PATCH 46/76] fix: refuse connections between signal groups and
 variable groups of different sizes

A vector sum that was connected to a variable group with more variables
than its dimension silently used only the first ones.
---
 src/cosim/osp_config_parser.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 40e986a..19c9f64 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -903,6 +903,22 @@ void connect_sum_functions(
     }
 }
 
+void require_dimension(
+    const osp_config_parser::SignalConnection& connection,
+    const variable_group_description& variableGroup,
+    int dimension)
+{
+    if (variableGroup.variables.size() != static_cast<std::size_t>(dimension)) {
+        std::ostringstream oss;
+        oss << "Cannot create connection between signal group "
+            << connection.signal.function << ":" << connection.signal.name
+            << " of size [" << dimension << "] and variable group "
+            << connection.variable.simulator << ":" << connection.variable.name
+            << " of size [" << variableGroup.variables.size() << "]";
+        throw std::runtime_error(oss.str());
+    }
+}
+
 void connect_vector_sum_functions(
     const std::unordered_map<std::string, osp_config_parser::VectorSumFunction>& functions,
     std::vector<osp_config_parser::SignalConnection>& signalGroupConnections,
@@ -922,7 +938,7 @@ void connect_vector_sum_functions(
             for (const auto& inGroupConn : take_signal_connections(signalGroupConnections, functionName, function.inGroups.at(i).name)) {
                 const auto& inEmd = emds.at(inGroupConn.variable.simulator);
                 const auto& inVariableGroup = inEmd.variableGroups.at(inGroupConn.variable.name);
-
+                require_dimension(inGroupConn, inVariableGroup, function.dimension);
                 for (int j = 0; j < function.dimension; ++j) {
                     const auto& inVariableName = inVariableGroup.variables.at(j);
                     systemStructure.connect_variables(
@@ -935,6 +951,7 @@ void connect_vector_sum_functions(
         for (const auto& outGroupConn : take_signal_connections(signalGroupConnections, functionName, function.outGroup.name)) {
             const auto& outEmd = emds.at(outGroupConn.variable.simulator);
             const auto& outVariableGroup = outEmd.variableGroups.at(outGroupConn.variable.name);
+            require_dimension(outGroupConn, outVariableGroup, function.dimension);
             for (int j = 0; j < function.dimension; ++j) {
                 const auto& outVariableName = outVariableGroup.variables.at(j);
                 systemStructure.connect_variables(
-- 
2.43.0


From 474ffefcc48d2c1be1950d945a53b904275e2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:00 +0000
Subject: [PATCH 47/76] fix: refuse OSP configurations with several functions
 of the same name

Of several functions of the same kind with the same name, only the last
one was used.
---
 src/cosim/osp_config_parser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cosim/osp_config_parser.cpp b/src/cosim/osp_config_parser.cpp
index 19c9f64..477ea16 100644
--- a/src/cosim/osp_config_parser.cpp
+++ b/src/cosim/osp_config_parser.cpp
@@ -271,6 +271,16 @@ T attribute_or(xercesc::DOMElement* el, const char* attributeName, T defaultValu
     }
 }
 
+template<typename Function>
+void add_function(std::unordered_map<std::string, Function>& functions, const Function& function)
+{
+    if (!functions.emplace(function.name, function).second) {
+        std::ostringstream oss;
+        oss << "More than one function named: " << function.name;
+        throw std::runtime_error(oss.str());
+    }
+}
+
 } // namespace
 
 osp_config_parser::osp_config_parser(
@@ -376,7 +386,7 @@ osp_config_parser::osp_config_parser(
                 function.in = {"in", variable_type::real, variable_causality::input};
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                linearTransformationFunctions_[functionName] = function;
+                add_function(linearTransformationFunctions_, function);
 
             } else if ("Sum" == functionNodeName) {
                 SumFunction function;
@@ -391,7 +401,7 @@ osp_config_parser::osp_config_parser(
                 }
                 function.out = {"out", variable_type::real, variable_causality::output};
 
-                sumFunctions_[functionName] = function;
+                add_function(sumFunctions_, function);
 
             } else if ("VectorSum" == functionNodeName) {
                 VectorSumFunction function;
@@ -422,7 +432,7 @@ osp_config_parser::osp_config_parser(
                 }
                 function.outGroup = sg;
 
-                vectorSumFunctions_[functionName] = function;
+                add_function(vectorSumFunctions_, function);
 
             } else {
                 std::ostringstream oss;
-- 
2.43.0


From 75cc6aa5fcc9a59652bd345798305b11f8a195f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:58 +0000
Subject: [PATCH 48/76] fix: do not terminate the process when a remote slave
 is lost

The destructor of a remote slave called terminate() and freeInstance()
whatever had happened before, and their exceptions, e.g. because the
connection was lost, ended the process. terminate() may also only be
called for slaves whose simulation was started and which did not fail.
---
 src/cosim/proxy/remote_slave.cpp | 97 ++++++++++++++------------------
 src/cosim/proxy/remote_slave.hpp |  7 ++-
 2 files changed, 49 insertions(+), 55 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index 1144472..cfbbfd9 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -24,11 +24,25 @@ void bad_status_throw(const std::string& method)
 cosim::proxy::remote_slave::remote_slave(
     std::unique_ptr<proxyfmu::fmi::slave> slave,
     std::shared_ptr<const cosim::model_description> modelDescription)
-    : terminated_(false)
+    : simStarted_(false)
+    , hasError_(false)
     , slave_(std::move(slave))
     , modelDescription_(std::move(modelDescription))
 { }
 
+template<typename F>
+void cosim::proxy::remote_slave::call(const char* method, F f) const
+{
+    try {
+        if (f()) return;
+    } catch (...) {
+        hasError_ = true;
+        throw;
+    }
+    hasError_ = true;
+    bad_status_throw(method);
+}
+
 cosim::model_description cosim::proxy::remote_slave::model_description() const
 {
     return *modelDescription_;
@@ -43,38 +57,27 @@ void cosim::proxy::remote_slave::setup(cosim::time_point startTime, std::optiona
     double stop = to_double_time_point(stopTime.value_or(cosim::to_time_point(0)));
     double tolerance = relativeTolerance.value_or(0);
 
-    auto status = slave_->setup_experiment(start, stop, tolerance);
-    if (!status) {
-        bad_status_throw("setup_experiment");
-    }
-    status = slave_->enter_initialization_mode();
-    if (!status) {
-        bad_status_throw("enter_initialization_mode");
-    }
+    call("setup_experiment", [&] { return slave_->setup_experiment(start, stop, tolerance); });
+    call("enter_initialization_mode", [&] { return slave_->enter_initialization_mode(); });
 }
 
 void cosim::proxy::remote_slave::start_simulation()
 {
-    auto status = slave_->exit_initialization_mode();
-    if (!status) {
-        bad_status_throw("exit_initialization_mode");
-    }
+    call("exit_initialization_mode", [&] { return slave_->exit_initialization_mode(); });
+    simStarted_ = true;
 }
 
 void cosim::proxy::remote_slave::end_simulation()
 {
-    if (!terminated_) {
-        slave_->terminate();
-        terminated_ = true;
+    if (simStarted_) {
+        simStarted_ = false;
+        call("terminate", [&] { return slave_->terminate(); });
     }
 }
 
 cosim::step_result cosim::proxy::remote_slave::do_step(cosim::time_point currentTime, cosim::duration deltaT)
 {
-    auto status = slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, startTime_));
-    if (!status) {
-        bad_status_throw("step");
-    }
+    call("step", [&] { return slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, startTime_)); });
     return cosim::step_result::complete;
 }
 
@@ -86,10 +89,7 @@ void cosim::proxy::remote_slave::get_real_variables(gsl::span<const cosim::value
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     auto data = std::vector<double>(vr.size());
-    auto status = slave_->get_real(vr, data);
-    if (!status) {
-        bad_status_throw("get_real");
-    }
+    call("get_real", [&] { return slave_->get_real(vr, data); });
     for (unsigned int i = 0; i < data.size(); i++) {
         values[i] = data[i];
     }
@@ -103,10 +103,7 @@ void cosim::proxy::remote_slave::get_integer_variables(gsl::span<const cosim::va
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     auto data = std::vector<int>(vr.size());
-    auto status = slave_->get_integer(vr, data);
-    if (!status) {
-        bad_status_throw("get_integer");
-    }
+    call("get_integer", [&] { return slave_->get_integer(vr, data); });
     for (unsigned int i = 0; i < data.size(); i++) {
         values[i] = data[i];
     }
@@ -120,10 +117,7 @@ void cosim::proxy::remote_slave::get_boolean_variables(gsl::span<const cosim::va
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     auto data = std::vector<bool>(vr.size());
-    auto status = slave_->get_boolean(vr, data);
-    if (!status) {
-        bad_status_throw("get_boolean");
-    }
+    call("get_boolean", [&] { return slave_->get_boolean(vr, data); });
     for (unsigned int i = 0; i < data.size(); i++) {
         values[i] = data[i];
     }
@@ -137,10 +131,7 @@ void cosim::proxy::remote_slave::get_string_variables(gsl::span<const cosim::val
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     auto data = std::vector<std::string>(vr.size());
-    auto status = slave_->get_string(vr, data);
-    if (!status) {
-        bad_status_throw("get_string");
-    }
+    call("get_string", [&] { return slave_->get_string(vr, data); });
     for (unsigned int i = 0; i < data.size(); i++) {
         values[i] = data[i];
     }
@@ -154,10 +145,7 @@ void cosim::proxy::remote_slave::set_real_variables(gsl::span<const cosim::value
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     const auto _values = std::vector<double>(values.begin(), values.end());
-    auto status = slave_->set_real(vr, _values);
-    if (!status) {
-        bad_status_throw("set_real");
-    }
+    call("set_real", [&] { return slave_->set_real(vr, _values); });
 }
 
 void cosim::proxy::remote_slave::set_integer_variables(gsl::span<const cosim::value_reference> variables,
@@ -168,10 +156,7 @@ void cosim::proxy::remote_slave::set_integer_variables(gsl::span<const cosim::va
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     const auto _values = std::vector<int>(values.begin(), values.end());
-    auto status = slave_->set_integer(vr, _values);
-    if (!status) {
-        bad_status_throw("set_integer");
-    }
+    call("set_integer", [&] { return slave_->set_integer(vr, _values); });
 }
 
 void cosim::proxy::remote_slave::set_boolean_variables(gsl::span<const cosim::value_reference> variables,
@@ -182,10 +167,7 @@ void cosim::proxy::remote_slave::set_boolean_variables(gsl::span<const cosim::va
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     const auto _values = std::vector<bool>(values.begin(), values.end());
-    auto status = slave_->set_boolean(vr, _values);
-    if (!status) {
-        bad_status_throw("set_boolean");
-    }
+    call("set_boolean", [&] { return slave_->set_boolean(vr, _values); });
 }
 
 void cosim::proxy::remote_slave::set_string_variables(gsl::span<const cosim::value_reference> variables,
@@ -196,14 +178,21 @@ void cosim::proxy::remote_slave::set_string_variables(gsl::span<const cosim::val
 
     const auto vr = std::vector<proxyfmu::fmi::value_ref>(variables.begin(), variables.end());
     const auto _values = std::vector<std::string>(values.begin(), values.end());
-    auto status = slave_->set_string(vr, _values);
-    if (!status) {
-        bad_status_throw("set_string");
-    }
+    call("set_string", [&] { return slave_->set_string(vr, _values); });
 }
 
 cosim::proxy::remote_slave::~remote_slave()
 {
-    remote_slave::end_simulation();
-    slave_->freeInstance();
+    // The connection to the remote slave may have been lost, or it may get lost
+    // now.  There is nobody to report that to.
+    if (simStarted_ && !hasError_) {
+        try {
+            slave_->terminate();
+        } catch (...) {
+        }
+    }
+    try {
+        slave_->freeInstance();
+    } catch (...) {
+    }
 }
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 4f02aac..760eaf3 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -62,7 +62,12 @@ public:
     ~remote_slave() override;
 
 private:
-    bool terminated_;
+    // Performs a remote call and throws if it fails.
+    template<typename F>
+    void call(const char* method, F f) const;
+
+    bool simStarted_;
+    mutable bool hasError_; // After an error, the slave may only be freed.
     cosim::time_point startTime_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
-- 
2.43.0


From 483914c1495d88499082bfa85890983bcc94eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 49/76] fix: calculate the step sizes of remote slaves as those
 of local ones

The conversion to floating point only preserves the end of a step if it is
based on the beginning of that step, not on that of the simulation.
---
 src/cosim/proxy/remote_slave.cpp | 4 +---
 src/cosim/proxy/remote_slave.hpp | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cosim/proxy/remote_slave.cpp b/src/cosim/proxy/remote_slave.cpp
index cfbbfd9..418843b 100644
--- a/src/cosim/proxy/remote_slave.cpp
+++ b/src/cosim/proxy/remote_slave.cpp
@@ -51,8 +51,6 @@ cosim::model_description cosim::proxy::remote_slave::model_description() const
 void cosim::proxy::remote_slave::setup(cosim::time_point startTime, std::optional<cosim::time_point> stopTime,
     std::optional<double> relativeTolerance)
 {
-    startTime_ = startTime;
-
     double start = to_double_time_point(startTime);
     double stop = to_double_time_point(stopTime.value_or(cosim::to_time_point(0)));
     double tolerance = relativeTolerance.value_or(0);
@@ -77,7 +75,7 @@ void cosim::proxy::remote_slave::end_simulation()
 
 cosim::step_result cosim::proxy::remote_slave::do_step(cosim::time_point currentTime, cosim::duration deltaT)
 {
-    call("step", [&] { return slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, startTime_)); });
+    call("step", [&] { return slave_->step(to_double_time_point(currentTime), to_double_duration(deltaT, currentTime)); });
     return cosim::step_result::complete;
 }
 
diff --git a/src/cosim/proxy/remote_slave.hpp b/src/cosim/proxy/remote_slave.hpp
index 760eaf3..a38de85 100644
--- a/src/cosim/proxy/remote_slave.hpp
+++ b/src/cosim/proxy/remote_slave.hpp
@@ -68,7 +68,6 @@ private:
 
     bool simStarted_;
     mutable bool hasError_; // After an error, the slave may only be freed.
-    cosim::time_point startTime_;
     std::unique_ptr<proxyfmu::fmi::slave> slave_;
     std::shared_ptr<const cosim::model_description> modelDescription_;
 };
-- 
2.43.0


From c0a31c603ff42e87143b0dd36356895dc8a6c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 50/76] fix: find the files of remote FMUs given by file URIs

The leading slash of an absolute path was lost on Unix, and
percent-encoded paths were only decoded by the OSP configuration parser.
---
 src/cosim/proxy/proxy_uri_sub_resolver.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cosim/proxy/proxy_uri_sub_resolver.cpp b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
index 1500741..b850599 100644
--- a/src/cosim/proxy/proxy_uri_sub_resolver.cpp
+++ b/src/cosim/proxy/proxy_uri_sub_resolver.cpp
@@ -27,17 +27,15 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
 {
     const auto& mur = modelUriReference;
     const auto query = mur.query();
-    if (query) {
-        if (query->find("file=file:///") < query->size()) {
-            const auto newQuery = "file=" + std::string(query->substr(13));
-            return model_uri_sub_resolver::lookup_model(
-                baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
-        } else if (query->find("file=") < query->size()) {
-            const auto pathToAppend = cosim::file_uri_to_path(baseUri).parent_path().string();
-            const auto newQuery = "file=" + pathToAppend + "/" + std::string(query->substr(5));
-            return model_uri_sub_resolver::lookup_model(
-                baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
-        }
+    if (query && query->substr(0, 5) == "file=") {
+        // An absolute `file` URI, or a path relative to the base URI.
+        const auto reference = query->substr(5);
+        const auto file = reference.substr(0, 8) == "file:///"
+            ? cosim::file_uri_to_path(uri(std::string(reference)))
+            : cosim::filesystem::path(cosim::file_uri_to_path(baseUri).parent_path().string() + "/" + cosim::percent_decode(reference));
+        const auto newQuery = "file=" + cosim::percent_encode(file.string(), "/:");
+        return model_uri_sub_resolver::lookup_model(
+            baseUri, uri(mur.scheme(), mur.authority(), mur.path(), newQuery, mur.fragment()));
     }
     return model_uri_sub_resolver::lookup_model(baseUri, mur);
 }
@@ -52,7 +50,7 @@ std::shared_ptr<cosim::model> cosim::proxy::proxy_uri_sub_resolver::lookup_model
     const auto auth = parse_authority(*modelUri.authority());
     const auto query = *modelUri.query();
     if (query.substr(0, 5) == "file=") {
-        const auto file = cosim::filesystem::path(std::string(query.substr(5)));
+        const auto file = cosim::filesystem::path(cosim::percent_decode(query.substr(5)));
         if (!cosim::filesystem::exists(file)) {
             throw error(make_error_code(errc::bad_file), "No such file: " + file.string());
         }
-- 
2.43.0


From 8909bc2e497cac5a48817e931a4e49c9043d9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 51/76] fix: decode URIs which end with two ordinary characters

An unsigned subtraction wrapped around, so that text of two characters (or
two characters after the last encoded one) was taken for an encoded one.
---
 src/cosim/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index a2889d8..d21b8be 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -459,7 +459,7 @@ std::string percent_decode(std::string_view encoded)
     std::string decoded;
     while (!encoded.empty()) {
         const auto i = encoded.find('%');
-        if (i > encoded.size() - 3) {
+        if (i == std::string_view::npos || encoded.size() - i < 3) {
             decoded += encoded;
             encoded.remove_prefix(encoded.size());
         } else {
-- 
2.43.0


From dee2daa49ce517725a79148abd53594c4e177ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 52/76] fix: tell slaves that the simulation has ended

According to its documentation, end_simulation() is the last function called
for a slave, but it never was. Now it is called when the simulator, and
thereby the execution, is destroyed, unless the slave has failed.
---
 src/cosim/slave_simulator.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index bf427ba..5f5c977 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -6,6 +6,7 @@
 #include "cosim/slave_simulator.hpp"
 
 #include "cosim/error.hpp"
+#include "cosim/log/logger.hpp"
 
 #include <algorithm>
 #include <cassert>
@@ -527,6 +528,20 @@ public:
         return result;
     }
 
+    void end_simulation() noexcept
+    {
+        if (!canFetch_) return; // The slave has failed.
+        try {
+            slave_->end_simulation();
+        } catch (const std::exception& e) {
+            BOOST_LOG_SEV(log::logger(), log::warning)
+                << "Slave '" << name_ << "' failed to end the simulation: " << e.what();
+        } catch (...) {
+            BOOST_LOG_SEV(log::logger(), log::warning)
+                << "Slave '" << name_ << "' failed to end the simulation";
+        }
+    }
+
 private:
     void set_variables(duration deltaT)
     {
@@ -654,7 +669,10 @@ slave_simulator::slave_simulator(
 }
 
 
-slave_simulator::~slave_simulator() noexcept = default;
+slave_simulator::~slave_simulator() noexcept
+{
+    if (pimpl_ && state_ == slave_state::simulation) pimpl_->end_simulation();
+}
 
 slave_simulator::slave_simulator(slave_simulator&&) noexcept = default;
 
-- 
2.43.0


From 23cf90d5d453a03b41b2889c6ce2f571c1d76e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:59 +0000
Subject: [PATCH 53/76] fix: reset the variable caches also if setting the
 variables fails

Aborting a scenario after a slave had failed to set its variables ran into an
assertion, because the modifiers of that slave were still marked as applied.
---
 src/cosim/slave_simulator.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 5f5c977..8f6c103 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -545,6 +545,14 @@ public:
 private:
     void set_variables(duration deltaT)
     {
+        // The caches must be reset also if this fails, since variables may be
+        // set and modifiers removed afterwards.
+        const auto resetCaches = gsl::finally([this]() {
+            realSetCache_.reset();
+            integerSetCache_.reset();
+            booleanSetCache_.reset();
+            stringSetCache_.reset();
+        });
         const auto [realRefs, realValues] = realSetCache_.modify_and_get(deltaT);
         const auto [integerRefs, integerValues] = integerSetCache_.modify_and_get(deltaT);
         const auto [booleanRefs, booleanValues] = booleanSetCache_.modify_and_get(deltaT);
@@ -559,10 +567,6 @@ private:
             gsl::make_span(booleanValues),
             gsl::make_span(stringRefs),
             gsl::make_span(stringValues));
-        realSetCache_.reset();
-        integerSetCache_.reset();
-        booleanSetCache_.reset();
-        stringSetCache_.reset();
     }
 
     void get_variables(duration deltaT)
-- 
2.43.0


From 11f5b1b12de8f16b7a35c2e907cb446700e000d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:59 +0000
Subject: [PATCH 54/76] fix: attribute FMU log messages to the slave instance,
 not its name

Exceptions quoted the messages of another instance if several executions in the
same process used the same instance name at the same time.
---
 src/cosim/fmi/v1/fmu.cpp | 76 +++++++++++++++++++++++++++++----------
 src/cosim/fmi/v2/fmu.cpp | 77 ++++++++++++++++++++++++++++++----------
 2 files changed, 117 insertions(+), 36 deletions(-)

diff --git a/src/cosim/fmi/v1/fmu.cpp b/src/cosim/fmi/v1/fmu.cpp
index d0bb788..183479e 100644
--- a/src/cosim/fmi/v1/fmu.cpp
+++ b/src/cosim/fmi/v1/fmu.cpp
@@ -175,13 +175,38 @@ struct log_record
     fmi1_status_t status = fmi1_status_ok;
     std::string message;
 };
-std::unordered_map<std::string, log_record> g_logRecords;
+std::unordered_map<const slave_instance*, log_record> g_logRecords;
 std::mutex g_logMutex;
 
+// The slave whose FMI functions the current thread is calling, if any.
+//
+// This is how we know which slave a log message comes from.  The instance name
+// which accompanies the message is not enough, since it need only be unique
+// within one execution, and there may be several executions in a process.
+thread_local const slave_instance* t_activeSlave = nullptr;
+
+class active_slave_scope
+{
+public:
+    explicit active_slave_scope(const slave_instance* slave) noexcept
+        : previous_(t_activeSlave)
+    {
+        t_activeSlave = slave;
+    }
+
+    ~active_slave_scope() noexcept { t_activeSlave = previous_; }
+
+    active_slave_scope(const active_slave_scope&) = delete;
+    active_slave_scope& operator=(const active_slave_scope&) = delete;
+
+private:
+    const slave_instance* previous_;
+};
+
 void log_message(
     fmi1_component_t,
 #ifndef LIBCOSIM_NO_FMI_LOGGING
-    fmi1_string_t instanceName,
+    fmi1_string_t /*instanceName*/,
     fmi1_status_t status,
     fmi1_string_t category,
     fmi1_string_t message,
@@ -240,17 +265,18 @@ void log_message(
         << "[FMI status=" << statusName << ", category=" << category << "] "
         << msgBuffer.data();
 
-    g_logMutex.lock();
-    g_logRecords[instanceName] =
-        log_record{status, std::string(msgBuffer.data())};
-    g_logMutex.unlock();
+    if (t_activeSlave) {
+        std::lock_guard<std::mutex> lock(g_logMutex);
+        g_logRecords[t_activeSlave] =
+            log_record{status, std::string(msgBuffer.data())};
+    }
 #endif
 }
 
-log_record last_log_record(const std::string& instanceName)
+log_record last_log_record(const slave_instance* slave)
 {
     std::lock_guard<std::mutex> lock(g_logMutex);
-    const auto it = g_logRecords.find(instanceName);
+    const auto it = g_logRecords.find(slave);
     if (it == g_logRecords.end()) {
         return log_record{};
     } else {
@@ -264,10 +290,10 @@ log_record last_log_record(const std::string& instanceName)
     }
 }
 
-void forget_log_records(const std::string& instanceName)
+void forget_log_records(const slave_instance* slave)
 {
     std::lock_guard<std::mutex> lock(g_logMutex);
-    g_logRecords.erase(instanceName);
+    g_logRecords.erase(slave);
 }
 } // namespace
 
@@ -285,8 +311,9 @@ slave_instance::slave_instance(
     , instanceName_(instanceName)
 {
     assert(!instanceName.empty());
-    // There may be some from an earlier instance with the same name.
-    forget_log_records(instanceName_);
+    // There may be some from an earlier instance at the same address.
+    forget_log_records(this);
+    const active_slave_scope activeSlave(this);
 
     if (handle_ == nullptr) {
         throw error(
@@ -321,13 +348,14 @@ slave_instance::slave_instance(
         fmi1_import_free(handle_);
         throw error(
             make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+            last_log_record(this).message);
     }
 }
 
 
 slave_instance::~slave_instance() noexcept
 {
+    const active_slave_scope activeSlave(this);
     // After an error, the instance may only be freed, and after a fatal error,
     // no function may be called for it.
     if (simStarted_ && !hasError_) {
@@ -339,6 +367,7 @@ slave_instance::~slave_instance() noexcept
     }
     fmi1_import_destroy_dllfmu(handle_);
     fmi1_import_free(handle_);
+    forget_log_records(this);
 }
 
 
@@ -355,6 +384,7 @@ void slave_instance::setup(
 void slave_instance::start_simulation()
 {
     assert(!simStarted_);
+    const active_slave_scope activeSlave(this);
     const auto rc = fmi1_import_initialize_slave(
         handle_,
         to_double_time_point(startTime_),
@@ -370,6 +400,7 @@ void slave_instance::start_simulation()
 void slave_instance::end_simulation()
 {
     assert(simStarted_);
+    const active_slave_scope activeSlave(this);
     const auto rc = fmi1_import_terminate_slave(handle_);
     simStarted_ = false;
     if (rc != fmi1_status_ok && rc != fmi1_status_warning) {
@@ -381,6 +412,7 @@ void slave_instance::end_simulation()
 step_result slave_instance::do_step(time_point currentT, duration deltaT)
 {
     assert(simStarted_);
+    const active_slave_scope activeSlave(this);
     const auto rc = fmi1_import_do_step(
         handle_,
         to_double_time_point(currentT),
@@ -402,6 +434,7 @@ void slave_instance::get_real_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_get_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
@@ -416,6 +449,7 @@ void slave_instance::get_integer_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_get_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
@@ -431,6 +465,7 @@ void slave_instance::get_boolean_variables(
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
     std::vector<fmi1_boolean_t> fmiValues(values.size());
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_get_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
@@ -449,6 +484,7 @@ void slave_instance::get_string_variables(
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
     std::vector<fmi1_string_t> fmiValues(values.size());
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_get_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi1_status_ok && status != fmi1_status_warning) {
@@ -467,12 +503,13 @@ void slave_instance::set_real_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_set_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status == fmi1_status_ok || status == fmi1_status_warning) {
         return;
     } else if (status == fmi1_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -485,12 +522,13 @@ void slave_instance::set_integer_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_set_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status == fmi1_status_ok || status == fmi1_status_warning) {
         return;
     } else if (status == fmi1_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -508,12 +546,13 @@ void slave_instance::set_boolean_variables(
         fmiValues[i] =
             static_cast<fmi1_boolean_t>(values[i] ? fmi1_true : fmi1_false);
     }
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_set_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status == fmi1_status_ok || status == fmi1_status_warning) {
         return;
     } else if (status == fmi1_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -530,12 +569,13 @@ void slave_instance::set_string_variables(
     for (std::size_t i = 0; i < values.size(); ++i) {
         fmiValues[i] = values[i].c_str();
     }
+    const active_slave_scope activeSlave(this);
     const auto status = fmi1_import_set_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status == fmi1_status_ok || status == fmi1_status_warning) {
         return;
     } else if (status == fmi1_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -560,7 +600,7 @@ error slave_instance::model_error(int status) const
     if (status == fmi1_status_fatal) hasFatalError_ = true;
     return error(
         make_error_code(errc::model_error),
-        last_log_record(instanceName_).message);
+        last_log_record(this).message);
 }
 
 
diff --git a/src/cosim/fmi/v2/fmu.cpp b/src/cosim/fmi/v2/fmu.cpp
index 717b1f8..af0f4c5 100644
--- a/src/cosim/fmi/v2/fmu.cpp
+++ b/src/cosim/fmi/v2/fmu.cpp
@@ -175,13 +175,38 @@ struct log_record
     fmi2_status_t status = fmi2_status_ok;
     std::string message;
 };
-std::unordered_map<std::string, log_record> g_logRecords;
+std::unordered_map<const slave_instance*, log_record> g_logRecords;
 std::mutex g_logMutex;
 
+// The slave whose FMI functions the current thread is calling, if any.
+//
+// This is how we know which slave a log message comes from.  The instance name
+// which accompanies the message is not enough, since it need only be unique
+// within one execution, and there may be several executions in a process.
+thread_local const slave_instance* t_activeSlave = nullptr;
+
+class active_slave_scope
+{
+public:
+    explicit active_slave_scope(const slave_instance* slave) noexcept
+        : previous_(t_activeSlave)
+    {
+        t_activeSlave = slave;
+    }
+
+    ~active_slave_scope() noexcept { t_activeSlave = previous_; }
+
+    active_slave_scope(const active_slave_scope&) = delete;
+    active_slave_scope& operator=(const active_slave_scope&) = delete;
+
+private:
+    const slave_instance* previous_;
+};
+
 void log_message(
     fmi2_component_environment_t,
 #ifndef LIBCOSIM_NO_FMI_LOGGING
-    fmi2_string_t instanceName,
+    fmi2_string_t /*instanceName*/,
     fmi2_status_t status,
     fmi2_string_t category,
     fmi2_string_t message,
@@ -240,17 +265,18 @@ void log_message(
         << "[FMI status=" << statusName << ", category=" << category << "] "
         << msgBuffer.data();
 
-    g_logMutex.lock();
-    g_logRecords[instanceName] =
-        log_record{status, std::string(msgBuffer.data())};
-    g_logMutex.unlock();
+    if (t_activeSlave) {
+        std::lock_guard<std::mutex> lock(g_logMutex);
+        g_logRecords[t_activeSlave] =
+            log_record{status, std::string(msgBuffer.data())};
+    }
 #endif
 }
 
-log_record last_log_record(const std::string& instanceName)
+log_record last_log_record(const slave_instance* slave)
 {
     std::lock_guard<std::mutex> lock(g_logMutex);
-    const auto it = g_logRecords.find(instanceName);
+    const auto it = g_logRecords.find(slave);
     if (it == g_logRecords.end()) {
         return log_record{};
     } else {
@@ -264,10 +290,10 @@ log_record last_log_record(const std::string& instanceName)
     }
 }
 
-void forget_log_records(const std::string& instanceName)
+void forget_log_records(const slave_instance* slave)
 {
     std::lock_guard<std::mutex> lock(g_logMutex);
-    g_logRecords.erase(instanceName);
+    g_logRecords.erase(slave);
 }
 } // namespace
 
@@ -285,8 +311,9 @@ slave_instance::slave_instance(
     , instanceName_(instanceName)
 {
     assert(!instanceName.empty());
-    // There may be some from an earlier instance with the same name.
-    forget_log_records(instanceName_);
+    // There may be some from an earlier instance at the same address.
+    forget_log_records(this);
+    const active_slave_scope activeSlave(this);
 
     if (handle_ == nullptr) {
         throw error(
@@ -320,13 +347,14 @@ slave_instance::slave_instance(
         fmi2_import_free(handle_);
         throw error(
             make_error_code(errc::model_error),
-            last_log_record(instanceName_).message);
+            last_log_record(this).message);
     }
 }
 
 
 slave_instance::~slave_instance() noexcept
 {
+    const active_slave_scope activeSlave(this);
     // After an error, the instance may only be freed, and after a fatal error,
     // no function may be called for it.
     if (simStarted_ && !hasError_) {
@@ -338,6 +366,7 @@ slave_instance::~slave_instance() noexcept
     }
     fmi2_import_destroy_dllfmu(handle_);
     fmi2_import_free(handle_);
+    forget_log_records(this);
 }
 
 
@@ -347,6 +376,7 @@ void slave_instance::setup(
     std::optional<double> relativeTolerance)
 {
     assert(!setupComplete_);
+    const active_slave_scope activeSlave(this);
     const auto rcs = fmi2_import_setup_experiment(
         handle_,
         relativeTolerance ? fmi2_true : fmi2_false,
@@ -371,6 +401,7 @@ void slave_instance::start_simulation()
 {
     assert(setupComplete_);
     assert(!simStarted_);
+    const active_slave_scope activeSlave(this);
     const auto rc = fmi2_import_exit_initialization_mode(handle_);
     if (rc != fmi2_status_ok && rc != fmi2_status_warning) {
         throw model_error(rc);
@@ -382,6 +413,7 @@ void slave_instance::start_simulation()
 void slave_instance::end_simulation()
 {
     assert(simStarted_);
+    const active_slave_scope activeSlave(this);
     const auto rc = fmi2_import_terminate(handle_);
     simStarted_ = false;
     if (rc != fmi2_status_ok && rc != fmi2_status_warning) {
@@ -393,6 +425,7 @@ void slave_instance::end_simulation()
 step_result slave_instance::do_step(time_point currentT, duration deltaT)
 {
     assert(simStarted_);
+    const active_slave_scope activeSlave(this);
     const auto rc = fmi2_import_do_step(
         handle_,
         to_double_time_point(currentT),
@@ -418,6 +451,7 @@ void slave_instance::get_real_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_get_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
@@ -432,6 +466,7 @@ void slave_instance::get_integer_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_get_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
@@ -447,6 +482,7 @@ void slave_instance::get_boolean_variables(
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
     std::vector<fmi2_boolean_t> fmiValues(values.size());
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_get_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
@@ -465,6 +501,7 @@ void slave_instance::get_string_variables(
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
     std::vector<fmi2_string_t> fmiValues(values.size());
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_get_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status != fmi2_status_ok && status != fmi2_status_warning) {
@@ -483,12 +520,13 @@ void slave_instance::set_real_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_set_real(
         handle_, variables.data(), variables.size(), values.data());
     if (status == fmi2_status_ok || status == fmi2_status_warning) {
         return;
     } else if (status == fmi2_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -501,12 +539,13 @@ void slave_instance::set_integer_variables(
 {
     COSIM_INPUT_CHECK(variables.size() == values.size());
     if (variables.empty()) return;
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_set_integer(
         handle_, variables.data(), variables.size(), values.data());
     if (status == fmi2_status_ok || status == fmi2_status_warning) {
         return;
     } else if (status == fmi2_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -524,12 +563,13 @@ void slave_instance::set_boolean_variables(
         fmiValues[i] =
             static_cast<fmi2_boolean_t>(values[i] ? fmi2_true : fmi2_false);
     }
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_set_boolean(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status == fmi2_status_ok || status == fmi2_status_warning) {
         return;
     } else if (status == fmi2_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -546,12 +586,13 @@ void slave_instance::set_string_variables(
     for (std::size_t i = 0; i < values.size(); ++i) {
         fmiValues[i] = values[i].c_str();
     }
+    const active_slave_scope activeSlave(this);
     const auto status = fmi2_import_set_string(
         handle_, variables.data(), variables.size(), fmiValues.data());
     if (status == fmi2_status_ok || status == fmi2_status_warning) {
         return;
     } else if (status == fmi2_status_discard) {
-        throw nonfatal_bad_value(last_log_record(instanceName_).message);
+        throw nonfatal_bad_value(last_log_record(this).message);
     } else {
         throw model_error(status);
     }
@@ -576,7 +617,7 @@ error slave_instance::model_error(int status) const
     if (status == fmi2_status_fatal) hasFatalError_ = true;
     return error(
         make_error_code(errc::model_error),
-        last_log_record(instanceName_).message);
+        last_log_record(this).message);
 }
 
 
-- 
2.43.0


From c0d5a8799272657efe7cf1af3cebf20d6679089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:06 +0000
Subject: [PATCH 55/76] fix: refuse to continue a failed simulation instead of
 terminating the process

---
 src/cosim/execution.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 04e2cf5..cafa441 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -122,8 +122,15 @@ public:
 
     duration step()
     {
+        if (failed_) {
+            throw error(
+                make_error_code(errc::simulation_error),
+                "The simulation has failed and cannot be continued");
+        }
         if (!initialized_) {
+            failed_ = true; // until proven otherwise
             algorithm_->initialize();
+            failed_ = false;
             initialized_ = true;
             for (const auto& obs : observers_) {
                 obs->simulation_initialized(lastStep_, currentTime_);
@@ -132,7 +139,9 @@ public:
         for (const auto& man : manipulators_) {
             man->step_commencing(currentTime_);
         }
+        failed_ = true; // until proven otherwise
         const auto [stepSize, finished] = algorithm_->do_step(currentTime_);
+        failed_ = false;
         currentTime_ += stepSize;
         ++lastStep_;
         for (const auto& obs : observers_) {
@@ -345,6 +354,7 @@ private:
     step_number lastStep_;
     time_point currentTime_;
     bool initialized_;
+    bool failed_ = false; // whether the algorithm has failed at some point
     std::atomic<bool> running_;
     std::atomic<bool> stopRequested_;
 
-- 
2.43.0


From 3dc8af8f07da962bf412ac9ba2dd8b0728edc01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:55 +0000
Subject: [PATCH 56/76] fix: refuse slaves added after the start instead of
 terminating the process

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 7 +++++++
 src/cosim/execution.cpp                      | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index a66c95e..d3d75cc 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -69,6 +69,11 @@ public:
     void add_simulator(simulator_index i, simulator* s, duration stepSizeHint)
     {
         assert(simulators_.count(i) == 0);
+        if (initialized_) {
+            throw error(
+                make_error_code(errc::unsupported_feature),
+                "Simulators must be added before simulation is started");
+        }
         simulators_[i].sim = s;
         simulators_[i].decimationFactor =
             calculate_decimation_factor(s->name(), baseStepSize_, stepSizeHint);
@@ -165,6 +170,7 @@ public:
 
     void initialize()
     {
+        initialized_ = true;
         for_each_simulator([&](simulator_info& info) {
             info.sim->setup(startTime_, stopTime_, std::nullopt);
         });
@@ -472,6 +478,7 @@ private:
     const duration baseStepSize_;
     time_point startTime_;
     std::optional<time_point> stopTime_;
+    bool initialized_ = false;
     std::unordered_map<simulator_index, simulator_info> simulators_;
     std::unordered_map<function_index, function_info> functions_;
     int64_t stepCounter_ = 0;
diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index cafa441..c9a73db 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -50,8 +50,9 @@ public:
         duration stepSizeHint)
     {
         const auto index = static_cast<simulator_index>(simulators_.size());
-        simulators_.push_back(std::make_unique<slave_simulator>(slave, name));
-        algorithm_->add_simulator(index, simulators_.back().get(), stepSizeHint);
+        auto simulator = std::make_unique<slave_simulator>(slave, name);
+        algorithm_->add_simulator(index, simulator.get(), stepSizeHint);
+        simulators_.push_back(std::move(simulator));
 
         for (const auto& obs : observers_) {
             obs->simulator_added(index, simulators_.back().get(), currentTime_);
-- 
2.43.0


From aacd74cb4207743e1d8e0d9e71c85147543d5a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:20 +0000
Subject: [PATCH 57/76] fix: refuse a decimation factor of zero for logging

---
 include/cosim/observer/file_observer.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/cosim/observer/file_observer.hpp b/include/cosim/observer/file_observer.hpp
index 2c784a2..16d5373 100644
--- a/include/cosim/observer/file_observer.hpp
+++ b/include/cosim/observer/file_observer.hpp
@@ -16,6 +16,9 @@
 #include <atomic>
 #include <memory>
 #include <mutex>
+#include <optional>
+#include <stdexcept>
+#include <string>
 #include <unordered_map>
 
 
@@ -50,7 +53,8 @@ public:
      *
      * \param simulatorName name of simulator to log
      * \param variableNames a list of variable names to log (empty list means log all variables)
-     * \param decimationFactor optional decimation factor, where 1 (default) means log every step
+     * \param decimationFactor optional decimation factor, where 1 (default) means log every step.
+     *     It must be greater than zero, otherwise `std::invalid_argument` is thrown.
      * \return self
      */
     file_observer_config& log_simulator_variables(
@@ -58,7 +62,7 @@ public:
         const std::vector<std::string>& variableNames,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        variablesToLog_[simulatorName].first = valid_decimation_factor(decimationFactor);
         for (const auto& variableName : variableNames) {
             variablesToLog_[simulatorName].second.emplace_back(variableName);
         }
@@ -70,14 +74,15 @@ public:
      *
      * \param simulatorName name of simulator to log
      * \param variableNames a list of variable names to log (empty list means log all variables)
-     * \param decimationFactor optional decimation factor, where 1 (default) means log every step
+     * \param decimationFactor optional decimation factor, where 1 (default) means log every step.
+     *     It must be greater than zero, otherwise `std::invalid_argument` is thrown.
      * \return self
      */
     file_observer_config& log_all_simulator_variables(
         const std::string& simulatorName,
         std::optional<size_t> decimationFactor = std::nullopt)
     {
-        variablesToLog_[simulatorName].first = decimationFactor.value_or(defaultDecimationFactor_);
+        variablesToLog_[simulatorName].first = valid_decimation_factor(decimationFactor);
         variablesToLog_[simulatorName].second = {}; // empty variable means log all
         return *this;
     }
@@ -107,6 +112,14 @@ private:
 
     std::unordered_map<std::string, std::pair<size_t, std::vector<std::string>>> variablesToLog_;
 
+    [[nodiscard]] size_t valid_decimation_factor(std::optional<size_t> decimationFactor) const
+    {
+        if (decimationFactor == size_t{0}) {
+            throw std::invalid_argument("The decimation factor for logging must be greater than zero");
+        }
+        return decimationFactor.value_or(defaultDecimationFactor_);
+    }
+
     [[nodiscard]] bool should_log_simulator(const std::string& name) const
     {
         return variablesToLog_.count(name);
-- 
2.43.0


From f017b20bd8a5e762f05f97e41054eb2ea96d5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:27 +0000
Subject: [PATCH 58/76] fix: refuse connections between variables of different
 types

---
 src/cosim/execution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index c9a73db..1c5c7c9 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -304,6 +304,9 @@ private:
         validate_variable(output, variable_causality::output);
         validate_variable(input, variable_causality::input);
 
+        if (output.type != input.type) {
+            throw std::logic_error("Error connecting variables: Different types");
+        }
         if (connections.count(input)) {
             throw std::logic_error("Input variable already connected");
         }
-- 
2.43.0


From 2d02e93c3fd7a6879f5dafc24a5bce6a97c63834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:27 +0000
Subject: [PATCH 59/76] fix: refuse to connect an input variable to both a
 simulator and a function

---
 src/cosim/execution.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 1c5c7c9..0361c78 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -307,13 +307,23 @@ private:
         if (output.type != input.type) {
             throw std::logic_error("Error connecting variables: Different types");
         }
-        if (connections.count(input)) {
+        if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
         algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
     }
 
+    bool is_connected(variable_id input) const
+    {
+        return ssConnections_.count(input) || fsConnections_.count(input);
+    }
+
+    bool is_connected(function_io_id input) const
+    {
+        return sfConnections_.count(input);
+    }
+
     void validate_variable(variable_id variable, variable_causality causality)
     {
         const auto variables = simulators_.at(variable.simulator)->model_description().variables;
-- 
2.43.0


From 65e77b65c0fc4417a3e025e4befe8d663c036e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:27 +0000
Subject: [PATCH 60/76] fix: refuse connections to function variables that
 don't exist

---
 src/cosim/execution.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 0361c78..7bce940 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -354,6 +354,14 @@ private:
         if (io.causality != causality) {
             throw std::logic_error("Error connecting function variable: Wrong causality");
         }
+        if (std::get<variable_type>(io.type) != variable.type) {
+            throw std::logic_error("Error connecting function variable: Wrong type");
+        }
+        const auto& ref = variable.reference;
+        if (ref.group_instance < 0 || ref.group_instance >= std::get<int>(group.count) ||
+            ref.io_instance < 0 || ref.io_instance >= std::get<int>(io.count)) {
+            throw std::out_of_range("Error connecting function variable: No such instance");
+        }
     }
 
     static bool timed_out(std::optional<time_point> endTime, time_point currentTime, duration stepSize)
-- 
2.43.0


From 4b79bf42f9e005a5910424f9bd1055a9ea94ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:02 +0000
Subject: [PATCH 61/76] fix: resolve the sources of SSP parameter bindings as
 URI references

---
 src/cosim/ssp/ssp_parser.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index 7482e1e..d4870d7 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -5,6 +5,8 @@
  */
 #include "cosim/ssp/ssp_parser.hpp"
 
+#include "cosim/uri.hpp"
+
 #include <boost/property_tree/xml_parser.hpp>
 
 namespace cosim
@@ -26,6 +28,18 @@ std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree,
     return result ? *result : std::optional<T>();
 }
 
+// Finds the file that a URI reference in an SSD file refers to.
+cosim::filesystem::path resolve_file_reference(
+    const cosim::filesystem::path& ssdPath,
+    const std::string& reference)
+{
+    // `xs:anyURI` allows characters which must be escaped in a URI.
+    const auto escaped = percent_encode(reference, "!#$%&'()*+,/:;=?@[]");
+    return file_uri_to_path(resolve_reference(
+        path_to_file_uri(cosim::filesystem::absolute(ssdPath)),
+        uri(escaped)));
+}
+
 variable_type parse_connector_type(const boost::property_tree::ptree& tree)
 {
     if (tree.get_child_optional("ssc:Real")) {
@@ -152,7 +166,7 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
             for (const auto& parameterBinding : *parameterBindings) {
                 if (const auto& source = get_optional_attribute<std::string>(parameterBinding.second, "source")) {
                     boost::property_tree::ptree binding;
-                    cosim::filesystem::path ssvPath = ssdPath.parent_path() / *source;
+                    const auto ssvPath = resolve_file_reference(ssdPath, *source);
                     if (!cosim::filesystem::exists(ssvPath)) {
                         std::ostringstream oss;
                         oss << "File '" << ssvPath << "' does not exists!";
-- 
2.43.0


From e6bc298611d5e25a685d04fa234d300f81ff4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:51 +0000
Subject: [PATCH 62/76] fix: remove the entry with the empty key when cleaning
 up a persistent file cache

---
 src/cosim/file_cache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index 08f177c..c8fa5c7 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -330,6 +330,7 @@ private:
     {
         auto p = root_;
         p /= percent_encode(key);
+        if (key.empty()) p /= emptyKeyName;
         p += ".data";
         return p;
     }
@@ -338,10 +339,15 @@ private:
     {
         auto p = root_;
         p /= percent_encode(key);
+        if (key.empty()) p /= emptyKeyName;
         p += ".lock";
         return p;
     }
 
+    // The encoded form of an empty key.  (It can't be empty, because then
+    // what follows wouldn't be considered the extension of the file name.)
+    static constexpr const char* emptyKeyName = "%";
+
     cosim::filesystem::path root_;
 };
 
-- 
2.43.0


From ac8293fea7223b136038bc77cc32ec8b32ad679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:42 +0000
Subject: [PATCH 63/76] fix: refuse decimation factors that are no positive
 numbers in logging configurations

---
 src/cosim/observer/file_observer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/observer/file_observer.cpp b/src/cosim/observer/file_observer.cpp
index b09664b..abd6d10 100644
--- a/src/cosim/observer/file_observer.cpp
+++ b/src/cosim/observer/file_observer.cpp
@@ -564,7 +564,14 @@ file_observer_config file_observer_config::parse(const filesystem::path& configP
     for (const auto& simulator : ptree.get_child("simulators")) {
         if (simulator.first == "simulator") {
             const auto modelName = get_attribute<std::string>(simulator.second, "name");
-            const auto decimationFactor = get_optional_attribute<size_t>(simulator.second, "decimationFactor");
+            std::optional<size_t> decimationFactor;
+            if (get_optional_attribute<std::string>(simulator.second, "decimationFactor")) {
+                const auto value = get_attribute<int>(simulator.second, "decimationFactor");
+                if (value <= 0) {
+                    throw std::invalid_argument("The decimation factor for logging must be greater than zero");
+                }
+                decimationFactor = static_cast<size_t>(value);
+            }
             std::vector<std::string> variableNames;
             for (const auto& variable : simulator.second) {
                 if (variable.first == "variable") {
-- 
2.43.0


From 987322088641989f5aac934e891313221f68c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:20 +0000
Subject: [PATCH 64/76] fix: refuse malformed numbers in SSP descriptions
 instead of using defaults

---
 src/cosim/ssp/ssp_parser.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cosim/ssp/ssp_parser.cpp b/src/cosim/ssp/ssp_parser.cpp
index d4870d7..a90f23c 100644
--- a/src/cosim/ssp/ssp_parser.cpp
+++ b/src/cosim/ssp/ssp_parser.cpp
@@ -15,17 +15,18 @@ namespace cosim
 namespace
 {
 
+// Returns nothing if the attribute is missing, and throws if it is malformed.
 template<typename T>
-T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
+std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
 {
-    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : tree.get<T>("<xmlattr>." + key, *defaultValue);
+    const auto attribute = tree.get_child_optional("<xmlattr>." + key);
+    return attribute ? attribute->get_value<T>() : std::optional<T>();
 }
 
 template<typename T>
-std::optional<T> get_optional_attribute(const boost::property_tree::ptree& tree, const std::string& key)
+T get_attribute(const boost::property_tree::ptree& tree, const std::string& key, const std::optional<T> defaultValue = {})
 {
-    const auto result = tree.get_optional<T>("<xmlattr>." + key);
-    return result ? *result : std::optional<T>();
+    return !defaultValue ? tree.get<T>("<xmlattr>." + key) : get_optional_attribute<T>(tree, key).value_or(*defaultValue);
 }
 
 // Finds the file that a URI reference in an SSD file refers to.
@@ -129,7 +130,10 @@ ssp_parser::ssp_parser(const cosim::filesystem::path& ssdPath)
                     for (const auto& algorithm : annotation.second.get_child("osp:Algorithm")) {
                         if (algorithm.first == "osp:FixedStepAlgorithm") {
                             auto baseStepSize = get_attribute<double>(algorithm.second, "baseStepSize");
-                            auto numWorkerThreads = get_optional_attribute<unsigned int>(algorithm.second, "numWorkerThreads");
+                            auto numWorkerThreads = get_optional_attribute<int>(algorithm.second, "numWorkerThreads");
+                            if (numWorkerThreads && *numWorkerThreads < 0) {
+                                throw std::runtime_error("Negative number of worker threads");
+                            }
                             defaultExperiment_.algorithm = std::make_unique<cosim::fixed_step_algorithm>(cosim::to_duration(baseStepSize), numWorkerThreads);
                         } else {
                             throw std::runtime_error("Unknown algorithm: " + algorithm.first);
-- 
2.43.0


From 5d786000aa80bb5059d237d42fd917d27e60753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:30 +0000
Subject: [PATCH 65/76] fix: refuse modifiers for output variables that have
 not been exposed

---
 src/cosim/slave_simulator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 8f6c103..5926d76 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -150,7 +150,14 @@ struct get_variable_cache
 
     void set_modifier(value_reference r, std::function<T(T, duration)> m)
     {
-        modifiers[indexMapping[r]] = m;
+        const auto it = indexMapping.find(r);
+        if (it == indexMapping.end()) {
+            std::ostringstream oss;
+            oss << "Variable with reference " << r
+                << " not found in exposed variables. Variables must be exposed before calling set_modifier()";
+            throw std::out_of_range(oss.str());
+        }
+        modifiers[it->second] = m;
     }
 
     void run_modifiers(duration deltaT)
-- 
2.43.0


From 39c087cc488d3833f6051412c0e4837f74bd7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:55 +0000
Subject: [PATCH 66/76] fix: tell slaves that the simulation has ended also
 after a modifier has failed

---
 src/cosim/slave_simulator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index 5926d76..ff0acb7 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -521,6 +521,7 @@ public:
     {
         set_variables(duration::zero());
         slave_->start_simulation();
+        started_ = true;
         get_variables(duration::zero());
     }
 
@@ -537,7 +538,7 @@ public:
 
     void end_simulation() noexcept
     {
-        if (!canFetch_) return; // The slave has failed.
+        if (!started_ || !canFetch_) return; // (The slave has failed in the latter case.)
         try {
             slave_->end_simulation();
         } catch (const std::exception& e) {
@@ -584,6 +585,7 @@ private:
             gsl::make_span(integerGetCache_.references),
             gsl::make_span(booleanGetCache_.references),
             gsl::make_span(stringGetCache_.references));
+        canFetch_ = true;
         copy_contents(variable_values_.real, realGetCache_.originalValues);
         copy_contents(variable_values_.integer, integerGetCache_.originalValues);
         copy_contents(variable_values_.boolean, booleanGetCache_.originalValues);
@@ -596,7 +598,6 @@ private:
         integerGetCache_.fetchedCount = integerGetCache_.references.size();
         booleanGetCache_.fetchedCount = booleanGetCache_.references.size();
         stringGetCache_.fetchedCount = stringGetCache_.references.size();
-        canFetch_ = true;
     }
 
     // Retrieves the values of variables that have been exposed after the last
@@ -652,6 +653,9 @@ private:
     // (that is, it has been set up and no call to it has failed).
     bool canFetch_ = false;
 
+    // Whether the slave has been told to start the simulation, and has done so.
+    bool started_ = false;
+
     get_variable_cache<double> realGetCache_;
     get_variable_cache<int> integerGetCache_;
     get_variable_cache<bool> booleanGetCache_;
@@ -682,7 +686,7 @@ slave_simulator::slave_simulator(
 
 slave_simulator::~slave_simulator() noexcept
 {
-    if (pimpl_ && state_ == slave_state::simulation) pimpl_->end_simulation();
+    if (pimpl_) pimpl_->end_simulation();
 }
 
 slave_simulator::slave_simulator(slave_simulator&&) noexcept = default;
-- 
2.43.0


From 86ff8b8b6e4bdb0ceee9b376f2621083858bc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:05 +0000
Subject: [PATCH 67/76] fix: do not terminate when there is no memory to report
 a ZIP error

---
 src/cosim/utility/zip.cpp | 6 +++---
 src/cosim/utility/zip.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cosim/utility/zip.cpp b/src/cosim/utility/zip.cpp
index 8b6001e..95a0ad2 100644
--- a/src/cosim/utility/zip.cpp
+++ b/src/cosim/utility/zip.cpp
@@ -302,17 +302,17 @@ cosim::filesystem::path archive::extract_file_to(
 // error
 // =============================================================================
 
-error::error(const std::string& msg) noexcept
+error::error(const std::string& msg)
     : cosim::error(make_error_code(errc::zip_error), msg)
 {
 }
 
-error::error(::zip* archive) noexcept
+error::error(::zip* archive)
     : cosim::error(make_error_code(errc::zip_error), zip_strerror(archive))
 {
 }
 
-error::error(zip_file* file) noexcept
+error::error(zip_file* file)
     : cosim::error(make_error_code(errc::zip_error), zip_file_strerror(file))
 {
 }
diff --git a/src/cosim/utility/zip.hpp b/src/cosim/utility/zip.hpp
index 1500798..718cb27 100644
--- a/src/cosim/utility/zip.hpp
+++ b/src/cosim/utility/zip.hpp
@@ -230,19 +230,19 @@ public:
      *  \internal
      *  Creates an exception with the given message.
      */
-    explicit error(const std::string& msg) noexcept;
+    explicit error(const std::string& msg);
 
     /**
      *  \internal
      *  Creates an exception for the last error for the given archive.
      */
-    explicit error(::zip* archive) noexcept;
+    explicit error(::zip* archive);
 
     /**
      *  \internal
      *  Creates an exception for the last error for the given file.
      */
-    explicit error(::zip_file* file) noexcept;
+    explicit error(::zip_file* file);
 };
 
 
-- 
2.43.0


From ca42701934cd3e92de82dd72d935df9c08b3b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:15 +0000
Subject: [PATCH 68/76] fix: do not let a cache request that fails for lack of
 memory make the key unusable

---
 src/cosim/file_cache.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cosim/file_cache.cpp b/src/cosim/file_cache.cpp
index c8fa5c7..2072807 100644
--- a/src/cosim/file_cache.cpp
+++ b/src/cosim/file_cache.cpp
@@ -86,15 +86,17 @@ public:
         const auto path = subdir_path(key);
         cosim::filesystem::create_directories(path);
 
+        auto ownership = std::make_shared<dummy>();
+        auto directory = std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
+
         auto& owns = get_ownership(std::string(key), true);
         if (owns.rw.use_count() + owns.ro.use_count() > 0) {
             throw std::logic_error(
                 "Cache subdirectory already in use: " + std::string(key));
         }
 
-        auto ownership = std::make_shared<dummy>();
         owns.rw = ownership;
-        return std::make_unique<temporary_file_cache_directory>(root_, path, ownership);
+        return directory;
     }
 
     std::unique_ptr<directory_ro> get_directory_ro(std::string_view key)
-- 
2.43.0


From b8f581960e8ebd14f15114f4f94d8b33bfb3e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:21 +0000
Subject: [PATCH 69/76] fix: report failure to allocate memory when
 percent-encoding

---
 src/cosim/uri.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/cosim/uri.cpp b/src/cosim/uri.cpp
index d21b8be..65a8a7e 100644
--- a/src/cosim/uri.cpp
+++ b/src/cosim/uri.cpp
@@ -10,8 +10,6 @@
 #include <cassert>
 #include <cctype>
 #include <cstdint>
-#include <iomanip>
-#include <sstream>
 #include <stdexcept>
 
 #ifdef _WIN32
@@ -421,20 +419,19 @@ bool is_in_cstring(char c, const char* s)
 
 std::string percent_encode(std::string_view string, const char* exceptions)
 {
-    std::ostringstream encoded;
-    encoded.fill('0');
-    encoded << std::hex << std::uppercase;
+    constexpr char hexDigits[] = "0123456789ABCDEF";
+    std::string encoded;
     for (const char c : string) {
         if (is_unreserved(c) || is_in_cstring(c, exceptions)) {
-            encoded << c;
+            encoded += c;
         } else {
-            encoded
-                << '%'
-                << std::setw(2)
-                << static_cast<int>(static_cast<unsigned char>(c));
+            const auto byte = static_cast<unsigned char>(c);
+            encoded += '%';
+            encoded += hexDigits[byte >> 4];
+            encoded += hexDigits[byte & 0x0F];
         }
     }
-    return encoded.str();
+    return encoded;
 }
 
 
-- 
2.43.0


From 8d54bba30256160a27c22a32440e8f2b47984cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:27 +0000
Subject: [PATCH 70/76] fix: do not terminate when there is no memory for a
 UUID

---
 src/cosim/utility/uuid.cpp | 2 +-
 src/cosim/utility/uuid.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cosim/utility/uuid.cpp b/src/cosim/utility/uuid.cpp
index 75557c8..b52a846 100644
--- a/src/cosim/utility/uuid.cpp
+++ b/src/cosim/utility/uuid.cpp
@@ -15,7 +15,7 @@ namespace utility
 {
 
 
-std::string random_uuid() noexcept
+std::string random_uuid()
 {
     boost::uuids::random_generator gen;
     return boost::uuids::to_string(gen());
diff --git a/src/cosim/utility/uuid.hpp b/src/cosim/utility/uuid.hpp
index 5d0523c..f118499 100644
--- a/src/cosim/utility/uuid.hpp
+++ b/src/cosim/utility/uuid.hpp
@@ -20,7 +20,7 @@ namespace utility
 
 
 /// Returns a randomly generated UUID.
-std::string random_uuid() noexcept;
+std::string random_uuid();
 
 
 } // namespace utility
-- 
2.43.0


From 1ce2f5c6f87c7f8c535ed7ae90699b80dca757a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:34 +0000
Subject: [PATCH 71/76] fix: keep other threads' locks on a file when a lock on
 it cannot be registered

---
 src/cosim/utility/concurrency.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cosim/utility/concurrency.cpp b/src/cosim/utility/concurrency.cpp
index 0e374e2..edb4fce 100644
--- a/src/cosim/utility/concurrency.cpp
+++ b/src/cosim/utility/concurrency.cpp
@@ -332,10 +332,13 @@ std::shared_ptr<file_lock::file_mutex> file_lock::get_file_mutex(
     };
     static std::vector<file_mutex_cache_entry> fileMutexCache;
     static std::mutex cacheMutex;
-    std::shared_ptr<file_mutex> fileMutex;
 
     std::lock_guard<decltype(cacheMutex)> guard(cacheMutex);
 
+    // (If something below fails, this must be destroyed before the mutex is
+    // unlocked, for the reason given below.)
+    std::shared_ptr<file_mutex> fileMutex;
+
     // Clean up any elements which are not in use anymore.  This is done here,
     // and not by the last user, because all the locks that the process holds
     // on a file may be lost when a handle to it is closed.  So that must not
-- 
2.43.0


From ca47ff5de9e9c7c652d2d61ced9ed4ffd6004f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:01 +0000
Subject: [PATCH 72/76] fix: wait for running slaves also when a step fails for
 lack of memory

---
 src/cosim/algorithm/fixed_step_algorithm.cpp | 26 +++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/cosim/algorithm/fixed_step_algorithm.cpp b/src/cosim/algorithm/fixed_step_algorithm.cpp
index d3d75cc..431ce57 100644
--- a/src/cosim/algorithm/fixed_step_algorithm.cpp
+++ b/src/cosim/algorithm/fixed_step_algorithm.cpp
@@ -10,9 +10,12 @@
 #include "cosim/log/logger.hpp"
 #include "cosim/utility/thread_pool.hpp"
 
+#include <gsl/util>
+
 #include <algorithm>
 #include <cstdlib>
 #include <mutex>
+#include <new>
 #include <numeric>
 #include <sstream>
 #include <string_view>
@@ -74,9 +77,11 @@ public:
                 make_error_code(errc::unsupported_feature),
                 "Simulators must be added before simulation is started");
         }
-        simulators_[i].sim = s;
-        simulators_[i].decimationFactor =
+        const auto decimationFactor =
             calculate_decimation_factor(s->name(), baseStepSize_, stepSizeHint);
+        auto& info = simulators_[i];
+        info.sim = s;
+        info.decimationFactor = decimationFactor;
     }
 
     void remove_simulator(simulator_index i)
@@ -196,6 +201,10 @@ public:
         task_errors errors;
         std::unordered_set<simulator_index> finished;
 
+        // The tasks refer to local variables, so they must finish also if an
+        // exception is thrown below.
+        const auto waitForTasks = gsl::finally([this] { pool_.wait_for_tasks_to_finish(); });
+
         // Initiate simulator time steps.
         for (auto& s : simulators_) {
             auto& info = s.second;
@@ -269,11 +278,15 @@ private:
     class task_errors
     {
     public:
-        void add(const simulator& sim, std::string_view message)
+        void add(const simulator& sim, std::string_view message) noexcept
         {
             std::lock_guard<std::mutex> lck(mutex_);
-            messages_ << sim.name() << ": " << message << '\n';
             failed_ = true;
+            try {
+                messages_ << sim.name() << ": " << message << '\n';
+            } catch (const std::bad_alloc&) {
+                // There is no memory for the message.
+            }
         }
 
         // Runs a task on behalf of `sim`, adding an error if it throws.
@@ -316,6 +329,11 @@ private:
     void for_each_simulator(const F& action)
     {
         task_errors errors;
+
+        // The tasks refer to local variables, so they must finish also if an
+        // exception is thrown below.
+        const auto waitForTasks = gsl::finally([this] { pool_.wait_for_tasks_to_finish(); });
+
         for (auto& s : simulators_) {
             auto& info = s.second;
             pool_.submit([&] {
-- 
2.43.0


From 4a0a61fc191442e4ff428b35afa3af374220c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:14 +0000
Subject: [PATCH 73/76] fix: leave nothing behind of what could not be added or
 connected

---
 src/cosim/execution.cpp | 83 +++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 7bce940..2e95366 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -50,15 +50,30 @@ public:
         duration stepSizeHint)
     {
         const auto index = static_cast<simulator_index>(simulators_.size());
-        auto simulator = std::make_unique<slave_simulator>(slave, name);
-        algorithm_->add_simulator(index, simulator.get(), stepSizeHint);
-        simulators_.push_back(std::move(simulator));
-
-        for (const auto& obs : observers_) {
-            obs->simulator_added(index, simulators_.back().get(), currentTime_);
-        }
-        for (const auto& man : manipulators_) {
-            man->simulator_added(index, simulators_.back().get(), currentTime_);
+        simulators_.push_back(std::make_unique<slave_simulator>(slave, name));
+        auto* const simulator = simulators_.back().get();
+        bool added = false;
+        std::size_t observersTold = 0;
+        std::size_t manipulatorsTold = 0;
+        try {
+            algorithm_->add_simulator(index, simulator, stepSizeHint);
+            added = true;
+            for (; observersTold < observers_.size(); ++observersTold) {
+                observers_[observersTold]->simulator_added(index, simulator, currentTime_);
+            }
+            for (; manipulatorsTold < manipulators_.size(); ++manipulatorsTold) {
+                manipulators_[manipulatorsTold]->simulator_added(index, simulator, currentTime_);
+            }
+        } catch (...) {
+            while (manipulatorsTold > 0) {
+                manipulators_[--manipulatorsTold]->simulator_removed(index, currentTime_);
+            }
+            while (observersTold > 0) {
+                observers_[--observersTold]->simulator_removed(index, currentTime_);
+            }
+            if (added) algorithm_->remove_simulator(index);
+            simulators_.pop_back();
+            throw;
         }
         return index;
     }
@@ -67,32 +82,47 @@ public:
     {
         const auto index = static_cast<function_index>(functions_.size());
         functions_.push_back(fun);
-        algorithm_->add_function(index, fun.get());
+        try {
+            algorithm_->add_function(index, fun.get());
+        } catch (...) {
+            functions_.pop_back();
+            throw;
+        }
         return index;
     }
 
     void add_observer(std::shared_ptr<observer> obs)
     {
         observers_.push_back(obs);
-        for (std::size_t i = 0; i < simulators_.size(); ++i) {
-            obs->simulator_added(
-                static_cast<simulator_index>(i),
-                simulators_[i].get(),
-                currentTime_);
-        }
-        if (initialized_) {
-            obs->simulation_initialized(lastStep_, currentTime_);
+        try {
+            for (std::size_t i = 0; i < simulators_.size(); ++i) {
+                obs->simulator_added(
+                    static_cast<simulator_index>(i),
+                    simulators_[i].get(),
+                    currentTime_);
+            }
+            if (initialized_) {
+                obs->simulation_initialized(lastStep_, currentTime_);
+            }
+        } catch (...) {
+            observers_.pop_back();
+            throw;
         }
     }
 
     void add_manipulator(std::shared_ptr<manipulator> man)
     {
         manipulators_.push_back(man);
-        for (std::size_t i = 0; i < simulators_.size(); ++i) {
-            man->simulator_added(
-                static_cast<simulator_index>(i),
-                simulators_[i].get(),
-                currentTime_);
+        try {
+            for (std::size_t i = 0; i < simulators_.size(); ++i) {
+                man->simulator_added(
+                    static_cast<simulator_index>(i),
+                    simulators_[i].get(),
+                    currentTime_);
+            }
+        } catch (...) {
+            manipulators_.pop_back();
+            throw;
         }
     }
 
@@ -310,8 +340,13 @@ private:
         if (is_connected(input)) {
             throw std::logic_error("Input variable already connected");
         }
-        algorithm_->connect_variables(output, input);
         connections.emplace(input, output);
+        try {
+            algorithm_->connect_variables(output, input);
+        } catch (...) {
+            connections.erase(input);
+            throw;
+        }
     }
 
     bool is_connected(variable_id input) const
-- 
2.43.0


From dfa22dee57910221ca1dd239d1d6bb06d74d7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:29 +0000
Subject: [PATCH 74/76] fix: keep variable caches consistent when there is no
 memory

---
 src/cosim/slave_simulator.cpp | 59 ++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/cosim/slave_simulator.cpp b/src/cosim/slave_simulator.cpp
index ff0acb7..f16e9cc 100644
--- a/src/cosim/slave_simulator.cpp
+++ b/src/cosim/slave_simulator.cpp
@@ -128,11 +128,20 @@ struct get_variable_cache
     void expose(value_reference r)
     {
         if (indexMapping.count(r)) return;
-        references.push_back(r);
-        originalValues.push_back(T()); // TODO: Use start value from model description
-        modifiedValues.push_back(T());
-        modifiers.emplace_back();
-        indexMapping[r] = references.size() - 1;
+        const auto index = references.size();
+        try {
+            references.push_back(r);
+            originalValues.push_back(T()); // TODO: Use start value from model description
+            modifiedValues.push_back(T());
+            modifiers.emplace_back();
+            indexMapping.emplace(r, index);
+        } catch (...) {
+            references.resize(index);
+            originalValues.resize(index);
+            modifiedValues.resize(index);
+            modifiers.resize(index);
+            throw;
+        }
     }
 
     typename var_view_type<T>::type get(value_reference r) const
@@ -194,10 +203,7 @@ public:
         }
         it->second.lastValue = v;
         if (it->second.arrayIndex < 0) {
-            it->second.arrayIndex = references_.size();
-            assert(references_.size() == values_.size());
-            references_.emplace_back(r);
-            values_.emplace_back(v);
+            append_value(r, it->second);
         } else {
             assert(references_[it->second.arrayIndex] == r);
             values_[it->second.arrayIndex] = v;
@@ -216,13 +222,10 @@ public:
         }
         if (it->second.arrayIndex < 0) {
             // Ensure that the simulator receives an updated value.
-            it->second.arrayIndex = references_.size();
-            assert(references_.size() == values_.size());
-            references_.emplace_back(r);
-            values_.emplace_back(it->second.lastValue);
+            append_value(r, it->second);
         }
         if (m) {
-            modifiers_[r] = m;
+            modifiers_.insert_or_assign(r, std::move(m));
         } else {
             modifiers_.erase(r);
         }
@@ -233,14 +236,10 @@ public:
         if (!hasRunModifiers_) {
             for (const auto& entry : modifiers_) {
                 const auto ref = entry.first;
-                auto& arrayIndex = exposedVariables_.at(ref).arrayIndex;
-                if (arrayIndex < 0) {
-                    arrayIndex = references_.size();
-                    assert(references_.size() == values_.size());
-                    references_.emplace_back(ref);
-                    values_.emplace_back(exposedVariables_.at(ref).lastValue);
-                }
-                values_[arrayIndex] = entry.second(values_[arrayIndex], deltaT);
+                auto& variable = exposedVariables_.at(ref);
+                if (variable.arrayIndex < 0) append_value(ref, variable);
+                auto& value = values_[variable.arrayIndex];
+                value = entry.second(value, deltaT);
             }
             assert(references_.size() == values_.size());
             hasRunModifiers_ = true;
@@ -269,6 +268,22 @@ private:
         std::ptrdiff_t arrayIndex = -1;
     };
 
+    // Adds the last set value of `variable` to `references_` and `values_`.
+    void append_value(value_reference ref, exposed_variable& variable)
+    {
+        assert(references_.size() == values_.size());
+        const auto index = references_.size();
+        auto value = variable.lastValue;
+        references_.emplace_back(ref);
+        try {
+            values_.emplace_back(std::move(value));
+        } catch (...) {
+            references_.pop_back();
+            throw;
+        }
+        variable.arrayIndex = static_cast<std::ptrdiff_t>(index);
+    }
+
     std::unordered_map<value_reference, exposed_variable> exposedVariables_;
 
     // The modifiers associated with certain variables, and a flag that
-- 
2.43.0


From 65d3e90a1059c2c68ed44aafbe59fdedf0396141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:41 +0000
Subject: [PATCH 75/76] fix: do not record a variable that could not be exposed

---
 src/cosim/observer/time_series_observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cosim/observer/time_series_observer.cpp b/src/cosim/observer/time_series_observer.cpp
index abc945b..8f387ee 100644
--- a/src/cosim/observer/time_series_observer.cpp
+++ b/src/cosim/observer/time_series_observer.cpp
@@ -103,12 +103,12 @@ public:
         std::lock_guard<std::mutex> lock(lock_);
         switch (type) {
             case variable_type::real:
-                realSamples_[reference] = std::map<step_number, double>();
                 observable_->expose_for_getting(type, reference);
+                realSamples_[reference] = std::map<step_number, double>();
                 break;
             case variable_type::integer:
-                intSamples_[reference] = std::map<step_number, int>();
                 observable_->expose_for_getting(type, reference);
+                intSamples_[reference] = std::map<step_number, int>();
                 break;
             default:
                 std::ostringstream oss;
-- 
2.43.0


From fc52b2d1d05fcfba6f894f21280f37f062d0e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:31 +0000
Subject: [PATCH 76/76] fix: keep an observer that was added but failed in its
 first notification

---
 src/cosim/execution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cosim/execution.cpp b/src/cosim/execution.cpp
index 2e95366..9381173 100644
--- a/src/cosim/execution.cpp
+++ b/src/cosim/execution.cpp
@@ -101,13 +101,13 @@ public:
                     simulators_[i].get(),
                     currentTime_);
             }
-            if (initialized_) {
-                obs->simulation_initialized(lastStep_, currentTime_);
-            }
         } catch (...) {
             observers_.pop_back();
             throw;
         }
+        if (initialized_) {
+            obs->simulation_initialized(lastStep_, currentTime_);
+        }
     }
 
     void add_manipulator(std::shared_ptr<manipulator> man)
-- 
2.43.0


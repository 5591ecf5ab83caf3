From 66b8c17e862da81ad0de60ffec4d745ac310e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 01/66] fix: memoized calls keep their keys by value and
 restore the output pressure

The cache keys of memoize/memoizeN were tuples holding references (double&) to
variables of callers that were gone by the next call, and a cached call with
P=0 did not return the saturation pressure.
---
 ThermoFun/OptimizationUtils.h | 69 ++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/ThermoFun/OptimizationUtils.h b/ThermoFun/OptimizationUtils.h
index b6cea7a..14b5199 100644
--- a/ThermoFun/OptimizationUtils.h
+++ b/ThermoFun/OptimizationUtils.h
@@ -3,21 +3,58 @@
 #include <map>
 #include <memory>
 #include <tuple>
+#include <type_traits>
+#include <utility>
 
 #include <list>
 
 namespace ThermoFun {
 
+/// Key of a cached function call: the arguments by value. Reference arguments are decayed, a key must
+/// not refer to variables of a caller that is gone by the time of the next call.
+template <typename... Args>
+using MemoizeKey = std::tuple<typename std::decay<Args>::type...>;
+
+/// A cached function call: the returned value and the values of the arguments after the call
+template <typename Ret, typename... Args>
+struct MemoizeEntry
+{
+    Ret result;
+    MemoizeKey<Args...> outputs;
+};
+
+/// Write the value an argument had after the cached call to an argument passed by (non const) reference
+template <typename Arg, typename Value>
+auto memoizeRestoreArg(Arg& arg, const Value& value, std::true_type) -> void { arg = value; }
+template <typename Arg, typename Value>
+auto memoizeRestoreArg(Arg&, const Value&, std::false_type) -> void {}
+
+template <typename... Args, std::size_t... I>
+auto memoizeRestoreArgs(const MemoizeKey<Args...>& outputs, std::index_sequence<I...>, std::tuple<Args&...> args) -> void
+{
+    (memoizeRestoreArg(std::get<I>(args), std::get<I>(outputs),
+                       std::bool_constant<std::is_lvalue_reference<Args>::value &&
+                                          !std::is_const<typename std::remove_reference<Args>::type>::value>()), ...);
+}
+
 template <typename Ret, typename... Args>
 auto memoize(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
+    auto cache = std::make_shared<std::map<MemoizeKey<Args...>, MemoizeEntry<Ret, Args...>>>();
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...);
-        if(cache->find(t) == cache->end())
-            (*cache)[t] = f(args...);
-        return (*cache)[t];
+        MemoizeKey<Args...> t(args...);
+        if(!(t == t)) // an argument is not a number, it cannot be used as a key
+            return f(args...);
+        auto it = cache->find(t);
+        if(it == cache->end())
+        {
+            Ret result = f(args...);
+            (*cache)[t] = {result, MemoizeKey<Args...>(args...)};
+            return result;
+        }
+        memoizeRestoreArgs<Args...>(it->second.outputs, std::index_sequence_for<Args...>(), std::tuple<Args&...>(args...));
+        return it->second.result;
     };
 }
 
@@ -52,29 +89,35 @@ auto dereference(const std::shared_ptr<std::function<Ret(Args...)>>& f) -> std::
 template <typename Ret, typename... Args>
 auto memoizeN(std::function<Ret(Args...)> f, size_t max_cache_size) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    std::list<std::tuple<Args...>> usage_order; // List to track the order of usage for LRU cache management
+    auto cache = std::make_shared<std::map<MemoizeKey<Args...>, MemoizeEntry<Ret, Args...>>>();
+    std::list<MemoizeKey<Args...>> usage_order; // List to track the order of usage for LRU cache management
 
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...); // Create a tuple key from the arguments
+        MemoizeKey<Args...> t(args...); // Create a tuple key from the arguments
+        if (!(t == t)) // an argument is not a number, it cannot be used as a key
+            return f(args...);
 
         // Check cache size and evict the least recently used item if necessary before adding
         if (cache->size() >= max_cache_size) {
             if (!usage_order.empty()) {
-                std::tuple<Args...> lru_t = usage_order.back(); // Get the least recently used key
+                MemoizeKey<Args...> lru_t = usage_order.back(); // Get the least recently used key
                 usage_order.pop_back();                           // Remove from usage order
                 cache->erase(lru_t);                             // Remove from cache
             }
         }
 
         // Check if result is already in cache
-        if (cache->find(t) == cache->end()) { // t not found; compute the result
-            (*cache)[t] = f(args...); // Cache the result
+        auto it = cache->find(t);
+        if (it == cache->end()) { // t not found; compute the result
+            Ret result = f(args...);
+            (*cache)[t] = {result, MemoizeKey<Args...>(args...)}; // Cache the result
             usage_order.push_front(t); // Track the usage order
+            return result;
         }
-        
-        return (*cache)[t]; // Return the cached result
+
+        memoizeRestoreArgs<Args...>(it->second.outputs, std::index_sequence_for<Args...>(), std::tuple<Args&...>(args...));
+        return it->second.result; // Return the cached result
     };
 }
 
-- 
2.43.0


From 4a304cc543687978d8c77e91744aa8c157696599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:38 +0000
Subject: [PATCH 02/66] fix: a copied or assigned ThermoEngine computes with
 its own data

The functions of a copied engine called the engine it was copied from, which may
be destroyed, and an assigned engine shared settings and caches.
---
 ThermoFun/ThermoEngine.cpp | 12 ++++++++++++
 ThermoFun/ThermoEngine.h   |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 57ebee0..64ffca0 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -88,6 +88,12 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    Impl(const Impl &other)
+        : database(other.database), preferences(other.preferences), prefs(other.prefs), conventions(other.conventions)
+    {
+        set_fn(); // the copied functions would call the other instance
+    }
+
     void set_fn()
     {
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
@@ -853,6 +859,12 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 {
 }
 
+auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine &
+{
+    pimpl = std::move(other.pimpl);
+    return *this;
+}
+
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
     return pimpl->thermo_properties_substance_fn(T, P, P, substance);
diff --git a/ThermoFun/ThermoEngine.h b/ThermoFun/ThermoEngine.h
index ec968b4..3f66cdc 100644
--- a/ThermoFun/ThermoEngine.h
+++ b/ThermoFun/ThermoEngine.h
@@ -63,6 +63,9 @@ public:
     /// Construct a copy of an ThermoEngine instance
     ThermoEngine(const ThermoEngine &other);
 
+    /// Assign a ThermoEngine instance to this instance
+    auto operator=(ThermoEngine other) -> ThermoEngine &;
+
     /// Sets the symbol of the solvent which is used to calculate properties using the thermo instance
     auto setSolventSymbol(const std::string solvent_symbol) -> void;
 
-- 
2.43.0


From a6cf4d8466c06bb29ecd9d9613de2e5349b2fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:02 +0000
Subject: [PATCH 03/66] fix: pressure correction of gases inside reactions does
 not leak to other queries

The engine-wide switch stayed on after an exception or a record without methods,
was switched off by nested reactions while still needed, reset the user's own
preference, and was not part of the key of cached substance properties.
---
 ThermoFun/ThermoEngine.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 64ffca0..f54900e 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -47,7 +47,7 @@ struct WorkPreferences
 };
 
 using ThermoPropertiesSubstanceFunction =
-    std::function<ThermoPropertiesSubstance(double, double, double &, std::string)>;
+    std::function<ThermoPropertiesSubstance(double, double, double &, std::string, bool)>;
 
 using ElectroPropertiesSolventFunction =
     std::function<ElectroPropertiesSolvent(double, double, double &, std::string, int)>;
@@ -58,6 +58,16 @@ using PropertiesSolventFunction =
 using ThermoPropertiesReactionFunction =
     std::function<ThermoPropertiesReaction(double, double, double &, std::string)>;
 
+/// Switches a preference on for the lifetime of the instance (also if an exception is thrown)
+struct ScopedSwitchOn
+{
+    bool &value;
+    const bool previous;
+
+    explicit ScopedSwitchOn(bool &value) : value(value), previous(value) { value = true; }
+    ~ScopedSwitchOn() { value = previous; }
+};
+
 struct ThermoEngine::Impl
 {
     /// The database instance
@@ -96,7 +106,7 @@ struct ThermoEngine::Impl
 
     void set_fn()
     {
-        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
+        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool /*apply_p*/) {
             auto x = P_;
             return thermoPropertiesSubstance(T, P, symbol);
         };
@@ -329,10 +339,10 @@ struct ThermoEngine::Impl
                 {
                     double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
                     double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol),
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
                                                                                         properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
                                                                                         properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
                     break;
@@ -595,7 +605,7 @@ struct ThermoEngine::Impl
         std::map<std::string, double> reactants;
 
         // if reaction involves gases we switch on the P correction to the thermo props
-        preferences.apply_pressure_correction_to_gas_props = true;
+        ScopedSwitchOn gas_pressure_correction(preferences.apply_pressure_correction_to_gas_props);
 
         if (!reactionSymbol.empty())
         {
@@ -618,7 +628,7 @@ struct ThermoEngine::Impl
             {
                 if (reactant.first != subst.symbol())
                 {
-                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first); /* thermoPropertiesSubstance(T, P, reactant.first);*/
+                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first, preferences.apply_pressure_correction_to_gas_props); /* thermoPropertiesSubstance(T, P, reactant.first);*/
                     tps.enthalpy -= reacTps.enthalpy * reactant.second;
                     tps.entropy -= reacTps.entropy * reactant.second;
                     tps.gibbs_energy -= reacTps.gibbs_energy * reactant.second;
@@ -646,8 +656,6 @@ struct ThermoEngine::Impl
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
-
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -799,7 +807,7 @@ struct ThermoEngine::Impl
         tpr.reaction_internal_energy = 0.0;
         tpr.reaction_helmholtz_energy = 0.0;
 
-        preferences.apply_pressure_correction_to_gas_props = true;
+        ScopedSwitchOn gas_pressure_correction(preferences.apply_pressure_correction_to_gas_props);
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
@@ -815,7 +823,7 @@ struct ThermoEngine::Impl
                 errorMethodNotFound("reaction", reaction.symbol(), __LINE__, __FILE__);
             }
 
-            auto tps        = thermo_properties_substance_fn(T, P,P, substance); /*thermoPropertiesSubstance(T, P, substance);*/
+            auto tps        = thermo_properties_substance_fn(T, P,P, substance, preferences.apply_pressure_correction_to_gas_props); /*thermoPropertiesSubstance(T, P, substance);*/
 
             tpr.reaction_heat_capacity_cp   += tps.heat_capacity_cp*coeff;
             tpr.reaction_gibbs_energy       += tps.gibbs_energy*coeff;
@@ -837,7 +845,6 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
         return tpr;
     }
 };
@@ -867,7 +874,7 @@ auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine &
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
-    return pimpl->thermo_properties_substance_fn(T, P, P, substance);
+    return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
-- 
2.43.0


From d5533240e3f5e337068e02f31fdec62ef1030f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:23 +0000
Subject: [PATCH 04/66] fix: changed engine settings and appended data apply to
 the next query

Results cached under other preferences, conventions or data were returned, and
enable_memoize and max_cache_size had no effect.
---
 ThermoFun/ThermoEngine.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index f54900e..80e8f60 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -104,8 +104,27 @@ struct ThermoEngine::Impl
         set_fn(); // the copied functions would call the other instance
     }
 
+    /// Settings the (cached) functions were last set up for
+    EnginePreferences fn_preferences;
+    EngineConventions fn_conventions;
+
+    /// Drops the results cached with settings that have been changed since
+    void update_fn()
+    {
+        if (fn_preferences.enable_memoize != preferences.enable_memoize ||
+            fn_preferences.max_cache_size != preferences.max_cache_size ||
+            fn_preferences.solvent_symbol != preferences.solvent_symbol ||
+            fn_preferences.fallback_to_reference_properties != preferences.fallback_to_reference_properties ||
+            fn_conventions.apparent_properties != conventions.apparent_properties ||
+            fn_conventions.water_properties != conventions.water_properties)
+            set_fn();
+    }
+
     void set_fn()
     {
+        fn_preferences = preferences;
+        fn_conventions = conventions;
+
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool /*apply_p*/) {
             auto x = P_;
             return thermoPropertiesSubstance(T, P, symbol);
@@ -874,52 +893,62 @@ auto ThermoEngine::operator=(ThermoEngine other) -> ThermoEngine &
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->update_fn();
     return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->electro_properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesSubstance(T, P, substance);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->electroPropertiesSolvent(T, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->update_fn();
     return pimpl->propertiesSolvent(T, P, solvent, state);
 }
 
 // Reaction
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, std::string reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermo_properties_reaction_fn(T, P, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, std::string symbol) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, symbol);
 }
 
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesReaction(T, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->update_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, reaction);
 }
 
@@ -948,11 +977,13 @@ auto ThermoEngine::database() const -> const Database &
 
 auto ThermoEngine::appendData(std::string filename) -> void
 {
+    pimpl->set_fn(); // drop results cached for the previous data
     pimpl->database.appendData(filename);
 }
 
 auto ThermoEngine::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
+    pimpl->set_fn(); // drop results cached for the previous data
     pimpl->database.appendData(jsonRecords, _label);
 }
 
-- 
2.43.0


From 746df28d8257a3f5e094203564d939d10761ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:34 +0000
Subject: [PATCH 05/66] fix: reactions find the solvent of the database as
 solutes do

A reaction that needs solvent properties failed or not depending on whether a
solute had been calculated before, if the solvent does not have the default symbol.
---
 ThermoFun/ThermoEngine.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 80e8f60..28d2882 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -177,6 +177,19 @@ struct ThermoEngine::Impl
         tps.gibbs_energy -= (Tr * entropyElements);
     }
 
+    /// see if default solvent is in the database if not search for solvent
+    auto setDefaultSolvent() const -> void
+    {
+        if (!database.containsSubstance(preferences.solvent_symbol))
+        {
+            for (const auto& pair : database.mapSubstances()) {
+                if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
+                    preferences.solvent_symbol = pair.first;
+                }
+            }
+        }
+    }
+
     auto getThermoPreferencesReaction(const Reaction &reaction) const -> WorkPreferences
     {
         WorkPreferences preferences;
@@ -190,6 +203,8 @@ struct ThermoEngine::Impl
         if ((!preferences.method_genEOS && !preferences.method_P && !preferences.method_T))
             preferences.isReacFromReactants = true;
 
+        setDefaultSolvent();
+
         return preferences;
     }
 
@@ -247,15 +262,7 @@ struct ThermoEngine::Impl
         // check if substance is aq solute and needs a solvent
         if (workPreferences.workSubstance.substanceClass() == SubstanceClass::type::AQSOLUTE)
         {
-            // see if default solvent is in the database if not search for solvent
-            if (!database.containsSubstance(preferences.solvent_symbol))
-            {
-                for (const auto& pair : database.mapSubstances()) {
-                    if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
-                        preferences.solvent_symbol = pair.first;
-                    }
-                }
-            }
+            setDefaultSolvent();
         }
 
         return workPreferences;
-- 
2.43.0


From 231692cf076e155b0ee31a0a59872fdf5ec9854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 06/66] fix: empirical Cp integration at and beyond the bounds
 of its temperature intervals

---
 .../Substances/EmpiricalCpIntegration.cpp     | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 25d4bec..6d32acb 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -44,7 +44,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     // get Cp interval -> this has to go!!!!
     for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
     {
-        if (thermo_parameters.temperature_intervals[i].size() > 0)
+        if (thermo_parameters.temperature_intervals[i].size() > 1)
         {
             if ((thermo_parameters.temperature_intervals[i][0] <= TK) && (thermo_parameters.temperature_intervals[i][1] > TK))
             {
@@ -60,16 +60,25 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if (k < 0)
     {
-        if (TK_ <= thermo_parameters.temperature_intervals[0][0])
-            k = 0;
-        if (TK_ > thermo_parameters.temperature_intervals[thermo_parameters.temperature_intervals.size() - 1][1])
-            k = thermo_parameters.temperature_intervals.size() - 1;
+        k = 0;
+        // above the last interval, on its upper bound or between two intervals: the last interval that starts below T
+        for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
+        {
+            if (thermo_parameters.temperature_intervals[i].size() > 1 && thermo_parameters.temperature_intervals[i][0] <= TK_)
+                k = i;
+        }
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
                            "The temperature is not inside the specified interval for the substance {}.",
                            __FILE__, __LINE__, static_cast<double>(TK_), substance.symbol());
     }
 
+    if (static_cast<size_t>(k) >= thermo_parameters.Cp_coeff.size())
+    {
+        errorModelParameters("Cp empirical coefficients for the temperature interval", substance.symbol() + " empirical Cp integration", __LINE__, __FILE__);
+        return thermo_properties_PrTr;
+    }
+
     //k = 0; fix
 
     for (unsigned i = 0; i < thermo_parameters.Cp_coeff[k].size(); i++)
@@ -88,10 +97,13 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 ac[6] * (TK * TK * TK * TK) +
                 ac[7] / (TK * TK * TK) +
                 ac[8] / TK +
-                ac[9] * (pow(TK, (1 / 2))) /*+ ac[10]*log(T)*/);
+                ac[9] * (pow(TK, 0.5)) /*+ ac[10]*log(T)*/);
 
     for (unsigned j = 0, ft = 0; j <= k; j++)
     {
+        if (k > 0 && thermo_parameters.temperature_intervals[j].size() < 2)
+            errorModelParameters("temperature interval", substance.symbol() + " empirical Cp integration", __LINE__, __FILE__);
+
         if (j == k)
             TK = TK_.val /* + C_to_K*/; // current T is the end T for phase transition Cp calculations
         else
@@ -119,7 +131,8 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
             RaiseError(exception)
         }
 
-        if (j && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
+        if (j && ft < thermo_parameters.phase_transition_prop.size() && !thermo_parameters.phase_transition_prop[ft].empty() &&
+            thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
         {                                                               // Adding parameters of phase transition
             if (thermo_parameters.phase_transition_prop[ft].size() > 1) // dS
                 S += thermo_parameters.phase_transition_prop[ft][1];
@@ -133,6 +146,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
         G -= S * (TK - TrK);
 
+        ac.assign(16, 0.0);
         for (unsigned i = 0; i < thermo_parameters.Cp_coeff[j].size(); i++)
         {
             if (i == 16)
-- 
2.43.0


From 3646e52beaed966332e378b6e107b6552ec63846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:46 +0000
Subject: [PATCH 07/66] fix: gas models read only the parameters they are given
 and report what they cannot compute

---
 ThermoFun/Substances/Gases/GasCGF.cpp      | 11 +++----
 ThermoFun/Substances/Gases/GasCORK.cpp     |  9 ++----
 ThermoFun/Substances/Gases/GasPR78.cpp     | 11 +++----
 ThermoFun/Substances/Gases/GasPRSV.cpp     | 11 +++----
 ThermoFun/Substances/Gases/GasParameters.h | 35 ++++++++++++++++++++++
 ThermoFun/Substances/Gases/GasSRK.cpp      | 11 +++----
 ThermoFun/Substances/Gases/GasSTP.cpp      | 15 ++++------
 ThermoFun/Substances/Gases/s_solmod2_.cpp  | 27 ++++++++++++++---
 ThermoFun/Substances/Gases/verror.h        |  9 +++++-
 9 files changed, 91 insertions(+), 48 deletions(-)
 create mode 100644 ThermoFun/Substances/Gases/GasParameters.h

diff --git a/ThermoFun/Substances/Gases/GasCGF.cpp b/ThermoFun/Substances/Gases/GasCGF.cpp
index df3ab15..2740cdd 100644
--- a/ThermoFun/Substances/Gases/GasCGF.cpp
+++ b/ThermoFun/Substances/Gases/GasCGF.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasCGF.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasCGF(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TCGFcalc myCGF( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasLowerTemperature(subst);
+    auto CPg = gasEosParameters(subst);
 
-    myCGF.CGcalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myCGF.CGcalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasCORK.cpp b/ThermoFun/Substances/Gases/GasCORK.cpp
index 58d50bb..fa87ead 100644
--- a/ThermoFun/Substances/Gases/GasCORK.cpp
+++ b/ThermoFun/Substances/Gases/GasCORK.cpp
@@ -1,5 +1,6 @@
 #include <array>
 #include "Substances/Gases/GasCORK.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -18,12 +19,8 @@ auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TCORKcalc myCORK( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    std::array<double, 7> CPg;
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasLowerTemperature(subst);
+    auto CPg = gasEosParameters(subst);
 
     myCORK.CORKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
diff --git a/ThermoFun/Substances/Gases/GasPR78.cpp b/ThermoFun/Substances/Gases/GasPR78.cpp
index a8c93cd..ab2d879 100644
--- a/ThermoFun/Substances/Gases/GasPR78.cpp
+++ b/ThermoFun/Substances/Gases/GasPR78.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasPR78.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasPR78(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPR78calc myPR78( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasLowerTemperature(subst);
+    auto CPg = gasEosParameters(subst);
 
-    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasPRSV.cpp b/ThermoFun/Substances/Gases/GasPRSV.cpp
index 86026a8..5b81b55 100644
--- a/ThermoFun/Substances/Gases/GasPRSV.cpp
+++ b/ThermoFun/Substances/Gases/GasPRSV.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasPRSV.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasPRSV(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPRSVcalc myPRSV( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasLowerTemperature(subst);
+    auto CPg = gasEosParameters(subst);
 
-    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasParameters.h b/ThermoFun/Substances/Gases/GasParameters.h
new file mode 100644
index 0000000..a42455f
--- /dev/null
+++ b/ThermoFun/Substances/Gases/GasParameters.h
@@ -0,0 +1,35 @@
+#ifndef GASPARAMETERS_H
+#define GASPARAMETERS_H
+
+#include <array>
+#include "Common/Exception.h"
+#include "Substance.h"
+#include "ThermoParameters.h"
+
+namespace ThermoFun {
+
+/// Parameters of the equation of state of a gas as the fluid models read them: missing trailing ones are zero
+inline auto gasEosParameters(const Substance& subst) -> std::array<double, 12>
+{
+    const auto params = subst.thermoParameters().critical_parameters;
+    if (params.empty())
+        errorModelParameters("critical parameters", subst.symbol() + " gas equation of state", __LINE__, __FILE__);
+
+    std::array<double, 12> CPg{};
+    for (size_t i = 0; i < params.size() && i < CPg.size(); i++)
+        CPg[i] = params[i];
+    return CPg;
+}
+
+/// Lower temperature limit of the gas
+inline auto gasLowerTemperature(const Substance& subst) -> double
+{
+    const auto intervals = subst.thermoParameters().temperature_intervals;
+    if (intervals.empty() || intervals[0].empty())
+        errorModelParameters("temperature interval", subst.symbol() + " gas equation of state", __LINE__, __FILE__);
+    return intervals[0][0];
+}
+
+}
+
+#endif // GASPARAMETERS_H
diff --git a/ThermoFun/Substances/Gases/GasSRK.cpp b/ThermoFun/Substances/Gases/GasSRK.cpp
index 48afa27..464ea8d 100644
--- a/ThermoFun/Substances/Gases/GasSRK.cpp
+++ b/ThermoFun/Substances/Gases/GasSRK.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasSRK.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +13,10 @@ auto thermoPropertiesGasSRK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TSRKcalc mySRK( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
+    double TClow = gasLowerTemperature(subst);
+    auto CPg = gasEosParameters(subst);
 
-    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSTP.cpp b/ThermoFun/Substances/Gases/GasSTP.cpp
index f8bac3a..281e19b 100644
--- a/ThermoFun/Substances/Gases/GasSTP.cpp
+++ b/ThermoFun/Substances/Gases/GasSTP.cpp
@@ -1,4 +1,5 @@
 #include "Substances/Gases/GasSTP.h"
+#include "Substances/Gases/GasParameters.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -9,7 +10,7 @@ namespace ThermoFun {
 auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
     double FugProps[6];
-    char Eos_Code;
+    char Eos_Code = 'G';
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
 
@@ -17,14 +18,10 @@ auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TSTPcalc mySTP( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
-    {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
-    }
-
-    mySTP.STPCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    double TClow = gasLowerTemperature(subst);
+    auto CPg = gasEosParameters(subst);
+
+    mySTP.STPCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 3ae47b4..4a82629 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -2285,7 +2285,14 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 		FugProps[0] = Fugacity/Pbar;
 		FugProps[1] = 8.31451 * Tk * log( Fugacity / P );
 		FugProps[4] = Volume;
-		retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro );
+		if( retCode == 0 )
+			retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro );
+	}
+	else
+		retCode = -1;
+
+	if( retCode == 0 )
+	{
 		CGResidualFunct( X, Eos4parPT, Eos4parPT1, 1, roro, T );
 		FugProps[2] = Hrs;
 		FugProps[3] = Srs;
@@ -2298,7 +2305,7 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 			FugProps[i] = 0.;
 		FugProps[0] = 1.;
 		FugProps[4] = 8.31451*Tk/Pbar;
-		return -1;
+		return retCode;
 	}
 }
 
@@ -5014,6 +5021,12 @@ long int TCORKcalc::CORKCalcFugPure( double Tmin, double *Cpg, double *FugProps
         if( (Tk >= Tmin) && (Tk < 1e4) && (Pbar >= 1e-5) && (Pbar < 1e5) )
         {
                 retCode = FugacityPT( 0, Coeff );
+        }
+        else
+                retCode = -1;
+
+        if( retCode == 0 )
+        {
                 for( int i=0; i<6; i++ )
                         FugProps[i] = Fugpure[0][i];
                 return retCode;
@@ -5025,7 +5038,7 @@ long int TCORKcalc::CORKCalcFugPure( double Tmin, double *Cpg, double *FugProps
                         FugProps[i] = 0.;
                 FugProps[0] = 1.;
                 FugProps[4] = 8.31451*Tk/Pbar;
-                return -1;
+                return retCode;
         }
 }
 
@@ -6259,6 +6272,12 @@ long int TSTPcalc::STPCalcFugPure(double Tmin, double *Cpg, double *FugProps )
     if( (Tk >= Tmin) && (Tk < 1e4) && (Pbar >= 1e-5) && (Pbar < 1e5) )
     {
         iErr = FugacityPT( 0, Coeff );
+    }
+    else
+        iErr = -1;
+
+    if( iErr == 0 )
+    {
         for( int i=0; i<6; i++ )
             FugProps[i] = Fugpure[0][i];
         return iErr;
@@ -6270,7 +6289,7 @@ long int TSTPcalc::STPCalcFugPure(double Tmin, double *Cpg, double *FugProps )
             FugProps[i] = 0.;
         FugProps[0] = 1.;
         FugProps[4] = 8.31451*Tk/Pbar;
-        return -1;
+        return iErr;
     }
 
     return 0;
diff --git a/ThermoFun/Substances/Gases/verror.h b/ThermoFun/Substances/Gases/verror.h
index 8d53b4c..9638024 100644
--- a/ThermoFun/Substances/Gases/verror.h
+++ b/ThermoFun/Substances/Gases/verror.h
@@ -25,6 +25,7 @@
 #ifndef _verror_h_
 #define _verror_h_
 
+#include <exception>
 #include <string>
 
 static const size_t npos = std::string::npos;
@@ -34,7 +35,8 @@ static const size_t npos = std::string::npos;
 void strip(std::string& str);
 
 
-struct TError
+struct TError :
+            public std::exception
 {
     std::string mess;
     std::string title;
@@ -49,6 +51,11 @@ struct TError
     virtual ~TError()
     {}
 
+    const char* what() const noexcept override
+    {
+        return mess.c_str();
+    }
+
 };
 
 
-- 
2.43.0


From d46add537ad679e62862d9198b4586cca711c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 08/66] fix: logK function of temperature from partial or heat
 capacity coefficients

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index e99d572..cce8b84 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -1,4 +1,5 @@
 #include "LogK_function_of_T.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 #include "Reaction.h"
 #include <algorithm>
@@ -74,9 +75,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     const bool has_dGr = dGr.sta.first != Status::notdefined;
 
     if(has_dSr && has_dGr && !has_dHr)
-        dHr = dGr + dSr * TK;
+        dHr = dGr + dSr * Tr;
     if(has_dHr && has_dGr && !has_dSr)
-        dSr = (dHr-dGr)/TK;
+        dSr = (dHr-dGr)/Tr;
 
     if (CE == MethodCorrT_Thrift::type::CTM_EK3)
         CE = determineMethod(dGr,dHr,dSr,dCpr);
@@ -112,6 +113,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
           break;
        case MethodCorrT_Thrift::type::CTM_LGK:  // full 7-term logK approx
        case MethodCorrT_Thrift::type::CTM_LGX:  // (derived from dCp=f(T))
+            if (A.size() == 0 && CpCoeff.size() == 0)
+                errorModelParameters("logK or heat capacity function of temperature", "reaction " + reaction.symbol(), __LINE__, __FILE__);
+
             if (A.size() == 0 && CpCoeff.size() > 0)
             {
                 //from Cp to A
@@ -119,11 +123,12 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff.resize(5, 0.0);
 
                 // calculation of logK=f(T) coeffs (only first 5 Cp coefficients, conforming to Haas-Fisher function)
-                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(TK) - CpCoeff[1]*TK + CpCoeff[2]/(2.0*TK*TK)
-                              + 2.0*CpCoeff[3]/pow(TK,0.5) - CpCoeff[4]*TK*TK/2.0 ) / Rln10).val;
+                // the integration constants are those at the reference temperature
+                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(Tr) - CpCoeff[1]*Tr + CpCoeff[2]/(2.0*Tr*Tr)
+                              + 2.0*CpCoeff[3]/pow(Tr,0.5) - CpCoeff[4]*Tr*Tr/2.0 ) / Rln10).val;
                 A[1] = CpCoeff[1]/(2.0*Rln10);
-                A[2] = (-( dHr - CpCoeff[0]*TK - CpCoeff[1]*TK*TK/2.0 + CpCoeff[2]/TK
-                           - 2.0*CpCoeff[3]*pow(TK,0.5) - CpCoeff[4]*TK*TK*TK/3.0 ) / Rln10).val;
+                A[2] = (-( dHr - CpCoeff[0]*Tr - CpCoeff[1]*Tr*Tr/2.0 + CpCoeff[2]/Tr
+                           - 2.0*CpCoeff[3]*pow(Tr,0.5) - CpCoeff[4]*Tr*Tr*Tr/3.0 ) / Rln10).val;
                 A[3] = CpCoeff[0]/Rln10;
                 A[4] = CpCoeff[2]/(2.0*Rln10);
                 A[5] = CpCoeff[4]/(6.0*Rln10);
@@ -143,6 +148,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff[4] = Rln10 * 6.0 * A[5];
             }
 
+            A.resize(7, 0.0);
+            CpCoeff.resize(5, 0.0);
+
             lgK = A[0] + A[1] * TK + A[2]/TK + A[3] * log(TK) + A[4] / (TK*TK) +
                   A[5] * (TK*TK) + A[6] / pow(TK,0.5);
             dHr = Rln10 *( A[1]*(TK*TK) - A[2] + A[3]*TK - 2.0*A[4]/TK
-- 
2.43.0


From 675664f8ad8a8126b12d7245f4e7db184a3f2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 09/66] fix: reaction properties summed from reactants include
 every reactant

---
 ThermoFun/ThermoEngine.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 28d2882..9320549 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -786,6 +786,7 @@ struct ThermoEngine::Impl
                 tpr.reaction_enthalpy += VP;
                 auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
                 tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
+                tpr.ln_equilibrium_constant = tpr.log_equilibrium_constant * lg_to_ln;
                 tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
                 tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
@@ -858,9 +859,9 @@ struct ThermoEngine::Impl
             tpr.reaction_volume             += tps.volume*coeff;
             tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
-            tpr.reaction_heat_capacity_cv = tps.heat_capacity_cv*coeff;
-            tpr.reaction_internal_energy  = tps.internal_energy*coeff;
-            tpr.reaction_helmholtz_energy = tps.helmholtz_energy*coeff;
+            tpr.reaction_heat_capacity_cv   += tps.heat_capacity_cv*coeff;
+            tpr.reaction_internal_energy    += tps.internal_energy*coeff;
+            tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
             setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-- 
2.43.0


From c9a228ab99d60ff8b5d8ac999c10ac31b3131e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 10/66] fix: density model reactions use their own model and
 report log K and internal energy

---
 ThermoFun/Reactions/DolejsManning2010.cpp | 4 ++++
 ThermoFun/Reactions/FrantzMarshall.cpp    | 4 ++++
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp | 5 ++++-
 ThermoFun/ThermoModelsReaction.cpp        | 2 +-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index aa20847..09b4f0a 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -1,4 +1,5 @@
 #include "DolejsManning2010.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -13,6 +14,8 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto BETw = wp.Beta*1e05;
     auto dALPdTw = wp.dAldT;
     auto DMcoef = reaction.thermoParameters().reaction_DM10_coeff;
+    if (DMcoef.size() < 5)
+        errorModelParameters("Dolejs and Manning (2010) density model", "reaction " + reaction.symbol(), __LINE__, __FILE__);
 
     auto dRHOdT = -ALPw*RHOw;
     auto dRHOdP = BETw*RHOw;
@@ -39,6 +42,7 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
            // Error( GetName(),"DM denisty model: dGr and lnK not consistent!");
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index f5bbce7..4e97a68 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -1,4 +1,5 @@
 #include "FrantzMarshall.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -13,6 +14,8 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto BET = wp.Beta*1e05;
     auto dALPdT = wp.dAldT;
     auto MFcoef = reaction.thermoParameters().reaction_FM_coeff;
+    if (MFcoef.size() < 7)
+        errorModelParameters("Frantz and Marshall density model", "reaction " + reaction.symbol(), __LINE__, __FILE__);
 
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
@@ -47,6 +50,7 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dAr  = dUr - TK*dSr;
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index d2e7c9b..4647fc9 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -1,4 +1,5 @@
 #include "RyzhenkoBryzgalyn.h"
+#include "Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -13,6 +14,8 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto BET = wp.Beta;
     auto dALPdT = wp.dAldT;
     auto RBcoef = reaction.thermoParameters().reaction_RB_coeff;
+    if (RBcoef.size() < 3)
+        errorModelParameters("Ryzhenko and Bryzgalin model", "reaction " + reaction.symbol(), __LINE__, __FILE__);
 
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
@@ -62,7 +65,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dVr  = - R_CONSTANT*log(10.)/zzH2O * ( e*TK + f + g/TK ) * 1./(RHO*log(10.))
                 * dRHOdP * ( A + B/TK);
     auto dHr  = dGr + dSr*TK;
-    auto dUr  = dHr - Pbar*dVr;
+    auto dUr  = dHr - Pbar*dVr*1e5; // dVr in J/Pa
     auto dAr  = dUr - TK*dSr;
 
     tpr.ln_equilibrium_constant    = logKTP*lg_to_ln;
diff --git a/ThermoFun/ThermoModelsReaction.cpp b/ThermoFun/ThermoModelsReaction.cpp
index ad59aa4..a8715b9 100644
--- a/ThermoFun/ThermoModelsReaction.cpp
+++ b/ThermoFun/ThermoModelsReaction.cpp
@@ -35,7 +35,7 @@ auto ReactionDolejsManning10::thermoProperties(double T, double P, PropertiesSol
     auto t = Reaktoro_::Temperature(T);
     auto p = Reaktoro_::Pressure(P); p /= bar_to_Pa;
 
-    return thermoPropertiesFrantzMarshall(t, p, pimpl->reaction, wp);
+    return thermoPropertiesDolejsManning2010(t, p, pimpl->reaction, wp);
 }
 
 //=======================================================================================================
-- 
2.43.0


From 19ed7afd42021ac56490f7875f29ef9eb7016a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:36 +0000
Subject: [PATCH 11/66] fix: density model solutes, Berman and Birch-Murnaghan
 minerals: enthalpy, entropy and volume follow from their Gibbs energy

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp   | 13 +++++++++----
 ThermoFun/Substances/Solids/SolidBerman88.cpp       |  4 ++--
 ThermoFun/Substances/Solute/SoluteADgems.cpp        |  2 +-
 ThermoFun/Substances/Solute/SoluteAnderson91.cpp    |  2 +-
 .../Substances/Solute/SoluteHollandPowell98.cpp     |  9 +++++++--
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 09364f5..f0e8f8f 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -105,6 +105,11 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
       kppTplus = -((35./9.+(3.-kp)*(4.-kp))/kt0Tplus);
       kppTminus = -((35./9.+(3.-kp)*(4.-kp))/kt0Tminus);
     }
+    else
+    {
+      kppTplus = kpp;
+      kppTminus = kpp;
+    }
 
     // calculate volume at T and Pref and its T increments
     vt = v0* exp( a1*(T-Tref)
@@ -137,7 +142,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     // calculate d(vdP)/dT (dS)
     dGTplus = BM_IntVol(P,Pref,vtTplus,vTplus,kt0Tplus,kp,kppTplus);
     dGTminus = BM_IntVol(P,Pref,vtTminus,vTminus,kt0Tminus,kp,kppTminus);
-    dS = (dGTplus-dGTminus)/(2.*Tincr);
+    dS = -(dGTplus-dGTminus)/(2.*Tincr);
 
     // calculate dH
     dH = dG + T*dS;
@@ -158,19 +163,19 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
     auto T_Tst = T -Tst;
 
     auto BMc = subst.thermoParameters().volume_BirchM_coeff;
-    if (BMc.size() < 8)
+    if (BMc.size() < 9)
     {
         errorModelParameters("Birch M.", "BMGottschalk", __LINE__, __FILE__);
     }
 
-    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 8 )
+    if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 9 )
     {
        Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, aC, aE;
 
        BirchMurnaghan( Pst, P, Tst, T, Vst*10., BMc,
                        VV0, aC, aE, GG0, HH0, SS0 );
        // increments to V, G, H, S
-       tps.volume += Vst+VV0/10.;    // fixed by KD on 22.11.04
+       tps.volume = VV0/10.;
            // aW.twp->V += VV0/10.;
        tps.entropy      += SS0;
        tps.gibbs_energy += GG0;
diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index b45706c..3fde925 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -13,7 +13,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto Vst = subst.thermoReferenceProperties().volume; // j/bar
     auto T   = TK;
     auto P   = Pbar; // in bar
-    auto Ts2   = Tst*Tst;
+    auto Ts2 = (T-Tst)*(T-Tst);
 
     auto vc = subst.thermoParameters().volume_coeff;
 
@@ -38,7 +38,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         tps.entropy      += ( - vc[0]*VP - vc[1]*VP*2.*(T-Tst) - vc[2]*VP*3*Ts2 );
         tps.gibbs_energy += ( vc[0]*(T-Tst)*VP + vc[1]*VP*Ts2 + vc[2]*VP*Ts2*(T-Tst) + vc[3]*VP*(P-Pst) / 2.
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) + vc[2]*VP*Ts2*(2.*T + Tst)
+        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
                             + vc[3]*VP*(P-Pst) / 2. + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
         tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
         tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 80d9e1a..ecf8af1 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -39,7 +39,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
 
     const auto ADparam = subst.thermoParameters().Cp_nonElectrolyte_coeff;
 
-    if (ADparam.size() == 0)
+    if (ADparam.size() < 3)
     {
         Exception exception;
         exception.error << "Error in Akinfiev Diamond EOS";
diff --git a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
index 928011d..b440469 100644
--- a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
+++ b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
@@ -35,7 +35,7 @@ auto thermoPropertiesAqSoluteAN91(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto S = S298 - (Cp298*(ALPw298 - ALPw))/(T298*dALPdTw298);
     Reaktoro_::ThermoScalar V(V298); //-(Cp298*ALPw)/(T298*dALPdTw298); // the model does not include a volume term!
     auto Cp = T*(Cp298*dALPdTw)/(T298*dALPdTw298);
-    auto H = G_bb + T*S298;
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
diff --git a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
index 8fc3561..b77d6a0 100644
--- a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
@@ -57,10 +57,15 @@ auto thermoPropertiesAqSoluteHP98(Reaktoro_::Temperature TK, Reaktoro_::Pressure
 
     auto G_bb = H298 - T*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
     auto G = G298 - (T - T298)*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
-    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 - log(RHOw/RHOw298)/Tprime - (T/Tprime)*ALPw);
+    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 - (T/Tprime)*ALPw);
     auto V = V298 + (Cp298 - T298*b)/(T298*dALPdTw298)*( -BETw298 + T/Tprime*BETw );
     auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw))/(T298*dALPdTw298*Tprime));
-    auto H = G_bb + T*S298;
+    if (T > 500) // T' is constant: terms of the derivatives of T/T'
+    {
+        S  -= (Cp298 - T298*b)/(T298*dALPdTw298)*log(RHOw/RHOw298)/Tprime;
+        Cp += T*(Cp298 - T298*b)/(T298*dALPdTw298)*2.*ALPw/Tprime;
+    }
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
-- 
2.43.0


From ab7ddbdc054b1157637195307ae7adbe2bb8566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:55 +0000
Subject: [PATCH 12/66] fix: internal and Helmholtz energy of HKF solutes in
 consistent units; HKF parameters checked

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 12 ++++++------
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 1cc3a3e..7252461 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -26,7 +26,7 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
 
     auto TK = Reaktoro_::Temperature (TC.val+C_to_K);
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFgems EOS";
@@ -110,19 +110,17 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
     // GZterm = W * (-Z - 1.0e0);
 
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
 
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01; // J/bar
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
@@ -256,6 +254,8 @@ auto omeg92(FunctionG g, Substance species) -> ElectroPropertiesSubstance
     const auto chg = species.charge();
 
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", species.symbol(), __LINE__, __FILE__);
     const auto wref = hkf[6] /*hkf.wref*/;
 
     ElectroPropertiesSubstance eps;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 52f9f03..49b5b8b 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -48,7 +48,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto hkf = subst.thermoParameters().HKF_parameters;
     auto refProp = subst.thermoReferenceProperties();
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFreaktoro EOS";
@@ -114,19 +114,17 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto Cp = c1 + c2/pow(TK - theta, 2) - (2*TK/pow(TK - theta, 3))*(a3*(Pbar - Pr)
         + a4*log((psi + Pbar)/(psi + Pr))) + w*TK*X + 2*TK*Y*wT + TK*(Z + 1)*wTT;
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
 
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01/**cal_to_J/bar_to_Pa*/;
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
@@ -151,6 +149,8 @@ auto speciesElectroStateHKF(const FunctionG& g, Substance species) -> ElectroPro
 {
     // Get the HKF thermodynamic parameters of the aqueous species
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", species.symbol(), __LINE__, __FILE__);
 
     // The species electro instance to be calculated
     ElectroPropertiesSubstance se;
-- 
2.43.0


From 0a159a3a02f8894354b0eaeb4bd7314e03f29e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:15 +0000
Subject: [PATCH 13/66] fix: adding a map of records keeps the other records of
 the database

addMap* replaced everything although it is documented to add what is not there
yet; setMap* were declared but not defined.
---
 ThermoFun/Database.cpp | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index e95ebb6..d23e49e 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -118,13 +118,26 @@ struct Database::Impl
 
     auto addMapElements(const ElementsMap& elements) -> void
     {
-        elements_map = elements;
+        elements_map.insert(elements.begin(), elements.end());
+        setDBElements(elements_map);
+    }
+
+    auto setMapElements(const ElementsMap& elements) -> void
+    {
+        for (const auto& pair : elements)
+            elements_map[pair.first] = pair.second;
         setDBElements(elements_map);
     }
 
     auto addMapSubstances(const SubstancesMap& substances) -> void
     {
-        substances_map = substances;
+        substances_map.insert(substances.begin(), substances.end());
+    }
+
+    auto setMapSubstances(const SubstancesMap& substances) -> void
+    {
+        for (const auto& pair : substances)
+            substances_map[pair.first] = pair.second;
     }
 
     auto addReaction(const Reaction& reaction) -> void
@@ -140,7 +153,13 @@ struct Database::Impl
 
     auto addMapReactions(const ReactionsMap& reactions) -> void
     {
-        reactions_map = reactions;
+        reactions_map.insert(reactions.begin(), reactions.end());
+    }
+
+    auto setMapReactions(const ReactionsMap& reactions) -> void
+    {
+        for (const auto& pair : reactions)
+            reactions_map[pair.first] = pair.second;
     }
 
     auto getElements() const -> std::vector<Element>
@@ -452,6 +471,11 @@ auto Database::addMapElements(const ElementsMap& elements) -> void
     pimpl->addMapElements(elements);
 }
 
+auto Database::setMapElements(const ElementsMap& elements) -> void
+{
+    pimpl->setMapElements(elements);
+}
+
 auto Database::addSubstance(const Substance& substance) -> void
 {
     pimpl->addSubstance(substance);
@@ -477,6 +501,11 @@ auto Database::addMapSubstances(const SubstancesMap& substances) -> void
     pimpl->addMapSubstances(substances);
 }
 
+auto Database::setMapSubstances(const SubstancesMap& substances) -> void
+{
+    pimpl->setMapSubstances(substances);
+}
+
 auto Database::addReaction(const Reaction& reaction) -> void
 {
     pimpl->addReaction(reaction);
@@ -502,6 +531,11 @@ auto Database::addMapReactions(const ReactionsMap& reactions) -> void
     pimpl->addMapReactions(reactions);
 }
 
+auto Database::setMapReactions(const ReactionsMap& reactions) -> void
+{
+    pimpl->setMapReactions(reactions);
+}
+
 auto Database::getElement(std::string symbol) const -> const Element&
 {
     return pimpl->getElement(symbol);
-- 
2.43.0


From 8dce17f0635144f7443947115e0975964b33a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 14/66] fix: appended element records apply to formulas also if
 they replace existing ones

---
 ThermoFun/Database.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index d23e49e..b6c119c 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -431,18 +431,14 @@ auto Database::operator=(Database other) -> Database&
 
 auto Database::appendData(std::string filename) -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromFile(filename);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromJSONs(jsonRecords, _label);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
+    pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::addElement(const Element& element) -> void
-- 
2.43.0


From 22743081b701ca6c99e1a1ebbcdb3455a609ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 15/66] fix: define the declared ThermoEngine::setPreferences

---
 ThermoFun/ThermoEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 9320549..d74292e 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -960,6 +960,11 @@ auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, co
     return pimpl->thermoPropertiesReactionFromReactants(T, P, reaction);
 }
 
+auto ThermoEngine::setPreferences(const EnginePreferences preferences) -> void
+{
+    pimpl->preferences = preferences;
+}
+
 auto ThermoEngine::setSolventSymbol(const std::string solvent_symbol) -> void
 {
     pimpl->preferences.solvent_symbol = solvent_symbol;
-- 
2.43.0


From 79cd5004e03a99acc84c3bd9225eca456e6b7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:50 +0000
Subject: [PATCH 16/66] fix: transport properties no water model computes are
 zero instead of undefined memory

---
 ThermoFun/ThermoProperties.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/ThermoProperties.h b/ThermoFun/ThermoProperties.h
index a7b9a5f..78fc13a 100644
--- a/ThermoFun/ThermoProperties.h
+++ b/ThermoFun/ThermoProperties.h
@@ -82,21 +82,21 @@ struct ThermoPropertiesReaction
 struct PropertiesSolvent
 {
     /// speed of sound
-    double speed_of_sound,
+    double speed_of_sound = 0.0,
 //       Alpha,            /// constant pressure expansion (alpha)
 //       Beta,             /// constant temperature compressibility (beta)
     /// dynamic viscosity
-       dynamic_viscosity,
+       dynamic_viscosity = 0.0,
     /// thermal conductivity
-       thermal_conductivity,
+       thermal_conductivity = 0.0,
     /// surface tension
-       surface_tension,
+       surface_tension = 0.0,
     /// not clear (currently not used)
-       Tdiff,
+       Tdiff = 0.0,
     /// Prandtl number (currently not used)
-       Prndtl,
+       Prndtl = 0.0,
     /// kinetic viscosity (currently not used)
-       Visck;
+       Visck = 0.0;
 //       Albe,             /// alpha/beta ratio
 //       dAldT;            /// T derivative of isobaric expansion
     /// constant pressure expansion (alpha) (in units of 1/K)
-- 
2.43.0


From f011a3bf5731e0474fd8f8eaa81349880774c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:30 +0000
Subject: [PATCH 17/66] fix: a substance named more than once in a reaction
 equation counts each time

---
 ThermoFun/Reaction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 86a9395..1c6dadf 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -116,6 +116,7 @@ struct Reaction::Impl
     auto fromEquation(const std::string &reactionEquation) -> void
     {
         equation = reactionEquation;
+        reactants.clear();
 
         if (symbol.empty())
             symbol = reactionEquation;
@@ -132,7 +133,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef*(-1.);
+                reactants[reactant] -= coef;
         }
 
         parts = regexp_split(str_products, "\\s+\\+\\s+" /*"\\s+"*/ );
@@ -141,7 +142,7 @@ struct Reaction::Impl
             reactant = extractCoef( el, coef );
             thfun_logger->trace(" extractCoef data: {} reactant: {} coef: {}", el, reactant, coef);
             if(!reactant.empty())
-                reactants[reactant] = coef;
+                reactants[reactant] += coef;
         }
     }
 };
-- 
2.43.0


From ec03e17ab4c8e8796d73f3d53d0939a56e2ce190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:08 +0000
Subject: [PATCH 18/66] fix: third derivatives of the Haar-Gallagher-Kell
 Helmholtz energy

---
 .../Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
index 5d6fe4e..8b08abc 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
@@ -266,7 +266,7 @@ namespace ThermoFun {
             const auto x_tt = y_tt * x2 + 2.0 * y_t * x_t * x;
             const auto x_rt = y_rt * x2 + 2.0 * y_r * x_t * x;
             const auto x_rrr = y_rrr * x2 + 4 * y_rr * x_r * x + 2 * y_r * (x_rr * x + x_r * x_r);
-            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) + 2 * y_r * (x_rt * x + x_r * x_t);
+            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) * x + 2 * y_r * (x_rt * x + x_r * x_t);
             const auto x_rtt = y_rtt * x2 + 4 * y_rt * x_t * x + 2 * y_r * (x_tt * x + x_t * x_t);
             const auto x_ttt = y_ttt * x2 + 4 * y_tt * x_t * x + 2 * y_t * (x_tt * x + x_t * x_t);
 
@@ -294,7 +294,7 @@ namespace ThermoFun {
             s.helmholtzDDD = A20 * t * (u_rrr + c1 * x_rrr + 2 * c2 * (3 * x_r * x_rr + x * x_rrr) + c3 * y_rrr);
             s.helmholtzTDD = A20 * t * (u_rrt + c1 * x_rrt + 2 * c2 * (x_t * x_rr + 2 * x_r * x_rt + x * x_rrt) + c3 * y_rrt) + s.helmholtzDD / t;
             s.helmholtzTTD = A20 * t * (u_rtt + c1 * x_rtt + 2 * c2 * (x_r * x_tt + 2 * x_t * x_rt + x * x_rtt) + c3 * y_rtt) + 2 * (s.helmholtzTD - s.helmholtzD / t) / t;
-            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + s.helmholtz / (t * t)) / t;
+            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + 2 * s.helmholtz / (t * t)) / t;
 
             return s;
         }
@@ -369,7 +369,7 @@ namespace ThermoFun {
                 const auto theta_tt = 2 * beta[i] * (2 * beta[i] * tau * tau - 1) * tau_t * tau_t * theta;
                 const auto theta_rt = -2 * beta[i] * tau * tau_t * theta_r;
                 const auto theta_rrr = psi_rr * theta + 2 * psi_r * theta_r + psi * theta_rr;
-                const auto theta_rrt = psi_r * theta_r + psi * theta_rt;
+                const auto theta_rrt = psi_r * theta_t + psi * theta_rt;
                 const auto theta_rtt = psi * theta_tt;
                 const auto theta_ttt = -2 * beta[i] * (2 * tau_t * tau_t * theta_t + tau * tau_t * theta_tt);
 
-- 
2.43.0


From 9e10ceb6a862a3facdf0e8f6b7d2b5b431131cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 19/66] fix: error propagation of ThermoScalar arithmetic (zero
 and negative values, powers, logarithms, reciprocals)

---
 ThermoFun/Common/ThermoScalar.hpp | 62 ++++++++++---------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index a6cc69d..955d3ca 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -141,14 +141,10 @@ public:
     template<typename VR>
     ThermoScalarBase& operator*=(const ThermoScalarBase<VR>& other)
     {
-        const double tmp_err = err / val;
+        err  = std::sqrt(err*other.val*err*other.val + val*other.err*val*other.err);
         ddt  = ddt * other.val + val * other.ddt;
         ddp  = ddp * other.val + val * other.ddp;
         val *= other.val;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -164,14 +160,13 @@ public:
     {
         const double tmp1 = 1.0/other.val;
         const double tmp2 = tmp1 * tmp1;
-        const double tmp_err = err / val;
-        ddt  = (ddt * other.val - val * other.ddt) * tmp2;
-        ddp  = (ddp * other.val - val * other.ddp) * tmp2;
-        val *= tmp1;
         if (other.val == 0)
             err = 0.0;
         else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+            err  = tmp2*std::sqrt(err*other.val*err*other.val + val*other.err*val*other.err);
+        ddt  = (ddt * other.val - val * other.ddt) * tmp2;
+        ddp  = (ddp * other.val - val * other.ddp) * tmp2;
+        val *= tmp1;
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -198,26 +193,17 @@ public:
     /// Assign-multiplication of a ThermoScalar instance
     ThermoScalarBase& operator*=(double other)
     {
-        const double tmp_err = err/val*err/val;
         val *= other;
         ddt *= other;
         ddp *= other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
+        err *= std::fabs(other);
         return *this;
     }
 
     /// Assign-division of a ThermoScalar instance
     ThermoScalarBase& operator/=(double other)
     {
-        const double tmp_err = err/val*err/val;
         *this *= 1.0/other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
         return *this;
     }
 
@@ -285,8 +271,7 @@ inline auto status(const ThermoScalarBase<VL>& l) -> StatusMessage
 template<typename V>
 inline auto operator+(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
 {
-    l.sta = status(l);
-    return l;
+    return {l.val, l.ddt, l.ddp, l.err, status(l)};
 }
 
 /// Add two ThermoScalar instances
@@ -340,22 +325,16 @@ inline auto operator-(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
 template<typename VL, typename VR>
 inline auto operator*(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& r) -> ThermoScalarBase<double>
 {
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, (l.val * r.val)*std::sqrt(a+b), status(l,r)};
+    const double a = l.err * r.val;
+    const double b = l.val * r.err;
+    return {l.val * r.val, l.val * r.ddt + l.ddt * r.val, l.val * r.ddp + l.ddp * r.val, std::sqrt(a*a + b*b), status(l,r)};
 }
 
 /// Left-multiply a ThermoScalar instance by a scalar
 template<typename V>
 inline auto operator*(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBase<double>
 {
-    if (r.val == 0)
-        return {l * r.val, l * r.ddt, l * r.ddp, 0.0, status(r)};
-    auto err = (l * r.val)*std::sqrt(r.err/r.val*r.err/r.val);
-    return {l * r.val, l * r.ddt, l * r.ddp, err, status(r)};
+    return {l * r.val, l * r.ddt, l * r.ddp, l * r.err, status(r)};
 }
 
 /// Right-multiply a ThermoScalar instance by a scalar
@@ -371,12 +350,9 @@ inline auto operator/(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>&
 {
     const double tmp1 = 1.0/r.val;
     const double tmp2 = tmp1 * tmp1;
-    double a = 0.0; double b = 0.0;
-    if (l.val != 0)
-        a = l.err/l.val*l.err/l.val;
-    if (r.val != 0)
-        b = r.err/r.val*r.err/r.val;
-    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), (tmp1 * l.val)*std::sqrt(a+b), status(l,r)};
+    const double a = l.err * r.val;
+    const double b = l.val * r.err;
+    return {tmp1 * l.val, tmp2 * (l.ddt * r.val - l.val * r.ddt), tmp2 * (l.ddp * r.val - l.val * r.ddp), tmp2 * std::sqrt(a*a + b*b), status(l,r)};
 }
 
 /// Left-divide a ThermoScalar instance by a scalar
@@ -387,7 +363,7 @@ inline auto operator/(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
     const double tmp2 = -l*tmp1*tmp1;
     if (r.val == 0)
         return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, 0.0, status(r)};
-    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, (tmp1 * r.val)*std::sqrt(r.err/r.val*r.err/r.val), status(r)};
+    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, tmp2 * r.err, status(r)};
 }
 
 /// Right-divide a ThermoScalar instance by a scalar
@@ -405,7 +381,7 @@ inline auto sqrt(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 0.5 * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0,0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.5*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -416,7 +392,7 @@ inline auto pow(const ThermoScalarBase<V>& l, double power) -> ThermoScalarBase<
     const double tmp2 = power * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, std::fabs(power)*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -428,7 +404,7 @@ inline auto pow(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& power
     const double tmp = power.val/l.val;
     if (l.val == 0)
         return {powl, powl * (logl * power.ddt + /*tmp * l.ddt*/0.0), powl * (logl * power.ddp + /*tmp * l.ddp*/0.0), 0.0, status(l,power)};
-    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl*(l.err/l.val), status(l,power)};
+    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl * std::sqrt(logl*power.err*logl*power.err + tmp*l.err*tmp*l.err), status(l,power)};
 }
 
 /// Return the natural exponential of a ThermoScalar instance
@@ -447,7 +423,7 @@ inline auto log(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 1.0/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.434*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the log10 of a ThermoScalar instance
-- 
2.43.0


From c7649b53b2e65043a3b90981f320782d80f78c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 20/66] fix: dimensions of powers of bar, fractional powers and
 tesla; malformed unit expressions raise errors

---
 ThermoFun/Common/Units.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 373dfcd..103b30e 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -359,7 +359,7 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"webers"       , {{1, "Wb" , 1}}},
 
     // Magnetic Flux Density Units
-    {"T"            , {{1 , "Wb" , 1}, {1 , "m", 2}}},
+    {"T"            , {{1 , "Wb" , 1}, {1 , "m", -2}}},
     {"gauss"        , {{0.0001 , "T", 1}}},
     {"tesla"        , {{1, "T", 1}}},
     {"teslas"       , {{1, "T", 1}}},
@@ -395,11 +395,11 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"K^0.5"        , {{1, "K", 0.5}}},
     {"K^1.5"        , {{1, "K", 1.5}}},
 
-    {"bar^2"          , {{1, "K", 2}}},
-    {"bar^3"          , {{1, "K", 3}}},
-    {"bar^4"          , {{1, "K", 4}}},
-    {"bar^5"          , {{1, "K", 5}}},
-    {"bar^0.5"        , {{1, "K", 0.5}}}
+    {"bar^2"          , {{1, "bar", 2}}},
+    {"bar^3"          , {{1, "bar", 3}}},
+    {"bar^4"          , {{1, "bar", 4}}},
+    {"bar^5"          , {{1, "bar", 5}}},
+    {"bar^0.5"        , {{1, "bar", 0.5}}}
 };
 
 map<string, TemperatureUnit> temperatureUnitsMap =
@@ -478,13 +478,13 @@ double factor(const DerivedUnit& derivedUnit)
     return factor(derivedUnit, 0);
 }
 
-void removeZero(map<string, int>& res)
+void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
         if(iter->second == 0) res.erase(iter++); else ++iter;
 }
 
-void dimension(const string& symbol, int multpower, map<string, int>& res)
+void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
@@ -494,24 +494,24 @@ void dimension(const string& symbol, int multpower, map<string, int>& res)
         dimension(unit.symbol, unit.power * multpower, res);
 }
 
-void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, int>& res)
+void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, double>& res)
 {
     if(pos == derivedUnit.size()) return;
     dimension(derivedUnit[pos].symbol, derivedUnit[pos].power, res);
     dimension(derivedUnit, pos + 1, res);
 }
 
-map<string, int> dimension(const string& symbol)
+map<string, double> dimension(const string& symbol)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(symbol, 1, res);
     removeZero(res);
     return res;
 }
 
-map<string, int> dimension(const DerivedUnit& derivedUnit)
+map<string, double> dimension(const DerivedUnit& derivedUnit)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(derivedUnit, 0, res);
     removeZero(res);
     return res;
@@ -540,6 +540,11 @@ std::size_t findMatchedParenthesisFromRight(const string& str, size_t pos)
     return string::npos;
 }
 
+inline void missingOperandError()
+{
+    throw std::runtime_error("*** Error *** there is an operator or operand missing in the unit string.");
+}
+
 inline void unmatchedParenthesisError()
 {
     throw std::runtime_error("*** Error *** there is unmatched parenthesis in the unit string.");
@@ -547,7 +552,7 @@ inline void unmatchedParenthesisError()
 
 std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
 {
-    if(symbol.empty()) return nullptr;
+    if(symbol.empty() || pos == string::npos) missingOperandError();
 
     if(symbol[pos] == ')')
     {
@@ -558,6 +563,7 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
             string op_str    = symbol.substr(i-1, 1);
             string left_str  = symbol.substr(0, i-1);
             string right_str = symbol.substr(i+1, pos-i-1);
+            if(op_str != "*" && op_str != "/") missingOperandError();
 
             std::shared_ptr<Node> parent(new Node(op_str));
             parent->left  = parseUnit(left_str, left_str.size()-1);
-- 
2.43.0


From 7ee3d6a9d45d7b32dade6f8a6582fe34d94a93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 21/66] fix: elements order by isotope mass before valence

---
 ThermoFun/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Element.cpp b/ThermoFun/Element.cpp
index b11e98e..8415321 100644
--- a/ThermoFun/Element.cpp
+++ b/ThermoFun/Element.cpp
@@ -226,7 +226,7 @@ auto operator<(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() < rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() < rhs.valence());
             }
         }
@@ -250,7 +250,7 @@ auto operator>(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() > rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() > rhs.valence());
             }
         }
-- 
2.43.0


From 5273daa66c939a98629d9f5b6ff070e03976c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 22/66] fix: fields missing from element and substance records
 are zero; empty unit and value lists

---
 ThermoFun/Common/ParseJsonToData.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 2be4ad0..bdf90b0 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -155,7 +155,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
     if (j.contains(data)) {
         const auto& entry = j[data];
 
-        if (entry.contains("units") && entry["units"].is_array() && !entry["units"][0].is_null())
+        if (entry.contains("units") && entry["units"].is_array() && !entry["units"].empty() && !entry["units"][0].is_null())
             unit_from = entry["units"][0].get<std::string>();
 
         // Temporary fixes
@@ -169,7 +169,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
             factor = 1;
         }
 
-        if (entry.contains("values") && entry["values"].is_array() && !entry["values"][0].is_null()) {
+        if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
             value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
         }
     }
@@ -488,13 +488,16 @@ auto parseElement(const std::string &data) -> Element
         if (j.contains("number"))
             if (!j["number"].is_null())
                 e.setNumber(j["number"].get<int>());
-        double val;
+        double val = 0.0;
         read_value_unit(j, "entropy", val, "J/(mol*K)");
         e.setEntropy(val);
+        val = 0.0;
         read_value_unit(j, "heat_capacity", val, "J/(mol*K)");
         e.setHeatCapacity(val);
+        val = 0.0;
         read_value_unit(j, "atomic_mass", val, "g/mol");
         e.setMolarMass(val);
+        val = 0.0;
         read_value_unit(j, "volume", val, "J/bar");
         e.setVolume(val);
 
@@ -551,7 +554,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["reaction"].is_null())
                 s.setReactionSymbol(j["reaction"]);
 
-        double val;
+        double val = 0.0;
         read_value_unit(j, "mass_per_mole", val, "g/mol");
         s.setMolarMass(val);
 
-- 
2.43.0


From b347708873fa1dcaf619492c30bc44234821d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 23/66] fix: expansivity and compressibility missing from a
 record are zero instead of undefined memory

---
 ThermoFun/ThermoParameters.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoParameters.h b/ThermoFun/ThermoParameters.h
index 957a873..a9ea6d5 100644
--- a/ThermoFun/ThermoParameters.h
+++ b/ThermoFun/ThermoParameters.h
@@ -75,10 +75,10 @@ typedef std::vector<std::pair<std::string,Method>> listmethods;
 struct ThermoParametersSubstance
 {
     /// Isothermal compressibility (for condensed substances)
-    double isothermal_compresibility;
+    double isothermal_compresibility = 0.0;
 
     /// Isobaric expansivity (for condensed substances)
-    double isobaric_expansivity;
+    double isobaric_expansivity = 0.0;
 
     /// Lower and upper T limits for Cp=f(T) equation
     vvd temperature_intervals;
-- 
2.43.0


From 5795680ee4f19304ab94a58206290dd9d72ab049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 24/66] fix: second power of temperature in the conversions
 between heat capacity and log K coefficients

---
 ThermoFun/Reaction.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 1c6dadf..76621e0 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -386,13 +386,13 @@ auto Reaction::convert_CpfT_to_logKfT() -> ThermoPropertiesReaction
     K_fT_Coeff[6] = -4.0*CpCoeff[3]/Rln10;
 
     // Calculation of Cpr and lgK at 25 C
-    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
-    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
+    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
          Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
             2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
          Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-            - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+            - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
     auto th_param = thermoParameters();
     th_param.reaction_Cp_fT_coeff   = CpCoeff;
@@ -430,19 +430,19 @@ auto Reaction::convert_logKfT_toCpfT(/*MethodCorrT_Thrift::type methodT*/) -> Th
     case MethodCorrT_Thrift::type::CTM_LGK:
        /* Calc lgK, Hr and Sr */
         CpCoeff.resize(5);
-        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
         Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
                 2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
         Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-                - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+                - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
         CpCoeff[0] = Rln10 * K_fT_Coeff[3];
         CpCoeff[1] = Rln10 * 2.0 * K_fT_Coeff[1];
         CpCoeff[2] = Rln10 * 2.0 * K_fT_Coeff[4];
         CpCoeff[3] = -Rln10 * 0.25 * K_fT_Coeff[6];
         CpCoeff[4] = Rln10 * 6.0 * K_fT_Coeff[5];
-        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
+        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
 
         ref_prop.reaction_entropy = Sr;  // In this case, everything will be inserted
         ref_prop.reaction_enthalpy = Hr;
-- 
2.43.0


From 4bc24fb5bf97bfe085dbf50020601a155848da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 25/66] fix: third temperature derivative of the Wagner and
 Pruss Helmholtz energy

---
 .../Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
index 52194f1..aa52ba4 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
@@ -370,7 +370,7 @@ auto waterHelmholtzStateWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoS
 	const auto phiTT  = phi_tt*tT*tT + phi_t*tTT;
 	const auto phiTD  = phi_dt*tT*dD;
 	const auto phiDD  = phi_dd*dD*dD;
-	const auto phiTTT = phi_ttt*tT*tT*tau*T + 3*phi_tt*tT*tTT + phi_t*tTTT;
+	const auto phiTTT = phi_ttt*tT*tT*tT + 3*phi_tt*tT*tTT + phi_t*tTTT;
 	const auto phiTTD = phi_dtt*tT*tT*dD + phi_dt*tTT*dD;
 	const auto phiTDD = phi_ddt*tT*dD*dD;
 	const auto phiDDD = phi_ddd*dD*dD*dD;
-- 
2.43.0


From 55eb1e36c48437456a57a056d3c1f283f9ae1955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 26/66] fix: waterPressureWagnerPruss evaluates the Wagner and
 Pruss equation of state

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index dc39d41..e344a25 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -106,7 +106,7 @@ auto waterPressureHGK(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Re
 
 auto waterPressureWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Reaktoro_::ThermoScalar
 {
-    return waterPressure(T, D, waterHelmholtzStateHGK);
+    return waterPressure(T, D, waterHelmholtzStateWagnerPruss);
 }
 
 auto waterSaturatedPressureWagnerPruss(Reaktoro_::Temperature T) -> Reaktoro_::ThermoScalar
-- 
2.43.0


From e1c3079f71f465b4fb762326a9a63d099ae4bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 27/66] fix: second pressure derivative of the Zhang and Duan
 density is in kg/(m3*Pa2)

---
 ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
index ecc57d1..7162a4d 100644
--- a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
+++ b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
@@ -196,7 +196,7 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
     ps.densityT  = DdT; ps.densityT.ddp*=1e-05;
     ps.densityP  = DdP*1e-05;
     ps.densityTT = Dd2T; ps.densityTT.ddp*=1e-05;
-    ps.densityPP = Dd2P*1e-05;
+    ps.densityPP = Dd2P*1e-10;
     ps.Alpha     = -ps.densityT/ps.density;
     ps.Beta      = ps.densityP/ps.density/*/1e+05*/; // from 1/bar to 1/Pa
     ps.dAldT     = -ps.densityTT/ps.density + ps.Alpha*ps.Alpha;
-- 
2.43.0


From 39f76df1f5e0725509c1c6f6925530d07d8123eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 28/66] fix: pressure derivatives of the dielectric constant
 are per Pa in every electro model

---
 ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp  | 6 +++---
 ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp | 6 +++---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp            | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
index a3ede01..1536b15 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
@@ -87,13 +87,13 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
 
     wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
+    wep.epsilonP  = epsilonP*1e-05;  // from 1/bar to 1/Pa
+    wep.epsilonPP = epsilonPP*1e-10; // from 1/bar2 to 1/Pa2
     wep.epsilonT  = epsilonT;
     wep.epsilonTT = epsilonTT;
     wep.bornZ = -1.0/wep.epsilon;
     wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
+    wep.bornQ = wep.epsilonP/epsilon2;
 //	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
 //	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
     wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
diff --git a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
index e5a907b..8fc5ccd 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
@@ -70,13 +70,13 @@ auto electroPropertiesWaterSverjensky2014(/*PropertiesSolvent ps,*/ Reaktoro_::T
     const auto epsilonPP = (eps_plus + eps_minus - 2*eps)/pow(((P_plus-P_minus)*0.5),2);
 
     wep.epsilon   = eps;
-    wep.epsilonP  = epsilonP;
-    wep.epsilonPP = epsilonPP;
+    wep.epsilonP  = epsilonP*1e-05;  // from 1/bar to 1/Pa
+    wep.epsilonPP = epsilonPP*1e-10; // from 1/bar2 to 1/Pa2
     wep.epsilonT  = epsilonT;
     wep.epsilonTT = epsilonTT;
     wep.bornZ = -1.0/wep.epsilon;
     wep.bornY = wep.epsilonT/epsilon2;
-    wep.bornQ = wep.epsilonP/epsilon2*1e-05; // from 1/bar to 1/Pa
+    wep.bornQ = wep.epsilonP/epsilon2;
 //	we.bornU = we.epsilonTP/epsilon2 - 2.0*we.bornY*we.bornQ*we.epsilon;
 //	we.bornN = we.epsilonPP/epsilon2 - 2.0*we.bornQ*we.bornQ*we.epsilon;
     wep.bornX = wep.epsilonTT/epsilon2 - 2.0*wep.bornY*wep.bornY*wep.epsilon;
diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 7e60a0b..831781a 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -210,7 +210,7 @@ auto WaterHGKgems::electroPropertiesWaterJNgems(int state) -> ElectroPropertiesS
 
     wp.epsilonT  = yborn * pow(eps,2.);
     wp.epsilonTT = (xborn + 2.*eps*pow(yborn,2.)) * pow(eps,2.);
-    wp.epsilonP  = qborn * pow(eps,2.);
+    wp.epsilonP  = qborn * pow(eps,2.) / 1e05; // from bar-1 to Pa-1
 
 return wp;
 }
-- 
2.43.0


From eab24a2d93f26b952f76be7fdaaf6bb3f4a6fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 29/66] fix: Albe of HGK water (gems) in Pa/K, like the Alpha
 and Beta it is the ratio of

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 831781a..34a9638 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -55,7 +55,7 @@ auto WaterHGKgems::propertiesWaterHGKgems(int state) -> PropertiesSolvent
         wp.Tdiff    = wl.Tdiffw;
         wp.Prndtl   = wl.Prndtlw;
         wp.dAldT    = wl.dAldT;
-        wp.Albe     = wl.Albew;
+        wp.Albe     = wl.Albew * 1e05; // from bar/K to Pa/K
         wp.speed_of_sound    = wl.Speedw;
         wp.dynamic_viscosity     = wl.Viscw;
         wp.Visck    = wl.Visckw;
@@ -76,7 +76,7 @@ auto WaterHGKgems::propertiesWaterHGKgems(int state) -> PropertiesSolvent
         wp.Tdiff    = wr.Tdiffw;
         wp.Prndtl   = wr.Prndtlw;
         wp.dAldT    = wr.dAldT;
-        wp.Albe     = wr.Albew;
+        wp.Albe     = wr.Albew * 1e05; // from bar/K to Pa/K
         wp.speed_of_sound    = wr.Speedw;
         wp.dynamic_viscosity     = wr.Viscw;
         wp.Visck    = wr.Visckw;
-- 
2.43.0


From 6f2260ec32128cc2e0b0fcac0c7a60140248e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:55 +0000
Subject: [PATCH 30/66] fix: temperature step of the numerical derivatives of
 the dielectric constant vanished at 0 deg C

---
 ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp | 7 +++++--
 .../Substances/Solvent/WaterElectroSverjensky2014.cpp      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
index 1536b15..56ea078 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cmath>
 #include "WaterElectroFernandez1997.h"
 #include "ThermoEngine.h"
 #include "Database.h"
@@ -59,12 +61,13 @@ auto electroPropertiesWaterFernandez1997(/*PropertiesSolvent ps,*/ Reaktoro_::Te
     const auto epsilon2 = eps * eps;
 
     // numerical approximation of epsilonT and epsilonTT
-    Reaktoro_::Temperature T_plus (TC.val+TC.val*0.001);
+    const double dT = std::max(0.001*std::abs(TC.val), 0.01); // does not vanish at 0 deg C
+    Reaktoro_::Temperature T_plus (TC.val+dT);
     Reaktoro_::Temperature TK_plus (T_plus.val + 273.15);
     auto RHO_plus = th.propertiesSolvent(TK_plus.val, P.val, substance.symbol(), state).density;
     auto eps_plus = epsilonF(TK_plus, RHO_plus);
 
-    Reaktoro_::Temperature T_minus (TC.val-TC.val*0.001);
+    Reaktoro_::Temperature T_minus (TC.val-dT);
     Reaktoro_::Temperature TK_minus (T_minus.val + 273.15);
     auto RHO_minus  = th.propertiesSolvent(TK_minus.val, P.val, substance.symbol(), state).density;
     auto eps_minus = epsilonF(TK_minus, RHO_minus);
diff --git a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
index 8fc5ccd..13c3882 100644
--- a/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
+++ b/ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cmath>
 #include "WaterElectroSverjensky2014.h"
 #include "ThermoEngine.h"
 #include "Database.h"
@@ -44,11 +46,12 @@ auto electroPropertiesWaterSverjensky2014(/*PropertiesSolvent ps,*/ Reaktoro_::T
     const auto epsilon2 = eps * eps;
 
     // numerical approximation of epsilonT and epsilonTT
-    Reaktoro_::Temperature T_plus (TC.val+TC.val*0.001);
+    const double dT = std::max(0.001*std::abs(TC.val), 0.01); // does not vanish at 0 deg C
+    Reaktoro_::Temperature T_plus (TC.val+dT);
     auto RHO_plus = th.propertiesSolvent(T_plus.val+273.15, P.val, substance.symbol(), state).density / 1000;
     auto eps_plus = epsilonS(T_plus, RHO_plus);
 
-    Reaktoro_::Temperature T_minus (TC.val-TC.val*0.001);
+    Reaktoro_::Temperature T_minus (TC.val-dT);
     auto RHO_minus  = th.propertiesSolvent(T_minus.val+273.15, P.val, substance.symbol(), state).density / 1000;
     auto eps_minus = epsilonS(T_minus, RHO_minus);
 
-- 
2.43.0


From db93f3151f89dbce4022d10c99cf05b110acac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:09 +0000
Subject: [PATCH 31/66] fix: temperature derivative of the HGK water
 expansivity in the critical region

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 34a9638..63c3949 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1411,11 +1411,11 @@ auto WaterHGKgems::dalLVS(double D, double T, double P, double alpha) -> double
                                      dsdT[i] + s[i] * (1.0 - calpha[i]) *
                                      pow(a2.r,-calpha[i]) * drdT);
         dPdMMT = dPdMMT + k[i] * ((pow(a2.r,(-cgamma[i])) * dudT[i] -
-                                   u[i] * cgamma[i] * pow(a2.r,(-1.0 - cgamma[i]) * drdT)) /
+                                   u[i] * cgamma[i] * pow(a2.r,(-1.0 - cgamma[i])) * drdT) /
                                   a + 2.0 * c * (pow(a2.r,(cbeta[i] - 1.0)) * dvdT[i] +
                                                  v[i] * (cbeta[i] - 1.0) * pow(a2.r,(cbeta[i] - 2.0)) * drdT)
                                   + a * pow(c,2.) * (pow(a2.r,(-calpha[i])) * dwdT[i] -
-                                                     calpha[i] * w[i] * pow(a2.r,(-1.0 - calpha[i]) * drdT)));
+                                                     calpha[i] * w[i] * pow(a2.r,(-1.0 - calpha[i])) * drdT));
         dPdMTT = dPdMTT + k[i] * (pow(a2.r,(cbeta[i] - 1.0)) * dvdT[i] +
                                   v[i] * (cbeta[i] - 1.0) * pow(a2.r,(cbeta[i] - 2.0)) *
                                   drdT + a * c * (pow(a2.r,(-calpha[i])) * dwdT[i] -
-- 
2.43.0


From a43a6680f854b7b4eada0496e6a65f525b065de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 32/66] fix: HGK water (gems) near its critical point below Tc
 and off saturation had no density

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 63c3949..5a371d1 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -484,7 +484,7 @@ auto WaterHGKgems::calculateWaterHGKgems(double T, double &P, WaterTriplePropert
 
         WPROPS tw = wl;
         memcpy(&wl, &wr, sizeof(WPROPS));
-        if (aSta.Temp <= cr->Tc) // only below critical T we have two phases
+        if (aSpc.isat == 1) // only at saturation we have two phases
             memcpy(&wr, &tw, sizeof(WPROPS));
         else
             aSta.Dens[1] = aSta.Dens[0];
-- 
2.43.0


From 0a34ce438d451a97f8c971919bfff7d08f86588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 33/66] fix: HGK water (gems) at the critical point does not
 loop for ever

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 5a371d1..bd8e692 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1568,6 +1568,7 @@ auto WaterHGKgems::LVSeqn(int isat, int iopt, int itripl, double TC,
                 aSta.Dens[1] = cdens;
                 aSpc.isat = isat = 1;
                 aSpc.iopt = iopt = ioptsv;
+                sW = 0;
             }
         }
         else
-- 
2.43.0


From 1201c7735e3ad9cc99a3732b25edf094b515a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 34/66] fix: saturated vapour density of Wagner and Pruss has
 no factor Tcr/T

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index e344a25..d8fc52c 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -175,7 +175,7 @@ auto waterSaturatedVapourDensityWagnerPruss(Reaktoro_::Temperature T) -> Reaktor
     const auto t376 = t186 * t186 * t16;
     const auto t716 = t376 * t186 * t86 * t86;
 
-    return Dcr * exp(Tcr/T * (c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716));
+    return Dcr * exp(c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716);
 }
 
 } // namespace Reaktoro
-- 
2.43.0


From 80f10d5c0ee5c6cb9270e31ad22632ff421e9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 35/66] fix: HGK water (gems) above saturation: vapor
 properties at the vapor density, liquid density kept

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index bd8e692..07107ae 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1749,13 +1749,13 @@ auto WaterHGKgems::HGKeqn(int isat, int iopt, int itripl, double Temp,
 
         if ((aSta.Pres*10 > aSta.Psat) && (Temp < 0.647126e3) && (!aSpc.isat))
         {
-            calcv2(3, itripl, Temp, Pres, &aSta.Dens[0], epseqn);
-            thmHGK(&aSta.Dens[0], Temp);
-            dimHGK(1, itripl, Temp, Pres, &aSta.Dens[0], epseqn);
+            double liquid = aSta.Dens[1];
+            calcv2(3, itripl, Temp, Pres, &aSta.Dens[1], epseqn); // vapor density in Dens[1]
+            thmHGK(&aSta.Dens[1], Temp);
+            dimHGK(1, itripl, Temp, Pres, &aSta.Dens[1], epseqn);
 
-            double temp = aSta.Dens[0];
             aSta.Dens[0] = aSta.Dens[1];
-            aSta.Dens[1] = temp;
+            aSta.Dens[1] = liquid;
 
 //            memcpy(&wl, &wr, sizeof(WPROPS));
 //            calcv3(iopt, itripl, Temp, Pres, Dens0, epseqn);
-- 
2.43.0


From f22ea341819a4c55895384aa6e8a52c7244dad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:01 +0000
Subject: [PATCH 36/66] fix: density of water just above the critical
 temperature: limit the Newton step

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index d8fc52c..cc9fa46 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -66,7 +66,11 @@ auto waterDensity(Reaktoro_::Temperature T, Reaktoro_::Pressure P, int solvent_s
         const auto f  = (D*D*h.helmholtzD - P)/waterCriticalPressure;
         const auto df = (2*D*h.helmholtzD + D*D*h.helmholtzDD)/waterCriticalPressure;
 
-        D = (D.val > f.val/df.val) ? D - f/df : P/(D*h.helmholtzD);
+        // where the isotherm is flat, just above the critical point, a full step leads far out of the range of the equation
+        if (f.val/df.val < -0.5*D.val)
+            D = 1.5*D;
+        else
+            D = (D.val > f.val/df.val) ? D - f/df : P/(D*h.helmholtzD);
 
         if(std::abs(f.val) < tolerance)
             return D;
-- 
2.43.0


From 983eacaeb1f534e44a325e94aebb41630fc9236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:24 +0000
Subject: [PATCH 37/66] fix: HGK water (gems): vapor between the two saturation
 pressures was answered by the liquid

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 07107ae..ee87aca 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1747,7 +1747,8 @@ auto WaterHGKgems::HGKeqn(int isat, int iopt, int itripl, double Temp,
         thmHGK(Dens0, Temp);
         dimHGK(isat, itripl, Temp, Pres, Dens0, epseqn);
 
-        if ((aSta.Pres*10 > aSta.Psat) && (Temp < 0.647126e3) && (!aSpc.isat))
+        // above saturation calcv3 found the liquid again; its saturation pressure (pcorr) differs slightly from Psat
+        if (((aSta.Pres*10 > aSta.Psat) || (aSta.Dens[0] == aSta.Dens[1])) && (Temp < 0.647126e3) && (!aSpc.isat))
         {
             double liquid = aSta.Dens[1];
             calcv2(3, itripl, Temp, Pres, &aSta.Dens[1], epseqn); // vapor density in Dens[1]
-- 
2.43.0


From 51e88dc1b76f063eae18f41d964dd917566fc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 38/66] fix: Landau minerals: volume is the pressure derivative
 of the Gibbs energy

The derivative of the transition term was taken with wrong powers of Q and
a wrong sign, and the compression of the expanded volume was left out.
---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index cd6790f..45dccf9 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -8,8 +8,8 @@ namespace ThermoFun {
 
 auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, Substance subst, ThermoPropertiesSubstance tps) -> ThermoPropertiesSubstance
 {
-    Reaktoro_::ThermoScalar Tcr, Qq, dQq;
-    Tcr = 0.0; Qq = 0.0; dQq = 0.0;
+    Reaktoro_::ThermoScalar Tcr, Qq;
+    Tcr = 0.0; Qq = 0.0;
     std::vector<double> transProp = subst.thermoParameters().m_landau_phase_trans_props;
 //    auto (P/1000) = Reaktoro::Pressure (p.val /1000);  // in kbar
     auto TrK = subst.referenceT();
@@ -45,17 +45,16 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     if( TK<Tcr )
     {
         Qq = pow( 1.- TK/Tcr, 0.25 );
-        dQq = - TK*Vmax/(4.*pow((1.+TK/Tcr),0.75)*pow(Tcr,2.)*Smax);
     }
     else
     {
         Qq = 0.;
-        dQq = 0.;
     }
 
     auto kT = k298 * (1. - (1.5e-4) * ( TK-TrK ));
     auto v_bis = Vmax *pow(Q298,2.) * ( 1.+a0*(TK-TrK) - 20.*a0*( sqrt(TK) - sqrt(TrK) ));
     auto ivdp = (v_bis*kT/3.) * ( pow((1.+4.*(Pbar/1000)/kT),0.75) - 1. ) * (1000.);
+    auto dvdp = v_bis * pow((1.+4.*(Pbar/1000)/kT),-0.25); // derivative of ivdp with pressure
     // idvdtdp = Vmax*(P/1000)*(a0-10.*a0/sqrt(T)) * (1000.);
     auto idvdtdp = ( ((Vmax*pow(Q298,2.))*kT/3.)*(a0-10.*a0*pow(TK,-0.5)) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
                      - ((v_bis)*k298/3)*(1.5e-4) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
@@ -63,21 +62,19 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     auto smq = Smax * Tcr0 *( pow(Q298,2.) - pow(Q298,6.)/3. );
 
     // increment thermodynamic properties
-    if (Qq == 0. && dQq == 0.)
+    if (Qq == 0.)
     {
-        double Qq_ = 0.0; double dQq_ = 0.0;
+        double Qq_ = 0.0;
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq_,2.) + Tcr*pow(Qq_,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq_,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq_,2.) - pow(Qq_,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq_*dQq_ - Smax*pow(Qq_,2.)*Vmax/Smax + Tcr*pow(Qq_,2.)*dQq_
-                              + Vmax/Smax*pow(Qq_,3.)/3. );  // in J/bar
+        tps.volume        = ( dvdp - Vmax*pow(Qq_,2.) + Vmax*pow(Qq_,6.)/3. );  // in J/bar
     } else
     {
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq,2.) + Tcr*pow(Qq,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq*dQq - Smax*pow(Qq,2.)*Vmax/Smax + Tcr*pow(Qq,2.)*dQq
-                              + Vmax/Smax*pow(Qq,3.)/3. );  // in J/bar
+        tps.volume        = ( dvdp - Vmax*pow(Qq,2.) + Vmax*pow(Qq,6.)/3. );  // in J/bar
     }
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
-- 
2.43.0


From cf946dac2a95102f6c82571f77d360e6acce36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 39/66] fix: Landau minerals: heat capacity lacked the pressure
 term of the enthalpy

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index 45dccf9..7b14762 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -78,6 +78,13 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     }
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
+    // pressure term, -T*d2(ivdp)/dT2 (as in the Murnaghan equation)
+    auto v_298 = Vmax*pow(Q298,2.);
+    tps.heat_capacity_cp += - TK * ( (5./3.)*v_298*a0*kT/pow(TK,1.5) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
+                    - (2./3.)*v_298*(a0-10.*a0/pow(TK,0.5))*k298*(1.5e-4) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
+                    + 2.*v_298*(a0-10.*a0/pow(TK,0.5))*(Pbar/1000)*(1.5e-4) / (1.-(1.5e-4)*(TK-TrK)) * pow((1.+4.*(Pbar/1000)/kT),(-0.25))
+                    - v_bis*pow((Pbar/1000),2.)*pow((1.5e-4),2.) / ( pow((1.-(1.5e-4)*(TK-TrK)),3.)*k298 )
+                    * pow((1.+4.*(Pbar/1000)/kT),(-1.25)) ) * (1000.);
 
     tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
     tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
-- 
2.43.0


From d66f85033e3e3b82d08bb86c2a160ec0960bc8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 40/66] fix: Berman minerals: heat capacity lacked the pressure
 term of the enthalpy

---
 ThermoFun/Substances/Solids/SolidBerman88.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index 3fde925..72cc925 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -40,6 +40,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
         tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
                             + vc[3]*VP*(P-Pst) / 2. + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
+        tps.heat_capacity_cp += ( - T*VP*(2.*vc[1] + 6.*vc[2]*(T-Tst)) );
         tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
         tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
     }
-- 
2.43.0


From 1cb17e9244755e145a0062133e5d03bbc23e6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 41/66] fix: Birch-Murnaghan minerals: no volume at the
 reference temperature and pressure

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index f0e8f8f..2d381be 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -186,6 +186,12 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
 //       aW.twp->Alp = aC;
 //       aW.twp->Bet = aE;
     }
+    else
+    {
+       tps.volume = Vst;
+       tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
+       tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
+    }
 
     subst.checkCalcMethodBounds("BMGottschalk model", TK.val, Pbar.val*1e05, tps);
 
-- 
2.43.0


From 8775b6b5341262a99c9a83be5a51c35bdf260035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 42/66] fix: Birch-Murnaghan minerals: heat capacity lacked the
 pressure term of the enthalpy

---
 .../Substances/Solids/SolidBMGottschalk.cpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 2d381be..197b3ae 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -64,7 +64,7 @@ auto BM_Volume( Reaktoro_::Pressure P, Reaktoro_::ThermoScalar vt, Reaktoro_::Th
 // this function will be incorporated into GEM-Selektor v.2.1.0 code
 auto BirchMurnaghan( double Pref, Reaktoro_::Pressure P, Reaktoro_::Temperature Tref, Reaktoro_::Temperature T, Reaktoro_::ThermoScalar v0,
           std::vector<double> BMConst, Reaktoro_::ThermoScalar &vv, Reaktoro_::ThermoScalar &alpha, Reaktoro_::ThermoScalar &beta,
-          Reaktoro_::ThermoScalar &dG, Reaktoro_::ThermoScalar &dH, Reaktoro_::ThermoScalar &dS ) -> void
+          Reaktoro_::ThermoScalar &dG, Reaktoro_::ThermoScalar &dH, Reaktoro_::ThermoScalar &dS, Reaktoro_::ThermoScalar &dCp ) -> void
 {
 Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp, kpp, vstart,
          /*Volume, IntVol, */ Pincr, Tincr, /*Pplus, Pminus,*/ Tplus, Tminus,
@@ -147,6 +147,17 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     // calculate dH
     dH = dG + T*dS;
 
+    // calculate T*d(dS)/dT (dCp), with wider increments: a second difference
+    auto vdP = [&](double dT)
+    {
+        auto Ti = T + dT;
+        Reaktoro_::ThermoScalar kt = kt00 + dkdt*(Ti - Tref);
+        Reaktoro_::ThermoScalar kppi = fabs(BMConst[8]) < 1e-20 ? -((35./9.+(3.-kp)*(4.-kp))/kt) : kpp;
+        Reaktoro_::ThermoScalar vti = v0* exp( a1*(Ti-Tref) + a2/2.*(Ti*Ti-Tref*Tref) + a3*(-1./Ti+1./Tref) );
+        return BM_IntVol(P, Pref, vti, BM_Volume(P, vti, kt, kp, kppi, vv), kt, kp, kppi);
+    };
+    dCp = -T*(vdP(1.)-2.*dG+vdP(-1.));
+
 }  // End of section for Birch-Murnaghan calculations
 
 
@@ -170,16 +181,17 @@ auto thermoPropertiesMinBMGottschalk (Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if( (P_Pst != 0.0 || T_Tst != 0.) && BMc.size() >= 9 )
     {
-       Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, aC, aE;
+       Reaktoro_::ThermoScalar VV0, GG0, HH0, SS0, CC0, aC, aE;
 
        BirchMurnaghan( Pst, P, Tst, T, Vst*10., BMc,
-                       VV0, aC, aE, GG0, HH0, SS0 );
-       // increments to V, G, H, S
+                       VV0, aC, aE, GG0, HH0, SS0, CC0 );
+       // increments to V, G, H, S, Cp
        tps.volume = VV0/10.;
            // aW.twp->V += VV0/10.;
        tps.entropy      += SS0;
        tps.gibbs_energy += GG0;
        tps.enthalpy     += HH0;
+       tps.heat_capacity_cp += CC0;
 
        tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
        tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
-- 
2.43.0


From c8ad417180f3dfd27c01ab23cffb96f162c538c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 43/66] fix: HKF (gems): derivatives of the g function in water
 denser than 1 g/cm3

g is taken with |1-D|, its derivatives were taken as if D were below 1.
---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 7252461..84295a8 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -191,12 +191,13 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
 //        return g;
 
     const auto pw = fabs(1.0e0 - D.val); // insert Sveta 19/02/2000
+    const auto sw = D.val > 1.0e0 ? -1.0e0 : 1.0e0; // sign of (1-D), d(pw)/dD = -sw
 
     a = C[0] + C[1]*TC + C[2]*pow(TC,2.);
     b = C[3] + C[4]*TC + C[5]*pow(TC,2.);
     g.g = a * pow(pw, b.val);
 
-    dgdD = - a*b*pow(pw,(b.val - 1.0e0));
+    dgdD = - sw*a*b*pow(pw,(b.val - 1.0e0));
     // dgdD2 = a * b * (b - 1.0e0) * pow((1.0e0 - D),(b - 2.0e0));
 
     dadT = C[1] + 2.0*C[2]*TC;
@@ -209,11 +210,11 @@ auto gShok2(Reaktoro_::Temperature TC, Reaktoro_::Pressure Pbar, const Propertie
     dDdTT = - D * (daldT - pow(alpha,2.));
         // Db = pow((1.0 - D),b);  Fixed by DAK 01.11.00
     Db = pow( pw , b.val );
-    dDbdT = -b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
+    dDbdT = -sw * b * pow(pw,(b.val - 1.0)) * dDdT + log(pw) * Db  * dbdT;
 
 
-    dDbdTT = -(b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
-                + b * dDdT * ( -(b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
+    dDbdTT = -sw * (b * pow(pw,(b.val-1.0)) * dDdTT + pow(pw,(b.val - 1.0)) * dDdT * dbdT
+                + b * dDdT * ( -sw * (b - 1.0) * pow(pw,(b.val - 2.0)) * dDdT
                 + log(pw) * pow(pw,(b.val - 1.0)) * dbdT))
                 + log(pw) * pow(pw,b.val) * dbdTT
                 - pow(pw,b.val) * dbdT * dDdT / (1.0 - D)
-- 
2.43.0


From c7a6de9829325dea632ddfc1e4621dfd707bb78a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:55:54 +0000
Subject: [PATCH 44/66] fix: PRSV and PR78 gases: residual enthalpy at the
 critical temperature and with k1

The temperature derivative of a was recovered from alpha by dividing by
1-sqrt(Tr): 0/0 at the critical temperature, and not the derivative at all
when kappa itself depends on temperature (PRSV with k1).
---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 4a82629..ff2bf80 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -486,7 +486,7 @@ long int TPRSVcalc::AB( double Tcrit, double Pcrit, double omg, double k1, doubl
 /// calculates fugacities and residual functions of pure fluid species
 long int TPRSVcalc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, aprsv, bprsv, alph, da, d2a, k, A, B, a2, a1, a0,
+	double aprsv, bprsv, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -498,9 +498,6 @@ long int TPRSVcalc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	aprsv = Pureparm[i][0];
 	bprsv = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -552,12 +549,10 @@ long int TPRSVcalc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = aprsv/((0.457235)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (aprsv-Tk*da)/(bprsv*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
@@ -3698,7 +3693,7 @@ long int TPR78calc::AB( double Tcrit, double Pcrit, double omg, double /*N*/,
 /// Calculates fugacities and residual functions of pure fluid species
 long int TPR78calc::FugacityPure( long int i )
 {
-	double Tcrit, Pcrit, Tred, apr, bpr, alph, da, d2a, k, A, B, a2, a1, a0,
+	double apr, bpr, da, d2a, A, B, a2, a1, a0,
 			z1, z2, z3, vol1, vol2, vol3, lnf1, lnf2, lnf3, z, vol, lnf;
     double /*gig, hig, sig, cpig,*/ fugpure, grs, hrs, srs, cprs,
 			cv, dPdT, dPdV, dVdT;
@@ -3710,9 +3705,6 @@ long int TPR78calc::FugacityPure( long int i )
     //cpig = 0.;
 
 	// retrieve a and b terms of cubic EoS
-	Tcrit = Eosparm[i][0];
-	Pcrit = Eosparm[i][1];
-	Tred = Tk/Tcrit;
 	apr = Pureparm[i][0];
 	bpr = Pureparm[i][1];
 	da = Pureparm[i][2];
@@ -3764,12 +3756,10 @@ long int TPR78calc::FugacityPure( long int i )
 	}
 
 	// calculate thermodynamic properties
-	alph = apr/((0.457235529)*pow(R_CONST,2.)*pow(Tcrit,2.) / Pcrit);
-	k = (sqrt(alph)-1.)/(1.-sqrt(Tred));
 	grs = R_CONST*Tk*(z-1.-log(z-B)-A/(B*sqrt(8.))
 				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B)));
-	hrs = R_CONST*Tk*(z-1.-log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B))
-				*A/(B*sqrt(8.))*(1+k*sqrt(Tred)/sqrt(alph)));
+	hrs = R_CONST*Tk*(z-1.) - (apr-Tk*da)/(bpr*sqrt(8.))
+				*log((z+(1+sqrt(2.))*B)/(z+(1-sqrt(2.))*B));
 	srs = (hrs-grs)/Tk;
 
 	// heat capacity part
-- 
2.43.0


From 7a91b34dae5fda0b9f3c93db82b41b0d7d9955be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:55:54 +0000
Subject: [PATCH 45/66] fix: CORK H2O above 673 K: a polynomial and its
 derivatives in (T-673)

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index ff2bf80..258cc32 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4455,8 +4455,8 @@ long int TCORKcalc::FugacityH2O( long int j )
     {
         phState = 1;
         a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
-        da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-        d2a = 2.*a5 + 6.*a6*(673.-Tk);
+        da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+        d2a = 2.*a5 + 6.*a6*(Tk-673.);
         VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
     }
 
@@ -4474,9 +4474,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, fc);
         }
@@ -4492,9 +4492,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g1);
 
@@ -4507,9 +4507,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Psat, p0, a, b, c, d, e, v, g2);
 
@@ -4522,9 +4522,9 @@ long int TCORKcalc::FugacityH2O( long int j )
             }
             else
             {
-                a = a0 + a4*(673.-Tk) + a5*pow((673.-Tk),2.) + a6*pow((673.-Tk),3.);
-                da = -a4 - 2.*a5*(673.-Tk) - 3.*a6*pow((673.-Tk),2.);
-                d2a = 2.*a5 + 6.*a6*(673.-Tk);
+                a = a0 + a4*(Tk-673.) + a5*pow((Tk-673.),2.) + a6*pow((Tk-673.),3.);
+                da = a4 + 2.*a5*(Tk-673.) + 3.*a6*pow((Tk-673.),2.);
+                d2a = 2.*a5 + 6.*a6*(Tk-673.);
             }
             VolumeFugacity(phState, Pkb, p0, a, b, c, d, e, vc, g3);  // corrected from (phState, Pkb, psat ...)
             fc = g1/g2*g3;  // this formula needs checking
-- 
2.43.0


From 3dc4e3f76b30e03838ab30b7a344e1a47ddb0490 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 46/66] fix: CGF gases: residual enthalpy and entropy relative
 to the ideal gas at the same pressure

They were departures at the same density, with RT added to the enthalpy: an
ideal gas got an enthalpy 2.5 kJ/mol too high. The density of T+dT is no longer
used for the state at T.
---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 258cc32..5ce2ead 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1329,8 +1329,9 @@ long int TCGFcalc::CGResidualFunct( double *X, double *param, double *param1, un
 	F1 = FTOTALMIX(T+T*delta,ro,paar1);
 	// F1 = FTOTALMIX(T+T*delta,ro,paar);
 
-	Srs = - ( (F1-F0)/(delta*Tk)*Tk + F0 ) * R_CONST;	// corrected, 20.06.2008 (TW)
-	Hrs = (F0*Tk*R_CONST + Tk*Srs) + Z*R_CONST*Tk;
+	// departure from the ideal gas at the same T and P
+	Srs = - ( (F1-F0)/(delta*Tk)*Tk + F0 ) * R_CONST + R_CONST*log(Z);	// corrected, 20.06.2008 (TW)
+	Hrs = - (F1-F0)/(delta*Tk)*Tk*Tk*R_CONST + (Z-1.)*R_CONST*Tk;
 	Grs = Hrs - Tk*Srs;
 	CPrs = 0.;
 	vmix = Z*R_CONST*Tk/Pbar;
@@ -2263,6 +2264,7 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 	double T, P, Fugacity = 0.1, Volume = 0.0;
 	double X[1] = {1.};
 	double roro = 1.;  // added 21.06.2008 (TW)
+	double roro1 = 1.;  // density at T+T*DELTA
 	double Coeff[12];  // MAXEOSPARAM = 20;
 	double Eos4parPT[4] = { 0.0, 0.0, 0.0, 0.0 },
 		Eos4parPT1[4] = { 0.0, 0.0, 0.0, 0.0 } ;
@@ -2281,7 +2283,7 @@ long int TCGFcalc::CGcalcFugPure(double Tmin, double *Cemp, double *FugProps )
 		FugProps[1] = 8.31451 * Tk * log( Fugacity / P );
 		FugProps[4] = Volume;
 		if( retCode == 0 )
-			retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro );
+			retCode = CGFugacityPT( Coeff, Eos4parPT1, Fugacity, Volume, P, T+T*DELTA, roro1 );
 	}
 	else
 		retCode = -1;
-- 
2.43.0


From 4166b00fb79f0ace33d6643a0051e3373a597753 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 47/66] fix: CORK: molar volume when two roots of the cubic
 equation coincide

Near zero pressure rounding makes the discriminant exactly zero: the angle of
the negative half axis was taken as 0 instead of pi and the volume of the gas
was 2/3 of RT/P.
---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 5ce2ead..ee02060 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -4864,9 +4864,7 @@ long int TCORKcalc::Cardano(double cb, double cc, double cd, double &v1, double
 
     else  //three real roots
     {
-        co = atan(sqrt(1.-cp2/(cq3))/(cp/sqrt(cq3)));
-        if (co<0.)
-            co = co + 3.1415927;
+        co = atan2(sqrt(1.-cp2/(cq3)), cp/sqrt(cq3));
         v1 = (-2.)*sqrt(cq)*cos(co/3.) - cb/3.;
         v2 = (-2.)*sqrt(cq)*cos((co+2.*3.1415927)/3.) - cb/3.;
         v3 = (-2.)*sqrt(cq)*cos((co-2.*3.1415927)/3.) - cb/3.;
-- 
2.43.0


From d9e20b981328dc120e5d1bf95733f34573bc7b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 48/66] fix: steam tables convention: Gibbs and Helmholtz
 energies of water away from the triple point

---
 ThermoFun/ThermoEngine.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index d74292e..f86217d 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -161,12 +161,13 @@ struct ThermoEngine::Impl
         }
     }
 
-    auto toSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat) const -> void
+    auto toSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat, double T) const -> void
     {
-        tps.gibbs_energy -= wat.Gtr;
+        const double Ttr = 273.16; // temperature of the triple point of water (K)
+        tps.gibbs_energy -= wat.Gtr - wat.Str * (T - Ttr); // the entropy of the triple point acts from Ttr to T
         tps.enthalpy -= wat.Htr;
         tps.entropy -= wat.Str;
-        tps.helmholtz_energy -= wat.Atr;
+        tps.helmholtz_energy -= wat.Atr - wat.Str * (T - Ttr);
         tps.internal_energy -= wat.Utr;
     }
 
@@ -485,7 +486,7 @@ struct ThermoEngine::Impl
             {
                 if (iequals(conventions.water_properties, "STEAM_TABLES"))
                 {
-                    toSteamTables(tps, waterTripleData.at(water_triple_reference));
+                    toSteamTables(tps, waterTripleData.at(water_triple_reference), T);
                 }
             }
             else
-- 
2.43.0


From b1be45605dce7612b4a3571678c7b51fee202753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 49/66] fix: Akinfiev-Diamond solutes depended on the
 convention for the properties of water

---
 ThermoFun/ThermoEngine.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index f86217d..5dac71c 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -171,6 +171,22 @@ struct ThermoEngine::Impl
         tps.internal_energy -= wat.Utr;
     }
 
+    auto fromSteamTables(ThermoPropertiesSubstance &tps, WaterTripleProperties wat, double T) const -> void
+    {
+        const WaterTripleProperties opposite = { -wat.Str, -wat.Gtr, -wat.Htr, -wat.Utr, -wat.Atr };
+        toSteamTables(tps, opposite, T);
+    }
+
+    /// Properties of the solvent for the models that compare them with the (geochemical) ideal gas properties of water
+    auto solventGeochemicalProperties(double T, double &P) const -> ThermoPropertiesSubstance
+    {
+        auto tps = thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props);
+        if (iequals(conventions.water_properties, "STEAM_TABLES") &&
+            database.getSubstance(preferences.solvent_symbol).substanceClass() == SubstanceClass::type::AQSOLVENT)
+            fromSteamTables(tps, waterTripleData.at(database.conventions().water_triple_point_reference), T);
+        return tps;
+    }
+
     auto toBermanBrown(ThermoPropertiesSubstance &tps, const Substance &subst) const -> void
     {
         const auto Tr = subst.referenceT();
@@ -366,10 +382,10 @@ struct ThermoEngine::Impl
                 {
                     double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
                     double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, solventGeochemicalProperties(T, P),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
                                                                                         properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol, preferences.apply_pressure_correction_to_gas_props),
+                                                                                        solventGeochemicalProperties(Tr, Pr),
                                                                                         WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
                                                                                         properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
                     break;
-- 
2.43.0


From cac3562807a9afa3d95a669c713db935f9884567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:21 +0000
Subject: [PATCH 50/66] fix: reactants at P = 0 had properties at different
 pressures, depending on the order of their symbols

---
 ThermoFun/ThermoEngine.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 5dac71c..b1d02f9 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -639,6 +639,15 @@ struct ThermoEngine::Impl
         return ps;
     }
 
+    /// P = 0 stands for the saturation pressure of water: it is determined before the properties of the
+    /// first reactant are used, so that those of all reactants belong to the same pressure
+    auto setSaturationPressure(double T, double &P, const std::map<std::string, double> &reactants, const std::string &except = "") const -> void
+    {
+        for (const auto &reactant : reactants)
+            if (P == 0 && reactant.first != except)
+                thermo_properties_substance_fn(T, P, P, reactant.first, preferences.apply_pressure_correction_to_gas_props);
+    }
+
     auto reacDCthermoProperties(double T, double &P, Substance subst) const -> ThermoPropertiesSubstance
     {
         ThermoPropertiesSubstance tps, reacTps;
@@ -653,6 +662,7 @@ struct ThermoEngine::Impl
         if (!reactionSymbol.empty())
         {
             reaction = database.getReaction(reactionSymbol);
+            setSaturationPressure(T, P, reaction.reactants(), subst.symbol());
 
             tpr = thermo_properties_reaction_fn(T, P, P, reactionSymbol); /*thermoPropertiesReaction(T, P, reactionSymbol);*/
 
@@ -853,6 +863,8 @@ struct ThermoEngine::Impl
 
         ScopedSwitchOn gas_pressure_correction(preferences.apply_pressure_correction_to_gas_props);
 
+        setSaturationPressure(T, P, reaction.reactants());
+
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
         for (auto &reactant : reaction.reactants())
-- 
2.43.0


From 6bb442f81c1a20046d74514cfe3e1cdfdc2b1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:51 +0000
Subject: [PATCH 51/66] fix: increments of temperature and pressure went beyond
 their maximum or never ended

---
 ThermoFun/Batch/ThermoBatch.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e73029..d303a33 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -146,25 +146,17 @@ struct ThermoBatch::Impl
     auto addTPpairs (const double &Tmin, const double &Tmax, const double &Tstep,
                      const double &Pmin, const double &Pmax, const double &Pstep) -> void
     {
-        clearTPpairs();
-        double t = Tmin-Tstep;
-        double p = Pmin-Pstep;
-        std::vector<double> temperatures;
-        std::vector<double> pressures;
-
-        do
-        {
-            p = p + Pstep;
-            pressures.push_back(p);
-        } while (p < Pmax);
-
-        do
-        {
-            t = t + Tstep;
-            temperatures.push_back(t);
-        } while (t < Tmax);
+        addTPpairs(incremented(Tmin, Tmax, Tstep), incremented(Pmin, Pmax, Pstep));
+    }
 
-        addTPpairs(temperatures, pressures);
+    /// Values from min in steps up to max (not beyond it)
+    auto incremented (const double &min, const double &max, const double &step) const -> std::vector<double>
+    {
+        std::vector<double> values = { min };
+        if (step > 0)
+            for (size_t i = 1; min + i*step <= max + 1e-6*step; i++)
+                values.push_back(min + i*step);
+        return values;
     }
 
     auto addTPpairs (const vvd &tpPairs) -> void
-- 
2.43.0


From b8979646722914320d8faf00d29f3ccff784ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:51 +0000
Subject: [PATCH 52/66] fix: batch results at saturation pressure: those before
 the first substance that depends on water stayed at P = 0

---
 ThermoFun/Batch/ThermoBatch.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index d303a33..ba9fc1f 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -236,8 +236,19 @@ struct ThermoBatch::Impl
         return resultsReac;
     }
 
+    auto calculateProp(Calculation calculation, double T, double &P, std::string symbol, unsigned index) -> void
+    {
+        switch(calculation) {
+        case forSUBSTANCE: calculateSubstProp(T, P, symbol, index); break;
+        case forREACTION: calculateReactProp (T, P, symbol, index); break;
+        case forSOLVENT: calculateSolventProp(T, P, symbol, index); break;
+        }
+    }
+
     auto calculate(Calculation calculation) -> void
     {
+        // results calculated at P = 0 (index of the T-P pair and of the result)
+        std::vector<std::pair<size_t, size_t>> atZeroPressure;
         double T, P; std::string symbol; size_t j_size, i_size;
         auto defUnitT = defaultPropertyUnits.at("temperature");
         auto unitT    =   givenPropertyUnits.at("temperature");
@@ -268,11 +279,9 @@ struct ThermoBatch::Impl
                     symbol = symbols[j];
                 }
 
-                switch(calculation) {
-                case forSUBSTANCE: calculateSubstProp(T, P, symbol, (j_size*i)+(j)); break;
-                case forREACTION: calculateReactProp (T, P, symbol, (j_size*i)+(j)); break;
-                case forSOLVENT: calculateSolventProp(T, P, symbol, (j_size*i)+(j)); break;
-                }
+                calculateProp(calculation, T, P, symbol, (j_size*i)+(j));
+                if (P == 0)
+                    atZeroPressure.push_back({outSettings.loopOverTPpairsFirst ? j : i, (j_size*i)+(j)});
 
                 // in case of Psat = 0 updating with real value
                 if (outSettings.loopOverTPpairsFirst)
@@ -286,6 +295,18 @@ struct ThermoBatch::Impl
                 }
             }
         }
+
+        // results from before the saturation pressure was known
+        for (const auto &result : atZeroPressure)
+        {
+            const auto &pair = tpPairs[result.first];
+            if (pair[1] == 0)
+                continue;
+            T = units::convert(pair[0], unitT, defUnitT);
+            P = units::convert(pair[1], unitP, defUnitP);
+            symbol = symbols[outSettings.loopOverTPpairsFirst ? result.second / j_size : result.second % j_size];
+            calculateProp(calculation, T, P, symbol, result.second);
+        }
         auto tpp = tpPairs;
         addTPpairs(tpp);
     }
-- 
2.43.0


From 5f3ad0c8c700c5a782a75614c593bebfde82f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 53/66] fix: property grids at saturation pressure or of T-P
 pairs that form no grid read beyond the results

---
 ThermoFun/Batch/OutputBatch.cpp | 17 +++++++++++++++++
 ThermoFun/Batch/ThermoBatch.cpp |  2 --
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 6783832..d2e3c03 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -4,6 +4,7 @@
 #include <sstream>
 #include <iomanip>
 #include <algorithm>
+#include <cmath>
 #include "../GlobalVariables.h"
 #include "../Common/Units.hpp"
 
@@ -329,6 +330,22 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
         colData          = "pressure";
     }
 
+    // the results follow the T-P pairs: these have to be in the order of the cells of the grid
+    auto isGrid = tpPairs.size() == rows.size() * columns.size();
+    for (size_t k=0; isGrid && k<tpPairs.size(); k++)
+    {
+        auto row = rows[k / columns.size()], column = columns[k % columns.size()];
+        auto T   = outSettings.loopTemperatureThenPressure ? row : column;
+        auto P   = outSettings.loopTemperatureThenPressure ? column : row;
+        // P = 0 has been replaced by the saturation pressure
+        isGrid = tpPairs[k][0] == T && (P == 0 || std::abs(tpPairs[k][1] - P) <= 1e-9 * std::abs(P));
+    }
+    if (!isGrid)
+    {
+        pimpl->fProperties << "The T-P pairs do not form a grid";
+        return;
+    }
+
     for (unsigned i=0; i<symbols.size(); i++)
         for (auto r : rows)
         {
diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index ba9fc1f..bea402b 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -307,8 +307,6 @@ struct ThermoBatch::Impl
             symbol = symbols[outSettings.loopOverTPpairsFirst ? result.second / j_size : result.second % j_size];
             calculateProp(calculation, T, P, symbol, result.second);
         }
-        auto tpp = tpPairs;
-        addTPpairs(tpp);
     }
 
     auto selectProvidedSubstancesProperties(vtps vTps) -> void
-- 
2.43.0


From 7e8f5cbc53c9fd90bb340887b3ab93b38e4abf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:12 +0000
Subject: [PATCH 54/66] fix: property grids in another folder were not written

---
 ThermoFun/Batch/OutputBatch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index d2e3c03..5815fb2 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -67,9 +67,12 @@ auto Output::toCSVTransposed(std::string filename) -> void
 auto Output::toCSVPropertyGrid(std::string filename) -> void
 {
     auto properties = pimpl->api.properties();
+    const auto slash = filename.find_last_of("/\\");
+    const auto folder = (slash == std::string::npos) ? std::string() : filename.substr(0, slash + 1);
+    const auto name = filename.substr(folder.size());
     for (size_t i = 0; i<properties.size(); i++)
     {
-        pimpl->fProperties.open(std::string(properties[i]+"_"+filename), std::ios::trunc );
+        pimpl->fProperties.open(folder+properties[i]+"_"+name, std::ios::trunc );
 
         pimpl->fProperties << CSVHeaderPropertyGrid() << std::endl;
 
-- 
2.43.0


From afc00a8545158c6003f32c639dbea67f2261ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:36 +0000
Subject: [PATCH 55/66] fix: HKF solutes with large charges overflowed

---
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 49b5b8b..0bdf3c6 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -167,7 +167,7 @@ auto speciesElectroStateHKF(const FunctionG& g, Substance species) -> ElectroPro
     }
     else
     {
-        const auto z = species.charge();
+        const double z = species.charge();
         const auto wref = hkf[6] /*hkf.wref*/;
 
         const auto reref = z*z/(wref/eta + z/3.082);
-- 
2.43.0


From ccece8f6b70a66c0f667c297720b59b67412d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:58 +0000
Subject: [PATCH 56/66] fix: numbers in records beyond the range of integers

---
 ThermoFun/Common/ParseJsonToData.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index bdf90b0..3d4cb35 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -1,6 +1,7 @@
 // C++ includes
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <stdlib.h>
 #include <regex>
 
@@ -69,6 +70,18 @@ auto thermoRefPropReac(const json &j) -> ThermoPropertiesReaction;
 //        return false;
 //}
 
+/// Reads a number as an integer, if there is an integer for it
+auto readInteger(const json& j) -> int
+{
+    if (j.is_number_float())
+    {
+        const auto value = j.get<double>();
+        if (!(value > std::numeric_limits<int>::min() - 1.0 && value < std::numeric_limits<int>::max() + 1.0))
+            funError("Number out of range", j.dump(), __LINE__, __FILE__);
+    }
+    return j.get<int>();
+}
+
 auto readValueErrorUnit(const json& j, const std::string& propPath, double& val, double& err, const std::string& unit, const std::string& message) -> Reaktoro_::StatusMessage
 {
     Reaktoro_::StatusMessage status = {Reaktoro_::Status::notdefined, message};
@@ -487,7 +500,7 @@ auto parseElement(const std::string &data) -> Element
 
         if (j.contains("number"))
             if (!j["number"].is_null())
-                e.setNumber(j["number"].get<int>());
+                e.setNumber(readInteger(j["number"]));
         double val = 0.0;
         read_value_unit(j, "entropy", val, "J/(mol*K)");
         e.setEntropy(val);
@@ -511,7 +524,7 @@ auto parseElement(const std::string &data) -> Element
 
         if (j.contains("isotope_mass") && !j["isotope_mass"].is_null())
             if (!j["isotope_mass"].is_null())
-                e.setIsotopeMass(j["isotope_mass"].get<int>());
+                e.setIsotopeMass(readInteger(j["isotope_mass"]));
     }
     catch (json::exception &ex)
     {
@@ -548,7 +561,7 @@ auto parseSubstance(const std::string &data) -> Substance
 
         if (j.contains("formula_charge"))
             if (!j["formula_charge"].is_null())
-                s.setCharge(j["formula_charge"].get<int>());
+                s.setCharge(readInteger(j["formula_charge"]));
 
         if (j.contains("reaction"))
             if (!j["reaction"].is_null())
-- 
2.43.0


From 3244afc443f110f7ad82a943db6eda51fb72347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:58 +0000
Subject: [PATCH 57/66] fix: substance defined by a reaction without symbol
 never ended

---
 ThermoFun/ThermoEngine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index b1d02f9..90a2167 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -705,6 +705,7 @@ struct ThermoEngine::Impl
         else
         {
             subst.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON);
+            subst.setThermoCalculationType(SubstanceThermoCalculationType::DCOMP); // otherwise it would come back here
             return thermoPropertiesSubstance(T, P, subst);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
-- 
2.43.0


From edd5288d7016c5742da57c0bfa533cf93119733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:09 +0000
Subject: [PATCH 58/66] fix: water after HGK (GEMS code) calculated by several
 threads at once mixed intermediate values

---
 .../Substances/Solvent/WaterHGK-JNgems.cpp    | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index ee87aca..e064297 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -225,11 +225,11 @@ return wp;
 *            comparisons are set and stored in COMMON /tolers/.     */
 
 
-ACONST  ac_ = { /* wm, gascon, tz, aa, uref, sref*/
+thread_local ACONST  ac_ = { /* wm, gascon, tz, aa, uref, sref*/
     0.1801520000e2, 0.46152200e0, 0.647073e3, 0.1e1,
     -0.4328455039e4, 0.76180802e1,  0., 0., 0.};
 
-NCONST  nc_ ={ /* g(40), ii(40), jj(40), nc */
+thread_local NCONST  nc_ ={ /* g(40), ii(40), jj(40), nc */
     {-0.53062968529023e3, 0.22744901424408e4, 0.78779333020687e3,
      -0.69830527374994e2, 0.17863832875422e5,-0.39514731563338e5,
      0.33803884280753e5,-0.13855050202703e5,-0.25637436613260e6,
@@ -252,33 +252,33 @@ NCONST  nc_ ={ /* g(40), ii(40), jj(40), nc */
      1, 4, 4, 4, 0, 2, 0, 0},                        /* jj[40] */
     36};                                           /*  nc    */
 
-ELLCON  el_ = { /* g1, g2, gf */
+thread_local ELLCON  el_ = { /* g1, g2, gf */
     0.11e2, 0.44333333333333e2, 0.35e1, 0., 0., 0., 0., 0., 0.};
 
-BCONST  bc_ = { /* bp(10), bq(10) */
+thread_local BCONST  bc_ = { /* bp(10), bq(10) */
     {0.7478629e0,-0.3540782e0,  0.0e0, 0.0, 0.7159876e-2,
      0.0e0,      -0.3528426e-2, 0.0e0, 0.0, 0.0},    /* bp[10] */
     {0.11278334e1, 0.0e0, -0.5944001e0, -0.5010996e1, 0.0e0,
      0.63684256e0, 0.0e0, 0.0, 0.0, 0.0}};           /* bq[10] */
 
-ADDCON  ad_ = { /* atz(4), adz(4), aat(4), aad(4) */
+thread_local ADDCON  ad_ = { /* atz(4), adz(4), aat(4), aad(4) */
     {0.64e3,  0.64e3,  0.6416e3, 0.27e3},   /* atz[4]  */
     {0.319e0, 0.319e0, 0.319e0,  0.155e1},  /* adz[4]  */
     {0.2e5,   0.2e5,   0.4e5,    0.25e2},   /* aat[4]  */
     {0.34e2,  0.4e2,   0.3e2,    0.105e4} }; /* aad[4]  */
 
-HGK_CRT hc_ = { /* tcHGK, dcHGK, pcHGK */
+thread_local HGK_CRT hc_ = { /* tcHGK, dcHGK, pcHGK */
     0.647126e3, 0.322e3, 0.22055e2};
 
-TOLERS  to_ = { /* TTOL, PTOL, DTOL, XTOL, EXPTOL, FPTOL */
+thread_local TOLERS  to_ = { /* TTOL, PTOL, DTOL, XTOL, EXPTOL, FPTOL */
     1.0e-6, 1.0e-6, 1.0e-9, 1.0e-5, -673.5e0, 1.0e-7};
 
-HGK_BND hb_ = { /* Ttop, Tbtm, Ptop, Pbtm, Dtop, Dbtm */
+thread_local HGK_BND hb_ = { /* Ttop, Tbtm, Ptop, Pbtm, Dtop, Dbtm */
     2.25e3,-2.0e1, 3.0e4, 1.0e-3,
     0.138074666423686955066817336896e1,
     0.858745555396173972667420987465e-7};
 
-LIQICE  li_ = { /* sDli1, sPli1, sDli37, sPli37, sDIB30,
+thread_local LIQICE  li_ = { /* sDli1, sPli1, sDli37, sPli37, sDIB30,
                        Tli13, Pli13, Dli13, TnIB30, DnIB30 */
     -0.584797401732178547634910059828e-2,
     -0.138180804975562958027981345769e3,
@@ -291,7 +291,7 @@ LIQICE  li_ = { /* sDli1, sPli1, sDli37, sPli37, sDIB30,
     0.145e3,
     0.102631640581853166397515716306e1};
 
-TPOINT  tt_ = {/* Utri,Stri,Htri,Atri,Gtri
+thread_local TPOINT  tt_ = {/* Utri,Stri,Htri,Atri,Gtri
                        Ttr, Ptripl, Dltrip, Dvtrip */
     0e0, 0e0, 0e0, 0.0e0, 0e0,
     2.7316e2,
@@ -299,14 +299,14 @@ TPOINT  tt_ = {/* Utri,Stri,Htri,Atri,Gtri
     0.999778211030936587977889295063e0,
     0.485467583448287303988319166423e-5};
 
-CRITS   cr_ = { /* Tc, rhoC, Pc, Pcon, Ucon, Scon, dPcon */
+thread_local CRITS   cr_ = { /* Tc, rhoC, Pc, Pcon, Ucon, Scon, dPcon */
     647.067e0,  322.778e0,  22.046e0,
     0.034070660379837018423130834983e0,
     22046.0e0,
     0.034070660379837018423130834983e3,
     0.000000327018783663660700780197e0};
 
-COEFS   co_ = { /* a(20), q(20), x(11) */
+thread_local COEFS   co_ = { /* a(20), q(20), x(11) */
     {-0.017762e0, 5.238000e0, 0.000000e0,-2.549150e1,
      6.844500e0, 0.325000e0, 1.440300e0, 0.000000e0,
      1.375700e0, 2.366660e1, 4.820000e0, 0.294200e0,
-- 
2.43.0


From fb9f4f91834ee4486ba1ed0c03f9f5bf56e7ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:09 +0000
Subject: [PATCH 59/66] fix: CGF gases: cached intermediate values were shared
 by threads

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index ee02060..78406ea 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1417,8 +1417,8 @@ long int TCGFcalc::CGActivCoefRhoT( double *X, double *param, double *act,
 
 double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 		{{-0.257431, 0.439229,  0.414783,  -0.457019, -0.145520,  0.299666},
 		{-0.396724, 0.690721,  0.628935,  -0.652622, -0.201462, -0.23163 },
@@ -1476,8 +1476,8 @@ double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 
 double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.010391, 1.628552,  2.077476,  -2.30162 , -0.689931, -2.688117},
 	{ -1.228611, 2.060090,  2.463396,  -2.453303, -0.573894, -3.350638},
@@ -1518,8 +1518,8 @@ double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720},
 	{ -1.309550, 2.249120,  2.135877,  -2.278530, -0.773166, -3.704690},
@@ -1571,8 +1571,8 @@ double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::K23_13( double T, double ro )
 {
-	static double TOld,roOld,KOLD;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld,KOLD;
+	static thread_local double a,b,c,d,e;
 	static double dtmp[]=
 	{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720};
 
@@ -1751,7 +1751,7 @@ double TCGFcalc::dHS( double beta,double ro )
 
 double TCGFcalc::FWCA( double T,double ro )
 {
-	static double TOld,roOld,F;
+	static thread_local double TOld,roOld,F;
 	double d,beta,nu,nuw;
 	double nu1w1,nu1w2,nu1w3,nu1w4,nu1w5;
 	double a0,a1,a2,a3;
-- 
2.43.0


From 7695068b074df583741b2a8f0f3d37a89822f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:23 +0000
Subject: [PATCH 60/66] fix: files of dielectric properties had the Born
 function X twice, shifting the columns after it

---
 ThermoFun/Common/OutputToCSV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index d686b5a..ece7078 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -148,7 +148,7 @@ auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, d
 
     fElectroPropertiesSolvent << symbol << c << T << c << P << c <<
                                  eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c << eps.bornX     << c <<
-                                 eps.bornX     << c << eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
+                                 eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
                                  eps.epsilonP  << c << eps.epsilonPP << c << eps.epsilonT  << c << eps.epsilonTP << c <<
                                  eps.epsilonTT << std::endl;
 }
-- 
2.43.0


From b206ab4f13643512d1328118b1fdf405a15b0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 61/66] fix: limits of HKF solutes (Reaktoro code) are in K and
 Pa

---
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 0bdf3c6..09576f1 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -135,7 +135,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     tps.heat_capacity_cp = Cp;
     tps.heat_capacity_cv = tps.heat_capacity_cp; // approximate Cp = Cv for an aqueous solution
 
-    subst.checkCalcMethodBounds("HKF model", TK.val-C_to_K, Pbar.val, tps);
+    subst.checkCalcMethodBounds("HKF model", TK.val, Pbar.val*1e05, tps);
     if (wp.density >= 1400 || wp.density<=600)
     {
         setMessage(Reaktoro_::Status::calculated, "HKF model: outside of 600-1400 kg/m3 density of pure H2O interval", tps);
-- 
2.43.0


From 17c6fa2558df24406de3b39dfe0dc21b53715f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 62/66] fix: warning of Akinfiev-Diamond solutes outside their
 limits was lost

---
 ThermoFun/Substances/Solute/SoluteADgems.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index ecf8af1..c0b7163 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -99,7 +99,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
     state.internal_energy  = state.enthalpy - Pbar*state.volume;
     state.helmholtz_energy = state.internal_energy - Tk*state.entropy;
 
-    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, tps);
+    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, state);
 
     return state;
 }
-- 
2.43.0


From 3ffbc929b1e7c0ea93281fb6115ee7c24426baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 63/66] fix: pressure limits of records were not read, so that
 every answer was out of bounds

---
 ThermoFun/Common/ParseJsonToData.cpp | 12 ++++++++++++
 ThermoFun/Reaction.cpp               |  3 ++-
 ThermoFun/Substance.cpp              |  3 ++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 3d4cb35..2fa89e2 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -590,6 +590,12 @@ auto parseSubstance(const std::string &data) -> Substance
                 if (j["limitsTP"].contains("upperT"))
                     if (!j["limitsTP"]["upperT"].is_null())
                         s.setUpperT(j["limitsTP"]["upperT"].get<double>());
+                if (j["limitsTP"].contains("lowerP"))
+                    if (!j["limitsTP"]["lowerP"].is_null())
+                        s.setLowerP(j["limitsTP"]["lowerP"].get<double>());
+                if (j["limitsTP"].contains("upperP"))
+                    if (!j["limitsTP"]["upperP"].is_null())
+                        s.setUpperP(j["limitsTP"]["upperP"].get<double>());
             }
 
         if (j.contains("Tst"))
@@ -659,6 +665,12 @@ auto parseReaction(const std::string &data) -> Reaction
                 if (j["limitsTP"].contains("upperT"))
                     if (!j["limitsTP"]["upperT"].is_null())
                         r.setUpperT(j["limitsTP"]["upperT"].get<double>());
+                if (j["limitsTP"].contains("lowerP"))
+                    if (!j["limitsTP"]["lowerP"].is_null())
+                        r.setLowerP(j["limitsTP"]["lowerP"].get<double>());
+                if (j["limitsTP"].contains("upperP"))
+                    if (!j["limitsTP"]["upperP"].is_null())
+                        r.setUpperP(j["limitsTP"]["upperP"].get<double>());
             }
 
         if (j.contains("Tst"))
diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 76621e0..7438071 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -345,7 +345,8 @@ auto Reaction::fromEquation(const std::string &reactionEquation) -> void
 
 auto Reaction::checkCalcMethodBounds(std::string modelName, double T, double P, ThermoPropertiesReaction &tpr) -> void
 {
-    if (pimpl->upper_P<(P) || pimpl->upper_T<(T) ||
+    // upper limits that were not given are zero
+    if ((pimpl->upper_P>0 && pimpl->upper_P<(P)) || (pimpl->upper_T>0 && pimpl->upper_T<(T)) ||
         pimpl->lower_P>(P) || pimpl->lower_T>(T))
     {
         std::string message = modelName +": out of "
diff --git a/ThermoFun/Substance.cpp b/ThermoFun/Substance.cpp
index a17c8e1..79530d9 100644
--- a/ThermoFun/Substance.cpp
+++ b/ThermoFun/Substance.cpp
@@ -323,7 +323,8 @@ auto Substance::jsonString() const -> std::string
 
 auto Substance::checkCalcMethodBounds(std::string modelName, double T, double P, ThermoPropertiesSubstance &tps) -> void
 {
-    if (pimpl->upper_P<(P) || pimpl->upper_T<(T) ||
+    // upper limits that were not given are zero
+    if ((pimpl->upper_P>0 && pimpl->upper_P<(P)) || (pimpl->upper_T>0 && pimpl->upper_T<(T)) ||
         pimpl->lower_P>(P) || pimpl->lower_T>(T))
     {
         std::string message = modelName +": out of "
-- 
2.43.0


From c057b98b9661acb17cf63a98774977cc059b9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:25 +0000
Subject: [PATCH 64/66] fix: messages of all but the last reactant of a
 reaction were lost

---
 ThermoFun/Common/Exception.cpp |  2 +-
 ThermoFun/ThermoEngine.cpp     | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ThermoFun/Common/Exception.cpp b/ThermoFun/Common/Exception.cpp
index 450820d..ea1cafb 100644
--- a/ThermoFun/Common/Exception.cpp
+++ b/ThermoFun/Common/Exception.cpp
@@ -109,7 +109,7 @@ auto setMessage(Reaktoro_::Status sta, std::string propertyOfsymbol, std::string
     if (sta == Reaktoro_::Status::notdefined)
         message_ += propertyOfsymbol + " not defined; ";
     else
-        message_ = calcMessage;
+        message_ += calcMessage;
 }
 
 auto setMessage(Reaktoro_::Status sta, std::string message, ThermoPropertiesSubstance &tps ) -> void
diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 90a2167..262cb84 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -867,6 +867,7 @@ struct ThermoEngine::Impl
         setSaturationPressure(T, P, reaction.reactants());
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
+        std::string messageCp = message, messageG = message, messageH = message, messageS = message, messageV = message;
 
         for (auto &reactant : reaction.reactants())
         {
@@ -893,15 +894,22 @@ struct ThermoEngine::Impl
             tpr.reaction_internal_energy    += tps.internal_energy*coeff;
             tpr.reaction_helmholtz_energy   += tps.helmholtz_energy*coeff;
 
-            setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
-            setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-            setMessage(tps.enthalpy.sta.first,         "H0 of component " + substance, message+tps.enthalpy.sta.second,         tpr.reaction_enthalpy.sta.second);
-            setMessage(tps.entropy.sta.first,          "S0 of component " + substance, message+tps.entropy.sta.second,          tpr.reaction_entropy.sta.second);
-            setMessage(tps.volume.sta.first,           "V0 of component " + substance, message+tps.volume.sta.second,           tpr.reaction_volume.sta.second);
-            setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.log_equilibrium_constant.sta.second);
-            setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
+            setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, tps.heat_capacity_cp.sta.second, messageCp);
+            setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, tps.gibbs_energy.sta.second,     messageG);
+            setMessage(tps.enthalpy.sta.first,         "H0 of component " + substance, tps.enthalpy.sta.second,         messageH);
+            setMessage(tps.entropy.sta.first,          "S0 of component " + substance, tps.entropy.sta.second,          messageS);
+            setMessage(tps.volume.sta.first,           "V0 of component " + substance, tps.volume.sta.second,           messageV);
         }
 
+        // adding up the reactants clears the messages
+        tpr.reaction_heat_capacity_cp.sta.second = messageCp;
+        tpr.reaction_gibbs_energy.sta.second     = messageG;
+        tpr.reaction_enthalpy.sta.second         = messageH;
+        tpr.reaction_entropy.sta.second          = messageS;
+        tpr.reaction_volume.sta.second           = messageV;
+        tpr.log_equilibrium_constant.sta.second  = messageG;
+        tpr.ln_equilibrium_constant.sta.second   = messageG;
+
         return tpr;
     }
 };
-- 
2.43.0


From 8a842568df61353ca0c7c57ab4624b8652443170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 65/66] fix: numbers of methods, classes and states that do not
 exist were undefined values of an enumeration

---
 ThermoFun/GlobalVariables.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ThermoFun/GlobalVariables.h b/ThermoFun/GlobalVariables.h
index 8fd9466..1f1b297 100644
--- a/ThermoFun/GlobalVariables.h
+++ b/ThermoFun/GlobalVariables.h
@@ -80,7 +80,7 @@ static const std::unordered_map<std::string, WaterTripleProperties> waterTripleD
     }}
 };
 
-enum SubstanceTPMethodType {
+enum SubstanceTPMethodType : int {
     cp_ft_equation = 0,
     cp_ft_equation_saxena86 = 1,
     solute_hkf88_gems = 2,
@@ -127,7 +127,7 @@ enum SubstanceTPMethodType {
     standard_entropy_cp_integration = 43
 };
 
-enum ReactionTPMethodType {
+enum ReactionTPMethodType : int {
     logk_fpt_function = 0,
     adsor_ion_exchange = 1,
     iso_compounds_grichuk88 = 2,
@@ -276,7 +276,7 @@ const std::unordered_map<std::string, WaterTripleProperties>& getWaterTripleData
 
 /// Indexes for species-dependent EoS subroutines used in thrift DOM and ThermoFun class
 typedef struct {
-  enum type {
+  enum type : int {
  //   CTPM_UNSET = 0,
     CTPM_CON = 99, // constant properties from ref T-P
     CTPM_CPT = 100,
@@ -347,7 +347,7 @@ static const int MethodGenEoS_ndxThrift[] = {
 
 /// Indexes for temperature correction methods used in thrift DOM and ThermoFun class
 typedef struct {
-  enum type {
+  enum type : int {
 //    CTM_UNSET = 0,
     CTM_CST = 200,
     CTM_CHP = 201,
@@ -432,7 +432,7 @@ static const int MethodCorrT_ndxThrift[] = {
 
 /// Indexes for pressure correction methods used in thrift DOM and ThermoFun class
 typedef struct {
-  enum type {
+  enum type : int {
 //    CPM_UNSET = 0,
     CPM_OFF = 300,
     CPM_NUL = 301,
@@ -564,7 +564,7 @@ static const std::map<const ReactionTPMethodType, const int> new_old_r_methodtyp
 };
 
 typedef struct {
-  enum type {
+  enum type : int {
     C_MOLFRACTION = 0,
     C_PARTIALPRESSURE = 1,
     C_MOLALITY = 2,
@@ -602,7 +602,7 @@ static const int ConcentrationScales_ndxThrift[] = {
 //};
 
 typedef struct {
-  enum type {
+  enum type : int {
     COMPONENT = 0,
     GASFLUID = 1,
     AQSOLUTE = 2,
@@ -634,7 +634,7 @@ static const int SubstanceClass_ndxThrift[] = {
 //};
 
 typedef struct {
-  enum type {
+  enum type : int {
     GAS = 0,              ///< Gaseous aggregate state (symbol g)
     LIQUID = 1,           ///< Condensed liquid aggregate state (symbol l)
     GLASS = 2,            ///< Glass/Vitreous state (symbol vit)
@@ -687,7 +687,7 @@ static const int AggregateState_ndxThrift[] = {
 
 
 typedef struct {
-  enum type {
+  enum type : int {
     REACTANT = 0,           ///< Component properties available
     PRODUCT = 1,            ///< Component properties to be defined via this reaction properties
     CATALYST = 2,           ///< Catalyzes the reaction but is not consumed in it
@@ -697,14 +697,14 @@ typedef struct {
 
 
 typedef struct {
-  enum type {
+  enum type : int {
     DCOMP = 0,            ///< Dependent component, properties calculated using a PT model for the substance
     REACDC = 1            ///< Reaction dependent component, properties calculated from the reaction properties
   };
 } SubstanceThermoCalculationType;
 
 typedef struct {
-  enum type {
+  enum type : int {
     REACTION = 0,            ///< Reaction, properties calculated using a PT model for the reaction
     REACTANTS = 1            ///< Properties calculated from reactants
   };
-- 
2.43.0


From 3b2f1680ac106103c64c02b4c74657918fa182b4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 05:09:42 +0000
Subject: [PATCH 66/66] fix: CGF gases: work arrays were lost when no density
 was found

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 78406ea..6ee84f7 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -25,6 +25,7 @@
 // along with GEMS4K code. If not, see <http://www.gnu.org/licenses/>.
 //-------------------------------------------------------------------
 
+#include <vector>
 #include <cmath>
 #include <cstdio>
 #include <fstream>
@@ -1229,8 +1230,9 @@ long int TCGFcalc::CGActivCoefPT( double *X,double *param, double *act,
 {
 	double *xtmp,*Fx;
 	double P = Pbar/10.;
-	xtmp = new double [NN];
-	Fx = new double [NN];
+	std::vector<double> xtmp_(NN), Fx_(NN);
+	xtmp = xtmp_.data();
+	Fx = Fx_.data();
 
 	if(!paar)
 		paar = new  EOSPARAM(X, param, NN);
@@ -1290,8 +1292,6 @@ long int TCGFcalc::CGActivCoefPT( double *X,double *param, double *act,
 
 	// GMix+=F0 + ax;
 	// MLPutRealList(stdlink,act,paar.NCmp());
-	delete[]xtmp;
-	delete[]Fx;
 	roro = ro;  // added, 21.06.2008 (TW)
 
 	return 0;  // changed, 21.06.2008 (TW)
-- 
2.43.0


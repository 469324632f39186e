From bf0a0e57cccc1790699b99be5220a975f8804a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 01/48] fix: keep the BetaBernoulli success count as a real
 number so fractional weights are not truncated

---
 cxx/distributions/beta_bernoulli.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/beta_bernoulli.hh b/cxx/distributions/beta_bernoulli.hh
index 1dfe007..0a2a627 100644
--- a/cxx/distributions/beta_bernoulli.hh
+++ b/cxx/distributions/beta_bernoulli.hh
@@ -11,7 +11,7 @@ class BetaBernoulli : public Distribution<bool> {
  public:
   double alpha = 1;  // hyperparameter
   double beta = 1;   // hyperparameter
-  int s = 0;         // sum of observed values
+  double s = 0;      // sum of observed values
 
   std::vector<double> alpha_grid;
   std::vector<double> beta_grid;
-- 
2.43.0


From 8592f0039f35118c8f1fba20fcf73d41c79b6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 02/48] fix: give the first table of an empty CRP weight alpha
 so logp(0) is log(1)

---
 cxx/distributions/crp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/crp.cc b/cxx/distributions/crp.cc
index 200c423..97a32a9 100644
--- a/cxx/distributions/crp.cc
+++ b/cxx/distributions/crp.cc
@@ -79,7 +79,7 @@ int CRP::max_table() const {
 std::map<int, double> CRP::tables_weights() const {
   std::map<int, double> dist;
   if (N == 0) {
-    dist[0] = 1;
+    dist[0] = alpha;
     return dist;
   }
   for (const auto& [table, customers] : tables) {
-- 
2.43.0


From 266e595089d6ad2298ed43ac57690cb9fb475ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 03/48] fix: store the value given to incorporate_to_cluster so
 that candidates are scored and removed with the value that was added

---
 cxx/clean_relation.hh | 3 +++
 cxx/noisy_relation.hh | 1 +
 2 files changed, 4 insertions(+)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index 0131c6f..1be6b21 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -165,6 +165,9 @@ class CleanRelation : public Relation<T> {
     T_items z = get_cluster_assignment(items);
     assert(clusters.contains(z));
     clusters.at(z)->incorporate(value);
+    // The stored value is the one that unincorporate_from_cluster removes and
+    // that relations based on this one observe.
+    data[items] = value;
   }
 
   void unincorporate_from_cluster(const T_items& items) {
diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 408a5eb..f4f3a4e 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -91,6 +91,7 @@ class NoisyRelation : public Relation<T> {
     const ValueType& base_val = get_base_value(items);
     emission_relation.incorporate_to_cluster(items,
                                              std::make_pair(base_val, value));
+    data[items] = value;
   }
 
   void cleanup_base_to_noisy(const T_items& items) {
-- 
2.43.0


From dc076c73441956b2214a0854afa2076fb00e71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 04/48] fix: keep (base value, noisy value) order when a noisy
 value is updated

---
 cxx/noisy_relation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index f4f3a4e..0210bce 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -173,7 +173,7 @@ class NoisyRelation : public Relation<T> {
     assert(data.contains(items));
     data.at(items) = value;
     const ValueType& base_value = get_base_value(items);
-    emission_relation.update_value(items, std::make_pair(value, base_value));
+    emission_relation.update_value(items, std::make_pair(base_value, value));
   }
 
   const std::vector<Domain*>& get_domains() const { return domains; }
-- 
2.43.0


From 7617182164c5a612b6db8c85a3d516cc3551f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 05/48] fix: record the final stop transition when a sampled
 string reaches its maximum length

---
 cxx/distributions/bigram.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f506cd7..95db84e 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -89,6 +89,8 @@ std::string Bigram::sample(std::mt19937* prng) {
   while (current_ind != num_chars) {
     sampled_string += index_to_char(current_ind);
     if (sampled_string.length() == max_length) {
+      // The string ends here, so it ends with the stop symbol.
+      transition_dists[current_ind].incorporate(num_chars);
       break;
     }
     next_ind = transition_dists[current_ind].sample(prng);
-- 
2.43.0


From fca7351c579ee1f68b9c24d779bf7dca3a826daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 06/48] fix: sample DirichletCategorical from its real-valued
 counts instead of truncating them

---
 cxx/distributions/dirichlet_categorical.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 7cb683b..8fb61e3 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -35,7 +35,7 @@ double DirichletCategorical::logp_score() const {
 int DirichletCategorical::sample(std::mt19937* prng) {
   std::vector<double> weights(counts.size());
   std::transform(counts.begin(), counts.end(), weights.begin(),
-                 [&](size_t y) -> double { return y + alpha; });
+                 [&](double y) -> double { return y + alpha; });
   return choice(weights, prng);
 }
 
-- 
2.43.0


From a8821722de3ae65e4cd4e304daf399f00c278199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 07/48] fix: SimpleStringEmission draws random characters from
 [lowest_char, highest_char] only

---
 cxx/emissions/simple_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 26f9554..db75cd0 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -129,7 +129,7 @@ class SimpleStringEmission : public Emission<std::string> {
   }
 
   char random_character(std::mt19937* prng) {
-    std::uniform_int_distribution<char> uid(lowest_char, highest_char + 1);
+    std::uniform_int_distribution<char> uid(lowest_char, highest_char);
     return uid(*prng);
   }
 
-- 
2.43.0


From 5f20d54151d51293801ed8b0032c8c2df7082fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 08/48] fix: IRM adds a noisy relation after its base whatever
 their names

---
 cxx/irm.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 56401d0..c350560 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -31,8 +31,24 @@ RelationVariant clean_relation_from_spec(const std::string& name,
 
 IRM::IRM(const T_schema& init_schema) {
   assert(schema.empty());
-  for (const auto& [name, relation] : init_schema) {
-    std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+  // A noisy relation can only be added after its base relation, whatever the
+  // order of their names.
+  while (schema.size() < init_schema.size()) {
+    const size_t num_added = schema.size();
+    for (const auto& [name, relation] : init_schema) {
+      if (schema.contains(name)) {
+        continue;
+      }
+      const T_noisy_relation* noisy = std::get_if<T_noisy_relation>(&relation);
+      if (noisy == nullptr || schema.contains(noisy->base_relation)) {
+        std::visit([&](auto trel) { this->add_relation(name, trel); },
+                   relation);
+      }
+    }
+    if (schema.size() == num_added) {
+      printf("Detected loop in schema\n");
+      std::exit(1);
+    }
   }
   assert(schema.size() == relations.size());
 }
-- 
2.43.0


From 06f326c50ac43fd6afa2394ce73dd46338146f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 09/48] fix: transition_latent_value keeps the value when
 nothing proposes one

---
 cxx/transition_latent_value.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 7e7338e..d57a7c3 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -62,6 +62,11 @@ void transition_latent_value(
       latent_value_candidates.push_back(candidate);
     }
   }
+  if (latent_value_candidates.empty()) {
+    // None of the noisy relations has an observation, so nothing proposes
+    // another value: keep the current one.
+    latent_value_candidates.push_back(base_relation->get_value(base_items));
+  }
 
   std::vector<double> logpx = latent_values_incremental_logp(
       base_items, latent_value_candidates, noisy_observations, base_relation,
-- 
2.43.0


From a23941c5ae96b0c781b87a63df0d488f29e4afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 10/48] fix: removing a noisy relation unlists it from its base

---
 cxx/hirm.cc | 7 +++++++
 cxx/irm.cc  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 71c1da7..c4b59c5 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -272,6 +272,13 @@ void HIRM::add_relation(std::mt19937* prng, const std::string& name,
 // have the removed relation as a base. The NoisyRelations will be in an invalid
 // state after their base relation is removed.
 void HIRM::remove_relation(const std::string& name) {
+  if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    std::erase(it->second, name);
+    if (it->second.empty()) {
+      base_to_noisy_relations.erase(it);
+    }
+  }
   schema.erase(name);
   int rc = relation_to_code.at(name);
   int table = crp.assignments.at(rc);
diff --git a/cxx/irm.cc b/cxx/irm.cc
index c350560..d796d6f 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -412,6 +412,13 @@ void IRM::remove_relation(const std::string& name) {
   }
   std::visit([](auto r) { delete r; }, relations.at(name));
   relations.erase(name);
+  if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    std::erase(it->second, name);
+    if (it->second.empty()) {
+      base_to_noisy_relations.erase(it);
+    }
+  }
   schema.erase(name);
 }
 
-- 
2.43.0


From eb30187e0fb2e65df07ed5e38016608598632477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 11/48] fix: removing a relation removes the entities only it
 observed

---
 cxx/irm.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index d796d6f..d8eb9e9 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -395,21 +395,31 @@ void IRM::add_relation_with_base(const std::string& name,
 }
 
 void IRM::remove_relation(const std::string& name) {
-  std::unordered_set<std::string> ds;
-  auto rel_domains =
-      std::visit([](auto r) { return r->get_domains(); }, relations.at(name));
-  for (const Domain* const domain : rel_domains) {
-    ds.insert(domain->name);
-  }
+  const std::vector<std::string> rel_domain_names =
+      std::visit([](auto trel) { return trel.domains; }, schema.at(name));
+  const std::unordered_set<std::string> ds(rel_domain_names.cbegin(),
+                                           rel_domain_names.cend());
   for (const auto& d : ds) {
     domain_to_relations.at(d).erase(name);
-    // TODO: Remove r from domains.at(d)->items
     if (domain_to_relations.at(d).empty()) {
       domain_to_relations.erase(d);
       delete domains.at(d);
       domains.erase(d);
     }
   }
+  // Entities that only the removed relation observed leave their domains.
+  auto remove_entities = [&](auto rel) {
+    for (const auto& [items, value] : rel->get_data()) {
+      for (size_t i = 0; i < items.size(); ++i) {
+        const std::string& d = rel_domain_names[i];
+        if (domains.contains(d) && domains.at(d)->items.contains(items[i]) &&
+            !has_observation(d, items[i])) {
+          domains.at(d)->unincorporate(items[i]);
+        }
+      }
+    }
+  };
+  std::visit(remove_entities, relations.at(name));
   std::visit([](auto r) { delete r; }, relations.at(name));
   relations.erase(name);
   if (auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
-- 
2.43.0


From 0b6d98be80a78984e5e12651d6c8f2f73d617eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 12/48] fix: score Gibbs moves exactly when a domain is
 repeated in a relation

CleanRelation::logp_gibbs_exact grouped the observations of an item by their
current cluster and scored each group at the destination of its first
observation. With a repeated domain a group can split over several destination
clusters (and a destination can hold other observations of the item), so the
scores differed from the change in logp_score. Take the item's observations out
and group them by destination for every table.
---
 cxx/clean_relation.hh | 62 ++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 42 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index 1be6b21..6c0f701 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -304,54 +304,33 @@ class CleanRelation : public Relation<T> {
 
   // Implementation of exact Gibbs data probabilities.
 
+  // Groups the observations of `item` by the cluster they belong to when `item`
+  // is assigned to `table`.
   std::unordered_map<std::vector<int> const, std::vector<T_items>,
                      VectorIntHash>
-  get_cluster_to_items_list(Domain const& domain, const T_item& item) {
+  get_cluster_to_items_list(Domain const& domain, const T_item& item,
+                            int table) {
     std::unordered_map<const std::vector<int>, std::vector<T_items>,
                        VectorIntHash>
         m;
     for (const T_items& items : data_r.at(domain.name).at(item)) {
-      T_items z = get_cluster_assignment(items);
+      T_items z = get_cluster_assignment_gibbs(items, domain, item, table);
       m[z].push_back(items);
     }
     return m;
   }
 
-  double logp_gibbs_exact_current(const std::vector<T_items>& items_list) {
-    assert(!items_list.empty());
-    T_items z = get_cluster_assignment(items_list[0]);
-    auto cluster = clusters.at(z);
-    double logp0 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      // assert(z == get_cluster_assignment(items));
-      cluster->unincorporate(x);
-    }
-    double logp1 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
-    }
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
-    return logp0 - logp1;
-  }
-
-  double logp_gibbs_exact_variant(const Domain& domain, const T_item& item,
-                                  int table,
+  // Log probability of the observations in `items_list` under cluster `z`,
+  // none of which may currently be incorporated.
+  double logp_gibbs_exact_cluster(const std::vector<int>& z,
                                   const std::vector<T_items>& items_list,
                                   std::mt19937* prng) {
     assert(!items_list.empty());
-    T_items z =
-        get_cluster_assignment_gibbs(items_list[0], domain, item, table);
-
     Distribution<ValueType>* prior = make_new_distribution(prng);
     Distribution<ValueType>* cluster =
         clusters.contains(z) ? clusters.at(z) : prior;
     double logp0 = cluster->logp_score();
     for (const T_items& items : items_list) {
-      // assert(z == get_cluster_assignment_gibbs(items, domain, item, table));
       ValueType x = data.at(items);
       cluster->incorporate(x);
     }
@@ -360,10 +339,6 @@ class CleanRelation : public Relation<T> {
       ValueType x = data.at(items);
       cluster->unincorporate(x);
     }
-
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
     delete prior;
     return logp1 - logp0;
   }
@@ -371,22 +346,25 @@ class CleanRelation : public Relation<T> {
   std::vector<double> logp_gibbs_exact(const Domain& domain, const T_item& item,
                                        std::vector<int> tables,
                                        std::mt19937* prng) {
-    auto cluster_to_items_list = get_cluster_to_items_list(domain, item);
-    int table_current = domain.get_cluster_assignment(item);
+    // When a domain is repeated, the observations of `item` can belong to
+    // several clusters, so they are all removed before any table is scored.
+    const auto& items_list_r = data_r.at(domain.name).at(item);
+    for (const T_items& items : items_list_r) {
+      clusters.at(get_cluster_assignment(items))->unincorporate(data.at(items));
+    }
     std::vector<double> logps;
     logps.reserve(tables.size());
-    double lp_cluster;
     for (const int& table : tables) {
       double lp_table = 0;
-      for (const auto& [z, items_list] : cluster_to_items_list) {
-        lp_cluster = (table == table_current)
-                         ? logp_gibbs_exact_current(items_list)
-                         : logp_gibbs_exact_variant(domain, item, table,
-                                                    items_list, prng);
-        lp_table += lp_cluster;
+      for (const auto& [z, items_list] :
+           get_cluster_to_items_list(domain, item, table)) {
+        lp_table += logp_gibbs_exact_cluster(z, items_list, prng);
       }
       logps.push_back(lp_table);
     }
+    for (const T_items& items : items_list_r) {
+      clusters.at(get_cluster_assignment(items))->incorporate(data.at(items));
+    }
     return logps;
   }
 
-- 
2.43.0


From e5fa82703faaebe79570118ea1d2ab1512175182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 13/48] fix: draw with the caller's generator when
 reincorporating a reference value

---
 cxx/gendb.cc | 13 +++++--------
 cxx/gendb.hh |  3 ++-
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8bfc2e0..2630188 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -807,7 +807,7 @@ void GenDB::transition_reference(std::mt19937* prng,
   reincorporate_new_refval(class_name, ref_field, class_item, new_refval,
                            ref_class, updated_values_new,
                            unincorporated_from_domains.at(new_refval),
-                           unincorporated_from_entity_crps);
+                           unincorporated_from_entity_crps, prng);
 }
 
 void GenDB::reincorporate_new_refval(
@@ -819,17 +819,14 @@ void GenDB::reincorporate_new_refval(
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains,
     std::map<std::tuple<std::string, std::string, int>, int>&
-        unincorporated_from_entity_crps) {
-  // Nothing is sampled anew in this method so prng is unused.
-  // std::mt19937* prng = nullptr;
-  std::mt19937 prng;  // Debug why empty clusters sometimes get cleaned up.
-
+        unincorporated_from_entity_crps,
+    std::mt19937* prng) {
   // Incorporate the chosen entities back into their previous domain CRPs.
   for (auto [k, v] : unincorporated_from_domains) {
     auto [irm_code, r_class, item] = k;
     // TODO: Debug. This check shouldn't be necessary.
     if (!hirm->irms.at(irm_code)->domains.at(r_class)->items.contains(item)) {
-      hirm->irms.at(irm_code)->domains.at(r_class)->incorporate(&prng, item, v);
+      hirm->irms.at(irm_code)->domains.at(r_class)->incorporate(prng, item, v);
     }
   }
 
@@ -860,7 +857,7 @@ void GenDB::reincorporate_new_refval(
   entity_crps.at(ref_class).incorporate(ref_id, new_refval);
 
   // Incorporate the items/values with new entity linkages into the relations.
-  incorporate_reference(&prng, stored_value_map);
+  incorporate_reference(prng, stored_value_map);
 
   // Remove empty relation clusters.
   hirm->cleanup_relation_clusters();
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9485974..cbf8515 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -181,7 +181,8 @@ class GenDB {
       std::map<std::tuple<int, std::string, T_item>, int>&
           unincorporated_from_domains,
       std::map<std::tuple<std::string, std::string, int>, int>&
-          unincorporated_from_entity_crps);
+          unincorporated_from_entity_crps,
+      std::mt19937* prng = nullptr);
 
   // Gibbs kernel for transitioning a reference value.
   void transition_reference(std::mt19937* prng, const std::string& class_name,
-- 
2.43.0


From e2dafc94bd70bccc18a4437bc0fd6e9eb03b8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 14/48] fix: release the models in hirm_main with delete, as
 they were created by new

---
 cxx/hirm_main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 0d03dcd..3417e76 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -120,7 +120,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(irm);
+    delete irm;
     return 0;
   }
 
@@ -160,7 +160,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(hirm);
+    delete hirm;
     return 0;
   }
 }
-- 
2.43.0


From e7141f6c4fac877cd837d674a586c0bf29a3a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 15/48] fix: load saved clusters with the encoding the program
 uses

---
 cxx/hirm_main.cc |  4 ++--
 cxx/util_io.cc   | 20 ++++++++++++++++++--
 cxx/util_io.hh   |  8 ++++++++
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 3417e76..723d2d5 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -99,7 +99,7 @@ int main(int argc, char** argv) {
     } else {
       irm = new IRM({});
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, irm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, irm, path_schema, path_obs, path_clusters, encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
@@ -135,7 +135,7 @@ int main(int argc, char** argv) {
     } else {
       hirm = new HIRM({}, &prng);
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, hirm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, hirm, path_schema, path_obs, path_clusters, encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1bfa190..85cc8e9 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -636,10 +636,18 @@ load_clusters_hirm(const std::string& path) {
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters) {
+  T_schema schema = load_schema(path_schema);
+  T_observations observations = load_observations(path_obs, schema);
+  from_txt(prng, irm, path_schema, path_obs, path_clusters,
+           calculate_encoding(schema, observations));
+}
+
+void from_txt(std::mt19937* prng, IRM* const irm,
+              const std::string& path_schema, const std::string& path_obs,
+              const std::string& path_clusters, const T_encoding& encoding) {
   // Load the data.
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
   auto clusters = load_clusters_irm(path_clusters);
   // Add the relations.
   assert(irm->schema.empty());
@@ -670,7 +678,15 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
               const std::string& path_clusters) {
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
+  from_txt(prng, hirm, path_schema, path_obs, path_clusters,
+           calculate_encoding(schema, observations));
+}
+
+void from_txt(std::mt19937* prng, HIRM* const hirm,
+              const std::string& path_schema, const std::string& path_obs,
+              const std::string& path_clusters, const T_encoding& encoding) {
+  T_schema schema = load_schema(path_schema);
+  T_observations observations = load_observations(path_obs, schema);
   auto [relations, irms] = load_clusters_hirm(path_clusters);
   // Add the relations.
   assert(hirm->schema.empty());
diff --git a/cxx/util_io.hh b/cxx/util_io.hh
index a6d8779..498ec49 100644
--- a/cxx/util_io.hh
+++ b/cxx/util_io.hh
@@ -69,9 +69,17 @@ load_clusters_hirm(const std::string& path);
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters);
+// As above, for a model whose entities are coded by the given encoding.
+void from_txt(std::mt19937* prng, IRM* const irm,
+              const std::string& path_schema, const std::string& path_obs,
+              const std::string& path_clusters, const T_encoding& encoding);
 void from_txt(std::mt19937* prng, HIRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters);
+// As above, for a model whose entities are coded by the given encoding.
+void from_txt(std::mt19937* prng, HIRM* const irm,
+              const std::string& path_schema, const std::string& path_obs,
+              const std::string& path_clusters, const T_encoding& encoding);
 
 T_observations merge_observations(const T_observations& obs1,
                                   const T_observations& obs2);
-- 
2.43.0


From 0cf0eac581492466653cee997cf5020dce9c6233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 16/48] fix: add base relations before noisy ones when loading
 saved clusters

---
 cxx/util_io.cc | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 85cc8e9..2f1dd95 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -633,6 +633,28 @@ load_clusters_hirm(const std::string& path) {
   return std::make_pair(relations, irms);
 }
 
+// The names of the relations, each after the base relation it refers to.
+static std::vector<std::string> base_first_names(const T_schema& schema) {
+  std::vector<std::string> names;
+  std::unordered_set<std::string> listed;
+  while (names.size() < schema.size()) {
+    const size_t num_listed = names.size();
+    for (const auto& [name, relation] : schema) {
+      const T_noisy_relation* noisy = std::get_if<T_noisy_relation>(&relation);
+      if (!listed.contains(name) &&
+          (noisy == nullptr || listed.contains(noisy->base_relation))) {
+        names.push_back(name);
+        listed.insert(name);
+      }
+    }
+    if (names.size() == num_listed) {
+      printf("Detected loop in schema\n");
+      std::exit(1);
+    }
+  }
+  return names;
+}
+
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters) {
@@ -654,8 +676,9 @@ void from_txt(std::mt19937* prng, IRM* const irm,
   assert(irm->domains.empty());
   assert(irm->relations.empty());
   assert(irm->domain_to_relations.empty());
-  for (const auto& [r, ds] : schema) {
-    std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
+  for (const std::string& r : base_first_names(schema)) {
+    std::visit([&](const auto& trel) { irm->add_relation(r, trel); },
+               schema.at(r));
   }
   // Add the domain entities with fixed clustering.
   T_encoding_f item_to_code = std::get<0>(encoding);
@@ -693,8 +716,8 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   assert(hirm->irms.empty());
   assert(hirm->relation_to_code.empty());
   assert(hirm->code_to_relation.empty());
-  for (const auto& [r, ds] : schema) {
-    hirm->add_relation(prng, r, ds);
+  for (const std::string& r : base_first_names(schema)) {
+    hirm->add_relation(prng, r, schema.at(r));
     assert(hirm->irms.size() == hirm->crp.tables.size());
     hirm->set_cluster_assignment_gibbs(prng, r, -1);
   }
-- 
2.43.0


From 77d3319e19cb434467bbdce40be0f2a9d6f10aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 17/48] fix: incorporate an observed base relation once,
 however many noisy relations it has

---
 cxx/util_io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 2f1dd95..bc484a9 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -357,6 +357,10 @@ void incorporate_observations_relation(
 
   ObservationVariant ov;
   if (observations.contains(relation)) {
+    // A base relation is reached again from each of its noisy relations.
+    if (completed_relations.contains(relation)) {
+      return;
+    }
     // If this relation is observed, incorporate its observations.
     for (const auto& [items, value] : observations.at(relation)) {
       std::visit([&](const auto& r) { ov = r->from_string(value); }, rel_var);
-- 
2.43.0


From ad3b44f298ed3507c8edbe133ef0fc4fe14ef26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 18/48] fix: give held-out rows ids of their own

---
 cxx/pclean/pclean.cc     | 6 ++++--
 cxx/pclean/pclean_lib.cc | 4 ++--
 cxx/pclean/pclean_lib.hh | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 0284376..f9efa20 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -93,6 +93,7 @@ int main(int argc, char** argv) {
   // Incorporate observations.
   std::cout << "Incorporating observations ...\n";
   incorporate_observations(&prng, &gendb, df);
+  int num_rows = df.data.begin()->second.size();
 
   // Run inference
   std::cout << "Running inference ...\n";
@@ -121,7 +122,8 @@ int main(int argc, char** argv) {
     DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
     std::cout << "Incorporating held out observations ...\n";
     double lp1 = gendb.logp_score();
-    incorporate_observations(&prng, &gendb, heldout_df);
+    incorporate_observations(&prng, &gendb, heldout_df, num_rows);
+    num_rows += heldout_df.data.begin()->second.size();
     double lp2 = gendb.logp_score();
     std::cout << "Log likelihood of held out data is " << (lp2 - lp1) << std::endl;
   }
@@ -131,7 +133,7 @@ int main(int argc, char** argv) {
     std::string samples_out = result["output"].as<std::string>() + ".samples";
     std::cout << "Generating " << num_samples << " samples\n";
     DataFrame samples_df = make_pclean_samples(
-        num_samples, df.data.begin()->second.size(), &gendb, &prng);
+        num_samples, num_rows, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
     samples_df.to_csv(samples_out);
   }
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 25dcbbe..4e4d31c 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -11,7 +11,7 @@
 
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df) {
+                              const DataFrame& df, int start_row) {
   int num_rows = df.data.begin()->second.size();
   for (int i = 0; i < num_rows; i++) {
     std::map<std::string, ObservationVariant> row_values;
@@ -50,7 +50,7 @@ void incorporate_observations(std::mt19937* prng,
     // TODO(emilyaf): Consider using new_rows_have_unique_entities=false
     // after entity transitions are allowed and numeric stability issues
     // are addressed.
-    gendb->incorporate(prng, std::make_pair(i, row_values), true);
+    gendb->incorporate(prng, std::make_pair(start_row + i, row_values), true);
   }
 }
 
diff --git a/cxx/pclean/pclean_lib.hh b/cxx/pclean/pclean_lib.hh
index a763294..da4602f 100644
--- a/cxx/pclean/pclean_lib.hh
+++ b/cxx/pclean/pclean_lib.hh
@@ -13,10 +13,11 @@
 // For each non-missing value in the DataFrame df, create an
 // observation and incorporate it into the GenDB.  The column name of the value
 // is used as the relation name, and each entity in each domain is given
-// its own unique value.
+// its own unique value.  The rows of df get the ids start_row, start_row + 1,
+// and so on; all existing rows of gendb should have ids < start_row.
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df);
+                              const DataFrame& df, int start_row = 0);
 
 // Return a dataframe of num_samples samples from the GenDB.
 // All existing rows added to gendb should have ids < start_row.
-- 
2.43.0


From a820e761ad99f3f2350c99ac70f9063ea8a17a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 19/48] fix: name the record entities when saving pclean's
 clusters

---
 cxx/pclean/pclean_lib.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 4e4d31c..90f6c28 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -95,6 +95,14 @@ T_encoding make_dummy_encoding_from_gendb(const GenDB& gendb) {
       code_to_item[domain][i] = domain + ":" + std::to_string(i);
     }
   }
+  // The rows of the record class are in no entity CRP.
+  for (const auto& [table, irm] : gendb.hirm->irms) {
+    for (const auto& [name, domain] : irm->domains) {
+      for (const T_item& item : domain->items) {
+        code_to_item[name][item] = name + ":" + std::to_string(item);
+      }
+    }
+  }
 
   return std::make_pair(item_to_code, code_to_item);
 }
-- 
2.43.0


From b290c7a38a81b241f3720528c06e8b1fbfcffa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 20/48] fix: reject tables whose rows differ in length, in
 every build, and read empty cells

---
 cxx/pclean/csv.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e9f527f..878fc30 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -2,6 +2,8 @@
 
 #include <cassert>
 #include <cctype>
+#include <cstdio>
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 
@@ -45,26 +47,36 @@ DataFrame DataFrame::from_csv(
     // TODO(thomaswc): Handle quoted fields
     while (std::getline(ss, part, ',')) {
       // Erase white space from end of part
-      while (isspace(part.back())) {
+      while (!part.empty() && isspace(part.back())) {
         part.pop_back();
       }
       if (first_line && column_names.empty()) {
+        if (df.data.contains(part)) {
+          printf("Found column %s more than once\n", part.c_str());
+          std::exit(1);
+        }
         df.columns.push_back(part);
         df.data[part] = {};
         continue;
       }
 
-      df.data[df.columns[i++]].push_back(part);
+      if (i < df.columns.size()) {
+        df.data[df.columns[i]].push_back(part);
+      }
+      ++i;
     }
-    if (!first_line) {
+    if (!first_line || !column_names.empty()) {
       if (line.back() == ',') {
         // std::getline is broken and won't let the last field be empty.
-        df.data[df.columns[i++]].push_back("");
+        if (i < df.columns.size()) {
+          df.data[df.columns[i]].push_back("");
+        }
+        ++i;
       }
       if (i != df.columns.size()) {
-        printf("Only found %ld out of %ld expected columns in line\n%s\n",
+        printf("Found %ld out of %ld expected columns in line\n%s\n",
                i, df.columns.size(), line.c_str());
-        assert(false);
+        std::exit(1);
       }
     }
     first_line = false;
-- 
2.43.0


From 77608d095cc4efffe59b67564b051923bd273a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 21/48] fix: list the columns of the tables of samples pclean
 writes

---
 cxx/pclean/pclean_lib.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 90f6c28..bb21e86 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -73,6 +73,9 @@ void make_pclean_sample(
 DataFrame make_pclean_samples(int num_samples, int start_row, GenDB *gendb,
                               std::mt19937* prng) {
   DataFrame df;
+  for (const auto& [name, query_field] : gendb->schema.query.fields) {
+    df.columns.push_back(query_field.name);
+  }
   for (int i = 0; i < num_samples; i++) {
      std::map<std::string, std::string> query_values;
      make_pclean_sample(prng, gendb, start_row + i, &query_values);
-- 
2.43.0


From 0528ab2995c0cc45be376bd1fa6c325ef6c54e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 22/48] fix: reject malformed PClean schema lines

Parameters without brackets around them, a query line without 'as', a class
name that is no identifier, and classes, variables and query fields defined
twice were accepted; a parameter list ending after '= value' was read beyond
its last token.
---
 cxx/pclean/io.cc | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index c4e0325..1c2bc44 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -33,10 +33,16 @@ bool resolve_variable_definition(const std::vector<Token> &tokens,
     return true;
   }
 
+  if ((tokens.size() > 3) &&
+      ((tokens[3].val != "(") || (tokens.back().val != ")"))) {
+    printf("Error parsing parameters of scalar variable %s -- expected '(' and ')' around them\n", tokens[0].val.c_str());
+    return false;
+  }
+
   ScalarVar dv;
   dv.joint_name = tokens[2].val;
   for (size_t i = 4; i < tokens.size() - 1; i += 4) {
-    if (i + 3 > tokens.size()) {
+    if (i + 3 >= tokens.size()) {
       printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
       printf("At token %ld of %ld\n", i, tokens.size());
       return false;
@@ -98,6 +104,10 @@ bool read_class(std::istream& is, PCleanClass* pclass) {
       return false;
     }
 
+    if (pclass->vars.contains(v.name)) {
+      printf("Error parsing class variable line %s:  variable %s is already defined.\n", line.c_str(), v.name.c_str());
+      return false;
+    }
     pclass->vars[v.name] = v;
   }
   return true;
@@ -146,8 +156,17 @@ bool read_query(std::istream& is, PCleanQuery* query) {
       return false;
     }
 
+    if ((tokens.size() % 2 == 0) || (tokens[tokens.size() - 2].val != "as")) {
+      printf("Expected a path and `as` before the name on query line %s\n", line.c_str());
+      return false;
+    }
+
     QueryField qf;
     qf.name = tokens.back().val;
+    if (query->fields.contains(qf.name)) {
+      printf("Query field %s is already defined.\n", qf.name.c_str());
+      return false;
+    }
     for (size_t i = 0; i < tokens.size() - 2; ++i) {
       if (i % 2 == 0) {
         qf.class_path.push_back(tokens[i].val);
@@ -191,7 +210,7 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
         return false;
       }
       PCleanClass pcc;
-      if (tokens[0].type != TokenType::identifier) {
+      if (tokens[1].type != TokenType::identifier) {
         printf("Error parsing line %s:  second token of a class line must be an identifier\n",
                line.c_str());
         return false;
@@ -204,6 +223,11 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
       if (!success) {
         return false;
       }
+      if (schema->classes.contains(pcc.name)) {
+        printf("Error parsing line:  class %s is already defined\n",
+               pcc.name.c_str());
+        return false;
+      }
       schema->classes[pcc.name] = pcc;
       continue;
     }
-- 
2.43.0


From 82074d3dd06c43481bf72841f00ad5cf4efffbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 23/48] fix: reject malformed schema lines in every build

Too few tokens, an unknown token, a file that can not be opened and noisy
relations over other domains than their base were only caught by assertions;
domains after the first could be any token, tokens were read without knowing
that there are any left, and a relation defined twice was overwritten.
---
 cxx/util_io.cc | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index bc484a9..f387048 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -26,9 +26,14 @@ void verify_noisy_relation_domains(const T_schema& schema) {
                 std::visit([&](const auto& brel) { return brel.domains; },
                            schema.at(trel.base_relation));
             for (size_t i = 0; i != base_domains.size(); ++i) {
-              assert(base_domains[i] == trel.domains[i] &&
-                     "The first domains of a noisy relation must be the same "
-                     "as the domains of the base relation.");
+              if (i >= trel.domains.size() ||
+                  base_domains[i] != trel.domains[i]) {
+                printf(
+                    "The first domains of noisy relation %s must be the same "
+                    "as the domains of the base relation.\n",
+                    relname.c_str());
+                std::exit(1);
+              }
             }
           }
         },
@@ -36,12 +41,15 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   }
 }
 
-#define TYPE_CHECK(i, expected_type)                                        \
+#define SIZE_CHECK(i)                                                       \
   if (i >= tokens.size()) {                                                 \
     printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
            line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
+    std::exit(1);                                                           \
+  }
+
+#define TYPE_CHECK(i, expected_type)                                        \
+  SIZE_CHECK(i);                                                            \
   if (tokens[i].type != TokenType::expected_type) {                         \
     printf(                                                                 \
         "Error parsing schema line %s:  expected expected_type for %ld-th " \
@@ -49,34 +57,34 @@ void verify_noisy_relation_domains(const T_schema& schema) {
         line.c_str(), i + 1);                                               \
     printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
            (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+    std::exit(1);                                                           \
   }
 
 #define VAL_CHECK(i, expected_val)                                          \
-  if (i >= tokens.size()) {                                                 \
-    printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
-           line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
+  SIZE_CHECK(i);                                                            \
   if (tokens[i].val != expected_val) {                                      \
     printf("Error parsing schema line %s:  expected %s for %ld-th token\n", \
            line.c_str(), expected_val, i + 1);                              \
     printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
            (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+    std::exit(1);                                                           \
   }
 
 T_schema load_schema(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to open schema file %s\n", path.c_str());
+    std::exit(1);
+  }
 
   T_schema schema;
   std::string line;
   std::vector<Token> tokens;
   while (std::getline(fp, line)) {
     tokens.clear();
-    [[maybe_unused]] bool ok = tokenize(line, &tokens);
-    assert(ok);
+    if (!tokenize(line, &tokens)) {
+      std::exit(1);
+    }
 
     if (tokens.empty()) {
       continue;
@@ -85,6 +93,10 @@ T_schema load_schema(const std::string& path) {
     size_t i = 0;
     TYPE_CHECK(i, identifier);
     std::string relname = tokens[i].val;
+    if (schema.contains(relname)) {
+      printf("Relation %s is defined more than once\n", relname.c_str());
+      std::exit(1);
+    }
 
     i = 1;
     VAL_CHECK(i, "~");
@@ -94,6 +106,7 @@ T_schema load_schema(const std::string& path) {
     std::string dist_name = tokens[2].val;
 
     i = 3;
+    SIZE_CHECK(i);
     std::map<std::string, std::string> params;
     if (tokens[i].val == "[") {  // Handle parameters
       do {
@@ -104,8 +117,10 @@ T_schema load_schema(const std::string& path) {
         VAL_CHECK(i, "=");
         ++i;
 
+        SIZE_CHECK(i);
         params[param_name] = tokens[i++].val;
 
+        SIZE_CHECK(i);
         if ((tokens[i].val != ",") && (tokens[i].val != "]")) {
           printf(
               "Error parsing schema line %s: expected ',' or ']' after "
@@ -129,14 +144,17 @@ T_schema load_schema(const std::string& path) {
 
     TYPE_CHECK(i, identifier);
 
+    SIZE_CHECK(i + 1);
     if (tokens[i + 1].val == ";") {  // We have an emission!
       base_relation = tokens[i].val;
       i += 2;
     }
 
     do {
+      TYPE_CHECK(i, identifier);
       domains.push_back(tokens[i++].val);
 
+      SIZE_CHECK(i);
       if ((tokens[i].val != ",") && (tokens[i].val != ")")) {
         printf(
             "Error parsing schema line %s: expected ',' or ')' after domain\n",
-- 
2.43.0


From 663b816942935c6dc6afbd87170d6a747edcdb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 24/48] fix: reject malformed observation files in every build

A missing file, value, relation or entity was only caught by assertions, the
number of entities was not compared with the relation's domains, and an
observation given twice was counted twice where assertions are off.
---
 cxx/util_io.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index f387048..807fd89 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -193,9 +193,13 @@ T_schema load_schema(const std::string& path) {
 
 T_observations load_observations(const std::string& path, T_schema& schema) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to open observations file %s\n", path.c_str());
+    std::exit(1);
+  }
 
   T_observations observations;
+  std::map<std::string, std::set<std::vector<std::string>>> observed_items;
   std::string line;
   while (std::getline(fp, line)) {
     std::istringstream stream(line);
@@ -205,11 +209,13 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     std::vector<std::string> items;
 
     if (!getline(stream, value_str, ',')) {
-      assert(false && "Error parsing schema. No comma separating value.");
+      printf("Error parsing observation `%s`: no value\n", line.c_str());
+      std::exit(1);
     }
 
     if (!getline(stream, relname, ',')) {
-      assert(false && "Error parsing schema. No comma separating relation.");
+      printf("Error parsing observation `%s`: no relation\n", line.c_str());
+      std::exit(1);
     }
 
     if (!schema.contains(relname)) {
@@ -221,7 +227,18 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     while (getline(stream, word, ',')) {
       items.push_back(word);
     }
-    assert((items.size() > 0) && "No Domain values specified.");
+    const size_t num_domains = std::visit(
+        [](const auto& trel) { return trel.domains.size(); },
+        schema.at(relname));
+    if (items.size() != num_domains) {
+      printf("Error parsing observation `%s`: relation %s has %ld domains\n",
+             line.c_str(), relname.c_str(), num_domains);
+      std::exit(1);
+    }
+    if (!observed_items[relname].insert(items).second) {
+      printf("Observation `%s` is given more than once\n", line.c_str());
+      std::exit(1);
+    }
     auto entry = std::make_tuple(items, value_str);
     observations[relname].push_back(entry);
   }
-- 
2.43.0


From 80aea86580d5a585153afab1ae055abe3485c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 25/48] fix: reject malformed cluster files in every build

---
 cxx/util_io.cc | 62 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 807fd89..7ddf907 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -543,12 +543,24 @@ void to_txt(const std::string& path, const HIRM& hirm,
   fp.close();
 }
 
+// Ends the program if the clusters line is malformed.
+static void check_clusters_line(bool well_formed, const std::string& line) {
+  if (!well_formed) {
+    printf("Error parsing clusters line `%s`\n", line.c_str());
+    std::exit(1);
+  }
+}
+
 std::map<std::string, std::map<int, std::vector<std::string>>>
 load_clusters_irm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to open clusters file %s\n", path.c_str());
+    std::exit(1);
+  }
 
   std::map<std::string, std::map<int, std::vector<std::string>>> clusters;
+  std::map<std::string, std::set<std::string>> listed;
   std::string line;
   while (std::getline(fp, line)) {
     // Ignore the new lines that are there for readability.
@@ -562,12 +574,13 @@ load_clusters_irm(const std::string& path) {
     std::vector<std::string> items;
 
     stream >> domain;
-    stream >> table;
+    check_clusters_line(static_cast<bool>(stream >> table) && table >= 0, line);
     for (std::string w; stream >> w;) {
+      check_clusters_line(listed[domain].insert(w).second, line);
       items.push_back(w);
     }
-    assert(items.size() > 0);
-    assert(clusters[domain].count(table) == 0);
+    check_clusters_line(items.size() > 0, line);
+    check_clusters_line(clusters[domain].count(table) == 0, line);
     clusters[domain][table] = items;
   }
   fp.close();
@@ -602,6 +615,8 @@ load_clusters_hirm(const std::string& path) {
   std::map<int, std::vector<std::string>> relations;
   std::map<int, std::map<std::string, std::map<int, std::vector<std::string>>>>
       irms;
+  std::set<std::string> listed_relations;
+  std::map<int, std::map<std::string, std::set<std::string>>> listed;
 
   std::string line;
   int irmc = 0;
@@ -622,51 +637,54 @@ load_clusters_hirm(const std::string& path) {
       int table = std::stoi(first);
       std::vector<std::string> items;
       for (std::string item; stream >> item;) {
+        check_clusters_line(listed_relations.insert(item).second, line);
         items.push_back(item);
       }
-      assert(items.size() > 0);
-      assert(relations.count(table) == 0);
+      check_clusters_line(items.size() > 0, line);
+      check_clusters_line(relations.count(table) == 0, line);
       relations[table] = items;
       continue;
     }
 
     // Parse an irm= line.
     if (first.rfind("irm=", 0) == 0) {
-      assert(irmc == -1);
-      assert(first.size() > 4);
+      check_clusters_line(irmc == -1, line);
       std::string x = first.substr(4);
+      check_clusters_line(isnumeric(x), line);
       irmc = std::stoi(x);
-      assert(irms.count(irmc) == 0);
+      check_clusters_line(irms.count(irmc) == 0, line);
       irms[irmc] = {};
       continue;
     }
 
     // Parse a domain cluster.
-    assert(irmc > -1);
-    assert(irms.count(irmc) == 1);
+    check_clusters_line(irmc > -1, line);
+    check_clusters_line(irms.count(irmc) == 1, line);
     std::string second;
     stream >> second;
-    assert(second.size() > 0);
-    assert(isnumeric(second));
+    check_clusters_line(isnumeric(second), line);
     std::string& domain = first;
     int table = std::stoi(second);
     std::vector<std::string> items;
     for (std::string item; stream >> item;) {
+      check_clusters_line(listed[irmc][domain].insert(item).second, line);
       items.push_back(item);
     }
-    assert(items.size() > 0);
+    check_clusters_line(items.size() > 0, line);
     if (irms.at(irmc).count(domain) == 0) {
       irms.at(irmc)[domain] = {};
     }
-    assert(irms.at(irmc).at(domain).count(table) == 0);
+    check_clusters_line(irms.at(irmc).at(domain).count(table) == 0, line);
     irms.at(irmc).at(domain)[table] = items;
   }
 
-  assert(relations.size() == irms.size());
+  bool same_tables = relations.size() == irms.size();
   for (const auto& [t, rs] : relations) {
-    if (irms.count(t) != 1) {
-      assert(false);
-    }
+    same_tables = same_tables && irms.count(t) == 1;
+  }
+  if (!same_tables) {
+    printf("Relation clusters and irms of %s do not match\n", path.c_str());
+    std::exit(1);
   }
   fp.close();
   return std::make_pair(relations, irms);
@@ -789,7 +807,11 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
       }
     }
   }
-  assert(hirm->irms.count(-1) == 0);
+  if (!relations.empty() && hirm->irms.count(-1) != 0) {
+    printf("Relations are missing in clusters file %s\n",
+           path_clusters.c_str());
+    std::exit(1);
+  }
   // Add the observations.
   incorporate_observations(prng, hirm, encoding, observations);
 }
-- 
2.43.0


From a57d2c1e34452484a12a0cd506a99867acadb6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 26/48] fix: reject malformed distribution arguments in every
 build

---
 cxx/distributions/get_distribution.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cxx/distributions/get_distribution.cc b/cxx/distributions/get_distribution.cc
index abe21c1..06de139 100644
--- a/cxx/distributions/get_distribution.cc
+++ b/cxx/distributions/get_distribution.cc
@@ -4,7 +4,8 @@
 #include "get_distribution.hh"
 
 #include <boost/algorithm/string.hpp>
-#include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <sstream>
 
 #include "distributions/adapter.hh"
@@ -17,6 +18,15 @@
 #include "distributions/string_nat.hh"
 #include "util_observation.hh"
 
+// Ends the program if the arguments of a distribution are malformed.
+static void check_spec(bool well_formed, const std::string& dist_str) {
+  if (!well_formed) {
+    printf("Error parsing the arguments of distribution %s\n",
+           dist_str.c_str());
+    std::exit(1);
+  }
+}
+
 DistributionSpec::DistributionSpec(
     const std::string& dist_str,
     const std::map<std::string, std::string>& _distribution_args):
@@ -24,14 +34,13 @@ DistributionSpec::DistributionSpec(
   std::string dist_name = dist_str.substr(0, dist_str.find('('));
   std::string args_str = dist_str.substr(dist_name.length());
   if (!args_str.empty()) {
-    assert(args_str[0] == '(');
-    assert(args_str.back() == ')');
+    check_spec(args_str.size() >= 2 && args_str.back() == ')', dist_str);
     args_str = args_str.substr(1, args_str.size() - 2);
 
     std::string part;
     std::istringstream iss{args_str};
     while (std::getline(iss, part, ',')) {
-      assert(part.find('=') != std::string::npos);
+      check_spec(part.find('=') != std::string::npos, dist_str);
       std::string arg_name = part.substr(0, part.find('='));
       std::string arg_val = part.substr(part.find('=') + 1);
       distribution_args[arg_name] = arg_val;
@@ -83,8 +92,9 @@ DistributionVariant get_prior(const DistributionSpec& spec,
       return new Bigram(max_length);
     }
     case DistributionEnum::categorical: {
-      assert(spec.distribution_args.size() == 1);
       int num_categories = std::stoi(spec.distribution_args.at("k"));
+      check_spec(spec.distribution_args.size() == 1 && num_categories > 0,
+                 "categorical");
       return new DirichletCategorical(num_categories);
     }
     case DistributionEnum::normal:
@@ -99,7 +109,7 @@ DistributionVariant get_prior(const DistributionSpec& spec,
       auto it = spec.distribution_args.find("delim");
       if (it != spec.distribution_args.end()) {
         delim = it->second;
-        assert(delim.length() == 1);
+        check_spec(delim.length() == 1, "stringcat");
       }
       std::vector<std::string> strings;
       boost::split(strings, spec.distribution_args.at("strings"),
-- 
2.43.0


From 7c5f83e77a8ca5b4380d0b24233d13199ceee75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 27/48] fix: reject values that are not of the type of their
 relation

---
 cxx/relation.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cxx/relation.hh b/cxx/relation.hh
index f3f090d..3c3d74d 100644
--- a/cxx/relation.hh
+++ b/cxx/relation.hh
@@ -3,6 +3,8 @@
 
 #pragma once
 
+#include <cstdio>
+#include <cstdlib>
 #include <random>
 #include <sstream>
 #include <string>
@@ -125,9 +127,12 @@ class Relation {
 
   // Convert a string to ValueType.
   ValueType from_string(const std::string& s) {
-    ValueType t;
+    ValueType t{};
     std::stringstream ss(s);
-    ss >> t;
+    if (!(ss >> t) || !(ss >> std::ws).eof()) {
+      printf("`%s` is not a value of the type of the relation\n", s.c_str());
+      std::exit(1);
+    }
     return t;
   };
 
-- 
2.43.0


From f4bd16f877b4c532e2a32f9551fb38ef542301dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:14 +0000
Subject: [PATCH 28/48] fix: read an empty string as zero instead of an
 uninitialised number

---
 cxx/distributions/adapter.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/adapter.hh b/cxx/distributions/adapter.hh
index cb9594f..65f1c86 100644
--- a/cxx/distributions/adapter.hh
+++ b/cxx/distributions/adapter.hh
@@ -21,7 +21,7 @@ class DistributionAdapter : public Distribution<std::string> {
   DistributionAdapter(Distribution<S>* dd) : d(dd) {};
 
   S from_string(const std::string& x) const {
-    S s;
+    S s{};
     std::istringstream(x) >> s;
     return s;
   }
-- 
2.43.0


From cc99431164893a7c5476e62a136f2d314308be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 29/48] fix: end pclean with failure when its schema or a table
 cannot be read

---
 cxx/pclean/csv.cc    | 3 +--
 cxx/pclean/pclean.cc | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index 878fc30..0f2b8c7 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -1,6 +1,5 @@
 #include "pclean/csv.hh"
 
-#include <cassert>
 #include <cctype>
 #include <cstdio>
 #include <cstdlib>
@@ -13,7 +12,7 @@ DataFrame DataFrame::from_csv(
 
   if (!f.is_open()) {
     printf("Unable to open CSV file %s\n", filename.c_str());
-    assert(false);
+    std::exit(1);
   }
 
   DataFrame df = DataFrame::from_csv(f, column_names);
diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index f9efa20..77ce60d 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -60,7 +60,7 @@ int main(int argc, char** argv) {
 
   if ((result.count("schema") < 1) || (result.count("obs") < 1)) {
     std::cout << "Must specify --schema and --obs\n";
-    return 0;
+    return 1;
   }
 
   int seed = result["seed"].as<int>();
@@ -74,6 +74,7 @@ int main(int argc, char** argv) {
   std::cout << "Reading schema file from " << schema_fn << "\n";
   if (!read_schema_file(schema_fn, &pclean_schema)) {
     std::cout << "Error reading schema file" << schema_fn << "\n";
+    return 1;
   }
 
   // Make GenDB
-- 
2.43.0


From f2ffd11a27827cf22f783f3324c4e36d87ab79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:10 +0000
Subject: [PATCH 30/48] fix: end the program when an output file cannot be
 written

---
 cxx/pclean/csv.cc    |  2 +-
 cxx/pclean/pclean.cc |  5 ++++-
 cxx/util_io.cc       | 14 +++++++++++---
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index 0f2b8c7..1668939 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -91,7 +91,7 @@ bool DataFrame::to_csv(const std::string& filename) {
   }
   bool ok = to_csv(fp);
   fp.close();
-  return ok;
+  return ok && fp.good();
 }
 
 bool DataFrame::to_csv(std::ostream& os) {
diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 77ce60d..0355b76 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -136,7 +136,10 @@ int main(int argc, char** argv) {
     DataFrame samples_df = make_pclean_samples(
         num_samples, num_rows, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
-    samples_df.to_csv(samples_out);
+    if (!samples_df.to_csv(samples_out)) {
+      std::cout << "Error writing samples to " << samples_out << "\n";
+      return 1;
+    }
   }
 
   return 0;
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 7ddf907..70ac0ac 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -252,6 +252,14 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
   return observations;
 }
 
+// Ends the program if some output did not reach the file.
+static void check_written(const std::ofstream& fp, const std::string& path) {
+  if (!fp.good()) {
+    printf("Error writing %s\n", path.c_str());
+    std::exit(1);
+  }
+}
+
 void write_observations(std::ostream& fp,
                         const T_encoded_observations& observations,
                         const T_encoding& encoding,
@@ -284,9 +292,9 @@ void write_observations(const std::string& path,
                         const T_encoding& encoding,
                         std::variant<IRM*, HIRM*> h_irm) {
   std::ofstream fp(path);
-  assert(fp.good());
   write_observations(fp, observations, encoding, h_irm);
   fp.close();
+  check_written(fp, path);
 }
 
 // Assumes that T_item is integer.
@@ -530,17 +538,17 @@ void to_txt(std::ostream& fp, const HIRM& hirm, const T_encoding& encoding) {
 void to_txt(const std::string& path, const IRM& irm,
             const T_encoding& encoding) {
   std::ofstream fp(path);
-  assert(fp.good());
   to_txt(fp, irm, encoding);
   fp.close();
+  check_written(fp, path);
 }
 
 void to_txt(const std::string& path, const HIRM& hirm,
             const T_encoding& encoding) {
   std::ofstream fp(path);
-  assert(fp.good());
   to_txt(fp, hirm, encoding);
   fp.close();
+  check_written(fp, path);
 }
 
 // Ends the program if the clusters line is malformed.
-- 
2.43.0


From 9d5f5768509155d4b99f86b588951e5df8d685d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 31/48] fix: reject tables without columns

---
 cxx/pclean/csv.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index 1668939..e5d7491 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -81,6 +81,11 @@ DataFrame DataFrame::from_csv(
     first_line = false;
   }
 
+  if (df.columns.empty()) {
+    printf("Found no columns\n");
+    std::exit(1);
+  }
+
   return df;
 }
 
-- 
2.43.0


From 6d7613acc01e68459b4626acb9b37e65e759394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 32/48] fix: a file that cannot be read is an error, not an
 empty file

---
 cxx/pclean/csv.cc |  4 ++++
 cxx/pclean/io.cc  |  4 ++++
 cxx/util_io.cc    | 12 ++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e5d7491..47e3313 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -16,6 +16,10 @@ DataFrame DataFrame::from_csv(
   }
 
   DataFrame df = DataFrame::from_csv(f, column_names);
+  if (f.bad()) {
+    printf("Error reading CSV file %s\n", filename.c_str());
+    std::exit(1);
+  }
   f.close();
 
   return df;
diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index 1c2bc44..1ec23a4 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -16,6 +16,10 @@ bool read_schema_file(const std::string& path, PCleanSchema* schema) {
   }
 
   bool success = read_schema(f, schema);
+  if (f.bad()) {
+    printf("Error reading PClean schema file %s\n", path.c_str());
+    success = false;
+  }
 
   f.close();
 
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 70ac0ac..6de6ad1 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -16,6 +16,14 @@
 
 #include "util_parse.hh"
 
+// Ends the program if reading the file failed before its end.
+static void check_read(const std::ifstream& fp, const std::string& path) {
+  if (fp.bad()) {
+    printf("Error reading %s\n", path.c_str());
+    std::exit(1);
+  }
+}
+
 void verify_noisy_relation_domains(const T_schema& schema) {
   for (const auto& [relname, trelation] : schema) {
     std::visit(
@@ -186,6 +194,7 @@ T_schema load_schema(const std::string& path) {
       schema[relname] = relation;
     }
   }
+  check_read(fp, path);
   fp.close();
   verify_noisy_relation_domains(schema);
   return schema;
@@ -242,6 +251,7 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     auto entry = std::make_tuple(items, value_str);
     observations[relname].push_back(entry);
   }
+  check_read(fp, path);
   fp.close();
 
   // Update the schema to indicate which relations have observations. For now,
@@ -591,6 +601,7 @@ load_clusters_irm(const std::string& path) {
     check_clusters_line(clusters[domain].count(table) == 0, line);
     clusters[domain][table] = items;
   }
+  check_read(fp, path);
   fp.close();
   return clusters;
 }
@@ -694,6 +705,7 @@ load_clusters_hirm(const std::string& path) {
     printf("Relation clusters and irms of %s do not match\n", path.c_str());
     std::exit(1);
   }
+  check_read(fp, path);
   fp.close();
   return std::make_pair(relations, irms);
 }
-- 
2.43.0


From 521be2ea670e4b171ba85f7401e93a2c51cddac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 33/48] fix: weigh string alignments by their probability, not
 its inverse

The costs are negative log probabilities, so exp(cost) gave the least
likely alignment the largest weight and overflowed for long strings.
---
 cxx/emissions/bigram_string.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 85d92df..cc14f05 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -128,9 +128,11 @@ void BigramStringEmission::incorporate(
                   },
                   &alignments);
 
+  // The costs are negative log probs, lowest first.
+  const double min_cost = alignments.front().cost;
   double total_prob = 0.0;
   for (auto& a : alignments) {
-    a.cost = exp(a.cost);  // Turn all costs into non-log probabilities
+    a.cost = exp(min_cost - a.cost);  // Turn all costs into non-log probabilities
     total_prob += a.cost;
   }
 
-- 
2.43.0


From 229035a0b60eef501bbada2e9f7f4ee642661009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 34/48] fix: score a string edit in the context of the
 character before it

The loop started at the edit to be scored and never stopped, so the
context was the first character of the string rather than the one before
the edit, which is the one incorporate counts it under.
---
 cxx/emissions/bigram_string.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index cc14f05..713d14d 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -58,8 +58,10 @@ std::string BigramStringEmission::category_to_char(int category) {
 double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, double old_cost) {
   assert(!alignment.align_pieces.empty());
   std::string insertion_context = "";
-  for (auto it = alignment.align_pieces.rbegin();
-       it != alignment.align_pieces.rend();
+  // The last piece is the one to score; the context is the last character of
+  // the clean string before it.
+  for (auto it = alignment.align_pieces.rbegin() + 1;
+       it != alignment.align_pieces.rend() && insertion_context.empty();
        ++it) {
     switch (it->index()) {
       case 0: // Deletion
-- 
2.43.0


From dcd0804b41829a2eb15f76be5bf7f22f0f84dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 35/48] fix: reject noisy relations whose values are not of the
 type of their base

The base's values were reinterpreted as values of the emission's type.
---
 cxx/util_io.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 6de6ad1..2531577 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -24,6 +24,14 @@ static void check_read(const std::ifstream& fp, const std::string& path) {
   }
 }
 
+// The type of the values of a relation.
+static ObservationEnum observation_type(const T_relation& relation) {
+  if (const auto* noisy = std::get_if<T_noisy_relation>(&relation)) {
+    return noisy->emission_spec.observation_type;
+  }
+  return std::get<T_clean_relation>(relation).distribution_spec.observation_type;
+}
+
 void verify_noisy_relation_domains(const T_schema& schema) {
   for (const auto& [relname, trelation] : schema) {
     std::visit(
@@ -43,6 +51,14 @@ void verify_noisy_relation_domains(const T_schema& schema) {
                 std::exit(1);
               }
             }
+            if (observation_type(trelation) !=
+                observation_type(schema.at(trel.base_relation))) {
+              printf(
+                  "The values of noisy relation %s must be of the same type as "
+                  "the values of the base relation.\n",
+                  relname.c_str());
+              std::exit(1);
+            }
           }
         },
         trelation);
-- 
2.43.0


From 420512b0830a6611b5a58147c77b1e5f0515fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:03 +0000
Subject: [PATCH 36/48] fix: quote entity names with whitespace in saved
 clusters, so that they load back

---
 cxx/util_io.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 2531577..9f6eb04 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -6,6 +6,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <fstream>
+#include <iomanip>
 #include <map>
 #include <set>
 #include <sstream>
@@ -505,6 +506,15 @@ void incorporate_observations(std::mt19937* prng,
   }
 }
 
+// Writes the name so that reading it with std::quoted returns it.
+static void write_name(std::ostream& fp, const std::string& name) {
+  if (name.empty() || name.find_first_of(" \t\n\v\f\r\"") != std::string::npos) {
+    fp << std::quoted(name);
+  } else {
+    fp << name;
+  }
+}
+
 void to_txt(std::ostream& fp, const IRM& irm, const T_encoding& encoding) {
   T_encoding_r code_to_item = std::get<1>(encoding);
   for (const auto& [d, domain] : irm.domains) {
@@ -521,7 +531,7 @@ void to_txt(std::ostream& fp, const IRM& irm, const T_encoding& encoding) {
         item_names.insert(code_to_item.at(domain->name).at(item));
       }
       for (const std::string& item_name : item_names) {
-        fp << item_name;
+        write_name(fp, item_name);
         if (i++ < std::ssize(items)) {
           fp << " ";
         }
@@ -609,7 +619,7 @@ load_clusters_irm(const std::string& path) {
 
     stream >> domain;
     check_clusters_line(static_cast<bool>(stream >> table) && table >= 0, line);
-    for (std::string w; stream >> w;) {
+    for (std::string w; stream >> std::quoted(w);) {
       check_clusters_line(listed[domain].insert(w).second, line);
       items.push_back(w);
     }
@@ -701,7 +711,7 @@ load_clusters_hirm(const std::string& path) {
     std::string& domain = first;
     int table = std::stoi(second);
     std::vector<std::string> items;
-    for (std::string item; stream >> item;) {
+    for (std::string item; stream >> std::quoted(item);) {
       check_clusters_line(listed[irmc][domain].insert(item).second, line);
       items.push_back(item);
     }
-- 
2.43.0


From aeaf7094753982b6f16b21cf6e7568372df6879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 37/48] fix: keep the reference positions of each ancestor
 class apart

---
 cxx/gendb.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 2630188..8493eab 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -942,11 +942,10 @@ void GenDB::compute_reference_indices_for(const std::string& name) {
       const int offset = total_offset;
       total_offset += domains.at(cv->class_name).size();
       class_ref_indices[v.first] = total_offset - 1;
-      std::map<std::string, int> child_class_indices;
       if (class_reference_indices.contains(cv->class_name)) {
         for (const auto& [ind, ref] :
              class_reference_indices.at(cv->class_name)) {
-          std::map<std::string, int> class_ref_indices;
+          std::map<std::string, int> child_class_indices;
           for (const auto& [field_name, ref_ind] : ref) {
             child_class_indices[field_name] = ref_ind + offset;
           }
-- 
2.43.0


From 8eb783a01a730ca7ca96a7c129653ac379558f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 38/48] fix: keep the path's references for final emissions of
 referring attributes

---
 cxx/gendb.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8493eab..8fa6c2b 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -1027,8 +1027,9 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
     // If the record class is the only class in the schema, there will be
     // no entries in `relation_reference_indices`.
     if (relation_reference_indices.contains(base_relation_name)) {
-      relation_reference_indices[f.name] =
-          relation_reference_indices.at(base_relation_name);
+      relation_reference_indices[f.name].insert(
+          relation_reference_indices.at(base_relation_name).begin(),
+          relation_reference_indices.at(base_relation_name).end());
     }
     return;
   }
-- 
2.43.0


From b336ef01a17743cfcacdcda26c2f0d8acf0697ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 39/48] fix: record where the references of renamed record
 attributes are

---
 cxx/gendb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8fa6c2b..5d564f5 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -996,6 +996,10 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
       cr.is_observed = true;
       (*tschema)[f.name] = cr;
       tschema->erase(base_relation_name);
+      if (class_reference_indices.contains(record_class.name)) {
+        relation_reference_indices[f.name] =
+            class_reference_indices.at(record_class.name);
+      }
     } else {
       T_noisy_relation tnr =
           get_emission_relation(std::get<ScalarVar>(last_var.spec),
-- 
2.43.0


From 2fafc2839282385bbba3d420a307b95e42d2271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 40/48] fix: unincorporate noisy observations before the value
 they observe

---
 cxx/gendb.cc | 32 ++++++++++++++++++++++++++++++++
 cxx/gendb.hh |  5 +++++
 2 files changed, 37 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 5d564f5..a509c8b 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -362,6 +362,28 @@ double GenDB::unincorporate_reference(
   return logp_relations + logp_domain_cluster;
 }
 
+// Returns true if there are noisy observations of the value that rel_name has at
+// items.
+bool GenDB::has_noisy_observations(const std::string& rel_name,
+                                   const T_items& items) const {
+  if (!hirm->base_to_noisy_relations.contains(rel_name)) {
+    return false;
+  }
+  for (const std::string& name : hirm->base_to_noisy_relations.at(rel_name)) {
+    bool observed = std::visit(
+        [&](auto nr) {
+          using T = typename std::remove_pointer_t<decltype(nr)>::ValueType;
+          auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(nr);
+          return noisy_rel->base_to_noisy_items.contains(items);
+        },
+        hirm->get_relation(name));
+    if (observed) {
+      return true;
+    }
+  }
+  return false;
+}
+
 // Recursively unincorporates from base relations and stores values.
 template <typename T>
 double GenDB::unincorporate_reference_relation(
@@ -375,6 +397,11 @@ double GenDB::unincorporate_reference_relation(
   if (!rel->get_data().contains(items) || ind >= items.size()) {
     return 0.;
   }
+  // A base value is unincorporated along with the last of its noisy
+  // observations, which can't be scored without it.
+  if (has_noisy_observations(rel_name, items)) {
+    return 0.;
+  }
 
   // Store the items/value and unincorporate them.
   T value = rel->get_value(items);
@@ -587,6 +614,11 @@ double GenDB::unincorporate_reference_relation_singleton(
       entity_crps.at(domains.back()).tables.contains(items.back())) {
     return 0.;
   }
+  // A base value is unincorporated along with the last of its noisy
+  // observations, which can't be scored without it.
+  if (has_noisy_observations(rel_name, items)) {
+    return 0.;
+  }
 
   // Store the items/value and unincorporate them.
   T value = rel->get_value(items);
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index cbf8515..6dc8a8c 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -88,6 +88,11 @@ class GenDB {
       std::map<std::tuple<int, std::string, T_item>, int>&
           unincorporated_from_domains);
 
+  // Returns true if there are noisy observations of the value that rel_name has
+  // at items.
+  bool has_noisy_observations(const std::string& rel_name,
+                              const T_items& items) const;
+
   // Unincorporates and stores items/values from a relation.
   template <typename T>
   double unincorporate_reference_relation(
-- 
2.43.0


From 46c7f69966b56b60359f751c0d13157c5ab40e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 41/48] fix: move every relation that involves a reference,
 queried or not

---
 cxx/gendb.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index a509c8b..010e3ad 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -289,7 +289,10 @@ void GenDB::get_relation_items(const std::string& rel_name, const int ind,
 std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
     const std::string& class_name, const std::string& ref_field) {
   std::map<std::string, std::vector<size_t>> domain_inds;
-  for (const auto& [rel_name, query_field] : schema.query.fields) {
+  for (const auto& [rel_name, unused_trel] : hirm->schema) {
+    if (!relation_reference_indices.contains(rel_name)) {
+      continue;
+    }
     // Find relations that involve both the class and its reference field
     // (exclude relations that include the class only because it's a node in
     // a noisy observation path of something otherwise unrelated to the
-- 
2.43.0


From 75485341351d5351bc491a8c73260dfa40314b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 42/48] fix: unincorporate the references of a row that nothing
 refers to

---
 cxx/gendb.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 010e3ad..77c8053 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -584,6 +584,10 @@ double GenDB::unincorporate_from_entity_cluster(
     if (is_ancestor_reference) {
       logp_adj += crp.logp(ref_item);
     }
+  } else {
+    if (is_ancestor_reference) {
+      logp_adj += crp.logp_new_table();
+    }
 
     for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
       if (std::holds_alternative<ClassVar>(var.spec)) {
@@ -594,10 +598,6 @@ double GenDB::unincorporate_from_entity_cluster(
                                                       unincorporated);
       }
     }
-  } else {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp_new_table();
-    }
   }
   return logp_adj;
 }
-- 
2.43.0


From ba138656d892f9141cd212bb20ac514da28b8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 43/48] fix: allow classes without relations

---
 cxx/gendb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 77c8053..9c23a33 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -31,6 +31,7 @@ GenDB::GenDB(std::mt19937* prng, const PCleanSchema& schema_,
   for (const auto& [class_name, unused_class] : schema.classes) {
     entity_crps[class_name] = CRP();
     reference_values[class_name];
+    class_to_relations[class_name];
   }
   for (const auto& [rel_name, trel] : hirm->schema) {
     const std::vector<std::string>& domains =
-- 
2.43.0


From 63de6ecca31d0c8b4da39c98e3c6afb743da4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 44/48] fix: unincorporate every row that goes with the last
 reference to it

---
 cxx/gendb.cc | 53 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 9c23a33..266f9b9 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -669,26 +669,41 @@ double GenDB::unincorporate_singleton(
       unincorporate_from_entity_cluster(class_name, ref_field, class_item,
                                         unincorporated_from_entity_crps, false);
 
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += std::visit(
-        [&](auto r) {
-          return unincorporate_reference_relation_singleton(r, rel, base_items,
-                                                            stored_value_map);
-        },
-        hirm->get_relation(rel));
+  // The rows to unincorporate: the referenced one, and those that were only
+  // referred to by rows unincorporated along with it.
+  std::vector<std::pair<std::string, int>> rows = {{ref_class, ref_val}};
+  for (const auto& [k, v] : unincorporated_from_entity_crps) {
+    const auto& [row_class, row_field, unused_item] = k;
+    const std::string& row_ref_class =
+        std::get<ClassVar>(
+            schema.classes.at(row_class).vars.at(row_field).spec)
+            .class_name;
+    if (!entity_crps.at(row_ref_class).tables.contains(v)) {
+      rows.push_back({row_ref_class, v});
+    }
   }
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += unincorporate_from_domain_cluster_relation(
-        rel, base_items.back(), base_items.size() - 1,
-        unincorporated_from_domains);
+
+  for (const auto& [row_class, row_item] : rows) {
+    for (auto& rel : class_to_relations.at(row_class)) {
+      const std::vector<std::string>& domains =
+          std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
+      T_items base_items(domains.size());
+      get_relation_items(rel, base_items.size() - 1, row_item, base_items);
+      logp_refclass += std::visit(
+          [&](auto r) {
+            return unincorporate_reference_relation_singleton(
+                r, rel, base_items, stored_value_map);
+          },
+          hirm->get_relation(rel));
+    }
+  }
+  for (const auto& [row_class, row_item] : rows) {
+    for (auto& rel : class_to_relations.at(row_class)) {
+      const std::vector<std::string>& domains =
+          std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
+      logp_refclass += unincorporate_from_domain_cluster_relation(
+          rel, row_item, domains.size() - 1, unincorporated_from_domains);
+    }
   }
   return logp_refclass;
 }
-- 
2.43.0


From 47202f2522f95f043bb828cf2834f68f6ca1d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 45/48] fix: sample the rows that a new row refers to

---
 cxx/gendb.cc | 73 ++++++++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 266f9b9..b0ece7e 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -177,6 +177,18 @@ void GenDB::incorporate_query_relation(std::mt19937* prng,
                                        const std::string& query_rel_name,
                                        const T_items& items,
                                        const ObservationVariant& value) {
+  // Populate the rows that the observed one refers to.
+  const std::string& record_class = schema.query.record_class;
+  for (const auto& [name, var] : schema.classes.at(record_class).vars) {
+    if (const ClassVar* cv = std::get_if<ClassVar>(&(var.spec))) {
+      if (reference_values.at(record_class).contains({name, items.back()})) {
+        sample_and_incorporate_for_class(
+            prng, cv->class_name,
+            reference_values.at(record_class).at({name, items.back()}));
+      }
+    }
+  }
+
   if (const T_noisy_relation* t_query_rel =
           std::get_if<T_noisy_relation>(&hirm->schema.at(query_rel_name))) {
     RelationVariant query_rel = hirm->get_relation(query_rel_name);
@@ -187,11 +199,13 @@ void GenDB::incorporate_query_relation(std::mt19937* prng,
           return noisy_rel->get_base_items(items);
         },
         query_rel);
-
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; },
-                   hirm->schema.at(t_query_rel->base_relation));
-    sample_and_incorporate_for_class(prng, domains.back(), base_items.back());
+    bool contains_base = std::visit(
+        [&](auto rel) { return rel->get_data().contains(base_items); },
+        hirm->get_relation(t_query_rel->base_relation));
+    if (!contains_base) {
+      hirm->sample_and_incorporate_relation(prng, t_query_rel->base_relation,
+                                            base_items);
+    }
   }
   hirm->incorporate(prng, query_rel_name, items, value);
 }
@@ -202,28 +216,21 @@ void GenDB::incorporate_query_relation(std::mt19937* prng,
 void GenDB::sample_and_incorporate_for_class(std::mt19937* prng,
                                              const std::string& class_name,
                                              const T_item& item) {
+  // Populate the rows that this one refers to.
+  sample_class_ancestors(prng, class_name, item);
+  for (const auto& [name, var] : schema.classes.at(class_name).vars) {
+    if (const ClassVar* cv = std::get_if<ClassVar>(&(var.spec))) {
+      sample_and_incorporate_for_class(
+          prng, cv->class_name,
+          reference_values.at(class_name).at({name, item}));
+    }
+  }
+
   for (const std::string& rel_name : class_to_relations.at(class_name)) {
-    sample_class_ancestors(prng, class_name, item);
     const std::vector<std::string>& domains = std::visit(
         [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
     T_items rel_items(domains.size());
     get_relation_items(rel_name, domains.size() - 1, item, rel_items);
-    if (const T_noisy_relation* t_rel =
-            std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-      RelationVariant rel = hirm->get_relation(rel_name);
-      T_items base_items = std::visit(
-          [&](auto nr) {
-            using T = typename std::remove_pointer_t<decltype(nr)>::ValueType;
-            auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(nr);
-            return noisy_rel->get_base_items(rel_items);
-          },
-          rel);
-      auto t_base_rel = hirm->schema.at(t_rel->base_relation);
-      auto base_domains =
-          std::visit([&](auto tbf) { return tbf.domains; }, t_base_rel);
-      sample_and_incorporate_for_class(prng, base_domains.back(),
-                                       base_items.back());
-    }
     bool contains_items = std::visit(
         [&](auto rel) { return rel->get_data().contains(rel_items); },
         hirm->get_relation(rel_name));
@@ -796,24 +803,10 @@ void GenDB::transition_reference(std::mt19937* prng,
     if (table == singleton_entity) {
       // Sample and incorporate a new row into the ref_class table. Update
       // reference_values and entity_crps.
-      T_items unused_base_items =
-          sample_class_ancestors(prng, ref_class, table);
-
-      // Sample and incorporate values into the relations corresponding to
-      // the reference class. This may also incorporate new values into the IRM
-      // domain clusters.
-      for (auto& rel : class_to_relations.at(ref_class)) {
-        const std::vector<std::string>& domains = std::visit(
-            [&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-        T_items base_items(domains.size());
-        get_relation_items(rel, base_items.size() - 1, table, base_items);
-        bool c = std::visit(
-            [&](auto r) { return r->get_data().contains(base_items); },
-            hirm->get_relation(rel));
-        if (!c) {
-          hirm->sample_and_incorporate_relation(prng, rel, base_items);
-        }
-      }
+      // Sample and incorporate values into the relations corresponding to the
+      // reference class, and likewise for the rows that it refers to in turn.
+      // This may also incorporate new values into the IRM domain clusters.
+      sample_and_incorporate_for_class(prng, ref_class, table);
     }
 
     // Get items and values with new entity linkages.
-- 
2.43.0


From 1389b90023b093de61c71832fc37c5e70fbdec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 46/48] fix: number references instead of hashing them

---
 cxx/gendb.cc | 11 +++++------
 cxx/gendb.hh |  4 ++++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index b0ece7e..f6369d3 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -145,15 +145,14 @@ T_items GenDB::sample_entities_relation(
   return items;
 }
 
-// Makes a unique hash for a reference (to be incorporated as an item into the
-// entity crp), based on the reference's class, field, and row id.
+// Returns a unique identifier for a reference (to be incorporated as an item
+// into the entity crp), based on the reference's class, field, and row id.
 int GenDB::get_reference_id(const std::string& class_name,
                             const std::string& ref_field,
                             const int class_item) {
-  std::stringstream new_id_str;
-  std::string sep = " ";  // Spaces are disallowed in class/variable names.
-  new_id_str << class_name << sep << class_item << sep << ref_field;
-  return std::hash<std::string>{}(new_id_str.str());
+  const int new_id = reference_ids.size();
+  return reference_ids.insert({{class_name, ref_field, class_item}, new_id})
+      .first->second;
 }
 
 // Takes a sample from ref_class's entity CRP, incorporates it into the CRP,
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 6dc8a8c..bdc718c 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -267,4 +267,8 @@ class GenDB {
   // class. (See tests for more intuition.)
   std::map<std::string, std::map<int, std::map<std::string, int>>>
       class_reference_indices;
+
+  // The identifiers handed out by get_reference_id, by class name, reference
+  // field name and primary key.
+  std::map<std::tuple<std::string, std::string, int>, int> reference_ids;
 };
-- 
2.43.0


From 05ff980321a8dbb92880ceffe60be617701e66e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:07 +0000
Subject: [PATCH 47/48] fix: propose no clean value where there is nothing to
 propose it from

---
 cxx/transition_latent_value.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index d57a7c3..9503ef8 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -51,6 +51,9 @@ void transition_latent_value(
   std::vector<ValueType> latent_value_candidates;
   for (auto [name, rel] : noisy_relations) {
     for (const auto& [i, em] : rel->get_emission_clusters()) {
+      if (all_noisy_observations.empty()) {
+        continue;  // There is nothing to propose a clean value from.
+      }
       auto candidate = em->propose_clean(all_noisy_observations, prng);
       // The candidate returned by propose_clean might not be in the support
       // of the distribution (i.e., assigned zero probability).  So we use
-- 
2.43.0


From ab9eb0d52f642a700ab5bb2dbd2e859767371a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 48/48] fix: bring strings to the nearest one a bigram model
 accepts

---
 cxx/distributions/bigram.cc     | 13 +++++++++++++
 cxx/distributions/bigram.hh     |  2 ++
 cxx/distributions/string_nat.hh |  3 +++
 3 files changed, 18 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index 95db84e..39cd901 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -102,6 +102,19 @@ std::string Bigram::sample(std::mt19937* prng) {
   return sampled_string;
 }
 
+std::string Bigram::nearest(const std::string& x) const {
+  std::string s;
+  for (const char& c : x) {
+    if (max_length > 0 && s.length() == max_length) {
+      break;
+    }
+    if (c >= min_char && c <= max_char) {
+      s += c;
+    }
+  }
+  return s;
+}
+
 void Bigram::set_alpha(double alphat) {
   alpha = alphat;
   for (auto& trans_dist : transition_dists) {
diff --git a/cxx/distributions/bigram.hh b/cxx/distributions/bigram.hh
index 7245012..0c9aae1 100644
--- a/cxx/distributions/bigram.hh
+++ b/cxx/distributions/bigram.hh
@@ -44,6 +44,8 @@ class Bigram : public Distribution<std::string> {
 
   std::string sample(std::mt19937* prng);
 
+  std::string nearest(const std::string& x) const;
+
   void set_alpha(double alphat);
 
   void transition_hyperparameters(std::mt19937* prng);
diff --git a/cxx/distributions/string_nat.hh b/cxx/distributions/string_nat.hh
index 5acd2d9..42da55b 100644
--- a/cxx/distributions/string_nat.hh
+++ b/cxx/distributions/string_nat.hh
@@ -18,6 +18,9 @@ class StringNat : public Bigram {
   std::string nearest(const std::string& x) const {
     std::string s;
     for (const char& c : x) {
+      if (max_length > 0 && s.length() == max_length) {
+        break;
+      }
       if (std::isdigit(c)) {
         s += c;
       }
-- 
2.43.0


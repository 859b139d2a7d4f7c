From 0f3c7183f0ac336227969da141a19dd7d507dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 001/102] fix: a LIST element that is also a prefix of a
 composite element keeps its own meaning when the set is merged into an OR set

addTagToSet() marked the node as terminal but left the longer elements below
it, so trie_singular() took the set for a single element while
trie_getTagList() returned the tags of all of them as one composite.
---
 src/Grammar.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..83e56d9 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -591,10 +591,14 @@ void Grammar::addTagToSet(Tag* rtag, Set* set) {
 	}
 	if (rtag->type & T_SPECIAL) {
 		set->type |= ST_SPECIAL;
-		set->trie_special[rtag].terminal = true;
+		auto& node = set->trie_special[rtag];
+		node.terminal = true;
+		node.trie.reset();
 	}
 	else {
-		set->trie[rtag].terminal = true;
+		auto& node = set->trie[rtag];
+		node.terminal = true;
+		node.trie.reset();
 	}
 }
 
-- 
2.43.0


From 7b87065a2377b9fdbc072476e01990d3ec3019f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 002/102] fix: a jumping contextual test with S looks at itself
 in the window it jumped to

The position was that of the cohort jumped to, but it was used as an index
into the window the test started from: a wrong cohort, or a read past the
end of that window.
---
 src/GrammarApplicator_runContextualTest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 55e0417..7f4ad38 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -307,7 +307,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 			}
 		}
 		if (j) {
-			sWindow = j->parent;
+			orgSWin = sWindow = j->parent;
 			position = j->local_number;
 		}
 		else {
-- 
2.43.0


From 8c2f590dc1b95f4691bf4251a7333b9d8c680196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 003/102] fix: IFF no longer carries readings it did not remove
 over to the next cohort

The list of readings to remove was only emptied when they were removed, so
after a cohort where IFF selected, or where it would have removed every
reading, the next cohort's removal counted and marked the old ones as well.
---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..2be1a53 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1367,6 +1367,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					readings_changed = true;
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
 				if (!removed.empty() && (removed.size() < get_apply_to().cohort->readings.size() || (unsafe && !(rule->flags & RF_SAFE)) || (rule->flags & RF_UNSAFE))) {
@@ -1400,6 +1401,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					initEmptyCohort(*get_apply_to().cohort);
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_JUMP) {
 				auto to = getTagList(*rule->maplist).front();
-- 
2.43.0


From 062f3ce00baed46c106666c6da8945f8ca7e2beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 004/102] fix: IFF UNSAFE treats a cohort with one reading the
 same whatever it did in the cohort before

Whether to skip the cohort was decided by what IFF had become in the previous
cohort, so after a cohort where it selected, the next was skipped.
---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2be1a53..25880a7 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -428,10 +428,10 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// If there is only 1 reading left and it is a Select or safe Remove rule, skip it.
 		if (cohort->readings.size() == 1) {
-			if (type == K_SELECT) {
+			if (rule.type == K_SELECT) {
 				continue;
 			}
-			if (type == K_REMOVE || type == K_IFF) {
+			if (rule.type == K_REMOVE || rule.type == K_IFF) {
 				if (cohort->readings.front()->noprint) {
 					continue;
 				}
-- 
2.43.0


From a5cebc7733732a9ef0d6d81641875e4aeb64c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 005/102] fix: SUBSTITUTE does nothing when the reading has
 none of the tags to replace

The first tag of the list of tags found was read even when the list was
empty, so a tag left over from earlier use of the memory could be replaced.
---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 25880a7..5cb95ae 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1945,7 +1945,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (size_t i = 0; i < get_apply_to().subreading->tags_list.size();) {
 					auto& remter = get_apply_to().subreading->tags_list[i];
 
-					if (plain && remter == (*theTags->begin())->hash) {
+					if (plain && !theTags->empty() && remter == (*theTags->begin())->hash) {
 						if (get_apply_to().subreading->baseform == remter) {
 							get_apply_to().subreading->baseform = 0;
 						}
-- 
2.43.0


From 91e51d68e69e67ceb8e3a5c65ea03dd4c1fa9a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 006/102] fix: <.*>r only matches tags in angle brackets

Any tag that some other regular expression or case-insensitive tag of the
grammar could match is indexed as textual, and <.*>r matched all of those.
---
 src/GrammarApplicator_matchSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..09487c3 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -452,7 +452,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		else {
 			for (auto mter : reading.tags_textual) {
 				const Tag& itag = *(grammar->single_tags.find(mter)->second);
-				if (!(itag.type & (T_BASEFORM | T_WORDFORM))) {
+				if (!(itag.type & (T_BASEFORM | T_WORDFORM)) && itag.tag[0] == '<') {
 					match = itag.hash;
 					if (unif_mode) {
 						if (unif_last_textual) {
-- 
2.43.0


From 8cbfbae5677cc1834839ffeac2290d691a02acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 007/102] fix: tag lists with the same tags in another order
 are no longer taken for the same list

---
 src/TagTrie.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 79d5f97..8f4dd1f 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -98,10 +98,12 @@ inline bool trie_singular(const trie_t& trie) {
 inline uint32_t trie_rehash(const trie_t& trie) {
 	uint32_t retval = 0;
 	for (auto& kv : trie) {
-		retval = hash_value(kv.first->hash, retval);
+		uint32_t h = kv.first->hash;
 		if (kv.second.trie) {
-			retval = hash_value(trie_rehash(*kv.second.trie), retval);
+			// The order of the tags matters
+			h = hash_value(h, trie_rehash(*kv.second.trie));
 		}
+		retval = hash_value(h, retval);
 	}
 	return retval;
 }
-- 
2.43.0


From e7f95988f23c260d79b979114b1997bb1abec6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 008/102] fix: a rule is tried again on readings that come to
 match it otherwise than by getting one of its tags

---
 src/Grammar.cpp                    | 18 ++++++++++++++++++
 src/Grammar.hpp                    |  1 +
 src/GrammarApplicator_runRules.cpp |  9 ++++++---
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 83e56d9..6953a2d 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -1168,6 +1168,24 @@ void Grammar::indexTagToSet(uint32_t t, uint32_t r) {
 	sets_by_tag[t].set(r);
 }
 
+// Whether the set can only start to match a reading by the reading getting one of the set's own tags
+bool Grammar::onlyMatchesNewTags(const Set& set) const {
+	if ((set.type & ST_SPECIAL) || !set.ff_tags.empty()) {
+		return false;
+	}
+	for (auto op : set.set_ops) {
+		if (op != S_OR && op != S_PLUS) {
+			return false;
+		}
+	}
+	for (auto s : set.sets) {
+		if (!onlyMatchesNewTags(*sets_list[s])) {
+			return false;
+		}
+	}
+	return true;
+}
+
 void Grammar::setAdjustSets(Set* s) {
 	if (!(s->type & ST_USED)) {
 		return;
diff --git a/src/Grammar.hpp b/src/Grammar.hpp
index 650ce79..cc06d31 100644
--- a/src/Grammar.hpp
+++ b/src/Grammar.hpp
@@ -160,6 +160,7 @@ public:
 	void indexTagToRule(uint32_t, uint32_t);
 	void indexSets(uint32_t, Set*);
 	void indexTagToSet(uint32_t, uint32_t);
+	bool onlyMatchesNewTags(const Set& set) const;
 	void setAdjustSets(Set*);
 	void contextAdjustTarget(ContextualTest*);
 };
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 5cb95ae..63eb899 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -487,7 +487,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		size_t num_active = 0;
 		size_t num_iff = 0;
-		size_t num_immutable = 0;
+		size_t num_untested = 0;
 
 		std::vector<Rule_Context> reading_contexts;
 		reading_contexts.reserve(cohort->readings.size());
@@ -566,12 +566,15 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			reading->matched_tests = false;
 
 			if (reading->mapped && (rule.type == K_MAP || rule.type == K_ADD || rule.type == K_REPLACE)) {
+				++num_untested;
 				continue;
 			}
 			if (reading->mapped && (rule.flags & RF_NOMAPPED)) {
+				++num_untested;
 				continue;
 			}
 			if (reading->noprint && !allow_magic_readings) {
+				++num_untested;
 				continue;
 			}
 			if (reading->immutable && rule.type != K_UNPROTECT) {
@@ -584,7 +587,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 					reading_contexts.push_back(context_stack.back());
 				}
 				++num_iff;
-				++num_immutable;
+				++num_untested;
 				continue;
 			}
 
@@ -793,7 +796,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// If none of the readings were valid targets, remove this cohort from the rule's possible cohorts.
 		if (num_active == 0 && (num_iff == 0 || rule.type != K_IFF)) {
-			if (num_immutable == 0 && !matched_target) {
+			if (num_untested == 0 && !matched_target && grammar->onlyMatchesNewTags(*grammar->sets_list[rule.target])) {
 				--rocit;                         // We have already incremented rocit earlier, so take one step back...
 				cohortset->erase_n(rocit); // ...and one step forward again
 			}
-- 
2.43.0


From 0a2f44b7cad095ccdcdb09ac91290589f2fd7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 009/102] fix: PROTECT and UNPROTECT let rules that were
 already tried on the cohort be tried again

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 63eb899..98038f3 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1544,10 +1544,12 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_PROTECT) {
+				index_ruleCohort_no.clear();
 				TRACE;
 				get_apply_to().subreading->immutable = true;
 			}
 			else if (rule->type == K_UNPROTECT) {
+				index_ruleCohort_no.clear();
 				TRACE;
 				get_apply_to().subreading->immutable = false;
 			}
-- 
2.43.0


From 6541abedc0e59e95f9b0601d5ae488a4ac224441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 010/102] fix: SETVARIABLE and REMVARIABLE let rules that test
 variables be tried again

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 98038f3..f79b35a 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1420,6 +1420,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 			}
 			else if (rule->type == K_REMVARIABLE) {
+				index_ruleCohort_no.clear();
 				auto names = getTagList(*rule->maplist);
 				for (auto tag : names) {
 					VARSTRINGIFY(tag);
@@ -1443,6 +1444,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 			}
 			else if (rule->type == K_SETVARIABLE) {
+				index_ruleCohort_no.clear();
 				auto names = getTagList(*rule->maplist);
 				auto values = getTagList(*rule->sublist);
 				VARSTRINGIFY(names.front());
-- 
2.43.0


From de5314612f838c3058a81385d68e7db4debc5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 011/102] fix: rules for the base form are tried on a reading
 that REPLACE gave it to

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index f79b35a..7539a01 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1925,6 +1925,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 				if (!reading.baseform) {
 					addTagToReading(reading, bform);
+					if (updateValidRules(rules, intersects, bform, reading)) {
+						iter_rules = intersects.find(rule->number);
+						iter_rules_end = intersects.end();
+					}
 				}
 
 				if (!mappings->empty()) {
-- 
2.43.0


From b037985b89ae2c60fbea40e39eb5a316f1316cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 012/102] fix: a contextual test that does not match no longer
 hides the cohort from tests that could match

---
 src/GrammarApplicator_matchSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 09487c3..48a9e80 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1012,7 +1012,9 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 	if (context && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
 			bool was_sub = (context->test && (context->test->offset_sub != 0));
-			if (!was_sub && set < cohort.possible_sets.size()) {
+			// Sub-readings were not looked at, and barriers do not look at static tags
+			bool was_part = (cohort.wread && context->in_barrier) || std::any_of(cohort.readings.begin(), cohort.readings.end(), [](Reading* r) { return r->next != nullptr; });
+			if (!was_sub && !was_part && set < cohort.possible_sets.size() && grammar->onlyMatchesNewTags(*theset)) {
 				cohort.possible_sets.reset(set);
 			}
 		}
-- 
2.43.0


From b8d55de5a6f3f534bb897840d287425413097c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 013/102] fix: RESTORE makes the reading's tags available to
 rules and tests again

---
 src/GrammarApplicator_runRules.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 7539a01..4ce31a6 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1865,12 +1865,30 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_RESTORE) {
 				bool did_restore = false;
+				// Sets and rules may have been ruled out for the cohort while the reading was gone
+				auto reindex_tags = [&](Reading* r) {
+					for (; r; r = r->next) {
+						for (auto tag : r->tags_list) {
+							auto it = grammar->sets_by_tag.find(tag);
+							if (it != grammar->sets_by_tag.end()) {
+								auto& ps = r->parent->possible_sets;
+								ps.resize(std::max(ps.size(), it->second.size()));
+								ps |= it->second;
+							}
+							if (updateValidRules(rules, intersects, tag, *r)) {
+								iter_rules = intersects.find(rule->number);
+								iter_rules_end = intersects.end();
+							}
+						}
+					}
+				};
 				auto move_rs = [&](ReadingList& rl) {
 					for (size_t i = 0; i < rl.size();) {
 						if (doesSetMatchReading(*rl[i], rule->maplist->number)) {
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
+							reindex_tags(rl[i]);
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
-- 
2.43.0


From 46f8aea1b95711f68452254aeb9f2b87c2ee0a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 014/102] fix: BEFORE/AFTER (tags) no longer reads past the end
 of the reading's tags

---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 4ce31a6..6a7d589 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1828,7 +1828,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == reading.tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
@@ -2217,7 +2217,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						bool found = true;
 						auto tmp = it;
 						for (auto tag : *spot_tags) {
-							if (*tmp != tag->hash) {
+							if (tmp == cReading->tags_list.end() || *tmp != tag->hash) {
 								found = false;
 								break;
 							}
-- 
2.43.0


From 6094ca0c414ba692a1b9cc69e9fd329adf312aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 015/102] fix: whether a copied reading is protected no longer
 depends on the reading pool

---
 src/Reading.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Reading.cpp b/src/Reading.cpp
index a0dad37..4fcfb77 100644
--- a/src/Reading.cpp
+++ b/src/Reading.cpp
@@ -105,8 +105,8 @@ Reading::Reading(const Reading& r)
   , noprint(r.noprint)
   , matched_target(false)
   , matched_tests(false)
-  , immutable(r.immutable)
-  , active(r.active)
+  , immutable(false)
+  , active(false)
   , baseform(r.baseform)
   , hash(r.hash)
   , hash_plain(r.hash_plain)
-- 
2.43.0


From 45d200eed3258d183342c471d0de367fe2c865a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:01 +0000
Subject: [PATCH 016/102] fix: --dep-delimit does not put an empty window in
 front of a cohort that already begins one

---
 src/GrammarApplicator_runGrammar.cpp | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index d45d05d..1f0147d 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -427,23 +427,26 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 			if (!is_deleted && dep_delimit && dep_highest_seen && (cCohort->dep_self <= dep_highest_seen || cCohort->dep_self - dep_highest_seen > dep_delimit)) {
 				reflowDependencyWindow(cCohort->global_number);
 
-				for (auto iter : cSWindow->cohorts.back()->readings) {
-					addTagToReading(*iter, endtag);
-				}
+				// Nothing to cut off if the cohort is already the first of its window
+				if (cSWindow->cohorts.size() > 1) {
+					for (auto iter : cSWindow->cohorts.back()->readings) {
+						addTagToReading(*iter, endtag);
+					}
 
-				cSWindow = gWindow->allocAppendSingleWindow();
-				initEmptySingleWindow(cSWindow);
+					cSWindow = gWindow->allocAppendSingleWindow();
+					initEmptySingleWindow(cSWindow);
 
-				cSWindow->variables_set = variables_set;
-				variables_set.clear();
-				cSWindow->variables_rem = variables_rem;
-				variables_rem.clear();
-				cSWindow->variables_output = variables_output;
-				variables_output.clear();
+					cSWindow->variables_set = variables_set;
+					variables_set.clear();
+					cSWindow->variables_rem = variables_rem;
+					variables_rem.clear();
+					cSWindow->variables_output = variables_output;
+					variables_output.clear();
 
-				lSWindow = cSWindow;
-				++numWindows;
-				did_soft_lookback = false;
+					lSWindow = cSWindow;
+					++numWindows;
+					did_soft_lookback = false;
+				}
 				dep_highest_seen = 0;
 
 				if (grammar->has_bag_of_tags) {
-- 
2.43.0


From 02f5411f53775ade0dda1d0070cf141e57f090ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:01 +0000
Subject: [PATCH 017/102] fix: a cohort without readings before a text
 delimiter gets its magic reading

---
 src/GrammarApplicator_runGrammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 1f0147d..f4e4955 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -663,6 +663,9 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 					if (lSWindow && lCohort && testStringAgainst(line, text_delimiters)) {
 						lSWindow->text_post += &line[0];
 
+						if (cCohort->readings.empty()) {
+							initEmptyCohort(*cCohort);
+						}
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-- 
2.43.0


From 589df1195e15bb06b0795bf41f8f2f9c4c3e48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 018/102] fix: DELIMIT does not disturb where --dep-delimit
 cuts the stream

---
 src/GrammarApplicator_reflow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..61de45d 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -815,6 +815,10 @@ Cohort* GrammarApplicator::delimitAt(SingleWindow& current, Cohort* cohort) {
 	addTagToReading(*cReading, begintag);
 
 	cCohort->appendReading(cReading);
+
+	// These cohorts are not new in the stream
+	auto dep_seen = dep_highest_seen;
+
 	nwin->appendCohort(cCohort);
 
 	auto lc = cohort->local_number;
@@ -830,6 +834,7 @@ Cohort* GrammarApplicator::delimitAt(SingleWindow& current, Cohort* cohort) {
 			nwin->appendCohort(*nc);
 		}
 	}
+	dep_highest_seen = dep_seen;
 	current.cohorts.erase(current.cohorts.begin() + lc + 1, current.cohorts.end());
 	current.all_cohorts.erase(from, current.all_cohorts.end());
 
-- 
2.43.0


From 7933328e581d97958f6d756e9d1413f100624006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 019/102] fix: nothing is added to windows that FLUSH already
 printed

---
 src/GrammarApplicator_runGrammar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index f4e4955..8dd5eb8 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -495,10 +495,10 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						for (auto iter : cCohort->readings) {
 							addTagToReading(*iter, endtag);
 						}
-						cReading = lReading = nullptr;
-						cCohort = lCohort = nullptr;
-						cSWindow = lSWindow = nullptr;
 					}
+					cReading = lReading = nullptr;
+					cCohort = lCohort = nullptr;
+					cSWindow = lSWindow = nullptr;
 					while (!gWindow->next.empty()) {
 						gWindow->shuffleWindowsDown();
 						runGrammarOnWindow();
-- 
2.43.0


From e46b610f571f71c934a92957e84cd7f493aaf242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 020/102] fix: SETVAR between windows does not set the variable
 for windows still waiting to be run

---
 src/GrammarApplicator_runGrammar.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index 8dd5eb8..b9fd67d 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -568,9 +568,6 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						variables_set[tag->hash] = grammar->tag_any;
 						variables_rem.erase(tag->hash);
 						variables_output.insert(tag->hash);
-						if (cSWindow == nullptr) {
-							variables[tag->hash] = grammar->tag_any;
-						}
 					}
 					else {
 						uint32_t a = 0, b = 0;
-- 
2.43.0


From 57f601e400153732df6669ac6c4faf15aab82fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 021/102] fix: text goes to the window in progress after a soft
 delimiter was found in the buffer

---
 src/GrammarApplicator_runGrammar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index b9fd67d..aa3d97f 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -204,6 +204,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 						did_soft_lookback = false;
 						Cohort* cohort = delimitAt(*cSWindow, c);
 						cSWindow = cohort->parent->next;
+						lSWindow = cSWindow;
 						if (cCohort) {
 							cCohort->parent = cSWindow;
 						}
-- 
2.43.0


From accc20cdc9b0a1f6b300265e820d3dc09b3447db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 022/102] fix: SUB:-N and /-N skip readings that have fewer
 than N sub-readings

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 6a7d589..6fda53e 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -256,7 +256,7 @@ Reading* GrammarApplicator::get_sub_reading(Reading* tr, int sub_reading) {
 			ttr = ttr->next;
 			--ntr;
 		}
-		if (!tr->next) {
+		if (!tr->next || sub_reading < ntr) {
 			tr = nullptr;
 		}
 		for (auto i = ntr; i < sub_reading && tr; ++i) {
-- 
2.43.0


From fcb8e4f85aa658aeda99f866a1eea08aebfcf067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 023/102] fix: IFF keeps protected readings that come before
 the reading it selects

---
 src/GrammarApplicator_runRules.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 6fda53e..b1a5f4f 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -584,6 +584,9 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 				if (type == K_SELECT) {
 					reading->matched_target = true;
 					reading->matched_tests = true;
+				}
+				if (type == K_SELECT || rule.type == K_IFF) {
+					// Iff may yet turn out to be Select, in which case this reading is to be kept
 					reading_contexts.push_back(context_stack.back());
 				}
 				++num_iff;
@@ -723,8 +726,6 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 								if (reading && reading->immutable) {
 									reading->matched_target = true;
 									reading->matched_tests = true;
-									++num_active;
-									++num_iff;
 								}
 							}
 						}
-- 
2.43.0


From 3e81909de4a67e71680c25ead5839edd37764838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 024/102] fix: readings with tags swapped between sub-readings,
 or other mapping tags on sub-readings, are not taken for the same

---
 src/GrammarApplicator_reflow.cpp | 13 ++++++++-----
 src/Reading.cpp                  |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 61de45d..4dd2000 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -689,7 +689,8 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 	static thread_local bc::flat_map<uint32_t, std::pair<uint32_t, Reading*>> mapped;
 	mapped.clear();
 	mapped.reserve(readings.size());
-	static thread_local bc::flat_map<uint32_t, ReadingList> mlist;
+	// Second half of the key is the full sub-readings, since only readings with the same sub-readings are the same
+	static thread_local bc::flat_map<uint64_t, ReadingList> mlist;
 	mlist.clear();
 	mlist.reserve(readings.size());
 
@@ -698,7 +699,7 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 		if (ordered) {
 			hp = hplain = r->tags_string_hash;
 		}
-		uint32_t nm = 0;
+		uint32_t nm = 0, subs = 0;
 		if (trace) {
 			for (auto iter_hb : r->hit_by) {
 				hp = hash_value(iter_hb, hp);
@@ -711,11 +712,11 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 		while (sub) {
 			if (ordered) {
 				hp = hash_value(sub->tags_string_hash, hp);
-				hplain = hash_value(sub->tags_string_hash, hplain);
+				hplain = hash_value(sub->tags_string_hash, (hplain >> 16) ^ hplain);
 			}
 			else {
 				hp = hash_value(sub->hash_plain, hp);
-				hplain = hash_value(sub->hash_plain, hplain);
+				hplain = hash_value(sub->hash_plain, (hplain >> 16) ^ hplain);
 			}
 			if (trace) {
 				for (auto iter_hb : sub->hit_by) {
@@ -724,7 +725,9 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 			}
 			if (sub->mapping) {
 				++nm;
+				subs = hash_value(sub->mapping->hash, subs);
 			}
+			subs = hash_value(ordered ? sub->tags_string_hash : sub->hash_plain, (subs >> 16) ^ subs);
 			sub = sub->next;
 		}
 		if (mapped.count(hplain)) {
@@ -736,7 +739,7 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 			}
 		}
 		mapped[hplain] = std::make_pair(nm, r);
-		mlist[hp + nm].push_back(r);
+		mlist[(UI64(hp + nm) << 32) | subs].push_back(r);
 	}
 
 	if (mlist.size() == readings.size()) {
diff --git a/src/Reading.cpp b/src/Reading.cpp
index 4fcfb77..4b4773d 100644
--- a/src/Reading.cpp
+++ b/src/Reading.cpp
@@ -223,7 +223,8 @@ uint32_t Reading::rehash() {
 	}
 	if (next) {
 		next->rehash();
-		hash = hash_value(next->hash, hash);
+		// The hashes are sums over the tags, so without mixing the bits it would be the same for readings that have tags swapped between sub-readings
+		hash = hash_value((next->hash >> 16) ^ next->hash, hash);
 	}
 	return hash;
 }
-- 
2.43.0


From daa50eb9f70bd0ee7de59a4a70a0134ff249ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 025/102] fix: rules already tried on the cohort are tried
 again after RESTORE

---
 src/GrammarApplicator_runRules.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index b1a5f4f..edf4f7a 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1910,6 +1910,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				if (did_restore) {
+					index_ruleCohort_no.clear();
 					TRACE;
 				}
 				finish_reading_loop = false;
-- 
2.43.0


From 45604ac1b7d6214b11965fd8458c06942ee2ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 026/102] fix: composite tags of a list are hashed apart from
 its other elements

---
 src/TagTrie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 8f4dd1f..4ab5f2e 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -100,8 +100,8 @@ inline uint32_t trie_rehash(const trie_t& trie) {
 	for (auto& kv : trie) {
 		uint32_t h = kv.first->hash;
 		if (kv.second.trie) {
-			// The order of the tags matters
-			h = hash_value(h, trie_rehash(*kv.second.trie));
+			// The order of the tags matters, and which tags belong together
+			h = hash_value((UI64(h) << 32) | UI64(trie_rehash(*kv.second.trie)));
 		}
 		retval = hash_value(h, retval);
 	}
-- 
2.43.0


From 7f077ded7a216e96a156aa1d4457a29ff52ade51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 027/102] fix: adjacent enclosures are put back one at a time,
 and removed cohorts next to them are left alone

---
 src/GrammarApplicator_runRules.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index edf4f7a..37c22c4 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -3165,16 +3165,26 @@ label_unpackEnclosures:
 				}
 				size_t ni = current->all_cohorts[la]->local_number;
 
+				// Enclosures right after each other are put back one at a time, so stop at the parenthesis that ends this one
+				auto pright = grammar->parentheses.find(c->is_pleft);
 				size_t ra = i;
 				size_t ne = 0;
 				for (; ra < nc; ++ra) {
-					if (!(current->all_cohorts[ra]->type & (CT_ENCLOSED | CT_REMOVED | CT_IGNORED))) {
+					Cohort* e = current->all_cohorts[ra];
+					if (!(e->type & (CT_ENCLOSED | CT_REMOVED | CT_IGNORED))) {
 						break;
 					}
-					--(current->all_cohorts[ra]->enclosed);
-					if (current->all_cohorts[ra]->enclosed == 0) {
-						current->all_cohorts[ra]->type &= ~CT_ENCLOSED;
+					if (!(e->type & CT_ENCLOSED)) {
+						continue;
+					}
+					--(e->enclosed);
+					if (e->enclosed == 0) {
+						e->type &= ~CT_ENCLOSED;
 						++ne;
+						if (pright != grammar->parentheses.end() && e->is_pright == pright->second) {
+							++ra;
+							break;
+						}
 					}
 				}
 
@@ -3184,18 +3194,19 @@ label_unpackEnclosures:
 					current->cohorts[j]->local_number = UI32(j);
 					current->cohorts[j - ne] = nullptr;
 				}
+				par_left_tag = c->is_pleft;
+				par_right_tag = 0;
 				for (size_t j = 0; i < ra; ++i) {
-					if (current->all_cohorts[i]->enclosed == 0) {
+					if (current->all_cohorts[i]->enclosed == 0 && !(current->all_cohorts[i]->type & (CT_REMOVED | CT_IGNORED))) {
+						par_right_tag = current->all_cohorts[i]->is_pright;
 						current->cohorts[ni + j + 1] = current->all_cohorts[i];
 						current->cohorts[ni + j + 1]->local_number = UI32(ni + j + 1);
 						current->cohorts[ni + j + 1]->parent = current;
 						++j;
 					}
 				}
-				par_left_tag = current->all_cohorts[la + 1]->is_pleft;
-				par_right_tag = current->all_cohorts[ra - 1]->is_pright;
 				if (verbosity_level > 0) {
-					u_fprintf(ux_stderr, "Info: Unwrapped enclosure between lines %u to %u\n", current->all_cohorts[la + 1]->line_number, current->all_cohorts[ra - 1]->line_number);
+					u_fprintf(ux_stderr, "Info: Unwrapped enclosure between lines %u to %u\n", c->line_number, current->all_cohorts[ra - 1]->line_number);
 				}
 				par_left_pos = UI32(ni + 1);
 				par_right_pos = UI32(ni + ne);
-- 
2.43.0


From 05a45cf06479b844ed43db8f203d82e96fe00770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 028/102] fix: tests on the bag of tags do not need a cohort

---
 src/GrammarApplicator_matchSet.cpp | 75 +++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 23 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 48a9e80..904c2f4 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -84,19 +84,26 @@ inline void captureRegex(int32_t gc, uint8_t& regexgrp_ct, RXGS* regexgrps, Tag&
 uint32_t test_tag_numerical(const Reading& reading, const Tag& tag, const Tag& itag) {
 	uint32_t match = 0;
 	if (tag.comparison_hash == itag.comparison_hash) {
+		// A window's bag of tags has no cohort, so is its own range
+		auto getMin = [&]() {
+			return reading.parent ? reading.parent->getMin(tag.comparison_hash) : itag.comparison_val;
+		};
+		auto getMax = [&]() {
+			return reading.parent ? reading.parent->getMax(tag.comparison_hash) : itag.comparison_val;
+		};
 		double compval = tag.comparison_val;
 		if ((tag.type & T_NUMERIC_MATH) && tag.comparison_offset) {
-			MathParser mp(reading.parent->getMin(tag.comparison_hash), reading.parent->getMax(tag.comparison_hash));
+			MathParser mp(getMin(), getMax());
 			UStringView exp(tag.tag);
 			exp.remove_prefix(tag.comparison_offset);
 			exp.remove_suffix(1);
 			compval = mp.eval(exp);
 		}
 		else if (compval <= NUMERIC_MIN) {
-			compval = reading.parent->getMin(tag.comparison_hash);
+			compval = getMin();
 		}
 		else if (compval >= NUMERIC_MAX) {
-			compval = reading.parent->getMax(tag.comparison_hash);
+			compval = getMax();
 		}
 
 		if (tag.comparison_op == OP_EQUALS && itag.comparison_op == OP_EQUALS && compval == itag.comparison_val) {
@@ -388,7 +395,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		match = doesTagMatchReading(reading, *nt, unif_mode, bypass_index);
 	}
 	else if (tag.type & T_META) {
-		if (tag.regexp && !reading.parent->text.empty()) {
+		if (tag.regexp && reading.parent && !reading.parent->text.empty()) {
 			UErrorCode status = U_ZERO_ERROR;
 			uregex_setText(tag.regexp, reading.parent->text.data(), SI32(reading.parent->text.size()), &status);
 			if (status != U_ZERO_ERROR) {
@@ -437,15 +444,33 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 			}
 		}
 		else if (tag.type & T_WORDFORM) {
-			match = reading.parent->wordform->hash;
-			if (unif_mode) {
-				if (unif_last_wordform) {
-					if (unif_last_wordform != reading.parent->wordform->hash) {
-						match = 0;
+			if (reading.parent) {
+				match = reading.parent->wordform->hash;
+				if (unif_mode) {
+					if (unif_last_wordform) {
+						if (unif_last_wordform != match) {
+							match = 0;
+						}
+					}
+					else {
+						unif_last_wordform = match;
 					}
 				}
-				else {
-					unif_last_wordform = reading.parent->wordform->hash;
+			}
+			else {
+				// A window's bag of tags has no cohort, but does have the wordforms
+				for (auto mter : reading.tags_textual) {
+					if (!(grammar->single_tags.find(mter)->second->type & T_WORDFORM)) {
+						continue;
+					}
+					if (unif_mode) {
+						if (unif_last_wordform && unif_last_wordform != mter) {
+							continue;
+						}
+						unif_last_wordform = mter;
+					}
+					match = mter;
+					break;
 				}
 			}
 		}
@@ -483,7 +508,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	else if (tag.type & (T_VARIABLE|T_LOCAL_VARIABLE)) {
 		match = 0;
 		auto& vars = [&]() -> auto& {
-			if (reading.parent->parent == gWindow->current || !(tag.type & T_LOCAL_VARIABLE)) {
+			if (!(tag.type & T_LOCAL_VARIABLE) || !reading.parent || reading.parent->parent == gWindow->current) {
 				return variables;
 			}
 			return reading.parent->parent->variables_set;
@@ -526,21 +551,25 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		}
 	}
 	else if (tag.type & T_PAR_LEFT) {
-		if (par_left_tag && reading.parent->local_number == par_left_pos && reading.tags.find(par_left_tag) != reading.tags.end()) {
+		if (par_left_tag && reading.parent && reading.parent->local_number == par_left_pos && reading.tags.find(par_left_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_PAR_RIGHT) {
-		if (par_right_tag && reading.parent->local_number == par_right_pos && reading.tags.find(par_right_tag) != reading.tags.end()) {
+		if (par_right_tag && reading.parent && reading.parent->local_number == par_right_pos && reading.tags.find(par_right_tag) != reading.tags.end()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_ENCL) {
-		auto sw = reading.parent->parent;
-		auto c = std::find(sw->all_cohorts.begin() + reading.parent->local_number, sw->all_cohorts.end(), reading.parent);
-		++c;
-		if (c != sw->all_cohorts.end() && (*c)->enclosed) {
-			match = true;
+		if (reading.parent) {
+			auto sw = reading.parent->parent;
+			auto c = std::find(sw->all_cohorts.begin() + reading.parent->local_number, sw->all_cohorts.end(), reading.parent);
+			if (c != sw->all_cohorts.end()) {
+				++c;
+			}
+			if (c != sw->all_cohorts.end() && (*c)->enclosed) {
+				match = true;
+			}
 		}
 	}
 	else if (tag.type & T_TARGET) {
@@ -549,12 +578,12 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		}
 	}
 	else if (tag.type & T_MARK) {
-		if (reading.parent == get_mark()) {
+		if (reading.parent && reading.parent == get_mark()) {
 			match = grammar->tag_any;
 		}
 	}
 	else if (tag.type & T_ATTACHTO) {
-		if (reading.parent == get_attach_to().cohort) {
+		if (reading.parent && reading.parent == get_attach_to().cohort) {
 			match = grammar->tag_any;
 		}
 	}
@@ -567,7 +596,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 		if (context_stack.size() > 1) {
 			auto& list = context_stack[context_stack.size()-2].context;
 			if (tag.context_ref_pos <= list.size()) {
-				if (reading.parent == list[tag.context_ref_pos-1]) {
+				if (reading.parent && reading.parent == list[tag.context_ref_pos-1]) {
 					match = grammar->tag_any;
 				}
 			}
@@ -603,7 +632,7 @@ void GrammarApplicator::getTagsMatching(const Reading& reading, TagList& theTags
 				}
 				else if (tag.type & T_WORDFORM) {
 					if (itag->type & T_WORDFORM) {
-						match = reading.parent->wordform->hash;
+						match = reading.parent ? reading.parent->wordform->hash : itag->hash;
 					}
 				}
 				else if (!(itag->type & (T_BASEFORM | T_WORDFORM))) {
-- 
2.43.0


From b2425494f20cbf4d4691ca84b71c516dda94e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 029/102] fix: dependency upkeep skips cohorts that are no
 longer there

---
 src/GrammarApplicator_runRules.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 37c22c4..9194f81 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1192,11 +1192,13 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			// ToDo: Named relations must be erased
 			while (!cohort->dep_children.empty()) {
 				uint32_t ch = cohort->dep_children.back();
-				if (cohort->dep_parent == DEP_NO_PARENT) {
-					attachParentChild(*gWindow->cohort_map[0], *gWindow->cohort_map[ch], true, true);
-				}
-				else {
-					attachParentChild(*gWindow->cohort_map[cohort->dep_parent], *gWindow->cohort_map[ch], true, true);
+				auto child = gWindow->cohort_map.find(ch);
+				if (child != gWindow->cohort_map.end()) {
+					auto parent = gWindow->cohort_map.find(cohort->dep_parent);
+					if (parent == gWindow->cohort_map.end()) {
+						parent = gWindow->cohort_map.find(0);
+					}
+					attachParentChild(*parent->second, *child->second, true, true);
 				}
 				cohort->dep_children.erase(ch);
 			}
@@ -1750,7 +1752,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (cohort_dep[i].first == DEP_NO_PARENT) {
 						while (!get_apply_to().cohort->dep_children.empty()) {
 							uint32_t ch = get_apply_to().cohort->dep_children.back();
-							attachParentChild(*cCohort, *current.parent->cohort_map[ch], true, true);
+							auto child = current.parent->cohort_map.find(ch);
+							if (child != current.parent->cohort_map.end()) {
+								attachParentChild(*cCohort, *child->second, true, true);
+							}
 							get_apply_to().cohort->dep_children.erase(ch); // Just in case the attachment can't be made for some reason
 						}
 					}
@@ -1761,7 +1766,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					else {
-						attachParentChild(*current.parent->cohort_map[cohorts.front().first->global_number + cohort_dep[i].second - 1], *cCohort, true, true);
+						auto parent = current.parent->cohort_map.find(cohorts.front().first->global_number + cohort_dep[i].second - 1);
+						if (parent != current.parent->cohort_map.end()) {
+							attachParentChild(*parent->second, *cCohort, true, true);
+						}
 					}
 
 					// Re-attach all named relations to the dependency tail or R:* cohort
@@ -2700,7 +2708,12 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
-				Cohort* parent = current.parent->cohort_map[child->dep_parent];
+				auto pit = current.parent->cohort_map.find(child->dep_parent);
+				if (pit == current.parent->cohort_map.end()) {
+					// There is no parent to switch with
+					return;
+				}
+				Cohort* parent = pit->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-- 
2.43.0


From e60b1258a2d6644b4899e42e93fe7765a3b14267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 030/102] fix: long relation names and dependency mappings do
 not overrun their buffers

---
 src/GrammarApplicator_runRules.cpp | 9 ++++++---
 src/Tag.cpp                        | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 9194f81..0797985 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1274,8 +1274,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		};
 
 		auto make_relation_rtag = [&](Tag* tag, uint32_t id) {
-			UChar tmp[256] = { 0 };
-			u_sprintf(tmp, "R:%S:%u", tag->tag.data(), id);
+			char num[16] = { 0 };
+			sprintf(num, ":%u", id);
+			UString tmp(u"R:");
+			tmp += tag->tag;
+			tmp.append(num, num + strlen(num));
 			auto nt = addTag(tmp);
 			return nt;
 		};
@@ -1651,7 +1654,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					UChar dep_self[12] = {};
 					UChar dep_parent[12] = {};
-					if (u_sscanf(tter->tag.data(), "%[0-9cd]->%[0-9pm]", &dep_self, &dep_parent) == 2) {
+					if (u_sscanf(tter->tag.data(), "%11[0-9cd]->%11[0-9pm]", &dep_self, &dep_parent) == 2) {
 						if (dep_self[0] == 'c' || dep_self[0] == 'd') {
 							cohort_dep[i - 1].first = DEP_NO_PARENT;
 							if (rel_trg == DEP_NO_PARENT) {
diff --git a/src/Tag.cpp b/src/Tag.cpp
index 1096516..28b4285 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -126,7 +126,7 @@ void Tag::parseTagRaw(const UChar* to, Grammar* grammar) {
 	if (tag[0] == 'R' && tag[1] == ':') {
 		UChar relname[256];
 		dep_parent = std::numeric_limits<uint32_t>::max();
-		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
+		if (u_sscanf(tag.data(), "R:%255[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
 			type |= T_RELATION;
 			Tag* reltag = grammar->allocateTag(relname);
 			comparison_hash = reltag->hash;
-- 
2.43.0


From fd30c2f61bc33422024bb078f69ad77486ffe408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 031/102] fix: numeric formulas with odd variables, long
 numbers or earlier overflows are handled

---
 src/MathParser.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/MathParser.hpp b/src/MathParser.hpp
index 4733aa8..2607071 100644
--- a/src/MathParser.hpp
+++ b/src/MathParser.hpp
@@ -22,6 +22,7 @@
 
 #include <stdexcept>
 #include <cstdlib>
+#include <cerrno>
 #include <cctype>
 #include <cstring>
 #include <cmath>
@@ -76,7 +77,7 @@ inline void MathParser::eval_assign(double& result) {
 		temp_token = token;
 		auto slot = token[0] - 'A';
 		get_token();
-		if (token[0] != '=') {
+		if (token.empty() || token[0] != '=') {
 			exp_ptr = t_ptr;
 			token = temp_token;
 			tok_type = VARIABLE;
@@ -157,10 +158,10 @@ inline void MathParser::eval_func(double& result) {
 		temp_token = token;
 		get_token();
 	}
-	if (token[0] == '(') {
+	if (!token.empty() && token[0] == '(') {
 		get_token();
 		eval_add_sub(result);
-		if (token[0] != ')') {
+		if (token.empty() || token[0] != ')') {
 			throw std::runtime_error("Unbalanced parentheses");
 		}
 		if (isfunc) {
@@ -242,9 +243,13 @@ inline void MathParser::eval_func(double& result) {
 			get_token();
 			return;
 		case NUMBER: {
-			char num[128];
+			char num[256];
+			if (token.size() >= sizeof(num)) {
+				throw std::runtime_error("Number too long");
+			}
 			std::copy(token.begin(), token.end(), num);
 			num[token.size()] = 0;
+			errno = 0;
 			result = strtod(num, nullptr);
 			if (errno == ERANGE) {
 				throw std::runtime_error("Result did not fit in a double");
@@ -291,8 +296,8 @@ inline void MathParser::get_token() {
 		if (ux_simplecasecmp(token, u"MIN") || ux_simplecasecmp(token, u"MAX")) {
 			// Nothing
 		}
-		else if (token.size() > 1) {
-			throw std::runtime_error("Variables other than MIN and MAX must be 1 letter");
+		else if (token.size() > 1 || token[0] < 'A' || token[0] > 'Z') {
+			throw std::runtime_error("Variables other than MIN and MAX must be 1 letter A-Z");
 		}
 	}
 }
-- 
2.43.0


From 5fc1bfb55d14e13f2b0337c064f9c2b50fa70e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 032/102] fix: MERGECOHORTS cannot merge the start of a window

---
 src/GrammarApplicator_runRules.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 0797985..e007aac 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2278,6 +2278,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					tmpl_cntx.clear();
 					Cohort* attach = nullptr;
 					bool test_good = (runContextualTest(target->parent, target->local_number, it, &attach) && attach);
+					if (test_good) {
+						// The start of the window cannot be merged with anything
+						auto with = (merge_with || get_attach_to().cohort) ? merge_with : attach;
+						test_good = (!with || with->local_number != 0);
+					}
 
 					profileRuleContext(test_good, rule, it);
 
-- 
2.43.0


From 9117fd82cef1648e29216138f8d2581d0c2d32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 033/102] fix: COPYCOHORT never puts anything before the start
 of the window

---
 src/GrammarApplicator_runRules.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index e007aac..1c1604f 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2374,6 +2374,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (rule->flags & RF_REVERSE) {
 						std::swap(cohort, attach);
 						childset = rule->childset1;
+						if (cohort->local_number == 0) {
+							return;
+						}
 					}
 
 					Cohort* cCohort = alloc_cohort(attach->parent);
@@ -2483,11 +2486,17 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					CohortSet edges;
 					collect_subtree(edges, attach, childset);
 
-					if (rule->flags & RF_BEFORE) {
+					if (rule->flags & RF_BEFORE && edges.front()->local_number != 0) {
 						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.front()->local_number, cCohort);
 						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.front()->local_number, attach->parent->all_cohorts.end(), edges.front()), cCohort);
 						attachParentChild(*edges.front(), *cCohort);
 					}
+					else if (rule->flags & RF_BEFORE) {
+						// Nothing can come before the start of the window
+						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + 1, cCohort);
+						attach->parent->all_cohorts.insert(attach->parent->all_cohorts.begin() + 1, cCohort);
+						attachParentChild(*edges.front(), *cCohort);
+					}
 					else {
 						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.back()->local_number + 1, cCohort);
 						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.back()->local_number, attach->parent->all_cohorts.end(), edges.back()) + 1, cCohort);
-- 
2.43.0


From a306f5ebd3fc177c48a7b34477c49a32017439a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 034/102] fix: profiling and --debug-rules do not reorder the
 readings rules are running on

---
 src/GrammarApplicator.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index cc21a37..19e2f8c 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -409,9 +409,6 @@ void GrammarApplicator::printReading(const Reading* reading, std::ostream& outpu
 	}
 
 	if (has_dep && !(reading->parent->type & CT_REMOVED)) {
-		if (!reading->parent->dep_self) {
-			reading->parent->dep_self = reading->parent->global_number;
-		}
 		auto pr = reading->parent;
 		if (reading->parent->dep_parent != DEP_NO_PARENT) {
 			if (reading->parent->dep_parent == 0) {
@@ -531,9 +528,19 @@ void GrammarApplicator::printCohort(Cohort* cohort, std::ostream& output, bool p
 		}
 	}
 
-	std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
-	for (auto rter1 : cohort->readings) {
-		printReading(rter1, output);
+	if (profiling) {
+		// This happens in the middle of running a rule, so the cohort must be left as it is
+		auto readings = cohort->readings;
+		std::sort(readings.begin(), readings.end(), Reading::cmp_number);
+		for (auto rter1 : readings) {
+			printReading(rter1, output);
+		}
+	}
+	else {
+		std::sort(cohort->readings.begin(), cohort->readings.end(), Reading::cmp_number);
+		for (auto rter1 : cohort->readings) {
+			printReading(rter1, output);
+		}
 	}
 	if (trace && !trace_no_removed) {
 		std::sort(cohort->delayed.begin(), cohort->delayed.end(), Reading::cmp_number);
-- 
2.43.0


From 3c8fb6f731baab4ffa52bdff3e7e447a20cd841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 035/102] fix: interval vectors count the first element and
 those put in front

---
 src/interval_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 3089415..ff0a00a 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -174,6 +174,7 @@ public:
 	bool insert(T t) {
 		if (elements.empty()) {
 			elements.emplace_back(interval(t));
+			++_size;
 			return true;
 		}
 		auto it = std::lower_bound(elements.begin(), elements.end(), t);
@@ -190,6 +191,7 @@ public:
 			else {
 				elements.insert(it, interval(t));
 			}
+			++_size;
 			return true;
 		}
 		auto pr = it - 1;
-- 
2.43.0


From 2759f70947c656e0c0c9ec00a144f7137e468eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 036/102] fix: running through the rules continues after WITH
 when its rules made others applicable

---
 src/GrammarApplicator_runRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 1c1604f..b5aa89d 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2942,6 +2942,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					rule = rule_was;
 				}
 				in_nested = false;
+				// The nested rules are not among the ones being run through
+				iter_rules = intersects.find(rule->number);
+				iter_rules_end = intersects.end();
 				readings_changed = any_readings_changed;
 				finish_reading_loop = false;
 			}
-- 
2.43.0


From 39d4e94d3d40af6331bb713201d385179038b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 037/102] fix: readings hidden by IGNORED are marked as deleted
 along with their cohort

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index b5aa89d..ce138ee 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1177,6 +1177,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 		auto rem_cohort = [&](Cohort* cohort) {
 			auto& current = *cohort->parent;
+			cohort->unignoreAll();
 			for (auto iter : cohort->readings) {
 				iter->hit_by.push_back(rule->number);
 				iter->deleted = true;
@@ -1801,6 +1802,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				// Remove the source cohort
+				get_apply_to().cohort->unignoreAll();
 				for (auto iter : get_apply_to().cohort->readings) {
 					iter->hit_by.push_back(rule->number);
 					iter->deleted = true;
-- 
2.43.0


From 001fd0e22b68576fd73707783a0f981fdecd3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 038/102] fix: OLIST keeps its order when its definition is
 merged with others, also in lower case

---
 src/TextualParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 96adfad..b074a2d 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2218,9 +2218,10 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				s->line = result->lines;
 				bool ordered = false;
 				AST_OPEN(List);
-				if (*p == 'O') {
+				if (*p == 'O' || *p == 'o') {
 					++p;
 					ordered = true;
+					s->type |= ST_ORDERED;
 				}
 				p += 4;
 				result->lines += SKIPWS(p);
-- 
2.43.0


From 60aa08e94734ced1bad6af695b7bcf2620bc1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 039/102] fix: sections only holding ignored rules do not count
 as sections of a binary grammar

---
 src/Grammar.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 6953a2d..7c08bec 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -888,7 +888,9 @@ void Grammar::reindex(bool unused_sets, bool used_tags) {
 			null_section.push_back(rule);
 		}
 		else {
-			sects.insert(rule->section);
+			if (rule->type != K_IGNORE) {
+				sects.insert(rule->section);
+			}
 			rules.push_back(rule);
 		}
 		if (rule->target) {
-- 
2.43.0


From 8da601917695402f197cd4aa23ab4e183078bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 040/102] fix: listing the tags of a set went wrong after the
 first branch of several tags

---
 src/TagTrie.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 4ab5f2e..36bf54d 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -178,14 +178,14 @@ inline void trie_getTags(const trie_t& trie, TagVectorSet& rv, TagVector& tv) {
 	for (auto& kv : trie) {
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
-			std::sort(tv.begin(), tv.end(), compare_Tag());
-			rv.insert(tv);
-			tv.pop_back();
-			continue;
+			TagVector sorted(tv);
+			std::sort(sorted.begin(), sorted.end(), compare_Tag());
+			rv.insert(std::move(sorted));
 		}
-		if (kv.second.trie) {
+		else if (kv.second.trie) {
 			trie_getTags(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
@@ -212,12 +212,11 @@ inline void trie_getTagsOrdered(const trie_t& trie, TagVectorSet& rv, TagVector&
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
 			rv.insert(tv);
-			tv.pop_back();
-			continue;
 		}
-		if (kv.second.trie) {
+		else if (kv.second.trie) {
 			trie_getTagsOrdered(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
-- 
2.43.0


From 7b803a16dee3b6dfd83c3b9c43407b1608d7c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:09 +0000
Subject: [PATCH 041/102] fix: WITHCHILD looks for children in the window of
 the cohort in question

---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index ce138ee..1e4301c 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -957,7 +957,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 		auto collect_subtree = [&](CohortSet& cs, Cohort* head, uint32_t cset) {
 			if (cset) {
-				for (auto iter : current.cohorts) {
+				for (auto iter : head->parent->cohorts) {
 					// Always consider the initial cohort a match
 					if (iter->global_number == head->global_number) {
 						cs.insert(iter);
@@ -967,7 +967,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 				}
 				CohortSet more;
-				for (auto iter : current.cohorts) {
+				for (auto iter : head->parent->cohorts) {
 					for (auto cht : cs) {
 						// Do not grab the whole tree from the root, in case WithChild is not (*)
 						if (cht->global_number == head->global_number) {
-- 
2.43.0


From 4d215ff05dcf76157fe70514e89bffde7767d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 042/102] fix: --grammar-out keeps NOT, ALL and NONE of tests
 that refer to templates

---
 src/GrammarWriter.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index e58b5be..2743fa4 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -394,16 +394,16 @@ void GrammarWriter::printContextualTest(std::ostream& to, const ContextualTest&
 	if (test.pos & POS_NEGATE) {
 		u_fprintf(to, "NEGATE ");
 	}
+	if (test.pos & POS_ALL) {
+		u_fprintf(to, "ALL ");
+	}
+	if (test.pos & POS_NONE) {
+		u_fprintf(to, "NONE ");
+	}
+	if (test.pos & POS_NOT) {
+		u_fprintf(to, "NOT ");
+	}
 	if ((test.pos & POS_TMPL_OVERRIDE) || (!test.tmpl && test.ors.empty())) {
-		if (test.pos & POS_ALL) {
-			u_fprintf(to, "ALL ");
-		}
-		if (test.pos & POS_NONE) {
-			u_fprintf(to, "NONE ");
-		}
-		if (test.pos & POS_NOT) {
-			u_fprintf(to, "NOT ");
-		}
 		if (test.pos & POS_ABSOLUTE) {
 			u_fprintf(to, "@");
 		}
-- 
2.43.0


From 0aa8f18918b0d364a2243654aad1c44a1e95c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 043/102] fix: --grammar-out writes EXCEPT of REPLACE, and no
 child sets where the syntax has none

---
 src/GrammarWriter.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 2743fa4..bd6dce4 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -313,8 +313,8 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 		u_fprintf(to, "%S ", rule.maplist->name.data());
 	}
 
-	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT)) {
-		if (rule.type == K_COPY || rule.type == K_COPYCOHORT) {
+	if (rule.sublist && (rule.type == K_ADDRELATIONS || rule.type == K_SETRELATIONS || rule.type == K_REMRELATIONS || rule.type == K_SETVARIABLE || rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE)) {
+		if (rule.type == K_COPY || rule.type == K_COPYCOHORT || rule.type == K_REPLACE) {
 			u_fprintf(to, "EXCEPT ");
 		}
 		u_fprintf(to, "%S ", rule.sublist->name.data());
@@ -327,10 +327,7 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 		if (rule.flags & RF_AFTER) {
 			u_fprintf(to, "AFTER ");
 		}
-		if (rule.childset1) {
-			if (rule.type == K_COPYCOHORT) {
-				u_fprintf(to, "WITHCHILD ");
-			}
+		if (rule.type != K_COPYCOHORT && (rule.flags & (RF_BEFORE | RF_AFTER)) && rule.childset1) {
 			u_fprintf(to, "%S ", grammar->sets_list[rule.childset1]->name.data());
 		}
 	}
-- 
2.43.0


From bb53d4b1b113858571c9d81f25b77859bac995d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 044/102] fix: --grammar-out writes when to run what for
 EXTERNAL

---
 src/GrammarWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index bd6dce4..f22fff6 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -287,6 +287,11 @@ void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
 	}
 	u_fprintf(to, " ");
 
+	if (type == K_EXTERNAL) {
+		u_fprintf(to, "%S ", (rule.type == K_EXTERNAL_ONCE) ? STR_ONCE.data() : STR_ALWAYS.data());
+		u_fprintf(to, "\"%S\" ", grammar->single_tags.find(rule.varname)->second->tag.data());
+	}
+
 	for (uint32_t i = 0; i < FLAGS_COUNT; ++i) {
 		if (i == FL_BEFORE || i == FL_AFTER || i == FL_WITHCHILD) {
 			continue;
-- 
2.43.0


From e329552ac75b0889a28c1363622336171258c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 045/102] fix: --grammar-out writes anchors that are after the
 last rule or before WITH, and WITH sub-rules only once

---
 src/GrammarWriter.cpp | 48 +++++++++++++++++++++++++++++++++++--------
 src/GrammarWriter.hpp |  3 +++
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index f22fff6..46a6a63 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -195,6 +195,14 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 	u_fprintf(output, "\n");
 	//*/
 
+	// Sub-rules of WITH are only written as part of that rule
+	nested_rules.clear();
+	for (auto rule : grammar->rule_by_number) {
+		for (auto sub : rule->sub_rules) {
+			nested_rules.insert(sub->number);
+		}
+	}
+
 	bool found = false;
 	for (auto rule_iter : grammar->rule_by_number) {
 		const Rule& r = *rule_iter;
@@ -236,7 +244,7 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 	found = false;
 	for (auto rule_iter : grammar->rule_by_number) {
 		const Rule& r = *rule_iter;
-		if (r.section == -3) {
+		if (r.section == -3 && !nested_rules.count(r.number)) {
 			if (!found) {
 				u_fprintf(output, "\nNULL-SECTION\n");
 				found = true;
@@ -246,23 +254,45 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		}
 	}
 
+	// Anchors that come after the last rule
+	printAnchors(output, UI32(grammar->rule_by_number.size()));
+
 	return 0;
 }
 
-void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
-	if (seen_rules.count(rule.number)) {
-		return;
-	}
-	seen_rules.insert(rule.number);
-
-	auto as = anchors.equal_range(rule.number);
+void GrammarWriter::printAnchors(std::ostream& to, uint32_t number, const UString& name) {
+	auto as = anchors.equal_range(number);
 	for (auto ait = as.first; ait != as.second; ++ait) {
 		auto tag = USV(grammar->single_tags.find(ait->second)->second->tag);
-		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == rule.name) {
+		if (tag == keywords[K_START] || tag == keywords[K_END] || tag == name) {
 			continue;
 		}
 		u_fprintf(to, "ANCHOR %S ;\n", tag.data());
 	}
+}
+
+// Anchors cannot be inside the block of a WITH rule, but its sub-rules are numbered before the rule itself
+void GrammarWriter::printRuleAnchors(std::ostream& to, const Rule& rule) {
+	if (nested_rules.count(rule.number)) {
+		return;
+	}
+	auto first = rule.number;
+	for (auto r = &rule; !r->sub_rules.empty();) {
+		r = r->sub_rules.front();
+		first = std::min(first, r->number);
+	}
+	for (auto n = first; n <= rule.number; ++n) {
+		printAnchors(to, n, grammar->rule_by_number[n]->name);
+	}
+}
+
+void GrammarWriter::printRule(std::ostream& to, const Rule& rule) {
+	if (seen_rules.count(rule.number)) {
+		return;
+	}
+	seen_rules.insert(rule.number);
+
+	printRuleAnchors(to, rule);
 
 	if (rule.wordform) {
 		printTag(to, *rule.wordform);
diff --git a/src/GrammarWriter.hpp b/src/GrammarWriter.hpp
index a0ae5e4..da81be7 100644
--- a/src/GrammarWriter.hpp
+++ b/src/GrammarWriter.hpp
@@ -41,12 +41,15 @@ private:
 	std::ostream* ux_stderr = nullptr;
 	uint32FlatHashSet used_sets;
 	uint32FlatHashSet seen_rules;
+	uint32FlatHashSet nested_rules;
 	const Grammar* grammar = nullptr;
 	std::multimap<uint32_t, uint32_t> anchors;
 
 	void printTag(std::ostream& out, const Tag& tag);
 	void printSet(std::ostream& output, const Set& curset);
 	void printRule(std::ostream& to, const Rule& rule);
+	void printRuleAnchors(std::ostream& to, const Rule& rule);
+	void printAnchors(std::ostream& to, uint32_t number, const UString& name = {});
 	void printContextualTest(std::ostream& to, const ContextualTest& test);
 };
 }
-- 
2.43.0


From fc5bb468afa00bcbf418bcd27ae5624421b3d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 046/102] fix: --grammar-out refers to the right set in $$ and
 && sets

---
 src/GrammarWriter.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 46a6a63..5d8f1ef 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -175,6 +175,19 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 			s->name.insert(s->name.begin(), 'C');
 		}
 	}
+	// Unified sets are referenced via the set they unify, which may have been given another name than the one used in the original
+	for (auto s : grammar->sets_list) {
+		if (!(s->type & (ST_TAG_UNIFY | ST_SET_UNIFY)) || s->sets.empty()) {
+			continue;
+		}
+		size_t n = 2;
+		while (n < s->name.size() && u_isdigit(s->name[n])) {
+			++n;
+		}
+		n = (n > 2 && n < s->name.size() && s->name[n] == ':') ? n + 1 : 2;
+		s->name.resize(n);
+		s->name += grammar->sets_list[s->sets.front()]->name;
+	}
 	for (auto s : grammar->sets_list) {
 		printSet(output, *s);
 	}
-- 
2.43.0


From 79a10c5208a660c62f2d248a107fcce1d4fc6475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 047/102] fix: --grammar-out writes REOPEN-MAPPINGS

---
 src/GrammarWriter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/GrammarWriter.cpp b/src/GrammarWriter.cpp
index 5d8f1ef..948ac99 100644
--- a/src/GrammarWriter.cpp
+++ b/src/GrammarWriter.cpp
@@ -122,6 +122,15 @@ int GrammarWriter::writeGrammar(std::ostream& output) {
 		u_fprintf(output, " ;\n");
 	}
 
+	if (!grammar->reopen_mappings.empty()) {
+		u_fprintf(output, "REOPEN-MAPPINGS = ");
+		for (auto iter : grammar->reopen_mappings) {
+			printTag(output, *(grammar->single_tags.find(iter)->second));
+			u_fprintf(output, " ");
+		}
+		u_fprintf(output, " ;\n");
+	}
+
 	if (!grammar->preferred_targets.empty()) {
 		u_fprintf(output, "PREFERRED-TARGETS = ");
 		for (auto iter : grammar->preferred_targets) {
-- 
2.43.0


From ee40509c113836a535ac0063fdfbabdbd7c58dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 048/102] fix: REMPARENT and SWITCHPARENT need dependencies as
 SETPARENT does

---
 src/TextualParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index b074a2d..93477c9 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1546,7 +1546,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			rule->dep_tests.pop_back();
 		}
 	}
-	if (key == K_SETPARENT || key == K_SETCHILD || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
+	if (key == K_SETPARENT || key == K_SETCHILD || key == K_REMPARENT || key == K_SWITCHPARENT || key == K_SPLITCOHORT || key == K_MERGECOHORTS) {
 		result->has_dep = true;
 	}
 	if (key == K_SETRELATION || key == K_SETRELATIONS || key == K_ADDRELATION || key == K_ADDRELATIONS || key == K_REMRELATION || key == K_REMRELATIONS || key == K_MERGECOHORTS) {
-- 
2.43.0


From 032f169d43d89cce97084023cec20f48aca33b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 049/102] fix: a window with only the beginning-of-text cohort
 crashed when parsing relations

---
 src/GrammarApplicator_reflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 4dd2000..f8993d1 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -295,7 +295,7 @@ void GrammarApplicator::reflowRelationWindow(uint32_t max) {
 		max = gWindow->next.back()->cohorts[0]->global_number;
 	}
 
-	Cohort* cohort = gWindow->current->cohorts[1];
+	Cohort* cohort = gWindow->current->cohorts[0];
 	while (cohort->prev) {
 		cohort = cohort->prev;
 	}
-- 
2.43.0


From 28916f2a83f5d5d2a1f2b595b43eda1765183601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 050/102] fix: binary output lost dependency and relation tags
 that were not parsed as such

---
 src/BinaryApplicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index 3d1a0fd..c9a8597 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -550,7 +550,8 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					if (tter == reading->baseform || tter == reading->parent->wordform->hash) {
 						continue;
 					}
-					if (tag->type & (T_DEPENDENCY | T_RELATION)) {
+					// As with CG format, these are normal tags if they were not parsed
+					if (((tag->type & T_DEPENDENCY) && has_dep) || ((tag->type & T_RELATION) && has_relations)) {
 						continue;
 					}
 					if (unique_tags) {
-- 
2.43.0


From d22ba92daae6693dda9c6e06b76e1372c1fffa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 051/102] fix: JSONL input dropped empty base forms

---
 src/JsonlApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5f139bf..00e91cf 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -85,7 +85,7 @@ Reading* JsonlApplicator::parseJsonReading(const json::Value& reading_obj, Cohor
 	if (reading_obj.HasMember("l")) {
 		auto& l_val = reading_obj["l"];
 		auto base_str = json_to_ustring(l_val);
-		if (!base_str.empty()) {
+		if (l_val.IsString()) {
 			UString base_tag;
 			base_tag += '"';
 			base_tag += base_str;
-- 
2.43.0


From 2bcbd328afcd0d2ddbce8ca5307e74cfc75be6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 052/102] fix: JSONL input ran the last window twice and
 windows without their lookahead

---
 src/JsonlApplicator.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 00e91cf..5b690d1 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -450,6 +450,18 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				lSWindow = cSWindow;
 			}
 
+			if (gWindow->next.size() > num_windows + 1) {
+				gWindow->shuffleWindowsDown();
+				runGrammarOnWindow();
+				if (numWindows % resetAfter == 0) {
+					resetIndexes();
+				}
+				if (verbosity_level > 0) {
+					u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", numLines, numWindows, numCohorts, numReadings);
+					u_fflush(ux_stderr);
+				}
+			}
+
 			parseJsonCohort(doc, cSWindow, cCohort);
 
 			if (!cCohort) {
@@ -460,7 +472,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 			cSWindow->appendCohort(cCohort);
 			lCohort = cCohort;
 
-			bool did_delim = false;
 			if (cSWindow->cohorts.size() >= soft_limit && grammar->soft_delimiters && doesSetMatchCohortNormal(*cCohort, grammar->soft_delimiters->number)) {
 				if (verbosity_level > 0) {
 					u_fprintf(ux_stderr, "Info: Soft limit of %u cohorts reached at line %u with soft delimiter.\n", soft_limit, numLines);
@@ -470,7 +481,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				}
 				cSWindow = nullptr;
 				cCohort = nullptr;
-				did_delim = true;
 			}
 			else if (cSWindow->cohorts.size() >= hard_limit || (grammar->delimiters && doesSetMatchCohortNormal(*cCohort, grammar->delimiters->number))) {
 				if (cSWindow->cohorts.size() >= hard_limit) {
@@ -481,20 +491,8 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 				}
 				cSWindow = nullptr;
 				cCohort = nullptr;
-				did_delim = true;
 			}
 
-			if (did_delim || gWindow->next.size() > num_windows) {
-				gWindow->shuffleWindowsDown();
-				runGrammarOnWindow();
-				if (numWindows % resetAfter == 0) {
-					resetIndexes();
-				}
-				if (verbosity_level > 0) {
-					u_fprintf(ux_stderr, "Progress: L:%u, W:%u, C:%u, R:%u\r", numLines, numWindows, numCohorts, numReadings);
-					u_fflush(ux_stderr);
-				}
-			}
 			cCohort = nullptr;
 		}
 	}
@@ -510,9 +508,6 @@ void JsonlApplicator::runGrammarOnText(std::istream& input, std::ostream& output
 		gWindow->shuffleWindowsDown();
 		runGrammarOnWindow();
 	}
-	if (gWindow->current) {
-		runGrammarOnWindow();
-	}
 
 	gWindow->shuffleWindowsDown();
 	while (!gWindow->previous.empty()) {
-- 
2.43.0


From f32c5d3c20c4f67835c7b0241a40bc0ff4ab1964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 053/102] fix: dependencies in JSONL input were ignored

---
 src/JsonlApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 5b690d1..f5e11c7 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -214,6 +214,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 	}
 	if (obj.HasMember("dp") && obj["dp"].IsUint()) {
 		cCohort->dep_parent = obj["dp"].GetUint();
+		has_dep = true;
 	}
 
 	// parse deleted readings ("drs")
-- 
2.43.0


From a89bcd3ee4473230f36513eba4e08801a56e2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 054/102] fix: modifying a reading of a cohort without a parent
 set its numbers to those of the input

---
 src/GrammarApplicator_reflow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index f8993d1..034e218 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -257,6 +257,10 @@ void GrammarApplicator::reflowDependencyWindow(uint32_t max) {
 				break;
 			}
 			if (cohort->dep_parent == DEP_NO_PARENT) {
+				// Don't let the tag be parsed again when the reading is modified
+				if (cohort->dep_self == cohort->global_number) {
+					cohort->type |= CT_DEP_DONE;
+				}
 				continue;
 			}
 			if (cohort->dep_self == cohort->global_number) {
@@ -269,6 +273,7 @@ void GrammarApplicator::reflowDependencyWindow(uint32_t max) {
 						u_fflush(ux_stderr);
 					}
 					cohort->dep_parent = DEP_NO_PARENT;
+					cohort->type |= CT_DEP_DONE;
 				}
 				else {
 					if (!(cohort->type & CT_DEP_DONE)) {
-- 
2.43.0


From 4e57ac629911fcda4c8bf5dc5368d65ca829c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 055/102] fix: relation tags added by rules were taken for
 input, which made relations to unrelated cohorts

---
 src/GrammarApplicator.hpp          | 1 +
 src/GrammarApplicator_reflow.cpp   | 2 +-
 src/GrammarApplicator_runRules.cpp | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index b2a900c..77d5566 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -165,6 +165,7 @@ public:
 	void reflowDependencyWindow(uint32_t max = 0);
 
 	bool has_relations = false;
+	bool parse_relations = true;
 	void reflowRelationWindow(uint32_t max = 0);
 
 	Grammar* grammar = nullptr;
diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 034e218..51c6cec 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -524,7 +524,7 @@ uint32_t GrammarApplicator::addTagToReading(Reading& reading, Tag* tag, bool reh
 		}
 		has_dep = true;
 	}
-	if (grammar->has_relations && (tag->type & T_RELATION)) {
+	if (grammar->has_relations && parse_relations && (tag->type & T_RELATION)) {
 		if (tag->dep_parent && tag->comparison_hash) {
 			reading.parent->relations_input[tag->comparison_hash].insert(tag->dep_parent);
 		}
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 1e4301c..727f9c6 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -3063,6 +3063,9 @@ uint32_t GrammarApplicator::runGrammarOnSingleWindow(SingleWindow& current) {
 }
 
 void GrammarApplicator::runGrammarOnWindow() {
+	// Tags that rules add or move around are not input, and their numbers are not the input's
+	uncond_swap<bool> no_relations(parse_relations, false);
+
 	SingleWindow* current = gWindow->current;
 	did_final_enclosure = false;
 
-- 
2.43.0


From ba05920bc2277e292a7ca9e8e210d450aa7e5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 056/102] fix: attachments to the root after the first window
 were lost in JSONL output

---
 src/JsonlApplicator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index f5e11c7..23e8e00 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -685,7 +685,10 @@ void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool pro
 		auto self_id = (cohort->dep_self == 0) ? cohort->global_number : cohort->dep_self;
 		doc.AddMember("ds", self_id, allocator);
 		if (cohort->dep_parent != DEP_NO_PARENT) {
-			doc.AddMember("dp", cohort->dep_parent, allocator);
+			// The root has number 0 in all windows
+			auto it = gWindow->cohort_map.find(cohort->dep_parent);
+			bool is_root = (it != gWindow->cohort_map.end() && it->second->local_number == 0);
+			doc.AddMember("dp", is_root ? 0 : cohort->dep_parent, allocator);
 		}
 	}
 
-- 
2.43.0


From fc5bb011a8915cbbc205d64c1e1ab466c5e9353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 057/102] fix: SWITCHPARENT attached the root to its children

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 727f9c6..ff186d7 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2733,6 +2733,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					return;
 				}
 				Cohort* parent = pit->second;
+				if (parent->local_number == 0) {
+					// The root can't become a child
+					return;
+				}
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-- 
2.43.0


From 3231c53285fa277daffab793f6a178815f345258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 058/102] fix: static tags in JSONL input were not matched by
 rules

---
 src/JsonlApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 23e8e00..7dda37d 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -181,7 +181,7 @@ void JsonlApplicator::parseJsonCohort(const json::Value& obj, SingleWindow* cSWi
 			auto tag_str = json_to_ustring(tag_val);
 			if (!tag_str.empty()) {
 				auto tag = addTag(tag_str);
-				cCohort->wread->tags_list.push_back(tag->hash);
+				addTagToReading(*cCohort->wread, tag);
 			}
 		}
 	}
-- 
2.43.0


From 92e9a48037fcf82ca8a9a7f2a1167f0728af79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 059/102] fix: JSONL output lost the text after removed cohorts

---
 src/JsonlApplicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/JsonlApplicator.cpp b/src/JsonlApplicator.cpp
index 7dda37d..b51c72c 100644
--- a/src/JsonlApplicator.cpp
+++ b/src/JsonlApplicator.cpp
@@ -618,6 +618,10 @@ void JsonlApplicator::buildJsonReading(const Reading* reading, json::Value& read
 
 void JsonlApplicator::printCohort(Cohort* cohort, std::ostream& output, bool profiling) {
 	if (cohort->local_number == 0 || (cohort->type & CT_REMOVED)) {
+		// The text after a cohort is kept even if the cohort isn't
+		if (!cohort->text.empty()) {
+			printPlainTextLine(cohort->text, output);
+		}
 		return;
 	}
 
-- 
2.43.0


From f544f5d5bbd9bc2811cf51951fc78f585fb48710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 060/102] fix: relations to the root were lost in binary
 streams

---
 src/BinaryApplicator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index c9a8597..db4d727 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -286,6 +286,10 @@ void BinaryApplicator::readWindow(void*& payload) {
 		for (uint16_t rn = 0; rn < rel_count; ++rn) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
+			if (head == 0) {
+				cCohort->relations[window_tags[tag]->hash].insert(cSWindow->cohorts.front()->global_number);
+				continue;
+			}
 			cCohort->relations_input[window_tags[tag]->hash].insert(head);
 		}
 		if (rel_count) {
@@ -517,6 +521,11 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 			for (auto siter : miter.second) {
 				++rel_count;
 				WRITE_TAG_INTO(it->second, rel_buffer);
+				// As with dependencies, the root is number 0
+				auto target = gWindow->cohort_map.find(siter);
+				if (target != gWindow->cohort_map.end() && target->second->local_number == 0) {
+					siter = 0;
+				}
 				WRITE_U32_INTO(siter, rel_buffer);
 			}
 		}
-- 
2.43.0


From 970113b7fab622136429e8eea44e1076fa61bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 061/102] fix: a context position may be followed by a tab or a
 line break

---
 src/TextualParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 93477c9..26ffc00 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -538,7 +538,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 	AST_OPEN(ContextPos);
 
 	size_t tries;
-	for (tries = 0; *p != ' ' && *p != '(' && *p != '/' && tries < 100; ++tries) {
+	for (tries = 0; !ISSPACE(*p) && *p != '(' && *p != '/' && tries < 100; ++tries) {
 		if (*p == '*' && p[1] == '*') {
 			t.pos |= POS_SCANALL;
 			p += 2;
@@ -735,7 +735,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 		bool negative = false;
 
 		size_t tries;
-		for (tries = 0; *p != ' ' && *p != '(' && tries < 100; ++tries) {
+		for (tries = 0; !ISSPACE(*p) && *p != '(' && tries < 100; ++tries) {
 			if (*p == '*' && p[1] == '*') {
 				t.offset_sub = GSR_ANY;
 				p += 2;
-- 
2.43.0


From 68e2baabaf6417aa80d3c45f83d5f98b5d0fd9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 062/102] fix: a test does the same in a template as where the
 template is used: O in a template, and the cohort found when the last test is
 a failed NOT

---
 src/GrammarApplicator_runContextualTest.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 7f4ad38..f54b45f 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -250,6 +250,9 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 			tmpl->barrier = test->barrier;
 		}
 	}
+	else if ((tmpl->pos & POS_NO_PASS_ORIGIN) && !(tmpl->pos & POS_PASS_ORIGIN) && position < sWindow->cohorts.size()) {
+		origin = sWindow->cohorts[position];
+	}
 	Cohort* cohort = runContextualTest(sWindow, position, tmpl, &cdeep, origin);
 	if (test->pos & POS_TMPL_OVERRIDE) {
 		tmpl->pos = orgpos;
@@ -323,7 +326,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 	if (test->tmpl) {
 		Cohort* cdeep = nullptr;
 		cohort = runContextualTest_tmpl(sWindow, position, test, test->tmpl, cdeep, origin);
-		if (deep) {
+		if (deep && cdeep) {
 			*deep = cdeep;
 		}
 	}
@@ -336,7 +339,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 				break;
 			}
 		}
-		if (deep) {
+		if (deep && cdeep) {
 			*deep = cdeep;
 		}
 	}
-- 
2.43.0


From 47a176d669ef15357ddc7be05d411ecf46b63660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 063/102] fix: MAX and MIN follow the readings and tags that
 rules remove

---
 src/GrammarApplicator_reflow.cpp   | 5 ++++-
 src/GrammarApplicator_runRules.cpp | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 51c6cec..36ebb57 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -340,6 +340,7 @@ void GrammarApplicator::reflowReading(Reading& reading) {
 	reading.tags_plain.clear();
 	reading.tags_textual.clear();
 	reading.tags_numerical.clear();
+	reading.parent->type &= ~CT_NUM_CURRENT;
 	reading.tags_bloom.clear();
 	reading.tags_textual_bloom.clear();
 	reading.tags_plain_bloom.clear();
@@ -574,7 +575,9 @@ void GrammarApplicator::delTagFromReading(Reading& reading, uint32_t utag) {
 	erase(reading.tags_list, utag);
 	reading.tags.erase(utag);
 	reading.tags_textual.erase(utag);
-	reading.tags_numerical.erase(utag);
+	if (reading.tags_numerical.erase(utag)) {
+		reading.parent->type &= ~CT_NUM_CURRENT;
+	}
 	reading.tags_plain.erase(utag);
 	if (reading.mapping && utag == reading.mapping->hash) {
 		reading.mapping = nullptr;
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index ff186d7..357e47e 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1365,6 +1365,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						}
 					}
 					target->readings.swap(selected);
+					target->type &= ~CT_NUM_CURRENT;
 					if (rule->flags & RF_DELAYED) {
 						target->delayed.insert(target->delayed.end(), drop.begin(), drop.end());
 					}
@@ -1390,6 +1391,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					else {
 						get_apply_to().cohort->deleted.insert(get_apply_to().cohort->deleted.end(), removed.begin(), removed.end());
 					}
+					get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 					size_t oz = get_apply_to().cohort->readings.size();
 					while (!removed.empty()) {
 						removed.back()->deleted = true;
@@ -1902,6 +1904,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
+							get_apply_to().cohort->type &= ~CT_NUM_CURRENT;
 							reindex_tags(rl[i]);
 							rl.erase(rl.begin() + i);
 							did_restore = true;
-- 
2.43.0


From 8ac906f22fae3a4b6af3a8b5d557f9c69368da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 064/102] fix: an override on a nested template concerns only
 what that template covers

---
 src/GrammarApplicator_runContextualTest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index f54b45f..467b200 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -249,6 +249,8 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 		if (test->barrier) {
 			tmpl->barrier = test->barrier;
 		}
+		// The override is about what this template covers, not what any surrounding templates cover
+		tmpl_cntx.min = tmpl_cntx.max = nullptr;
 	}
 	else if ((tmpl->pos & POS_NO_PASS_ORIGIN) && !(tmpl->pos & POS_PASS_ORIGIN) && position < sWindow->cohorts.size()) {
 		origin = sWindow->cohorts[position];
@@ -262,6 +264,12 @@ Cohort* GrammarApplicator::runContextualTest_tmpl(SingleWindow* sWindow, size_t
 		if (cohort && cdeep && test->offset != 0 && !posOutputHelper(sWindow, position, test, cohort, cdeep)) {
 			cohort = nullptr;
 		}
+		if (cohort && min && (!tmpl_cntx.min || less_Cohort(min, tmpl_cntx.min))) {
+			tmpl_cntx.min = min;
+		}
+		if (cohort && max && (!tmpl_cntx.max || less_Cohort(tmpl_cntx.max, max))) {
+			tmpl_cntx.max = max;
+		}
 	}
 
 	if (test->linked) {
-- 
2.43.0


From a9eeb502f8b9bf5aae4724a6f933ec30d91ba518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 065/102] fix: word form in front of a rule may be on a line of
 its own or in a WITH block; section header at the end of a file; empty
 included files

---
 src/TextualParser.cpp | 56 ++++++++++++++++++++++++++++---------------
 src/TextualParser.hpp |  2 ++
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 26ffc00..cb099d5 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -1178,11 +1178,17 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 	rule->line = result->lines;
 	rule->type = key;
 
+	// There may be a word form in front of the rule, with nothing but whitespace and comments between them
 	UChar* lp = p;
-	BACKTONL(lp);
-	result->lines += SKIPWS(lp);
+	if (wform_e) {
+		SKIPWS(wform_e);
+		if (wform_e == p) {
+			lp = wform_b;
+		}
+		wform_b = wform_e = nullptr;
+	}
 
-	if (lp != p && lp < p) {
+	if (lp != p) {
 		cur_ast->b = lp;
 		AST_OPEN(RuleWordform);
 		cur_ast->b = lp;
@@ -1592,6 +1598,14 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			AST_OPEN(RuleSubrules);
 			result->lines += SKIPWS(p);
 			do {
+				if (*p == '"') {
+					wform_b = p;
+					auto n = p;
+					MAYBE_QUOTED(n, p);
+					SKIPTOWS(n, 0, true);
+					p = wform_e = n;
+					result->lines += SKIPWS(p);
+				}
 				if (!maybeParseRule(p)) {
 					error("%s: Error: Expected rule on line %u near `%S`!\n", p);
 				}
@@ -2357,7 +2371,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				SKIPLN(s);
 				SKIPWS(s);
 				result->lines += SKIPWS(p);
-				if (p != s) {
+				if (*p && p != s) {
 					parseAnchorish(p);
 				}
 				AST_CLOSE(p);
@@ -2376,7 +2390,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				SKIPLN(s);
 				SKIPWS(s);
 				result->lines += SKIPWS(p);
-				if (p != s) {
+				if (*p && p != s) {
 					parseAnchorish(p);
 				}
 				AST_CLOSE(p);
@@ -2395,7 +2409,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				SKIPLN(s);
 				SKIPWS(s);
 				result->lines += SKIPWS(p);
-				if (p != s) {
+				if (*p && p != s) {
 					parseAnchorish(p);
 				}
 				AST_CLOSE(p);
@@ -2415,7 +2429,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				SKIPLN(s);
 				SKIPWS(s);
 				result->lines += SKIPWS(p);
-				if (p != s) {
+				if (*p && p != s) {
 					parseAnchorish(p);
 				}
 				AST_CLOSE(p);
@@ -2435,7 +2449,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				SKIPLN(s);
 				SKIPWS(s);
 				result->lines += SKIPWS(p);
-				if (p != s) {
+				if (*p && p != s) {
 					parseAnchorish(p);
 				}
 				AST_CLOSE(p);
@@ -2454,7 +2468,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				SKIPLN(s);
 				SKIPWS(s);
 				result->lines += SKIPWS(p);
-				if (p != s) {
+				if (*p && p != s) {
 					parseAnchorish(p);
 				}
 				AST_CLOSE(p);
@@ -2473,7 +2487,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				SKIPLN(s);
 				SKIPWS(s);
 				result->lines += SKIPWS(p);
-				if (p != s) {
+				if (*p && p != s) {
 					parseAnchorish(p);
 				}
 				AST_CLOSE(p);
@@ -2696,11 +2710,11 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					}
 				}
 
-				grammarbufs.emplace_back(new UString(grammar_size * 2, 0));
+				grammarbufs.emplace_back(new UString(grammar_size * 2 + 8, 0));
 				auto& data = *grammarbufs.back().get();
 				int32_t size = 0;
-				u_strFromUTF8(&data[4], SI32(grammar_size * 2), &size, buf.data(), SI32(buf.size()), &err);
-				if (size >= SI32(grammar_size * 2 - 1)) {
+				u_strFromUTF8(&data[4], SI32(grammar_size * 2 + 4), &size, buf.data(), SI32(buf.size()), &err);
+				if (size >= SI32(grammar_size * 2 + 3)) {
 					u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 					CG3Quit(1);
 				}
@@ -2847,6 +2861,10 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 						}
 					}
 					result->lines += SKIPTOWS(p);
+					if (*n == '"') {
+						wform_b = n;
+						wform_e = p;
+					}
 				}
 				if (*p && *p != ';' && *p != '"' && !ISNL(*p) && !ISSPACE(*p)) {
 					error("%s: Error: Garbage data encountered on line %u near `%S`!\n", p);
@@ -2903,12 +2921,12 @@ int TextualParser::parse_grammar(const char* fname) {
 	}
 
 	// It reads into the buffer at offset 4 because certain functions may look back, so we need some nulls in front.
-	grammarbufs.emplace_back(new UString(result->grammar_size * 2, 0));
+	grammarbufs.emplace_back(new UString(result->grammar_size * 2 + 8, 0));
 	auto& data = *grammarbufs.back().get();
 	int32_t size = 0;
 	UErrorCode err = U_ZERO_ERROR;
-	u_strFromUTF8(&data[4], SI32(result->grammar_size * 2), &size, buf.data(), SI32(buf.size()), &err);
-	if (size >= SI32(result->grammar_size * 2 - 1)) {
+	u_strFromUTF8(&data[4], SI32(result->grammar_size * 2 + 4), &size, buf.data(), SI32(buf.size()), &err);
+	if (size >= SI32(result->grammar_size * 2 + 3)) {
 		u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 		CG3Quit(1);
 	}
@@ -2922,13 +2940,13 @@ int TextualParser::parse_grammar(const char* buffer, size_t length) {
 	filebase = "<utf8-memory>";
 	result->grammar_size = length;
 
-	grammarbufs.emplace_back(new UString(length * 2, 0));
+	grammarbufs.emplace_back(new UString(length * 2 + 8, 0));
 	auto& data = *grammarbufs.back().get();
 
 	int32_t size = 0;
 	UErrorCode err = U_ZERO_ERROR;
-	u_strFromUTF8(&data[4], SI32(result->grammar_size * 2), &size, buffer, SI32(length), &err);
-	if (size >= SI32(result->grammar_size * 2 - 1)) {
+	u_strFromUTF8(&data[4], SI32(result->grammar_size * 2 + 4), &size, buffer, SI32(length), &err);
+	if (size >= SI32(result->grammar_size * 2 + 3)) {
 		u_fprintf(ux_stderr, "%s: Error: Converting from underlying codepage to UTF-16 exceeded factor 2 buffer.\n", filebase);
 		CG3Quit(1);
 	}
diff --git a/src/TextualParser.hpp b/src/TextualParser.hpp
index 4a2536d..1a88d7d 100644
--- a/src/TextualParser.hpp
+++ b/src/TextualParser.hpp
@@ -77,6 +77,8 @@ private:
 	const char* filename = nullptr;
 	UChar* cur_grammar = nullptr;
 	uint32_t cur_grammar_n = 0;
+	UChar* wform_b = nullptr;
+	UChar* wform_e = nullptr;
 	uint32_t num_grammars = 0;
 
 	typedef std::unordered_map<ContextualTest*, std::pair<size_t, UString>> deferred_t;
-- 
2.43.0


From 46083fd424afd612ebdccf84482aae7a983aea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 066/102] fix: interval_vector wrote through stale iterators
 when an interval was split, and its iterators lost the container on
 assignment

---
 src/interval_vector.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index ff0a00a..ab09def 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -97,6 +97,7 @@ public:
 		}
 
 		const_iterator& operator=(const const_iterator& o) {
+			elements = o.elements;
 			it = o.it;
 			t = o.t;
 			return *this;
@@ -182,10 +183,7 @@ public:
 			return false;
 		}
 		if (it == elements.begin()) {
-			if (it->ub + 1 == t) {
-				++it->ub;
-			}
-			else if (it->lb - 1 == t) {
+			if (it->lb - 1 == t) {
 				--it->lb;
 			}
 			else {
@@ -251,8 +249,9 @@ public:
 			return true;
 		}
 		if (it->lb < t && it->ub > t) {
-			elements.insert(it + 1, interval(t + 1, it->ub));
+			const interval upper(t + 1, it->ub);
 			it->ub = t - 1;
+			elements.insert(it + 1, upper);
 			--_size;
 			return true;
 		}
-- 
2.43.0


From 401a0f2db7162bf9d2f1a0e151c05f5f94097f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 067/102] fix: erasing an absent key from a hash table full of
 removed keys never returned

---
 src/flat_unordered_map.hpp | 5 +++++
 src/flat_unordered_set.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/flat_unordered_map.hpp b/src/flat_unordered_map.hpp
index f4ef313..4a51122 100644
--- a/src/flat_unordered_map.hpp
+++ b/src/flat_unordered_map.hpp
@@ -171,6 +171,11 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
+
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot].first != res_empty && elements[spot].first != t) {
diff --git a/src/flat_unordered_set.hpp b/src/flat_unordered_set.hpp
index 8f68cb9..52bc419 100644
--- a/src/flat_unordered_set.hpp
+++ b/src/flat_unordered_set.hpp
@@ -167,6 +167,11 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
+
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot] != res_empty && elements[spot] != t) {
-- 
2.43.0


From e2bed4392444e098421885e1976d8b51909b7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 068/102] fix: readings with neighbouring hashes merged when
 one had a mapping tag

---
 src/GrammarApplicator_reflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 36ebb57..5e10235 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -747,7 +747,7 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 			}
 		}
 		mapped[hplain] = std::make_pair(nm, r);
-		mlist[(UI64(hp + nm) << 32) | subs].push_back(r);
+		mlist[(UI64(hash_value(nm, hp)) << 32) | subs].push_back(r);
 	}
 
 	if (mlist.size() == readings.size()) {
-- 
2.43.0


From 367b96ce7d414a21c621a18a2fc859e82f23f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 069/102] fix: SWITCHPARENT and REMPARENT left the child with
 its old parent, so that child tests could go in circles; SWITCHPARENT without
 WITHCHILD moved siblings too

---
 src/GrammarApplicator_runRules.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 357e47e..df1e047 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -985,6 +985,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 		};
 
+		auto detach_parent = [&](Cohort* child) {
+			// The parent must also forget the child, or looking for children may go in circles
+			auto it = current.parent->cohort_map.find(child->dep_parent);
+			if (it != current.parent->cohort_map.end()) {
+				it->second->remChild(child->global_number);
+			}
+			child->dep_parent = DEP_NO_PARENT;
+		};
+
 		auto add_cohort = [&](Cohort* cohort, size_t& spacesInAddedWf, CohortSet* withs = nullptr) {
 			Cohort* cCohort = alloc_cohort(&current);
 			cCohort->global_number = gWindow->cohort_counter++;
@@ -2721,7 +2730,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// this is a per-cohort rule
 				finish_reading_loop = false;
 				TRACE;
-				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
+				detach_parent(get_apply_to().cohort);
+				index_ruleCohort_no.clear();
+				readings_changed = true;
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2743,16 +2754,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-					if (iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
+					if (rule->childset1 && iter != child && iter->dep_parent == parent->global_number && doesSetMatchCohortNormal(*iter, rule->childset1)) {
 						siblings.insert(iter);
 					}
 				}
 
 				// clear dependencies
-				child->dep_parent = DEP_NO_PARENT;
-				parent->dep_parent = DEP_NO_PARENT;
+				detach_parent(child);
+				detach_parent(parent);
 				for (auto s : siblings) {
-					s->dep_parent = DEP_NO_PARENT;
+					detach_parent(s);
 				}
 
 				// reattach
@@ -2764,6 +2775,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (auto s : siblings) {
 					attachParentChild(*child, *s);
 				}
+				index_ruleCohort_no.clear();
+				readings_changed = true;
 			}
 			else if (rule->type == K_MOVE_AFTER || rule->type == K_MOVE_BEFORE || rule->type == K_SWITCH) {
 				// this is a per-cohort rule
-- 
2.43.0


From 1315bcad9a7fbd681dff5fdca75bc2f77ef8bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 070/102] fix: SETCHILD could put the root of any window but
 the first below one of its own cohorts

---
 src/GrammarApplicator_reflow.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 5e10235..2b32926 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -91,6 +91,10 @@ bool GrammarApplicator::wouldParentChildLoop(const Cohort* parent, const Cohort*
 	if (parent->global_number == child->global_number) {
 		retval = true;
 	}
+	else if (child == child->parent->cohorts.front()) {
+		// Every cohort of a window is below its root, whichever number that root got
+		retval = true;
+	}
 	else if (parent->global_number == child->dep_parent) {
 		retval = false;
 	}
-- 
2.43.0


From ce13c17dfee6bb7e15a959805feab06d0364c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 071/102] fix: a character cut short or not UTF-8 ended the
 tools with an uncaught exception

---
 src/cg-comp.cpp     | 7 ++++++-
 src/cg-conv.cpp     | 7 ++++++-
 src/cg-mwesplit.cpp | 7 ++++++-
 src/cg-proc.cpp     | 7 ++++++-
 src/cg-relabel.cpp  | 7 ++++++-
 src/main.cpp        | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/cg-comp.cpp b/src/cg-comp.cpp
index 260c3c2..4042737 100644
--- a/src/cg-comp.cpp
+++ b/src/cg-comp.cpp
@@ -44,7 +44,8 @@ void endProgram(char* name) {
 	exit(EXIT_FAILURE);
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[])
+try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	if (argc != 3) {
@@ -119,3 +120,7 @@ int main(int argc, char* argv[]) {
 
 	return status;
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	return 1;
+}
diff --git a/src/cg-conv.cpp b/src/cg-conv.cpp
index 7c9f593..2a21114 100644
--- a/src/cg-conv.cpp
+++ b/src/cg-conv.cpp
@@ -29,7 +29,8 @@ using namespace Options;
 using namespace OptionsConv;
 using namespace CG3;
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[])
+try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	/* Initialize ICU */
@@ -248,3 +249,7 @@ int main(int argc, char* argv[]) {
 
 	u_cleanup();
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	return 1;
+}
diff --git a/src/cg-mwesplit.cpp b/src/cg-mwesplit.cpp
index 4ac8dc3..62d0dd8 100644
--- a/src/cg-mwesplit.cpp
+++ b/src/cg-mwesplit.cpp
@@ -44,7 +44,8 @@ UOption options_mwe[] = {
 }
 using namespace OptionsMWE;
 
-int main(int argc, char** argv) {
+int main(int argc, char** argv)
+try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	/* Initialize ICU */
@@ -101,3 +102,7 @@ int main(int argc, char** argv) {
 
 	u_cleanup();
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	return 1;
+}
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index 1f7e992..63cca48 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -84,7 +84,8 @@ void endProgram(char* name) {
 	exit(EXIT_FAILURE);
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[])
+try {
 	bool trace = false;
 	bool wordform_case = false;
 	bool print_word_forms = true;
@@ -362,3 +363,7 @@ int main(int argc, char* argv[]) {
 
 	u_cleanup();
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	return 1;
+}
diff --git a/src/cg-relabel.cpp b/src/cg-relabel.cpp
index 139677a..6b7b3a9 100644
--- a/src/cg-relabel.cpp
+++ b/src/cg-relabel.cpp
@@ -84,7 +84,8 @@ Grammar* cg3_grammar_load(const char* filename, std::ostream& ux_stdout, std::os
 	return grammar;
 }
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[])
+try {
 	UErrorCode status = U_ZERO_ERROR;
 
 	if (argc != 4) {
@@ -121,3 +122,7 @@ int main(int argc, char* argv[]) {
 
 	return status;
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	return 1;
+}
diff --git a/src/main.cpp b/src/main.cpp
index 669ef61..4364364 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -30,7 +30,8 @@
 using namespace Options;
 using namespace CG3;
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[])
+try {
 	clock_t main_timer = clock();
 
 	UErrorCode status = U_ZERO_ERROR;
@@ -467,3 +468,7 @@ int main(int argc, char* argv[]) {
 
 	return status;
 }
+catch (const std::exception& e) {
+	std::cerr << "Error: " << e.what() << std::endl;
+	return 1;
+}
-- 
2.43.0


From 341f3513efdeb360659350aa3833b84eac5cdbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 072/102] fix: Apertium lemmas of the form <x> were looped over
 for ever; lone & as tag

---
 src/ApertiumApplicator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index a8a7664..aa4ecb5 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -612,7 +612,8 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 	while (!taglist.empty()) {
 		Reading* reading = cReading;
 		reverse_foreach (riter, taglist) {
-			if ((*riter)->type & T_BASEFORM) {
+			// A lemma such as <a> looks like a word form when quoted
+			if ((*riter)->type & (T_BASEFORM | T_WORDFORM)) {
 				// If current reading already has a baseform, instead create a sub-reading as target
 				if (reading->baseform) {
 					Reading* nr = reading->allocateReading(reading->parent);
@@ -634,8 +635,11 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 				if (!mappings.empty()) {
 					splitMappings(mappings, *reading->parent, *reading, true);
 				}
+				if (!reading->baseform) {
+					reading->baseform = (*riter)->hash;
+				}
 				// Remove tags from list
-				while (!taglist.empty() && !(taglist.back()->type & T_BASEFORM)) {
+				while (!taglist.empty() && !(taglist.back()->type & (T_BASEFORM | T_WORDFORM))) {
 					taglist.pop_back();
 				}
 				taglist.pop_back();
@@ -763,7 +767,7 @@ void ApertiumApplicator::printReading(const Reading* reading, std::ostream& outp
 			if (tag->tag[0] == '+') {
 				u_fprintf(output, "%S", tag->tag.data());
 			}
-			else if (tag->tag[0] == '&') {
+			else if (tag->tag[0] == '&' && tag->tag.size() > 1) {
 				u_fprintf(output, "%S<%S%S>", escape.data(), substr(tag->tag, 2).data(), escape.data());
 			}
 			else {
-- 
2.43.0


From 42d36750249b724d8bae28c14194496631d5d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 073/102] fix: lines of tabs, empty lines, Niceline readings
 without tags and short streams were read outside of their buffers

---
 src/FSTApplicator.cpp                |  2 +-
 src/GrammarApplicator_runGrammar.cpp |  2 +-
 src/NicelineApplicator.cpp           | 11 +++++++----
 src/PlaintextApplicator.cpp          |  2 +-
 src/streambuf.hpp                    |  1 -
 src/uextras.cpp                      | 16 ++++++++++------
 6 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..6ec1e31 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -90,7 +90,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 		auto packoff = get_line_clean(line, cleaned, input, true);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
diff --git a/src/GrammarApplicator_runGrammar.cpp b/src/GrammarApplicator_runGrammar.cpp
index aa3d97f..8f7ab04 100644
--- a/src/GrammarApplicator_runGrammar.cpp
+++ b/src/GrammarApplicator_runGrammar.cpp
@@ -168,7 +168,7 @@ void GrammarApplicator::runGrammarOnText(std::istream& input, std::ostream& outp
 		auto packoff = get_line_clean(line, cleaned, input);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
diff --git a/src/NicelineApplicator.cpp b/src/NicelineApplicator.cpp
index 9536c5a..f2cb9de 100644
--- a/src/NicelineApplicator.cpp
+++ b/src/NicelineApplicator.cpp
@@ -88,13 +88,15 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 		auto packoff = get_line_clean(line, cleaned, input, true);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
 		if (!ignoreinput && cleaned[0] && cleaned[0] != '<') {
 			UChar* space = &cleaned[0];
-			SKIPTO_NOSPAN(space, '\t');
+			if (space[0] != '\t') {
+				SKIPTO_NOSPAN(space, '\t');
+			}
 
 			if (space[0] && space[0] != '\t') {
 				u_fprintf(ux_stderr, "Warning: %S on line %u looked like a cohort but wasn't - treated as text.\n", &cleaned[0], numLines);
@@ -237,8 +239,9 @@ void NicelineApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 					}
 				}
 				if (base && base[0]) {
-					if (base[0] == '[' && space[-1] == ']') {
-						base[0] = space[-1] = '"';
+					UChar* last = base + u_strlen(base) - 1;
+					if (base[0] == '[' && last[0] == ']') {
+						base[0] = last[0] = '"';
 					}
 					Tag* tag = addTag(base);
 					if (tag->type & T_MAPPING || tag->tag[0] == grammar->mapping_prefix) {
diff --git a/src/PlaintextApplicator.cpp b/src/PlaintextApplicator.cpp
index 0c9d37f..dea2b1f 100644
--- a/src/PlaintextApplicator.cpp
+++ b/src/PlaintextApplicator.cpp
@@ -89,7 +89,7 @@ void PlaintextApplicator::runGrammarOnText(std::istream& input, std::ostream& ou
 		auto packoff = get_line_clean(line, cleaned, input);
 
 		// Trim trailing whitespace
-		while (cleaned[0] && ISSPACE(cleaned[packoff - 1])) {
+		while (packoff && ISSPACE(cleaned[packoff - 1])) {
 			cleaned[packoff - 1] = 0;
 			--packoff;
 		}
diff --git a/src/streambuf.hpp b/src/streambuf.hpp
index 784c29c..0bfa853 100644
--- a/src/streambuf.hpp
+++ b/src/streambuf.hpp
@@ -106,7 +106,6 @@ public:
 			stream->read(s + i, count - i);
 			i += stream->gcount();
 		}
-		s[i] = 0;
 		setg(&ch, &ch + 1, &ch + 1);
 		return i;
 	}
diff --git a/src/uextras.cpp b/src/uextras.cpp
index 68e33cb..f40172c 100644
--- a/src/uextras.cpp
+++ b/src/uextras.cpp
@@ -92,7 +92,7 @@ size_t get_line_clean(UString& line, UString& cleaned, std::istream& input, bool
 			cleaned[packoff++] = line[offset];
 		}
 		// Either buffer wasn't big enough, or someone fed us malformed data thinking U+0085 is ellipsis when it in fact is Next Line (NEL)
-		if (packoff > line.size() / 2) {
+		if (packoff > line.size() / 2 || offset + 1 >= line.size()) {
 			// If we reached this, buffer wasn't big enough. Double the size of the buffer and try again.
 			line.resize(line.size() * 2, 0);
 			cleaned.resize(line.size() + 1, 0);
@@ -203,11 +203,12 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 
 	input.read(&buf8[0], BUF_SIZE - 4);
 	auto sz = static_cast<size_t>(input.gcount());
-	if (buf8[sz - 1] & 0x80) {
-		for (size_t i = sz - 1; ; --i) {
+	if (sz && (buf8[sz - 1] & 0x80)) {
+		// No character is longer than 4 bytes
+		for (size_t i = sz - 1, e = (sz > 4 ? sz - 4 : 0); ; --i) {
 			if ((buf8[i] & 0xF0) == 0xF0) {
 				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 3 - i)) {
+				if (i > 3 || !input.read(&buf8[sz], 3 - i)) {
 					throw std::runtime_error("Could not read expected bytes from stream");
 				}
 				sz += 3 - i;
@@ -215,7 +216,7 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 			}
 			else if ((buf8[i] & 0xE0) == 0xE0) {
 				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 2 - i)) {
+				if (i > 2 || !input.read(&buf8[sz], 2 - i)) {
 					throw std::runtime_error("Could not read expected bytes from stream");
 				}
 				sz += 2 - i;
@@ -223,12 +224,15 @@ std::string read_utf8(std::istream& input, size_t BUF_SIZE) {
 			}
 			else if ((buf8[i] & 0xC0) == 0xC0) {
 				i = sz - 1 - i;
-				if (!input.read(&buf8[sz], 1 - i)) {
+				if (i > 1 || !input.read(&buf8[sz], 1 - i)) {
 					throw std::runtime_error("Could not read expected bytes from stream");
 				}
 				sz += 1 - i;
 				break;
 			}
+			if (i == e) {
+				throw std::runtime_error("Stream is not UTF-8");
+			}
 		}
 	}
 	buf8.resize(sz);
-- 
2.43.0


From 9f926cb8a5616b22ed56da3f380a3e01d6269597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 074/102] fix: sizes and tag numbers in binary streams were
 trusted, and readings without base form could not be written

---
 src/BinaryApplicator.cpp | 58 +++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/BinaryApplicator.cpp b/src/BinaryApplicator.cpp
index db4d727..61d814f 100644
--- a/src/BinaryApplicator.cpp
+++ b/src/BinaryApplicator.cpp
@@ -161,11 +161,24 @@ void BinaryApplicator::readWindow(void*& payload) {
 	SingleWindow* cSWindow = gWindow->allocAppendSingleWindow();
 	initEmptySingleWindow(cSWindow);
 
-	std::string buf(cs, 0);
-	ux_stdin->read(&buf[0], cs);
+	// Read it in pieces, so that a broken size can't ask for more memory than there is input
+	std::string buf;
+	while (buf.size() < cs && ux_stdin->good()) {
+		auto off = buf.size();
+		buf.resize(std::min<size_t>(cs, off + 65536), 0);
+		ux_stdin->read(&buf[off], buf.size() - off);
+		buf.resize(off + static_cast<size_t>(ux_stdin->gcount()));
+	}
 	uint32_t pos = 0;
 
+	auto NEED = [&](size_t n) {
+		if (n > buf.size() - pos) {
+			throw std::runtime_error("Window in binary stream ended too early");
+		}
+	};
+
 	auto READ_U16_INTO = [&](uint16_t& dest) {
+		NEED(sizeof(dest));
 		dest = *reinterpret_cast<uint16_t*>(&buf[pos]);
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
@@ -178,6 +191,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 	};
 
 	auto READ_U32_INTO = [&](uint32_t& dest) {
+		NEED(sizeof(dest));
 		dest = *reinterpret_cast<uint32_t*>(&buf[pos]);
 		be::little_to_native_inplace(dest);
 		pos += sizeof(dest);
@@ -191,11 +205,15 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 	auto READ_STR_INTO = [&](UString& dest) {
 		auto tl = READ_U16();
+		NEED(tl);
 		dest.clear();
 		dest.resize(tl);
 		int32_t olen = 0;
 		UErrorCode status = U_ZERO_ERROR;
 		u_strFromUTF8(&(dest)[0], tl, &olen, &buf[pos], tl, &status);
+		if (U_FAILURE(status)) {
+			throw std::runtime_error("Binary stream had text that was not UTF-8");
+		}
 		dest.resize(olen);
 		pos += tl;
 	};
@@ -223,13 +241,14 @@ void BinaryApplicator::readWindow(void*& payload) {
 
 	auto var_count = READ_U16();
 	for (uint16_t vn = 0; vn < var_count; ++vn) {
+		NEED(1);
 		char mode = buf[pos];
 		++pos;
 		auto tag1 = READ_U16();
 		auto tag2 = READ_U16();
-		auto hash1 = window_tags[tag1]->hash;
+		auto hash1 = window_tags.at(tag1)->hash;
 		if (mode == BFV_SETVAR) {
-			cSWindow->variables_set[hash1] = window_tags[tag2]->hash;
+			cSWindow->variables_set[hash1] = window_tags.at(tag2)->hash;
 			cSWindow->variables_rem.erase(hash1);
 			cSWindow->variables_output.insert(hash1);
 		}
@@ -262,7 +281,10 @@ void BinaryApplicator::readWindow(void*& payload) {
 		}
 
 		READ_U16_INTO(tag);
-		cCohort->wordform = window_tags[tag];
+		cCohort->wordform = window_tags.at(tag);
+		if (!(cCohort->wordform->type & T_WORDFORM)) {
+			throw std::runtime_error("Binary stream had a cohort without word form");
+		}
 
 		READ_U16_INTO(tag_count);
 		if (tag_count) {
@@ -270,7 +292,7 @@ void BinaryApplicator::readWindow(void*& payload) {
 			addTagToReading(*cCohort->wread, cCohort->wordform);
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				addTagToReading(*cCohort->wread, window_tags[tag], (tn + 1 == tag_count));
+				addTagToReading(*cCohort->wread, window_tags.at(tag), (tn + 1 == tag_count));
 			}
 		}
 
@@ -287,10 +309,10 @@ void BinaryApplicator::readWindow(void*& payload) {
 			READ_U16_INTO(tag);
 			auto head = READ_U32();
 			if (head == 0) {
-				cCohort->relations[window_tags[tag]->hash].insert(cSWindow->cohorts.front()->global_number);
+				cCohort->relations[window_tags.at(tag)->hash].insert(cSWindow->cohorts.front()->global_number);
 				continue;
 			}
-			cCohort->relations_input[window_tags[tag]->hash].insert(head);
+			cCohort->relations_input[window_tags.at(tag)->hash].insert(head);
 		}
 		if (rel_count) {
 			has_relations = true;
@@ -302,9 +324,6 @@ void BinaryApplicator::readWindow(void*& payload) {
 		READ_STR_INTO(cCohort->wblank);
 
 		auto reading_count = READ_U16();
-		if (!reading_count) {
-			initEmptyCohort(*cCohort);
-		}
 		Reading* prev = nullptr;
 		for (uint16_t rn = 0; rn < reading_count; ++rn) {
 			Reading* cReading = alloc_reading(cCohort);
@@ -313,17 +332,17 @@ void BinaryApplicator::readWindow(void*& payload) {
 			READ_U16_INTO(flags);
 
 			READ_U16_INTO(tag);
-			addTagToReading(*cReading, window_tags[tag]);
+			addTagToReading(*cReading, window_tags.at(tag));
 
 			READ_U16_INTO(tag_count);
 			TagList mappings;
 			for (uint16_t tn = 0; tn < tag_count; ++tn) {
 				READ_U16_INTO(tag);
-				if (window_tags[tag]->type & T_MAPPING) {
-					mappings.push_back(window_tags[tag]);
+				if (window_tags.at(tag)->type & T_MAPPING) {
+					mappings.push_back(window_tags.at(tag));
 				}
 				else {
-					addTagToReading(*cReading, window_tags[tag]);
+					addTagToReading(*cReading, window_tags.at(tag));
 				}
 			}
 			if (!mappings.empty()) {
@@ -342,6 +361,9 @@ void BinaryApplicator::readWindow(void*& payload) {
 			prev = cReading;
 			++numReadings;
 		}
+		if (cCohort->readings.empty()) {
+			initEmptyCohort(*cCohort);
+		}
 
 		if (cn + 1 == cohort_count) {
 			for (auto iter : cCohort->readings) {
@@ -411,6 +433,9 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 		int32_t olen = 0;
 		UErrorCode status = U_ZERO_ERROR;
 		u_strToUTF8(&tmp[0], SI32(s.size() * 4 - 1), &olen, s.data(), SI32(s.size()), &status);
+		if (olen > std::numeric_limits<uint16_t>::max()) {
+			throw std::runtime_error("Text is too long for the binary stream format");
+		}
 		tmp.resize(olen);
 		WRITE_U16_INTO(UI16(olen), buffer);
 		buffer += tmp;
@@ -550,7 +575,8 @@ void BinaryApplicator::printSingleWindow(SingleWindow* window, std::ostream& out
 					flags |= BFR_SUBREADING;
 				}
 				WRITE_U16_INTO(flags, reading_buffer);
-				WRITE_TAG_INTO(grammar->single_tags[reading->baseform], reading_buffer);
+				// A reading in CG format may have a word form for base form, in which case it has no base form
+				WRITE_TAG_INTO(reading->baseform ? grammar->single_tags[reading->baseform] : cohort->wordform, reading_buffer);
 				std::string tag_buffer;
 				uint16_t tag_count = 0;
 				uint32SortedVector unique;
-- 
2.43.0


From 05144a749796aa1765a041a10df678ed857e8f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 075/102] fix: grammar tokens were copied whatever their
 length, comments at the end of the text were read past, and "r and //r
 crashed

---
 src/TextualParser.cpp  | 86 ++++++++++++++++++------------------------
 src/TextualParser.hpp  |  1 +
 src/inlines.hpp        | 37 +++++++++++++-----
 src/parser_helpers.hpp |  7 +++-
 4 files changed, 70 insertions(+), 61 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index cb099d5..9929228 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -220,6 +220,15 @@ Tag* TextualParser::addTag(Tag* tag) {
 	return result->addTag(tag);
 }
 
+// Copies a token of the grammar to gbuffers[0], which has a fixed size
+void TextualParser::copyToken(const UChar* p, int32_t c) {
+	if (c < 0 || c >= SI32(CG3_BUFFER_SIZE)) {
+		error("%s: Error: Expected a shorter name or tag on line %u near `%S`!\n", p);
+	}
+	u_strncpy(&gbuffers[0][0], p, c);
+	gbuffers[0][c] = 0;
+}
+
 void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 	AST_OPEN(TagList);
 	TagVectorSet taglists;
@@ -240,8 +249,7 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tags.push_back(t);
 					p = n;
@@ -251,6 +259,9 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 				if (*p != ')') {
 					error("%s: Error: Expected closing ) on line %u near `%S`!\n", p);
 				}
+				if (tags.empty()) {
+					error("%s: Error: Expected a tag before the closing ) on line %u near `%S`!\n", p);
+				}
 				++p;
 				AST_CLOSE(p);
 			}
@@ -260,8 +271,7 @@ void TextualParser::parseTagList(UChar*& p, Set* s, bool ordered) {
 				MAYBE_QUOTED(n, p);
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				Tag* t = parseTag(&gbuffers[0][0], p);
 				tags.push_back(t);
 				p = n;
@@ -348,8 +358,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 						MAYBE_QUOTED(n, p);
 						result->lines += SKIPTOWS(n, ')', true);
 						auto c = SI32(n - p);
-						u_strncpy(&gbuffers[0][0], p, c);
-						gbuffers[0][c] = 0;
+						copyToken(p, c);
 						Tag* t = parseTag(&gbuffers[0][0], p);
 						tags.push_back(t);
 						p = n;
@@ -395,8 +404,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 						--n;
 					}
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Set* tmp = parseSet(&gbuffers[0][0], p);
 					uint32_t sh = tmp->hash;
 					sets.push_back(sh);
@@ -477,8 +485,7 @@ Set* TextualParser::parseSetInline(UChar*& p, Set* s) {
 					result->lines += SKIPTOWS(n, 0, true);
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				//dieIfKeyword(&gbuffers[0][0]);
 				int sop = ux_isSetOp(&gbuffers[0][0]);
 				if (sop != S_IGNORE) {
@@ -678,8 +685,7 @@ void TextualParser::parseContextualTestPosition(UChar*& p, ContextualTest& t) {
 			auto n = p;
 			SKIPTOWS(n, '(');
 			auto c = SI32(n - p);
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			copyToken(p, c);
 			Tag* tag = parseTag(&gbuffers[0][0], p);
 			t.relation = tag->hash;
 			p = n;
@@ -883,8 +889,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 	auto n = p;
 	result->lines += SKIPTOWS(n, '(');
 	auto c = SI32(n - p);
-	u_strncpy(&gbuffers[0][0], p, c);
-	gbuffers[0][c] = 0;
+	copyToken(p, c);
 	if (ux_isEmpty(&gbuffers[0][0])) {
 		AST_OPEN(TemplateInline);
 		if (no_itmpls) {
@@ -969,8 +974,7 @@ ContextualTest* TextualParser::parseContextualTestList(UChar*& p, Rule* rule, bo
 			n = p;
 			result->lines += SKIPTOWS(n, ')');
 			auto c = SI32(n - p);
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			copyToken(p, c);
 			uint32_t cn = hash_value(&gbuffers[0][0]);
 			t->tmpl = reinterpret_cast<ContextualTest*>(cn);
 			tmpl_data = std::make_pair(result->lines, &gbuffers[0][0]);
@@ -1102,8 +1106,7 @@ flags_t TextualParser::parseRuleFlags(UChar*& p) {
 					auto n = p;
 					result->lines += SKIPTOWS(n, 0, true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					p = n;
 					if (gbuffers[0][0] == '*') {
 						rv.sub_reading = GSR_ANY;
@@ -1196,8 +1199,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		MAYBE_QUOTED(n, lp);
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - lp);
-		u_strncpy(&gbuffers[0][0], lp, c);
-		gbuffers[0][c] = 0;
+		copyToken(lp, c);
 		Tag* wform = parseTag(&gbuffers[0][0], lp);
 		rule->wordform = wform;
 		AST_CLOSE_ID(n, wform->hash);
@@ -1214,8 +1216,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 		auto n = p;
 		result->lines += SKIPTOWS(n, '(');
 		auto c = SI32(n - p);
-		u_strncpy(&gbuffers[0][0], p, c);
-		gbuffers[0][c] = 0;
+		copyToken(p, c);
 		if (!gbuffers[0][0]) {
 			ux_bufcpy(nearbuf, p, 20);
 			u_fprintf(ux_stderr, "%s: Warning: Rule on line %u near `%S` had : but no name.\n", filebase, result->lines, nearbuf);
@@ -1262,8 +1263,7 @@ void TextualParser::parseRule(UChar*& p, KEYWORDS key) {
 			gbuffers[0][c - 2] = 0;
 		}
 		else {
-			u_strncpy(&gbuffers[0][0], p, c);
-			gbuffers[0][c] = 0;
+			copyToken(p, c);
 		}
 
 		Tag* ext = result->allocateTag(&gbuffers[0][0]);
@@ -1831,8 +1831,7 @@ void TextualParser::parseAnchorish(UChar*& p, bool rule_flags) {
 		auto n = p;
 		result->lines += SKIPTOWS(n, 0, true);
 		auto c = SI32(n - p);
-		u_strncpy(&gbuffers[0][0], p, c);
-		gbuffers[0][c] = 0;
+		copyToken(p, c);
 		if (!only_sets) {
 			result->addAnchor(&gbuffers[0][0], UI32(result->rule_by_number.size()), true);
 		}
@@ -1991,8 +1990,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, ';');
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				p = n;
 				AST_CLOSE(p);
 
@@ -2024,8 +2022,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					result->preferred_targets.push_back(t->hash);
 					p = n;
@@ -2059,8 +2056,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					result->reopen_mappings.insert(t->hash);
 					p = n;
@@ -2207,8 +2203,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tmp.insert(t->hash);
 					p = n;
@@ -2246,8 +2241,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					--n;
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				s->setName(&gbuffers[0][0]);
 				p = n;
 				AST_CLOSE(p);
@@ -2308,8 +2302,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					--n;
 				}
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				s->setName(&gbuffers[0][0]);
 				uint32_t sh = hash_value(&gbuffers[0][0]);
 				p = n;
@@ -2511,7 +2504,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					result->sub_readings_ltr = false;
 				}
 				else {
-					error("%s: Error: Expected RTL or LTR on line %u near `%S`!\n", *p, p);
+					error("%s: Error: Expected RTL or LTR on line %u near `%S`!\n", p);
 				}
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
@@ -2596,8 +2589,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ';', true);
 					auto c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					Tag* t = parseTag(&gbuffers[0][0], p);
 					tmp.insert(t->hash);
 					p = n;
@@ -2643,8 +2635,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				p = n;
 				AST_CLOSE(p);
 				result->lines += SKIPWS(p, ';');
@@ -2741,8 +2732,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				auto n = p;
 				result->lines += SKIPTOWS(n, 0, true);
 				auto c = SI32(n - p);
-				u_strncpy(&gbuffers[0][0], p, c);
-				gbuffers[0][c] = 0;
+				copyToken(p, c);
 				UString name(&gbuffers[0][0]);
 				p = n;
 				AST_CLOSE(p);
@@ -2793,8 +2783,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					left = parseTag(&gbuffers[0][0], p);
 					result->lines += SKIPWS(n);
 					p = n;
@@ -2808,8 +2797,7 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 					MAYBE_QUOTED(n, p);
 					result->lines += SKIPTOWS(n, ')', true);
 					c = SI32(n - p);
-					u_strncpy(&gbuffers[0][0], p, c);
-					gbuffers[0][c] = 0;
+					copyToken(p, c);
 					right = parseTag(&gbuffers[0][0], p);
 					result->lines += SKIPWS(n);
 					p = n;
diff --git a/src/TextualParser.hpp b/src/TextualParser.hpp
index 1a88d7d..1d9a7d3 100644
--- a/src/TextualParser.hpp
+++ b/src/TextualParser.hpp
@@ -89,6 +89,7 @@ private:
 	void parseFromUChar(UChar* input, const char* fname = nullptr);
 	void addRuleToGrammar(Rule* rule);
 
+	void copyToken(const UChar* p, int32_t c);
 	Tag* parseTag(const UChar* to, const UChar* p = nullptr);
 	Tag* parseTag(const UString& to, const UChar* p = nullptr) {
 		return parseTag(to.data(), p);
diff --git a/src/inlines.hpp b/src/inlines.hpp
index a693e90..31800ee 100644
--- a/src/inlines.hpp
+++ b/src/inlines.hpp
@@ -356,7 +356,9 @@ inline uint32_t SKIPLN(Char*& p) {
 	while (*p && !ISNL(*p)) {
 		++p;
 	}
-	++p;
+	if (*p) {
+		++p;
+	}
 	return 1;
 }
 
@@ -368,8 +370,10 @@ inline uint32_t SKIPWS(Char*& p, const UChar a = 0, const UChar b = 0, const boo
 			++s;
 		}
 		if (!allowhash && *p == '#' && !ISESC(p)) {
-			s += SKIPLN(p);
-			p--;
+			++s;
+			while (*p && !ISNL(*p)) {
+				++p;
+			}
 		}
 		if (!ISSPACE(*p)) {
 			break;
@@ -384,13 +388,18 @@ inline uint32_t SKIPTOWS(Char*& p, const UChar a = 0, const bool allowhash = fal
 	uint32_t s = 0;
 	while (*p && !ISSPACE(p)) {
 		if (!allowhash && *p == '#' && !ISESC(p)) {
-			s += SKIPLN(p);
-			--p;
+			++s;
+			while (*p && !ISNL(*p)) {
+				++p;
+			}
 		}
 		if (ISNL(*p)) {
 			++s;
 			++p;
 		}
+		if (!*p) {
+			break;
+		}
 		if (!allowscol && *p == ';' && !ISESC(p)) {
 			break;
 		}
@@ -553,10 +562,10 @@ inline void writeUTF8_Raw(std::ostream& output, const UChar* str, size_t len = 0
 		len = u_strlen(str);
 	}
 
-	std::vector<char> buffer(len * 4);
+	std::vector<char> buffer(len * 4 + 1);
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strToUTF8(&buffer[0], SI32(len * 4 - 1), &olen, str, SI32(len), &status);
+	u_strToUTF8(&buffer[0], SI32(len * 4), &olen, str, SI32(len), &status);
 
 	auto cs = UI16(olen);
 	writeRaw(output, cs);
@@ -572,10 +581,10 @@ inline void writeUTF8_LE(std::ostream& output, const UChar* str, size_t len = 0)
 		len = u_strlen(str);
 	}
 
-	std::vector<char> buffer(len * 4);
+	std::vector<char> buffer(len * 4 + 1);
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
-	u_strToUTF8(&buffer[0], SI32(len * 4 - 1), &olen, str, SI32(len), &status);
+	u_strToUTF8(&buffer[0], SI32(len * 4), &olen, str, SI32(len), &status);
 
 	auto cs = UI16(olen);
 	writeLE(output, cs);
@@ -614,13 +623,21 @@ inline void readUTF8_LE(S& input, Str& rv) {
 	readLE(input, len);
 
 	rv.clear();
+	if (len == 0) {
+		return;
+	}
 	rv.resize(len);
 	std::vector<char> buffer(len);
-	input.read(&buffer[0], len);
+	if (!input.read(&buffer[0], len)) {
+		throw std::runtime_error("Text in binary stream ended too early");
+	}
 
 	int32_t olen = 0;
 	UErrorCode status = U_ZERO_ERROR;
 	u_strFromUTF8(&rv[0], len, &olen, &buffer[0], len, &status);
+	if (U_FAILURE(status)) {
+		throw std::runtime_error("Binary stream had text that was not UTF-8");
+	}
 
 	rv.resize(olen);
 }
diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 4667978..23fdd46 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -213,7 +213,7 @@ Tag* parseTag(const UChar* to, const UChar* p, State& state, bool unescape=true)
 				break;
 			}
 
-			if (tmp[0] == '"' && tmp[length - 1] == '"') {
+			if (length > 1 && tmp[0] == '"' && tmp[length - 1] == '"') {
 				if (tmp[1] == '<' && tmp[length - 2] == '>') {
 					tag->type |= T_WORDFORM;
 				}
@@ -222,7 +222,7 @@ Tag* parseTag(const UChar* to, const UChar* p, State& state, bool unescape=true)
 				}
 			}
 
-			if ((tmp[0] == '"' && tmp[length - 1] == '"') || (tmp[0] == '<' && tmp[length - 1] == '>') || (tmp[0] == '/' && tmp[length - 1] == '/')) {
+			if (length > 1 && ((tmp[0] == '"' && tmp[length - 1] == '"') || (tmp[0] == '<' && tmp[length - 1] == '>') || (tmp[0] == '/' && tmp[length - 1] == '/'))) {
 				tag->type |= T_TEXTUAL;
 			}
 			else {
@@ -408,6 +408,9 @@ Tag* parseTag(const UChar* to, const UChar* p, State& state, bool unescape=true)
 			if (tag->tag[0] == '/' && tag->tag[length - 1] == '/') {
 				tag->tag.resize(tag->tag.size() - 1);
 				tag->tag.erase(tag->tag.begin());
+				if (tag->tag.empty()) {
+					state.error("%s: Error: Parsing tag %S resulted in an empty tag on line %u near `%S` - cannot continue!\n", to, p);
+				}
 			}
 		}
 
-- 
2.43.0


From 29c7a7042f1a75a3ac1371c7913ec883a0b6e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 076/102] fix: SETVAR without a name crashed cg-conv and
 cg-mwesplit, whose grammars had no * tag

---
 src/FormatConverter.cpp    | 1 +
 src/MweSplitApplicator.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/FormatConverter.cpp b/src/FormatConverter.cpp
index a38094e..ca69ead 100644
--- a/src/FormatConverter.cpp
+++ b/src/FormatConverter.cpp
@@ -112,6 +112,7 @@ FormatConverter::FormatConverter(std::ostream& ux_err)
 	conv_grammar.allocateDummySet();
 	conv_grammar.delimiters = conv_grammar.allocateSet();
 	conv_grammar.addTagToSet(conv_grammar.allocateTag(STR_DUMMY), conv_grammar.delimiters);
+	conv_grammar.tag_any = conv_grammar.allocateTag(STR_ASTERIK)->hash;
 	conv_grammar.reindex();
 
 	setGrammar(&conv_grammar);
diff --git a/src/MweSplitApplicator.cpp b/src/MweSplitApplicator.cpp
index 585fe56..ff4b52a 100644
--- a/src/MweSplitApplicator.cpp
+++ b/src/MweSplitApplicator.cpp
@@ -29,6 +29,7 @@ MweSplitApplicator::MweSplitApplicator(std::ostream& ux_err)
 	grammar->allocateDummySet();
 	grammar->delimiters = grammar->allocateSet();
 	grammar->addTagToSet(grammar->allocateTag(STR_DUMMY), grammar->delimiters);
+	grammar->tag_any = grammar->allocateTag(STR_ASTERIK)->hash;
 	grammar->reindex();
 	setGrammar(grammar);
 	owns_grammar = true;
-- 
2.43.0


From d68a25d7101e80f129f66d5b3e73e6a7d03282d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 077/102] fix: --rule compared names with a NUL-padded buffer
 and chose rules by number where lines are expected

---
 src/GrammarApplicator.cpp | 5 +++--
 src/cg-proc.cpp           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 19e2f8c..91957d3 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -994,11 +994,12 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 			auto sn = options[RULE].value.size();
 			UString buf(sn * 3, 0);
 			ucnv_reset(conv);
-			ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status);
+			buf.resize(ucnv_toUChars(conv, &buf[0], SI32(sn * 3), options[RULE].value.c_str(), SI32(sn), &status));
 
+			// index() turns lines into rules
 			for (auto rule : grammar->rule_by_number) {
 				if (rule->name == buf) {
-					valid_rules.push_back(rule->number);
+					valid_rules.push_back(rule->line);
 				}
 			}
 		}
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index 63cca48..d0f5b4f 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -339,11 +339,12 @@ try {
 	// This is if we want to run a single rule  (-r option)
 	if (!single_rule.empty()) {
 		auto sn = SI32(single_rule.size());
-		UString buf(sn * 3, 0);
+		UString buf(sn, 0);
 		u_charsToUChars(single_rule.data(), &buf[0], sn);
+		// index() turns lines into rules
 		for (auto rule : applicator->grammar->rule_by_number) {
 			if (rule->name == buf) {
-				applicator->valid_rules.push_back(rule->number);
+				applicator->valid_rules.push_back(rule->line);
 			}
 		}
 	}
-- 
2.43.0


From 778f7f2e50206aae4f42bbbc3fa4ef72cc2a79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 078/102] fix: a second CMDARGS += or CMDARGS-OVERRIDE +=
 replaced the first

---
 src/TextualParser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/TextualParser.cpp b/src/TextualParser.cpp
index 9929228..6461b32 100644
--- a/src/TextualParser.cpp
+++ b/src/TextualParser.cpp
@@ -2130,12 +2130,11 @@ void TextualParser::parseFromUChar(UChar* input, const char* fname) {
 				u_strToUTF8(&args[0], SI32(args.size()), &outz, s, SI32(p - s), &status);
 				args.resize(outz);
 
-				if (icn == 16) {
-					result->cmdargs_override = std::move(args);
-				}
-				else {
-					result->cmdargs = std::move(args);
+				auto& cmdargs = (icn == 16) ? result->cmdargs_override : result->cmdargs;
+				if (!cmdargs.empty()) {
+					cmdargs.push_back(' ');
 				}
+				cmdargs += args;
 
 				result->lines += SKIPWS(p, ';');
 				if (*p != ';') {
-- 
2.43.0


From e64fe4aba4bb2145cca12470e302eddaf11ed1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 079/102] fix: --rules or --rule choosing no existing rule ran
 all rules

---
 src/GrammarApplicator.cpp | 7 +++++++
 src/cg-proc.cpp           | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index 91957d3..f2b7470 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -210,6 +210,10 @@ void GrammarApplicator::index() {
 				vr.push_back(iter->number);
 			}
 		}
+		if (vr.empty()) {
+			// None of the chosen rules exist, which must not mean all rules
+			vr.push_back(UI32(grammar->rule_by_number.size()));
+		}
 		valid_rules = vr;
 	}
 
@@ -1002,6 +1006,9 @@ void GrammarApplicator::setOptions(UConverter* conv) {
 					valid_rules.push_back(rule->line);
 				}
 			}
+			if (valid_rules.empty()) {
+				valid_rules.push_back(0);
+			}
 		}
 	}
 	if (options[DEBUG_RULES].doesOccur) {
diff --git a/src/cg-proc.cpp b/src/cg-proc.cpp
index d0f5b4f..53985bf 100644
--- a/src/cg-proc.cpp
+++ b/src/cg-proc.cpp
@@ -347,6 +347,9 @@ try {
 				applicator->valid_rules.push_back(rule->line);
 			}
 		}
+		if (applicator->valid_rules.empty()) {
+			applicator->valid_rules.push_back(0);
+		}
 	}
 
 	try {
-- 
2.43.0


From 594cc0cc021e0daa73a81fe913bfc9a8f843d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 080/102] fix: --no-mappings and --no-corrections were not
 applied to rules inside WITH

---
 src/GrammarApplicator_runRules.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index df1e047..35c2968 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2950,6 +2950,12 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				readings_changed = false;
 				in_nested = true;
 				for (auto& sr : rule->sub_rules) {
+					if (!apply_mappings && (sr->type == K_MAP || sr->type == K_ADD || sr->type == K_REPLACE)) {
+						continue;
+					}
+					if (!apply_corrections && (sr->type == K_SUBSTITUTE || sr->type == K_APPEND)) {
+						continue;
+					}
 					Rule* cur_was = current_rule;
 					Rule* rule_was = rule;
 					current_rule = sr;
-- 
2.43.0


From 20b1ae3caaefb69910ead325f00871f93966a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 081/102] fix: REMCOHORT of a cohort with unchanged neighbours
 kept the no-match cache

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 35c2968..96be2d4 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1516,6 +1516,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				reset_cohorts_for_loop = true;
 			}
 			else if (rule->type == K_REMCOHORT) {
+				index_ruleCohort_no.clear();
 				// REMCOHORT-IGNORED
 				if (rule->flags & RF_IGNORED) {
 					CohortSet cohorts;
@@ -1539,7 +1540,6 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							iter_rules_end = intersects.end();
 						}
 					}
-					index_ruleCohort_no.clear();
 				}
 				readings_changed = true;
 				reset_cohorts_for_loop = true;
-- 
2.43.0


From f0bf74125d6650bededb379cc151814045d1da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 082/102] fix: a removed relation left an empty entry, so r:
 tests with S held for cohorts without relations

---
 src/Cohort.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Cohort.cpp b/src/Cohort.cpp
index b515dc6..10b4b91 100644
--- a/src/Cohort.cpp
+++ b/src/Cohort.cpp
@@ -246,7 +246,12 @@ bool Cohort::remRelation(uint32_t rel, uint32_t cohort) {
 		if (it_in != relations_input.end()) {
 			it_in->second.erase(cohort);
 		}
-		return (sz != rels.size());
+		bool changed = (sz != rels.size());
+		if (rels.empty()) {
+			// No links of the name is the same as never having had any
+			relations.erase(it);
+		}
+		return changed;
 	}
 	return false;
 }
-- 
2.43.0


From 442a02353ab7f009b93a4d76ad8dae68a44f1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:39 +0000
Subject: [PATCH 083/102] fix: cohorts of different windows were ordered by
 their place in the window

---
 src/SingleWindow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SingleWindow.hpp b/src/SingleWindow.hpp
index 09b7224..6d39665 100644
--- a/src/SingleWindow.hpp
+++ b/src/SingleWindow.hpp
@@ -62,7 +62,8 @@ SingleWindow* alloc_swindow(Window* p);
 void free_swindow(SingleWindow*& s);
 
 inline bool less_Cohort(const Cohort* a, const Cohort* b) {
-	if (a->local_number == b->local_number) {
+	if (a->parent != b->parent) {
+		// Everything in an earlier window is to the left, whatever its place there
 		return a->parent->number < b->parent->number;
 	}
 	return a->local_number < b->local_number;
-- 
2.43.0


From a6dbe98917a9735959ce061690478fce4b2fbade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 084/102] fix: restore the sets unified by && after a failed
 match

---
 src/GrammarApplicator_matchSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 904c2f4..a2ac09e 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -962,7 +962,7 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && (utags->size() != context_stack.back().unif_tags->size() || *utags != *context_stack.back().unif_tags)) {
 		context_stack.back().unif_tags->swap(utags);
 	}
-	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty() && usets->size() != context_stack.back().unif_sets->size()) {
+	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		context_stack.back().unif_sets->swap(usets);
 	}
 	if (!retval && !context_stack.empty()) {
-- 
2.43.0


From 6e6625d2d30a17dbc117dbffb6d51f0abf6eacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 085/102] fix: restore what ".*"r and its like were unified
 with after a failed match

---
 src/GrammarApplicator_matchSet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index a2ac09e..fce60ab 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -930,6 +930,9 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	auto utags = ss_utags.get();
 	auto usets = ss_usets.get();
 	uint8_t orz = (context_stack.empty() ? 0 : context_stack.back().regexgrp_ct);
+	auto ulast_wordform = unif_last_wordform;
+	auto ulast_baseform = unif_last_baseform;
+	auto ulast_textual = unif_last_textual;
 
 	if (context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		*utags = *context_stack.back().unif_tags;
@@ -965,6 +968,11 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
 		context_stack.back().unif_sets->swap(usets);
 	}
+	if (!retval && context && !(current_rule->flags & FL_CAPTURE_UNIF) && (theset.type & ST_CHILD_UNIFY) && !context_stack.empty()) {
+		unif_last_wordform = ulast_wordform;
+		unif_last_baseform = ulast_baseform;
+		unif_last_textual = ulast_textual;
+	}
 	if (!retval && !context_stack.empty()) {
 		context_stack.back().regexgrp_ct = orz;
 	}
-- 
2.43.0


From 16ad16157ad483898c6b91e6878454eefb88d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 086/102] fix: %u and %l at the end of a generated tag

---
 src/GrammarApplicator_reflow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 2b32926..5c03b01 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -428,7 +428,7 @@ Tag* GrammarApplicator::generateVarstringTag(const Tag* tag) {
 		if (found && mpos != -1) {
 			UChar mode = tmp[mpos + 1];
 			tmp.remove(mpos, 2);
-			if (mode == 'u') {
+			if (mode == 'u' && mpos < tmp.length()) {
 				UnicodeString range(tmp, mpos, 1);
 				range.toUpper();
 				tmp.setCharAt(mpos, range[0]);
@@ -439,7 +439,7 @@ Tag* GrammarApplicator::generateVarstringTag(const Tag* tag) {
 				tmp.truncate(mpos);
 				tmp.append(range);
 			}
-			else if (mode == 'l') {
+			else if (mode == 'l' && mpos < tmp.length()) {
 				UnicodeString range(tmp, mpos, 1);
 				range.toLower();
 				tmp.setCharAt(mpos, range[0]);
-- 
2.43.0


From 2ea5cce0b143435052a63d0d1dc8729753de8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:09 +0000
Subject: [PATCH 087/102] fix: relabelling a list changed the order of its tags

---
 src/Relabeller.cpp | 53 ++++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index 90dca43..df6e187 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -84,20 +84,6 @@ TagVector Relabeller::transferTags(const TagVector& tv_r) {
 	return tv_g;
 }
 
-// From TextualParser::parseTagList
-struct freq_sorter {
-	const bc::flat_map<Tag*, size_t>& tag_freq;
-
-	freq_sorter(const bc::flat_map<Tag*, size_t>& tag_freq)
-	  : tag_freq(tag_freq)
-	{
-	}
-
-	bool operator()(Tag* a, Tag* b) const {
-		// Sort highest frequency first
-		return tag_freq.find(a)->second > tag_freq.find(b)->second;
-	}
-};
 void Relabeller::addTaglistsToSet(const TagVectorSet& tvs, Set* s) {
 	// Extracted from TextualParser::parseTagList
 
@@ -109,33 +95,21 @@ void Relabeller::addTaglistsToSet(const TagVectorSet& tvs, Set* s) {
 		return;
 	}
 
-	bc::flat_map<Tag*, size_t> tag_freq;
-	TagVectorSet tvs_sort_uniq;
-
 	for (auto& tvc : tvs) {
-		TagVector& tags = const_cast<TagVector&>(tvc);
-		// From TextualParser::parseTagList
-		std::sort(tags.begin(), tags.end(), compare_Tag());
-		tags.erase(std::unique(tags.begin(), tags.end()), tags.end());
-		if (tvs_sort_uniq.insert(tags).second) {
-			for (auto t : tags) {
-				++tag_freq[t];
+		// Keep the tags in the order they have, since rules may add them in that order
+		TagVector tv;
+		for (auto tag : tvc) {
+			if (std::find(tv.begin(), tv.end(), tag) == tv.end()) {
+				tv.push_back(tag);
 			}
 		}
-	}
-	freq_sorter fs(tag_freq);
-	for (auto& tvc : tvs_sort_uniq) {
-		if (tvc.empty()) {
+		if (tv.empty()) {
 			continue;
 		}
-		if (tvc.size() == 1) {
-			grammar->addTagToSet(tvc[0], s);
+		if (tv.size() == 1) {
+			grammar->addTagToSet(tv[0], s);
 			continue;
 		}
-		TagVector& tv = const_cast<TagVector&>(tvc);
-		// Sort tags by frequency, high-to-low
-		// Doing this yields a very cheap imperfect form of trie compression, but it's good enough
-		std::sort(tv.begin(), tv.end(), fs);
 		bool special = false;
 		for (auto tag : tv) {
 			if (tag->type & T_SPECIAL) {
@@ -159,15 +133,19 @@ void Relabeller::relabelAsList(Set* set_g, const Set* set_r, const Tag* fromTag)
 
 	TagVectorSet taglists;
 	for (auto& old_tags : old_tvs) {
-		TagVector tags_except_from;
+		TagVector tags_before_from;
+		TagVector tags_after_from;
 
 		bool seen = false;
 		for (auto old_tag : old_tags) {
 			if (old_tag->hash == fromTag->hash) {
 				seen = true;
 			}
+			else if (!seen) {
+				tags_before_from.push_back(old_tag);
+			}
 			else {
-				tags_except_from.push_back(old_tag);
+				tags_after_from.push_back(old_tag);
 			}
 		}
 		TagVectorSet suffixes;
@@ -179,8 +157,9 @@ void Relabeller::relabelAsList(Set* set_g, const Set* set_r, const Tag* fromTag)
 			suffixes.insert(dummy);
 		}
 		for (auto& suf : suffixes) {
-			TagVector tags = TagVector(tags_except_from);
+			TagVector tags = TagVector(tags_before_from);
 			tags.insert(tags.end(), suf.begin(), suf.end());
+			tags.insert(tags.end(), tags_after_from.begin(), tags_after_from.end());
 			tags = transferTags(tags);
 			taglists.insert(tags);
 		}
-- 
2.43.0


From ec081cf670e1346fa901af5ddff65bccc142db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:19 +0000
Subject: [PATCH 088/102] fix: relabel all the tags of a list to sets

---
 src/Relabeller.cpp | 16 +++++++++++++---
 src/Relabeller.hpp |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index df6e187..43056c1 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -226,7 +226,7 @@ uint32_t Relabeller::copyRelabelSetToGrammar(const Set* s_r) {
 	return s_g->number;
 }
 
-void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag) {
+void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag, SetVector& parts) {
 	if (set_g->trie.empty()) {
 		// If the grammar's set is only an +/OR/- of other
 		// sets, then we only need to change those other sets
@@ -277,6 +277,7 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag)
 	s_gN->sets = set_g->sets; // should be empty but who knows
 	s_gN->set_ops = set_g->set_ops;
 	addSetToGrammar(s_gN);
+	parts.push_back(s_gN);
 
 	uint32_t s_gR_num = copyRelabelSetToGrammar(set_r);
 	uint32_t s_gI_num;
@@ -288,6 +289,7 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag)
 		Set* s_gW = grammar->allocateSet();
 		addTaglistsToSet(tvs_with_from, s_gW);
 		addSetToGrammar(s_gW);
+		parts.push_back(s_gW);
 		if (s_gW->getNonEmpty().empty()) {
 			u_fprintf(ux_stderr, "Warning: unexpected empty tries when relabelling set %d!\n", set_g->number);
 		}
@@ -341,8 +343,16 @@ void Relabeller::relabel() {
 
 		const auto sets_g = sets_by_tag.find(it.first);
 		if (sets_g != sets_by_tag.end()) {
-			for (auto set_g : sets_g->second) {
-				relabelAsSet(set_g, set_r, fromTag);
+			const std::set<Set*> sets = sets_g->second;
+			for (auto set_g : sets) {
+				SetVector parts;
+				relabelAsSet(set_g, set_r, fromTag, parts);
+				// The rest of the set's tags now live in its parts, and may have relabellings of their own
+				for (auto part : parts) {
+					for (auto tag : trie_getTagList(part->trie)) {
+						sets_by_tag[tag->tag].insert(part);
+					}
+				}
 			}
 		}
 	}
diff --git a/src/Relabeller.hpp b/src/Relabeller.hpp
index 256ad69..71b06f2 100644
--- a/src/Relabeller.hpp
+++ b/src/Relabeller.hpp
@@ -52,7 +52,7 @@ private:
 	void reindexSet(Set& s);
 	void addSetToGrammar(Set* s);
 	void relabelAsList(Set* set_g, const Set* set_r, const Tag* fromTag);
-	void relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag);
+	void relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag, SetVector& parts);
 };
 
 inline trie_t* _trie_copy_helper(const trie_t& trie, Grammar& grammar) {
-- 
2.43.0


From 1933e6fecf0ec777a88f0292f6bfd3c26cdf7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:19 +0000
Subject: [PATCH 089/102] fix: relabelling to a set lost a tag that stands
 alone and in a composite

---
 src/Relabeller.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index 43056c1..167471c 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -248,6 +248,7 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag,
 
 	TagVectorSet tvs_with_from;
 	TagVectorSet tvs_no_from;
+	bool from_alone = false;
 	for (auto& old_tags : old_tvs) {
 		TagVector tags_except_from;
 
@@ -261,6 +262,7 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag,
 			}
 		}
 		if (tags_except_from.empty()) {
+			from_alone = from_alone || seen;
 			continue;
 		}
 		if (seen) {
@@ -281,8 +283,9 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag,
 
 	uint32_t s_gR_num = copyRelabelSetToGrammar(set_r);
 	uint32_t s_gI_num;
-	if (tvs_with_from.empty()) {
+	if (tvs_with_from.empty() || from_alone) {
 		// We don't want to intersect with ∅, that would never match
+		// And where fromTag may stand alone, what it may also stand together with makes no difference
 		s_gI_num = s_gR_num;
 	}
 	else {
-- 
2.43.0


From 8d18289b4f9139dd58696df7a6276df2a5f16a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:20 +0000
Subject: [PATCH 090/102] fix: relabel tags that are listed with special tags

---
 src/Relabeller.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index 167471c..c4398ff 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -126,10 +126,20 @@ void Relabeller::addTaglistsToSet(const TagVectorSet& tvs, Set* s) {
 	}
 }
 
+// The tag lists of a set, with and without special tags, which are then taken out of it
+static TagVectorSet extractTagLists(Set* s) {
+	TagVectorSet tvs = trie_getTagsOrdered(s->trie);
+	TagVectorSet tvs_special = trie_getTagsOrdered(s->trie_special);
+	tvs.insert(tvs_special.begin(), tvs_special.end());
+	trie_delete(s->trie);
+	s->trie.clear();
+	trie_delete(s->trie_special);
+	s->trie_special.clear();
+	return tvs;
+}
+
 void Relabeller::relabelAsList(Set* set_g, const Set* set_r, const Tag* fromTag) {
-	auto old_tvs = trie_getTagsOrdered(set_g->trie);
-	trie_delete(set_g->trie);
-	set_g->trie.clear();
+	auto old_tvs = extractTagLists(set_g);
 
 	TagVectorSet taglists;
 	for (auto& old_tags : old_tvs) {
@@ -227,7 +237,7 @@ uint32_t Relabeller::copyRelabelSetToGrammar(const Set* s_r) {
 }
 
 void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag, SetVector& parts) {
-	if (set_g->trie.empty()) {
+	if (set_g->trie.empty() && set_g->trie_special.empty()) {
 		// If the grammar's set is only an +/OR/- of other
 		// sets, then we only need to change those other sets
 		return;
@@ -235,16 +245,14 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag,
 	if (!set_g->sets.empty()) {
 		u_fprintf(ux_stderr, "Warning: SET %d has both trie and sets, this was unexpected.", set_g->number);
 	}
-	TagVectorSet old_tvs = trie_getTagsOrdered(set_g->trie);
-	trie_delete(set_g->trie);
-	set_g->trie.clear();
+	TagVectorSet old_tvs = extractTagLists(set_g);
 	// First we split old_tvs into those that contain fromTag, tvs_with_from, and those that don't, tvs_no_from
 	// set_gW->trie = to_trie(tvs_with_from, but first removing fromTag)
 	// set_gN->trie = to_trie(tvs_no_from)
 	// Then we copy set_r to the relabelled grammar as set_gR
 	// set_gI->sets = set_gR + set_gW
 	// set_g->sets = set_gN OR set_gI
-	// We also put the special and ff tags from set_g into set_gN
+	// We also put the ff tags from set_g into set_gN
 
 	TagVectorSet tvs_with_from;
 	TagVectorSet tvs_no_from;
@@ -274,7 +282,6 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag,
 	}
 	Set* s_gN = grammar->allocateSet();
 	addTaglistsToSet(tvs_no_from, s_gN);
-	s_gN->trie_special = trie_copy(set_g->trie_special);
 	s_gN->ff_tags = set_g->ff_tags;
 	s_gN->sets = set_g->sets; // should be empty but who knows
 	s_gN->set_ops = set_g->set_ops;
@@ -326,6 +333,9 @@ void Relabeller::relabel() {
 		for (auto toit : toTags) {
 			sets_by_tag[toit->tag].insert(it);
 		}
+		for (auto toit : trie_getTagList(it->trie_special)) {
+			sets_by_tag[toit->tag].insert(it);
+		}
 	}
 	// RELABEL AS LIST:
 	for (auto& it : *relabel_as_list) {
@@ -355,6 +365,9 @@ void Relabeller::relabel() {
 					for (auto tag : trie_getTagList(part->trie)) {
 						sets_by_tag[tag->tag].insert(part);
 					}
+					for (auto tag : trie_getTagList(part->trie_special)) {
+						sets_by_tag[tag->tag].insert(part);
+					}
 				}
 			}
 		}
-- 
2.43.0


From e9e6c1e8d15afdb5015343ac98bbb6b1c45a889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 091/102] fix: relabelling a tag that is also used as ^tag

---
 src/Relabeller.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Relabeller.cpp b/src/Relabeller.cpp
index c4398ff..55cc3d1 100644
--- a/src/Relabeller.cpp
+++ b/src/Relabeller.cpp
@@ -325,7 +325,10 @@ void Relabeller::relabelAsSet(Set* set_g, const Set* set_r, const Tag* fromTag,
 void Relabeller::relabel() {
 	std::unordered_map<UString, Tag*, hash_ustring> tag_by_str;
 	for (auto tag_g : grammar->single_tags_list) {
-		tag_by_str[tag_g->tag] = tag_g;
+		// Tags such as ^tag or "tag"r have the same text, but aren't what is to be relabelled
+		if (!(tag_g->type & MASK_TAG_SPECIAL)) {
+			tag_by_str[tag_g->tag] = tag_g;
+		}
 	}
 	std::unordered_map<UString, std::set<Set*>, hash_ustring> sets_by_tag;
 	for (auto it : grammar->sets_list) {
@@ -343,7 +346,7 @@ void Relabeller::relabel() {
 		const Tag* fromTag = tag_by_str[it.first];
 
 		const auto sets_g = sets_by_tag.find(it.first);
-		if (sets_g != sets_by_tag.end()) {
+		if (fromTag && sets_g != sets_by_tag.end()) {
 			for (auto set_g : sets_g->second) {
 				relabelAsList(set_g, set_r, fromTag);
 			}
@@ -355,7 +358,7 @@ void Relabeller::relabel() {
 		const Tag* fromTag = tag_by_str[it.first];
 
 		const auto sets_g = sets_by_tag.find(it.first);
-		if (sets_g != sets_by_tag.end()) {
+		if (fromTag && sets_g != sets_by_tag.end()) {
 			const std::set<Set*> sets = sets_g->second;
 			for (auto set_g : sets) {
 				SetVector parts;
-- 
2.43.0


From 6f2c67d2560c48c9ae9d61d775bba3ad268ad157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 092/102] fix: a template used with a position may match in
 another window whatever the places there

---
 src/GrammarApplicator_runContextualTest.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 467b200..2a079aa 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -213,10 +213,11 @@ bool GrammarApplicator::posOutputHelper(const SingleWindow* sWindow, size_t posi
 		good = false;
 	}
 	if (!(test->pos & POS_PASS_ORIGIN)) {
-		if (test->offset < 0 && cs[3]->local_number > position) {
+		// Cohorts in other windows are left or right of the origin no matter their place there
+		if (test->offset < 0 && (cs[3]->parent->number > sWindow->number || (cs[3]->parent == sWindow && cs[3]->local_number > position))) {
 			good = false;
 		}
-		else if (test->offset > 0 && cs[0]->local_number < position) {
+		else if (test->offset > 0 && (cs[0]->parent->number < sWindow->number || (cs[0]->parent == sWindow && cs[0]->local_number < position))) {
 			good = false;
 		}
 	}
-- 
2.43.0


From 30e016fc9ab8b14ab41a64288ecaa78a765d91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 093/102] fix: MOVE REVERSE does not move the start of the
 window

---
 src/GrammarApplicator_runRules.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 96be2d4..b5d1edc 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2825,6 +2825,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 
 					swapper<Cohort*> sw((rule->flags & RF_REVERSE) != 0, attach, cohort);
+					if (cohort->local_number == 0) {
+						// The start of the window stays where it is
+						return;
+					}
 					CohortSet cohorts;
 
 					if (rule->type == K_SWITCH) {
-- 
2.43.0


From fc91031df26872e62e028f2e84162967108904d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 094/102] fix: * in ADDCOHORT and SPLITCOHORT copies no
 dependency tags and is no tag itself

---
 src/GrammarApplicator_runRules.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index b5d1edc..d2bcf09 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1038,18 +1038,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (size_t i = 0; i < tags.size(); ++i) {
 					if (tags[i]->hash == grammar->tag_any) {
 						auto& nt = cohort->readings.front()->tags_list;
-						if (nt.size() <= 2) {
-							continue;
-						}
-						tags.reserve(tags.size() + nt.size() - 2);
-						tags[i] = grammar->single_tags[nt[2]];
-						for (size_t j = 3, k = 1; j < nt.size(); ++j) {
+						tags.erase(tags.begin() + i);
+						for (size_t j = 2; j < nt.size(); ++j) {
 							if (grammar->single_tags[nt[j]]->type & T_DEPENDENCY) {
 								continue;
 							}
-							tags.insert(tags.begin() + i + k, grammar->single_tags[nt[j]]);
-							++k;
+							tags.insert(tags.begin() + i, grammar->single_tags[nt[j]]);
+							++i;
 						}
+						--i;
 					}
 				}
 			}
@@ -1712,18 +1709,15 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						for (size_t i = 0; i < tags.size(); ++i) {
 							if (tags[i]->hash == grammar->tag_any) {
 								uint32Vector& nt = get_apply_to().cohort->readings.front()->tags_list;
-								if (nt.size() <= 2) {
-									continue;
-								}
-								tags.reserve(tags.size() + nt.size() - 2);
-								tags[i] = grammar->single_tags[nt[2]];
-								for (size_t j = 3, k = 1; j < nt.size(); ++j) {
+								tags.erase(tags.begin() + i);
+								for (size_t j = 2; j < nt.size(); ++j) {
 									if (grammar->single_tags[nt[j]]->type & T_DEPENDENCY) {
 										continue;
 									}
-									tags.insert(tags.begin() + i + k, grammar->single_tags[nt[j]]);
-									++k;
+									tags.insert(tags.begin() + i, grammar->single_tags[nt[j]]);
+									++i;
 								}
+								--i;
 							}
 						}
 
-- 
2.43.0


From 645beb107ab2196e3d3f653854f7a856ff92921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 095/102] fix: go on with the next cohort after MERGECOHORTS

---
 src/GrammarApplicator_runRules.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index d2bcf09..afccd25 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -536,9 +536,10 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 				rocit = cohortset->size();
 			} else {
 				rocit = cohortset->find_n(*lb);
-			}
-			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size()) {
-				++rocit;
+				// Only go past the cohort just treated, which may have been replaced by one that the rule does not concern
+				if (*lb == gac && !(gac->type & (CT_REMOVED | CT_IGNORED))) {
+					++rocit;
+				}
 			}
 		};
 
-- 
2.43.0


From c5f8673be6080e2d86b982209313cebe4e3c8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:01 +0000
Subject: [PATCH 096/102] fix: REMCOHORT IGNORED goes on with the cohort after
 its target

---
 src/GrammarApplicator_runRules.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index afccd25..e7d00aa 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -531,7 +531,10 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
-			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			auto lb = cohortset->end();
+			if (gac->local_number < current.cohorts.size()) {
+				lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			}
 			if (lb == cohortset->end()) {
 				rocit = cohortset->size();
 			} else {
@@ -1519,9 +1522,18 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				if (rule->flags & RF_IGNORED) {
 					CohortSet cohorts;
 					collect_subtree(cohorts, get_apply_to().cohort, rule->childset1);
+					// Where to go on from moves back by each cohort before the target that is also gone
+					auto target = get_apply_to().cohort;
+					uint32_t before = 0;
+					for (auto c : cohorts) {
+						if (c->local_number < target->local_number) {
+							++before;
+						}
+					}
 					for (auto c : reversed(cohorts)) {
 						ignore_cohort(c);
 					}
+					target->local_number -= before;
 					reindex();
 					reflowDependencyWindow();
 				}
-- 
2.43.0


From d3aac96d1e90eeb88840123e493a51a007be0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 097/102] fix: an escaped < in the part of an Apertium lemma
 after #

---
 src/ApertiumApplicator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index aa4ecb5..6ad4b86 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -580,6 +580,9 @@ void ApertiumApplicator::processReading(Reading* cReading, UChar* p, Tag* wform)
 		if (*n == '#') {
 			p = n;
 			while (*n && *n != '<' && *n != '+') {
+				if (*n == esc_lt) {
+					*n = '<';
+				}
 				++n;
 			}
 			auto c = *n;
-- 
2.43.0


From a49e30aa05ffd166ba1dabb6081311e849972a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 098/102] fix: escaped brackets are not word-bound blanks

---
 src/ApertiumApplicator.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index 6ad4b86..b16f850 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -201,6 +201,18 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 
 	ux_stripBOM(input);
 
+	auto find_unescaped = [](const UString& str, UStringView what, size_t pos) -> size_t {
+		for (; pos < str.size(); ++pos) {
+			if (str[pos] == '\\') {
+				++pos;
+			}
+			else if (str.compare(pos, what.size(), what) == 0) {
+				return pos;
+			}
+		}
+		return UString::npos;
+	};
+
 	auto ensure_endtag = [&]() {
 		if (lSWindow && !lSWindow->cohorts.empty() && lSWindow->cohorts.back()->readings.front()->tags.count(endtag) == 0) {
 			for (auto iter : lSWindow->cohorts.back()->readings) {
@@ -330,8 +342,8 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 
 			if (!blank.empty()) {
 				wblank.clear();
-				auto b = blank.find(wb_start);
-				auto e = blank.find(wb_end, b);
+				auto b = find_unescaped(blank, wb_start, 0);
+				auto e = find_unescaped(blank, wb_end, b);
 				if (b != UString::npos && e != UString::npos) {
 					// Word-bound blanks are always immediately prior to the token they belong to,
 					// except closing word blanks which must be treated as normal blanks
-- 
2.43.0


From 22042205d2f011c15bb87bcaada5f4f7ac40598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 099/102] fix: static tags of Apertium words go with the word
 form

---
 src/ApertiumApplicator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ApertiumApplicator.cpp b/src/ApertiumApplicator.cpp
index b16f850..d7ab8aa 100644
--- a/src/ApertiumApplicator.cpp
+++ b/src/ApertiumApplicator.cpp
@@ -420,6 +420,7 @@ void ApertiumApplicator::runGrammarOnText(std::istream& input, std::ostream& out
 				blank.clear();
 				//u_fprintf(ux_stderr, "Static reading\n");
 				cCohort->wread = alloc_reading(cCohort);
+				addTagToReading(*cCohort->wread, cCohort->wordform);
 				for (; *p && *p != '/' && *p != '$'; ++p) {
 					if (*p == '\\') {
 						++p;
-- 
2.43.0


From 09cd001bfb7a9e8caca39eab808fdb09a422eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:45 +0000
Subject: [PATCH 100/102] fix: keep cohort numbers, dependencies and tags when
 copying a sentence in the C API

---
 src/libcg3.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 9efabb6..384b700 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -360,6 +360,9 @@ inline Reading* _reading_copy(Cohort* nc, Reading* oldr, bool is_sub = false) {
 	TagList mappings;
 	for (auto tag : oldr->tags_list) {
 		Tag* nt = _tag_copy(oldr->parent->parent->parent->parent, nc->parent->parent->parent, tag);
+		if (nt == nc->wordform) {
+			continue; // Already added above
+		}
 		if (nt->type & T_MAPPING || nt->tag[0] == ga->grammar->mapping_prefix) {
 			mappings.push_back(nt);
 		}
@@ -378,6 +381,9 @@ inline Reading* _reading_copy(Cohort* nc, Reading* oldr, bool is_sub = false) {
 
 inline Cohort* _cohort_copy(SingleWindow* ns, Cohort* oc) {
 	Cohort* nc = alloc_cohort(ns);
+	nc->global_number = ns->parent->cohort_counter++;
+	nc->dep_self = oc->dep_self;
+	nc->dep_parent = oc->dep_parent;
 	nc->wordform = _tag_copy(ns->parent->parent, oc->wordform);
 	for (auto r : oc->readings) {
 		auto nr = _reading_copy(nc, r);
@@ -397,7 +403,13 @@ cg3_sentence* cg3_sentence_copy(cg3_sentence* sentence_, cg3_applicator* applica
 	applicator->initEmptySingleWindow(current);
 	current->has_enclosures = sentence->has_enclosures;
 	current->text = sentence->text;
+	if (sentence->parent->parent->has_dep) {
+		applicator->has_dep = true;
+	}
 	for (auto c : sentence->cohorts) {
+		if (c->local_number == 0) {
+			continue; // The new sentence already has its own start
+		}
 		Cohort* nc = _cohort_copy(current, c);
 		current->appendCohort(nc);
 	}
-- 
2.43.0


From 357a0dc0e7e7874804ccc3fd01ac91e8be9d2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:45 +0000
Subject: [PATCH 101/102] fix: make the section options of the C API take
 effect

---
 src/GrammarApplicator.cpp | 5 +++--
 src/GrammarApplicator.hpp | 2 +-
 src/libcg3.cpp            | 3 +++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator.cpp b/src/GrammarApplicator.cpp
index f2b7470..b3461e7 100644
--- a/src/GrammarApplicator.cpp
+++ b/src/GrammarApplicator.cpp
@@ -140,13 +140,14 @@ void GrammarApplicator::setTextDelimiter(UString rx) {
 	}
 }
 
-void GrammarApplicator::index() {
+void GrammarApplicator::index(bool again) {
 	if (!add_spacing) {
 		ws[2] = '\n';
 	}
-	if (did_index) {
+	if (did_index && !again) {
 		return;
 	}
+	runsections.clear();
 
 	if (grammar->ordered) {
 		ordered = true;
diff --git a/src/GrammarApplicator.hpp b/src/GrammarApplicator.hpp
index 77d5566..9cfc18a 100644
--- a/src/GrammarApplicator.hpp
+++ b/src/GrammarApplicator.hpp
@@ -154,7 +154,7 @@ public:
 
 	void setGrammar(Grammar* res);
 	void setTextDelimiter(UString rx);
-	void index();
+	void index(bool again = false);
 
 	virtual void runGrammarOnText(std::istream& input, std::ostream& output);
 
diff --git a/src/libcg3.cpp b/src/libcg3.cpp
index 384b700..226f1a6 100644
--- a/src/libcg3.cpp
+++ b/src/libcg3.cpp
@@ -266,11 +266,14 @@ void cg3_applicator_setoption(cg3_applicator* applicator_, cg3_option option, vo
 		for (uint32_t i = 1; i <= *value; ++i) {
 			applicator->sections.push_back(i);
 		}
+		// The applicator was indexed when created
+		applicator->index(true);
 		break;
 	}
 	case CG3O_SECTIONS_TEXT: {
 		auto value = static_cast<const char*>(value_);
 		GAppSetOpts_ranged(value, applicator->sections);
+		applicator->index(true);
 		break;
 	}
 	default:
-- 
2.43.0


From 58e2421fe92448d6379a192be45b7859d425dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:48 +0000
Subject: [PATCH 102/102] fix: IFF with SUB:* removed protected readings when a
 later reading turned it into SELECT

---
 src/GrammarApplicator_runRules.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index e7d00aa..5485045 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -725,11 +725,12 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 					if (rule.type == K_IFF && type != K_SELECT) {
 						type = K_SELECT;
 						if (grammar->has_protect) {
-							for (size_t j = 0; j < i; ++j) {
-								Reading* reading = get_sub_reading(cohort->readings[j], rule.sub_reading);
-								if (reading && reading->immutable) {
-									reading->matched_target = true;
-									reading->matched_tests = true;
+							// Not via get_sub_reading(), as that would yield a new amalgamation for SUB:*
+							for (auto& ctx : reading_contexts) {
+								Reading* earlier = ctx.target.subreading;
+								if (earlier && earlier->immutable) {
+									earlier->matched_target = true;
+									earlier->matched_tests = true;
 								}
 							}
 						}
-- 
2.43.0

